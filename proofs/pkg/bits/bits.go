package bits

import "github.com/bluenviron/mediacommon/v2/internal/vf"

// VFSpecBit is bit i of the buffer, most significant first.
func VFSpecBit(buf []byte, i int) uint64 {
	return uint64(buf[i>>3]>>(7-(i&7))) & 1
}

// VFSpecBits is the number denoted by the n bits at position pos (0 <= n <= 64).
func VFSpecBits(buf []byte, pos int, n int) uint64 {
	o := pos >> 3
	s := pos & 7
	hi := uint64(0)
	for k := 0; k < 8; k++ {
		b := uint64(0)
		if 8*k < n+7 && 8*k < s+n {
			b = uint64(buf[o+k])
		}
		hi = hi<<8 | b
	}
	b := uint64(0)
	if n > 57 && 64 < s+n {
		b = uint64(buf[o+8])
	}
	x := hi<<s | b>>(8-s)
	return x >> (64 - n)
}

//vf:unroll ReadBitsUnsafe 0 8
//vf:unroll WriteBitsUnsafe 0 8
func VFDirectives() {}

//vf:prop B01
func VFC_HasSpace(buf []byte, pos int, n int) error {
	vf.Requires(0 <= pos && pos < 1<<60)
	err := HasSpace(buf, pos, n)
	vf.Ensures((err == nil) == (n <= len(buf)*8-pos), "HasSpace accepts exactly what fits")
	return err
}

//vf:prop B01
func VFC_ReadBitsUnsafe(buf []byte, pos *int, n int) uint64 {
	vf.Requires(pos != nil && 0 <= *pos && 0 <= n && n <= 1<<40 && n <= len(buf)*8 && *pos <= len(buf)*8-n)
	pos0 := *pos
	vf.Modifies(pos)
	v := ReadBitsUnsafe(buf, pos, n)
	vf.Ensures(*pos == pos0+n, "position advances by n")
	vf.Ensures(n >= 64 || v < 1<<n, "value fits n bits")
	vf.EnsuresFull(n > 64 || v == VFSpecBits(buf, pos0, n), "value is the n bits")
	return v
}

//vf:prop B01
//vf:full
func VFC_ReadBits(buf []byte, pos *int, n int) (uint64, error) {
	vf.Requires(pos != nil && 0 <= *pos && *pos < 1<<60 && 0 <= n && n <= 1<<40)
	pos0 := *pos
	vf.Modifies(pos)
	v, err := ReadBits(buf, pos, n)
	vf.Ensures((err == nil) == (n <= len(buf)*8-pos0), "succeeds exactly when n bits remain")
	if err == nil {
		vf.Ensures(*pos == pos0+n, "position advances by n")
		vf.Ensures(n >= 64 || v < 1<<n, "value fits n bits")
		vf.EnsuresFull(n > 64 || v == VFSpecBits(buf, pos0, n), "value is the n bits")
	} else {
		vf.Ensures(*pos == pos0, "position unchanged on error")
	}
	return v, err
}

//vf:prop B01
func VFC_ReadFlagUnsafe(buf []byte, pos *int) bool {
	vf.Requires(pos != nil && 0 <= *pos && *pos < len(buf)*8)
	pos0 := *pos
	vf.Modifies(pos)
	v := ReadFlagUnsafe(buf, pos)
	vf.Ensures(*pos == pos0+1, "position advances by 1")
	vf.EnsuresFull(v == (VFSpecBit(buf, pos0) == 1), "flag is the bit")
	return v
}

//vf:prop B01
//vf:full
func VFC_ReadFlag(buf []byte, pos *int) (bool, error) {
	vf.Requires(pos != nil && 0 <= *pos && *pos < 1<<60)
	pos0 := *pos
	vf.Modifies(pos)
	v, err := ReadFlag(buf, pos)
	vf.Ensures((err == nil) == (pos0 < len(buf)*8), "succeeds exactly when a bit remains")
	if err == nil {
		vf.Ensures(*pos == pos0+1, "position advances by 1")
		vf.EnsuresFull(v == (VFSpecBit(buf, pos0) == 1), "flag is the bit")
	} else {
		vf.Ensures(*pos == pos0, "position unchanged on error")
	}
	return v, err
}

// VFSpecByte is byte k of a value of n bits written at bit offset s of a zeroed region.
func VFSpecByte(v uint64, s int, n int, k int) byte {
	y := v << (64 - n)
	if k == 0 {
		return byte(y >> (56 + s))
	}
	if k == 8 {
		return byte((y << (64 - s)) >> 56)
	}
	return byte((y << (8*k - s)) >> 56)
}

// VFSpecZeroed holds when the n bits at pos, up to the end of their last byte, are zero.
func VFSpecZeroed(buf []byte, pos int, n int) bool {
	o := pos >> 3
	s := pos & 7
	r := true
	if n > 0 {
		r = buf[o]&(1<<(8-s)-1) == 0
	}
	for k := 1; k < 9; k++ {
		if 8*k < n+7 && 8*k < s+n {
			r = r && buf[o+k] == 0
		}
	}
	return r
}

//vf:prop B01
//vf:full
func VFC_WriteBitsUnsafe(buf []byte, pos *int, v uint64, n int) {
	vf.Requires(pos != nil && 0 <= *pos && 0 <= n && n <= 64 && n <= len(buf)*8 && *pos <= len(buf)*8-n)
	vf.Requires(VFSpecZeroed(buf, *pos, n))
	pos0 := *pos
	o := pos0 >> 3
	s := pos0 & 7
	first := byte(0)
	if n > 0 {
		first = buf[o]
	}
	vf.Modifies(pos)
	if n > 0 {
		vf.Modifies(buf[o : o+(s+n+7)>>3])
	}
	WriteBitsUnsafe(buf, pos, v, n)
	vf.Ensures(*pos == pos0+n, "position advances by n")
	if n > 0 {
		vf.EnsuresFull(buf[o] == first|VFSpecByte(v, s, n, 0), "first byte holds the old bits and the first bits of the value")
		for k := 1; k < 9; k++ {
			if 8*k < n+7 && 8*k < s+n {
				vf.EnsuresFull(buf[o+k] == VFSpecByte(v, s, n, k), "byte k holds the value's bits and zeros")
			}
		}
	}
}

//vf:prop B01
//vf:full
func VFC_WriteFlagUnsafe(buf []byte, pos *int, v bool) {
	vf.Requires(pos != nil && 0 <= *pos && *pos < len(buf)*8)
	vf.Requires(VFSpecZeroed(buf, *pos, 1))
	pos0 := *pos
	o := pos0 >> 3
	first := buf[o]
	vf.Modifies(pos)
	vf.Modifies(buf[o : o+1])
	WriteFlagUnsafe(buf, pos, v)
	vf.Ensures(*pos == pos0+1, "position advances by 1")
	bit := byte(0)
	if v {
		bit = 0x80 >> (pos0 & 7)
	}
	vf.EnsuresFull(buf[o] == first|bit, "exactly the flag bit is set")
}

// What is written is read back.
//
//vf:prop B01
//vf:full
func VFL_WriteRead(buf []byte, pos int, v uint64, n int) {
	vf.Assume(0 <= pos && 0 <= n && n <= 64 && n <= len(buf)*8 && pos <= len(buf)*8-n)
	vf.Assume(VFSpecZeroed(buf, pos, n))
	p := pos
	WriteBitsUnsafe(buf, &p, v, n)
	p = pos
	r, err := ReadBits(buf, &p, n)
	vf.Assert(err == nil, "reading back succeeds")
	vf.Assert(r == v<<(64-n)>>(64-n), "reading back yields the value")
	vf.Assert(p == pos+n, "reading back moves past the value")
}

// VFSpecWindow is the next 32 bits at pos, padded with zeros beyond the end of the buffer.
func VFSpecWindow(buf []byte, pos int) uint32 {
	n := len(buf)*8 - pos
	if n > 32 {
		n = 32
	}
	return uint32(VFSpecBits(buf, pos, n) << (32 - n))
}

// VFSpecZeros is the number of leading zeros of w, or 33 when there is no one bit.
func VFSpecZeros(w uint32) int {
	for z := 0; z < 32; z++ {
		if (w>>(31-z))&1 == 1 {
			return z
		}
	}
	return 33
}

func VFInv_ReadGolombUnsigned_0(buf []byte, pos *int, leadingZeros uint32) bool {
	pos0 := vf.Old(func() int { return *pos })
	w := VFSpecWindow(buf, pos0)
	return leadingZeros <= 31 && *pos == pos0+int(leadingZeros) && *pos <= len(buf)*8 && uint64(w)>>(32-leadingZeros) == 0
}

func VFInv_ReadGolombUnsigned_1(buf []byte, pos *int, leadingZeros uint32, n uint32, codeNum uint32) bool {
	pos0 := vf.Old(func() int { return *pos })
	p1 := pos0 + int(leadingZeros) + 1
	if n > leadingZeros || leadingZeros > 31 || *pos != p1+int(leadingZeros-n) || *pos+int(n) > len(buf)*8 {
		return false
	}
	return codeNum == uint32(VFSpecBits(buf, p1, int(leadingZeros-n)))<<n
}

//vf:prop B02
//vf:full
func VFC_ReadGolombUnsigned(buf []byte, pos *int) (uint32, error) {
	vf.Requires(pos != nil && 0 <= *pos && *pos <= len(buf)*8)
	pos0 := *pos
	vf.Modifies(pos)
	v, err := ReadGolombUnsigned(buf, pos)
	vf.Ensures(pos0 <= *pos && *pos <= len(buf)*8, "position stays inside the buffer")
	vf.Ensures(err != nil || *pos > pos0, "a code word has at least one bit")
	if !vf.Full() {
		return v, err
	}
	z := VFSpecZeros(VFSpecWindow(buf, pos0))
	fits := z < 32 && z <= len(buf)*8-(pos0+z+1)
	vf.EnsuresFull(err != nil || fits, "truncated or oversized code words are refused")
	vf.EnsuresFull(err == nil || !fits, "complete 32-bit code words are accepted")
	if err == nil && fits {
		vf.EnsuresFull(*pos == pos0+2*z+1, "position moves past the code word")
		vf.EnsuresFull(uint64(v) == 1<<z-1+VFSpecBits(buf, pos0+z+1, z), "value is the one denoted by the code word")
	}
	return v, err
}

//vf:prop B02
//vf:full
func VFC_ReadGolombSigned(buf []byte, pos *int) (int32, error) {
	vf.Requires(pos != nil && 0 <= *pos && *pos <= len(buf)*8)
	pos0 := *pos
	vf.Modifies(pos)
	v, err := ReadGolombSigned(buf, pos)
	vf.Ensures(pos0 <= *pos && *pos <= len(buf)*8, "position stays inside the buffer")
	vf.Ensures(err != nil || *pos > pos0, "a code word has at least one bit")
	if !vf.Full() {
		return v, err
	}
	z := VFSpecZeros(VFSpecWindow(buf, pos0))
	fits := z < 32 && z <= len(buf)*8-(pos0+z+1)
	vf.EnsuresFull(err != nil || fits, "truncated or oversized code words are refused")
	vf.EnsuresFull(err == nil || !fits, "complete 32-bit code words are accepted")
	if err == nil && fits {
		vf.EnsuresFull(*pos == pos0+2*z+1, "position moves past the code word")
		k := int64(1<<z - 1 + VFSpecBits(buf, pos0+z+1, z))
		if k%2 == 1 {
			vf.EnsuresFull(int64(v) == (k+1)/2, "odd code numbers map to (k+1)/2")
		} else {
			vf.EnsuresFull(int64(v) == -(k/2), "even code numbers map to -k/2")
		}
	}
	return v, err
}
