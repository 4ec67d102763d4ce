package h264

import "github.com/bluenviron/mediacommon/v2/internal/vf"

// VFSpecBE32 is the 32-bit number at position pos.
func VFSpecBE32(buf []byte, pos int) int {
	return int(uint32(buf[pos])<<24 | uint32(buf[pos+1])<<16 | uint32(buf[pos+2])<<8 | uint32(buf[pos+3]))
}

// VFSpecAvccUnits is the number of non-empty units of the AVCC stream in buf[x:], -1 when it is invalid.
func VFSpecAvccUnits(buf []byte, x int) int {
	return vf.Fix(x, func(x int, f func(int) int) int {
		if x < 0 || x > len(buf)-4 {
			return -1
		}
		l := VFSpecBE32(buf, x)
		if l > len(buf)-x-4 {
			return -1
		}
		c := 0
		if l != 0 {
			c = 1
		}
		y := x + 4 + l
		if y == len(buf) {
			return c
		}
		r := f(y)
		if r < 0 || r > len(buf)-y {
			return -1
		}
		return r + c
	})
}

// VFSpecAvccSize is the number of bytes of the units of the valid AVCC stream in buf[x:].
func VFSpecAvccSize(buf []byte, x int) int {
	return vf.Fix(x, func(x int, f func(int) int) int {
		if x < 0 || x > len(buf)-4 {
			return 0
		}
		l := VFSpecBE32(buf, x)
		if l > len(buf)-x-4 {
			return 0
		}
		y := x + 4 + l
		if y == len(buf) {
			return l
		}
		r := f(y)
		if r < 0 || r > len(buf)-y {
			return 0
		}
		return r + l
	})
}

func VFInv_AVCC_Unmarshal_0(buf []byte, bl int, pos int, n int, auSize int) bool {
	r0, s0 := VFSpecAvccUnits(buf, 0), VFSpecAvccSize(buf, 0)
	r, s := VFSpecAvccUnits(buf, pos), VFSpecAvccSize(buf, pos)
	return bl == len(buf) && 0 <= pos && (pos < bl || pos == 0) && 0 <= n && n <= pos && 0 <= auSize && auSize <= pos && auSize <= MaxAccessUnitSize &&
		(r0 < 0 && r < 0 || r >= 0 && n+r == r0) && auSize+s == s0
}

// VFSpecOff is the position in buf of its piece s.
func VFSpecOff(buf []byte, s []byte) int { return cap(buf) - cap(s) }

// VFSpecAvccPiece holds when unit k of a is the non-empty piece of buf after its length.
func VFSpecAvccPiece(a AVCC, buf []byte, k int) bool {
	o := VFSpecOff(buf, a[k])
	return len(a[k]) > 0 && 4 <= o && o <= len(buf)-len(a[k]) && vf.Same(a[k], buf[o:o+len(a[k])]) && VFSpecBE32(buf, o-4) == len(a[k])
}

func VFInv_AVCC_Unmarshal_1(a *AVCC, buf []byte, pos int, i int, n int) bool {
	r := VFSpecAvccUnits(buf, pos)
	e := 0
	if i > 0 {
		e = VFSpecOff(buf, (*a)[i-1]) + len((*a)[i-1])
	}
	return len(*a) == n && 0 <= i && i <= n && n <= MaxNALUsPerAccessUnit && 0 <= pos && pos <= len(buf) &&
		e <= pos &&
		(i == n || r >= 0 && i+r == n) &&
		vf.Forall(0, i, func(k int) bool { return VFSpecAvccPiece(*a, buf, k) }) &&
		vf.Forall(1, i, func(k int) bool { return VFSpecOff(buf, (*a)[k-1])+len((*a)[k-1]) <= VFSpecOff(buf, (*a)[k])-4 })
}

//vf:prop N01
//vf:nocand
func VFC_AVCC_Unmarshal(a *AVCC, buf []byte) error {
	vf.Requires(a != nil)
	vf.Modifies(a)
	err := a.Unmarshal(buf)
	r0, s0 := VFSpecAvccUnits(buf, 0), VFSpecAvccSize(buf, 0)
	vf.Ensures((err == nil) == (r0 >= 1 && r0 <= MaxNALUsPerAccessUnit && s0 <= MaxAccessUnitSize), "succeeds exactly on valid streams within the limits")
	if err == nil {
		vf.Ensures(len(*a) == r0, "all the units are returned")
		vf.Ensures(vf.Forall(0, len(*a), func(k int) bool { return VFSpecAvccPiece(*a, buf, k) }), "the units are non-empty pieces of the input")
		vf.Ensures(vf.Forall(1, len(*a), func(k int) bool {
			return VFSpecOff(buf, (*a)[k-1])+len((*a)[k-1]) <= VFSpecOff(buf, (*a)[k])-4
		}), "the units are in the order of the input")
	}
	return err
}

// VFSpecFrameOff is the position of unit n in a stream where every unit follows four bytes.
func VFSpecFrameOff(a [][]byte, n int) int {
	return vf.Sum(n, func(i int) int { return 4 + len(a[i]) })
}

func VFInv_AVCC_marshalSize_0(a AVCC, n int, vfIdx int) bool {
	return 0 <= vfIdx && vfIdx <= len(a) && n == VFSpecFrameOff(a, vfIdx)
}

//vf:prop N01
func VFC_AVCC_marshalSize(a AVCC) int {
	vf.Requires(len(a) < 1<<20 && VFSpecFrameOff(a, len(a)) < 1<<40)
	n := a.marshalSize()
	vf.Ensures(n == VFSpecFrameOff(a, len(a)), "four bytes more than each unit")
	return n
}

// VFSpecAvccHead holds when buf contains the number l at position o.
func VFSpecAvccHead(buf []byte, o int, l int) bool {
	return buf[o] == byte(l>>24) && buf[o+1] == byte(l>>16) && buf[o+2] == byte(l>>8) && buf[o+3] == byte(l)
}

func VFInv_AVCC_Marshal_0(a AVCC, buf []byte, pos int, vfIdx int) bool {
	return 0 <= vfIdx && vfIdx <= len(a) && pos == VFSpecFrameOff(a, vfIdx) &&
		len(buf) == VFSpecFrameOff(a, len(a)) && vf.Fresh(buf) &&
		vf.ForK(0, vfIdx, func(k int) bool { return VFSpecAvccHead(buf, VFSpecFrameOff(a, k), len(a[k])) }) &&
		vf.ForK(0, vfIdx, func(k int) bool {
			o := VFSpecFrameOff(a, k) + 4
			return vf.ForJ(0, len(a[k]), func(j int) bool { return buf[o+j] == a[k][j] })
		})
}

//vf:prop N01
func VFC_AVCC_Marshal(a AVCC) ([]byte, error) {
	vf.Requires(len(a) < 1<<20 && VFSpecFrameOff(a, len(a)) < 1<<40)
	buf, err := a.Marshal()
	vf.Ensures(err == nil, "no error")
	vf.Ensures(len(buf) == VFSpecFrameOff(a, len(a)), "four bytes more than each unit")
	vf.Ensures(vf.Fresh(buf), "a new slice")
	vf.Ensures(vf.ForK(0, len(a), func(k int) bool { return VFSpecAvccHead(buf, VFSpecFrameOff(a, k), len(a[k])) }), "every unit follows its length")
	vf.Ensures(vf.ForK(0, len(a), func(k int) bool {
		o := VFSpecFrameOff(a, k) + 4
		return vf.ForJ(0, len(a[k]), func(j int) bool { return buf[o+j] == a[k][j] })
	}), "every unit is copied")
	return buf, err
}

// VFSpecSC holds when buf contains 0,0,1 at position i.
func VFSpecSC(buf []byte, i int) bool {
	return i >= 0 && i+3 <= len(buf) && buf[i] == 0 && buf[i+1] == 0 && buf[i+2] == 1
}

// VFSpecAfterSC holds when s is the position after a start code.
func VFSpecAfterSC(buf []byte, s int) bool { return 3 <= s && s <= len(buf) && VFSpecSC(buf, s-3) }

// VFSpecBeforeSC holds when e is the end or the position of a start code, of 3 or 4 bytes.
func VFSpecBeforeSC(buf []byte, e int) bool {
	return e == len(buf) || VFSpecSC(buf, e) || buf[e] == 0 && VFSpecSC(buf, e+1)
}

// VFSpecNoSC holds when no start code begins in buf[s:e].
func VFSpecNoSC(buf []byte, s, e int) bool {
	return vf.ForJ(s, e, func(j int) bool { return !VFSpecSC(buf, j) })
}

// VFSpecDelims holds when buf[s:e] contains start code bytes only.
func VFSpecDelims(buf []byte, s, e int) bool {
	return vf.ForJ(s, e, func(j int) bool { return buf[j] <= 1 })
}

func VFInv_AnnexB_Unmarshal_0(buf []byte, pos int, positions []struct{ start, end int }, auSize int) bool {
	n := len(positions)
	e := 0
	if n > 0 {
		e = positions[n-1].end
	}
	return vf.Fresh(positions) && 3 <= pos && pos <= len(buf) && VFSpecSC(buf, pos-3) && 0 <= auSize && auSize <= pos && auSize <= MaxAccessUnitSize && n <= pos &&
		0 <= e && e <= pos-3 && VFSpecDelims(buf, e, pos) &&
		vf.ForK(0, n, func(k int) bool {
			return VFSpecAfterSC(buf, positions[k].start) && VFSpecBeforeSC(buf, positions[k].end) &&
				VFSpecNoSC(buf, positions[k].start, positions[k].end)
		}) &&
		vf.ForK(1, n, func(k int) bool {
			return positions[k-1].end < positions[k].start && VFSpecDelims(buf, positions[k-1].end, positions[k].start)
		}) &&
		(n == 0 || VFSpecDelims(buf, 0, positions[0].start)) &&
		vf.Forall(0, n, func(k int) bool {
			return 0 <= positions[k].start && positions[k].start < positions[k].end && positions[k].end <= len(buf)
		})
}

func VFInv_AnnexB_Unmarshal_1(a *AnnexB, buf []byte, positions []struct{ start, end int }, vfIdx int) bool {
	same := func(k int) bool {
		return len((*a)[k]) == positions[k].end-positions[k].start && VFSpecOff(buf, (*a)[k]) == positions[k].start
	}
	n := len(positions)
	return 0 <= vfIdx && vfIdx <= n && len(*a) == n && n > 0 && VFSpecDelims(buf, positions[n-1].end, len(buf)) &&
		vf.ForK(0, vfIdx, same) &&
		vf.ForK(0, vfIdx, func(k int) bool { return vf.Same((*a)[k], buf[positions[k].start:positions[k].end]) }) &&
		vf.ForK(1, vfIdx, func(k int) bool { return same(k - 1) }) &&
		(vfIdx == 0 || same(0) && same(vfIdx-1))
}

//vf:prop N01
//vf:nocand
func VFC_AnnexB_Unmarshal(a *AnnexB, buf []byte) error {
	vf.Requires(a != nil)
	vf.Modifies(a)
	err := a.Unmarshal(buf)
	if err == nil {
		n := len(*a)
		start := func(k int) int { return VFSpecOff(buf, (*a)[k]) }
		end := func(k int) int { return VFSpecOff(buf, (*a)[k]) + len((*a)[k]) }
		vf.Ensures(1 <= n && n <= MaxNALUsPerAccessUnit, "number of units")
		vf.Ensures(vf.ForK(0, n, func(k int) bool {
			return start(k) >= 3 && len((*a)[k]) > 0 && end(k) <= len(buf) && vf.Same((*a)[k], buf[start(k):end(k)])
		}), "the units are non-empty pieces of the input")
		vf.Ensures(vf.ForK(0, n, func(k int) bool { return VFSpecAfterSC(buf, start(k)) }), "the units begin after a start code")
		vf.Ensures(vf.ForK(0, n, func(k int) bool { return VFSpecBeforeSC(buf, end(k)) }), "the units end at a start code")
		vf.Ensures(vf.ForK(0, n, func(k int) bool { return VFSpecNoSC(buf, start(k), end(k)) }), "the units do not contain start codes")
		vf.Ensures(vf.ForK(1, n, func(k int) bool { return end(k-1) < start(k) }), "the units are in the order of the input")
		vf.Ensures(vf.ForK(1, n, func(k int) bool { return VFSpecDelims(buf, end(k-1), start(k)) }), "only delimiters between the units")
		vf.Ensures(VFSpecDelims(buf, 0, start(0)), "only delimiters before the first unit")
		vf.Ensures(VFSpecDelims(buf, end(n-1), len(buf)), "only delimiters after the last unit")
	}
	return err
}

func VFInv_AnnexB_marshalSize_0(a AnnexB, n int, vfIdx int) bool {
	return 0 <= vfIdx && vfIdx <= len(a) && n == VFSpecFrameOff(a, vfIdx)
}

//vf:prop N01
func VFC_AnnexB_marshalSize(a AnnexB) int {
	vf.Requires(len(a) < 1<<20 && VFSpecFrameOff(a, len(a)) < 1<<40)
	n := a.marshalSize()
	vf.Ensures(n == VFSpecFrameOff(a, len(a)), "four bytes more than each unit")
	return n
}

// VFSpecAnnexBHead holds when buf contains a start code at position o.
func VFSpecAnnexBHead(buf []byte, o int) bool {
	return buf[o] == 0 && buf[o+1] == 0 && buf[o+2] == 0 && buf[o+3] == 1
}

func VFInv_AnnexB_Marshal_0(a AnnexB, buf []byte, pos int, vfIdx int) bool {
	return 0 <= vfIdx && vfIdx <= len(a) && pos == VFSpecFrameOff(a, vfIdx) &&
		len(buf) == VFSpecFrameOff(a, len(a)) && vf.Fresh(buf) &&
		vf.ForK(0, vfIdx, func(k int) bool { return VFSpecAnnexBHead(buf, VFSpecFrameOff(a, k)) }) &&
		vf.ForK(0, vfIdx, func(k int) bool {
			o := VFSpecFrameOff(a, k) + 4
			return vf.ForJ(0, len(a[k]), func(j int) bool { return buf[o+j] == a[k][j] })
		})
}

//vf:prop N01
func VFC_AnnexB_Marshal(a AnnexB) ([]byte, error) {
	vf.Requires(len(a) < 1<<20 && VFSpecFrameOff(a, len(a)) < 1<<40)
	buf, err := a.Marshal()
	vf.Ensures(err == nil, "no error")
	vf.Ensures(len(buf) == VFSpecFrameOff(a, len(a)), "four bytes more than each unit")
	vf.Ensures(vf.Fresh(buf), "a new slice")
	vf.Ensures(vf.ForK(0, len(a), func(k int) bool { return VFSpecAnnexBHead(buf, VFSpecFrameOff(a, k)) }), "every unit follows a start code")
	vf.Ensures(vf.ForK(0, len(a), func(k int) bool {
		o := VFSpecFrameOff(a, k) + 4
		return vf.ForJ(0, len(a[k]), func(j int) bool { return buf[o+j] == a[k][j] })
	}), "every unit is copied")
	return buf, err
}
