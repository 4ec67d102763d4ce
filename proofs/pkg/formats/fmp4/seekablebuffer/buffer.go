package seekablebuffer

import (
	"io"

	"github.com/bluenviron/mediacommon/v2/internal/vf"
)

// VFTotalWf holds for every buffer obtained from the zero value by Write, Seek and Reset.
func VFTotalWf(b *Buffer) bool {
	return b.Len() >= 0 && cap(b.Bytes()) <= b.Cap() && b.Len() <= cap(b.Bytes()) && b.pos >= 0 && b.pos <= int64(b.Len())
}

//vf:prop S01
func VFL_Zero() {
	var b Buffer
	vf.Assert(VFTotalWf(&b), "the zero buffer is well formed")
	vf.Assert(b.Len() == 0 && b.pos == 0, "the zero buffer is empty")
}

//vf:prop S01
func VFC_Buffer_Write(b *Buffer, p []byte) (int, error) {
	vf.Requires(b != nil && VFTotalWf(b) && vf.Separate(p, b.Bytes()))
	old := vf.Snap(b.Bytes())
	p0 := vf.Snap(p)
	pos := int(b.pos)
	end := pos + len(p)
	vf.Modifies(b)
	vf.ModifiesArray(b.Bytes())
	n, err := b.Write(p)
	c := b.Bytes()
	vf.Ensures(VFTotalWf(b), "the buffer stays well formed")
	vf.Ensures(err == nil && n == len(p), "everything is written")
	vf.Ensures(b.pos == int64(end), "the position moves past the written bytes")
	if end > len(old) {
		vf.Ensures(len(c) == end, "the content is extended to the end of the written bytes")
	} else {
		vf.Ensures(len(c) == len(old), "the length stays the same")
	}
	i := vf.Any[int]()
	if 0 <= i && i < pos {
		vf.Ensures(c[i] == old[i], "the bytes before the position stay")
	}
	if pos <= i && i < end {
		vf.Ensures(c[i] == p0[i-pos], "the bytes are written at the position")
	}
	if end <= i && i < len(old) {
		vf.Ensures(c[i] == old[i], "the bytes after the written ones stay")
	}
	return n, err
}

//vf:prop S01
func VFC_Buffer_Seek(b *Buffer, offset int64, whence int) (int64, error) {
	vf.Requires(b != nil && VFTotalWf(b) && whence >= io.SeekStart && whence <= io.SeekEnd && offset < 1<<40)
	old := vf.Snap(b.Bytes())
	pos := b.pos
	vf.Modifies(b)
	vf.ModifiesArray(b.Bytes())
	target := offset
	if whence == io.SeekCurrent {
		target += pos
	}
	if whence == io.SeekEnd {
		target += int64(len(old))
	}
	p, err := b.Seek(offset, whence)
	c := b.Bytes()
	vf.Ensures(VFTotalWf(b), "the buffer stays well formed")
	vf.Ensures((err != nil) == (target < 0), "exactly negative positions are refused")
	if err != nil {
		vf.Ensures(b.pos == pos && len(c) == len(old), "a refused seek changes nothing")
	} else {
		vf.Ensures(p == target && b.pos == target, "the position is the target")
		if int64(len(old)) < target {
			vf.Ensures(int64(len(c)) == target, "seeking past the end extends the content")
		} else {
			vf.Ensures(len(c) == len(old), "seeking inside keeps the length")
		}
	}
	vf.Ensures(vf.Forall(0, len(c), func(i int) bool {
		if i < len(old) {
			return c[i] == old[i]
		}
		return c[i] == 0
	}), "the content is kept and extended with zeros")
	return p, err
}

//vf:prop S01
func VFC_Buffer_Reset(b *Buffer) {
	vf.Requires(b != nil && VFTotalWf(b))
	vf.Modifies(b)
	b.Reset()
	vf.Ensures(VFTotalWf(b), "the buffer stays well formed")
	vf.Ensures(b.Len() == 0 && b.pos == 0, "the buffer is empty and at its start")
}
