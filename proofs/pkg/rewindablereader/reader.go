package rewindablereader

import (
	"github.com/bluenviron/mediacommon/v2/internal/vf"
)

// VFSrc stands for an arbitrary io.Reader: it returns any number of the next bytes of the stream
// and any error, as the io.Reader contract allows.
type VFSrc struct {
	data []byte
	pos  int
	err  error
	n    int
}

// Read implements io.Reader.
func (s *VFSrc) Read(p []byte) (int, error) {
	n := s.n // arbitrary
	vf.Assume(0 <= n && n <= len(p) && n <= len(s.data)-s.pos)
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if vf.Any[bool]() {
		return n, nil
	}
	return n, s.err
}

// VFQueued is the number of bytes in the first k recorded entries.
func VFQueued(r *Reader, k int) int {
	return vf.Sum(k, func(i int) int { return len(r.entries[i]) })
}

// VFOut is the position in the stream of the next byte to be replayed.
func VFOut(r *Reader, s *VFSrc) int {
	return s.pos - VFQueued(r, len(r.entries))
}

// VFWf holds for every Reader obtained from the zero value by Read and Rewind, without errors about the size.
func VFWf(r *Reader, s *VFSrc) bool {
	out := VFOut(r, s)
	return len(r.entries) < 1<<20 && 0 <= s.pos && s.pos <= len(s.data) && 0 <= out &&
		(r.rewinded || out == 0 && r.size == s.pos && r.size <= maxRecordedSize) &&
		(!r.rewinded || r.entries == nil || len(r.entries) > 0) &&
		vf.Forall(0, len(r.entries), func(i int) bool {
			o := out + VFQueued(r, i)
			e := r.entries[i]
			return len(e) <= maxRecordedSize && vf.Forall(0, len(e), func(j int) bool { return e[j] == s.data[o+j] })
		})
}

func vfReader(rewinded bool) (*Reader, *VFSrc) {
	s := &VFSrc{data: vf.Any[[]byte](), pos: vf.Any[int](), n: vf.Any[int](), err: vf.Any[error]()}
	r := &Reader{R: s, entries: vf.Any[[][]byte](), size: s.pos, rewinded: rewinded}
	vf.Assume(VFWf(r, s))
	return r, s
}

//vf:prop S02
func VFL_New() {
	s := &VFSrc{data: vf.Any[[]byte](), err: vf.Any[error]()}
	r := &Reader{R: s}
	vf.Assert(VFWf(r, s), "a new reader is well formed")
}

//vf:prop S02
func VFL_ReadOverLimit() {
	r, s := vfReader(false)
	p := vf.Any[[]byte]()
	vf.Assume(s.pos+s.n > maxRecordedSize && s.n <= len(p))
	_, err := r.Read(p)
	vf.Assert(err != nil, "more than the limit is an error")
	vf.Assert(!r.rewinded, "still not rewound")
}

//vf:prop S02
func VFL_ReadBefore() {
	r, s := vfReader(false)
	p := vf.Any[[]byte]()
	vf.Assume(s.pos+s.n <= maxRecordedSize && len(r.entries) < 1<<20-1 && vf.Separate(p, s.data))
	vf.Assume(vf.Forall(0, len(r.entries), func(i int) bool { return vf.Separate(p, r.entries[i]) }))
	pos := s.pos
	old := vf.Snap(r.entries)
	i, j := vf.Any[int](), vf.Any[int]()
	vf.Assume(0 <= i && i < len(old))
	vf.Assert(vf.Separate(p, old[i]), "the destination is not a recorded entry")
	vf.Assume(0 <= j && j < len(old[i]))
	b, o := old[i][j], VFQueued(r, i)
	vf.Assert(b == s.data[o+j], "an entry holds the bytes of the stream")
	n, err := r.Read(p)
	vf.Assert(n == s.n && s.pos == pos+n, "what the source returned is returned")
	vf.Assert(err == nil || err == s.err, "the error is the one of the source")
	vf.Assert(vf.Forall(0, n, func(i int) bool { return p[i] == s.data[pos+i] }), "the bytes are those of the stream")
	vf.Assert(!r.rewinded, "still not rewound")
	// the reader stays well formed
	k := len(old)
	vf.Assert(len(r.entries) == k+1, "the bytes are recorded")
	vf.Assert(0 <= s.pos && s.pos <= len(s.data) && r.size == s.pos && r.size <= maxRecordedSize, "the size is the number of recorded bytes")
	e := r.entries[k]
	vf.Assert(len(e) == n && vf.Forall(0, len(e), func(j int) bool { return e[j] == s.data[pos+j] }), "the new entry holds the bytes")
	vf.Assert(VFQueued(r, k) == vf.Sum(k, func(i int) int { return len(old[i]) }), "the other entries stay where they are")
	vf.Assert(VFQueued(r, k+1) == VFQueued(r, k)+n && VFOut(r, s) == 0, "the recorded bytes start at the beginning of the stream")
	vf.Assert(vf.Same(r.entries[i], old[i]) && VFQueued(r, i) == o, "the other entries stay")
	vf.Assert(r.entries[i][j] == b && s.data[o+j] == b, "the other entries hold the bytes of the stream")
}

//vf:prop S02
func VFL_Rewind() {
	r, s := vfReader(false)
	vf.Assume(r.entries == nil || len(r.entries) > 0)
	r.Rewind()
	vf.Assert(VFWf(r, s) && r.rewinded, "the reader stays well formed")
	vf.Assert(VFOut(r, s) == 0, "the replay starts at the beginning of the stream")
}

//vf:prop S02
func VFL_ReadThrough() {
	r, s := vfReader(true)
	p := vf.Any[[]byte]()
	vf.Assume(r.entries == nil && vf.Separate(p, s.data) && s.n >= 0 && s.n <= len(p) && s.n <= len(s.data)-s.pos)
	out := VFOut(r, s)
	n, err := r.Read(p)
	vf.Assert(n == s.n && s.pos == out+n && (err == nil || err == s.err), "what the source returned is returned")
	vf.Assert(vf.Forall(0, n, func(i int) bool { return p[i] == s.data[out+i] }), "the bytes are the next ones of the stream")
	vf.Assert(r.rewinded && r.entries == nil, "the reader stays well formed")
}

//vf:prop S02
func VFL_ReadReplay() {
	r, s := vfReader(true)
	p := vf.Any[[]byte]()
	vf.Assume(len(r.entries) > 0)
	vf.Assume(vf.Forall(0, len(r.entries), func(i int) bool { return vf.Separate(p, r.entries[i]) }))
	vf.Assume(vf.Separate(p, s.data))
	out := VFOut(r, s)
	old := vf.Snap(r.entries)
	k := len(old)
	pos := s.pos
	e0 := r.entries[0]
	vf.Assert(VFQueued(r, 1) == len(e0), "the first entry is the first one queued")
	vf.Assert(vf.Separate(p, e0), "the destination is not the first entry")
	vf.Assert(vf.Forall(0, len(e0), func(j int) bool { return e0[j] == s.data[out+j] }), "the first entry holds the next bytes")
	// an arbitrary byte of another entry
	i, j := vf.Any[int](), vf.Any[int]()
	vf.Assume(1 <= i && i < k)
	vf.Assert(vf.Separate(p, old[i]), "the destination is not a recorded entry")
	vf.Assume(0 <= j && j < len(old[i]))
	b, o := old[i][j], out+VFQueued(r, i)
	vf.Assert(b == s.data[o+j], "an entry holds the bytes of the stream")
	n, err := r.Read(p)
	vf.Assert(err == nil && (n == len(p) || n == len(e0)) && 0 <= n && n <= len(p) && n <= len(e0), "the bytes of the first entry that fit are returned")
	vf.Assert(vf.Forall(0, n, func(t int) bool { return p[t] == s.data[out+t] }), "the bytes are the next ones of the stream")
	vf.Assert(r.rewinded && s.pos == pos, "the source is not read")
	if n < len(e0) {
		vf.Assert(len(r.entries) == k && len(r.entries[0]) == len(e0)-n, "the rest of the first entry stays")
		f := r.entries[0]
		vf.Assert(vf.Forall(0, len(f), func(t int) bool { return f[t] == s.data[out+n+t] }), "the rest of the first entry is next")
		vf.Assert(VFOut(r, s) == out+n, "the replay position moves by the returned count")
		vf.Assert(vf.Same(r.entries[i], old[i]) && r.entries[i][j] == b, "the other entries stay")
		vf.Assert(VFOut(r, s)+VFQueued(r, i) == o, "the other entries stay in place")
	} else {
		vf.Assert(len(r.entries) == k-1 && (k > 1) == (r.entries != nil), "the first entry is used up")
		vf.Assert(VFOut(r, s) == out+n, "the replay position moves by the returned count")
		vf.Assert(vf.Same(r.entries[i-1], old[i]) && r.entries[i-1][j] == b, "the other entries stay")
		vf.Assert(VFOut(r, s)+VFQueued(r, i-1) == o, "the other entries stay in place")
	}
}

//vf:prop S02
func VFL_ReadReplayLast() {
	r, s := vfReader(true)
	p := vf.Any[[]byte]()
	vf.Assume(len(r.entries) == 1)
	vf.Assume(vf.Separate(p, r.entries[0]) && vf.Separate(p, s.data))
	out := VFOut(r, s)
	e0 := r.entries[0]
	vf.Assert(VFQueued(r, 1) == len(e0), "the first entry is the first one queued")
	vf.Assert(vf.Forall(0, len(e0), func(j int) bool { return e0[j] == s.data[out+j] }), "the first entry holds the next bytes")
	n, err := r.Read(p)
	vf.Assert(err == nil && (n == len(p) || n == len(e0)) && 0 <= n && n <= len(p) && n <= len(e0), "the bytes of the first entry that fit are returned")
	vf.Assert(vf.Forall(0, n, func(t int) bool { return p[t] == s.data[out+t] }), "the bytes are the next ones of the stream")
	if n < len(e0) {
		vf.Assert(len(r.entries) == 1 && len(r.entries[0]) == len(e0)-n, "the rest of the first entry stays")
		f := r.entries[0]
		vf.Assert(vf.Forall(0, len(f), func(t int) bool { return f[t] == s.data[out+n+t] }), "the rest of the first entry is next")
	} else {
		vf.Assert(r.entries == nil, "the first entry is used up")
	}
	vf.Assert(VFOut(r, s) == out+n, "the replay position moves by the returned count")
}
