package mpegts

import "github.com/bluenviron/mediacommon/v2/internal/vf"

// VFWfTime holds for every decoder obtained from the zero value by Decode; first is the first
// timestamp given to it.
func VFWfTime(d *TimeDecoder, first int64) bool {
	return !d.initialized && d.overall == 0 && d.prev == 0 ||
		d.initialized && (d.overall-(d.prev-first))&0x1FFFFFFFF == 0
}

//vf:prop T01
func VFL_NewTimeDecoder() {
	var d TimeDecoder
	d.Initialize()
	vf.Assert(VFWfTime(&d, vf.Any[int64]()), "a new decoder is well formed")
	e := NewTimeDecoder()
	vf.Assert(VFWfTime(e, vf.Any[int64]()), "an allocated decoder is well formed")
}

//vf:prop T01
func VFL_Decode() {
	var d TimeDecoder
	first := vf.Any[int64]()
	d.initialized, d.overall, d.prev = vf.Any[bool](), vf.Any[int64](), vf.Any[int64]()
	vf.Assume(VFWfTime(&d, first))
	ts := vf.Any[int64]()
	vf.Assume(0 <= ts && ts < 1<<33)
	vf.Assume(-(1<<62) <= d.overall && d.overall <= 1<<62)
	vf.Assume(d.initialized || first == ts)
	vf.Assume(0 <= first && first < 1<<33)
	init, overall := d.initialized, d.overall
	v := d.Decode(ts)
	vf.Assert(VFWfTime(&d, first) && d.initialized && d.prev == ts && d.overall == v, "the decoder stays well formed")
	vf.Assert(init || v == 0, "the first value is zero")
	vf.Assert((v-(ts-first))&0x1FFFFFFFF == 0, "the difference to the first value is the raw difference modulo 2^33")
	vf.Assert(v-overall <= 1<<32 && v-overall >= -(1<<32), "consecutive values differ by at most half the range")
}
