package h264

import "github.com/bluenviron/mediacommon/v2/internal/vf"

// VFWfDTS is the invariant of DTSExtractor: it holds initially and after every call, and it is
// all that a call relies on.
func VFWfDTS(d *DTSExtractor) bool {
	return d != nil &&
		(d.spsp == nil || d.pocIncrement == 1 || d.pocIncrement == 2 || d.pocIncrement == 4) &&
		0 <= d.pause && d.pause <= d.reorderedFrames && d.reorderedFrames <= maxReorderedFrames
}

//vf:prop C02 D01
func VFL_InitialDTS() {
	d := DTSExtractor{}
	vf.Assert(VFWfDTS(&d), "the zero value satisfies the invariant")
	d.Initialize()
	vf.Assert(VFWfDTS(&d), "an initialized extractor satisfies the invariant")
	vf.Assert(!d.prevDTSFilled, "no timestamp was returned yet")
	e := NewDTSExtractor()
	vf.Assert(VFWfDTS(e), "a new extractor satisfies the invariant")
}

//vf:prop C02
//vf:nocand
func VFC_SPS_Unmarshal(s *SPS, buf []byte) error {
	vf.Requires(s != nil && cap(s.ScalingList4x4) == 0 && cap(s.UseDefaultScalingMatrix4x4Flag) == 0 &&
		cap(s.ScalingList8x8) == 0 && cap(s.UseDefaultScalingMatrix8x8Flag) == 0)
	vf.Modifies(s)
	return s.Unmarshal(buf)
}

func VFInv_SPS_Unmarshal_0(s *SPS, buf []byte, pos int, i int, lim int) bool {
	return 0 <= pos && pos <= len(buf)*8 && 0 <= i && i <= lim &&
		(vf.Fresh(s.ScalingList4x4) || vf.Old(func() int { return cap(s.ScalingList4x4) }) != 0) &&
		(vf.Fresh(s.ScalingList8x8) || vf.Old(func() int { return cap(s.ScalingList8x8) }) != 0) &&
		(vf.Fresh(s.UseDefaultScalingMatrix4x4Flag) || vf.Old(func() int { return cap(s.UseDefaultScalingMatrix4x4Flag) }) != 0) &&
		(vf.Fresh(s.UseDefaultScalingMatrix8x8Flag) || vf.Old(func() int { return cap(s.UseDefaultScalingMatrix8x8Flag) }) != 0)
}

func VFInv_SPS_Unmarshal_1(buf []byte, pos int) bool {
	return 0 <= pos && pos <= len(buf)*8
}

//vf:prop C02 D01
//vf:nocand
func VFC_getPictureOrderCount(buf []byte, sps *SPS, idr bool) (uint32, error) {
	vf.Requires(len(buf) != 0 && sps != nil)
	return getPictureOrderCount(buf, sps, idr)
}

func VFInv_DTSExtractor_extractInner_0(d *DTSExtractor) bool {
	return VFWfDTS(d) &&
		d.prevDTS == vf.Old(func() int64 { return d.prevDTS }) &&
		d.prevDTSFilled == vf.Old(func() bool { return d.prevDTSFilled }) &&
		((d.pause == 0 && d.reorderedFrames == 0 && !d.randomReceived) ||
			(d.pause == vf.Old(func() int { return d.pause }) && d.reorderedFrames == vf.Old(func() int { return d.reorderedFrames })))
}

//vf:prop C02 D01
//vf:nocand
func VFC_DTSExtractor_Extract(d *DTSExtractor, au [][]byte, pts int64) (int64, error) {
	vf.Requires(VFWfDTS(d))
	old := *d
	vf.Modifies(d)
	dts, err := d.Extract(au, pts)
	vf.Ensures(VFWfDTS(d), "the invariant is preserved and the reordering depth stays within ten frames")
	if err != nil {
		vf.Ensures(d.prevDTSFilled == old.prevDTSFilled && d.prevDTS == old.prevDTS, "a failed call does not change the reference")
		return dts, err
	}
	vf.Ensures(d.prevDTSFilled && d.prevDTS == dts, "the returned timestamp is the next reference")
	vf.Ensures(!old.prevDTSFilled || dts >= old.prevDTS, "timestamps never decrease")
	vf.Ensures(old.prevDTSFilled || dts <= pts, "the first timestamp is not after the presentation timestamp")
	vf.Ensures(dts <= pts || old.pause > 0 || d.reorderedFrames > old.reorderedFrames,
		"without a pending pause the timestamp is not after the presentation timestamp")
	return dts, err
}
