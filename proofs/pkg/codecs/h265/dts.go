package h265

import "github.com/bluenviron/mediacommon/v2/internal/vf"

// VFWfDTS is the invariant of DTSExtractor.
func VFWfDTS(d *DTSExtractor) bool {
	return d != nil && (d.spsp == nil || VFWfSPS(d.spsp)) &&
		0 <= d.pause && d.pause <= d.reorderedFrames && int64(d.reorderedFrames) < 1<<32
}

//vf:prop C02 D02
func VFL_InitialDTS() {
	d := DTSExtractor{}
	vf.Assert(VFWfDTS(&d), "the zero value satisfies the invariant")
	d.Initialize()
	vf.Assert(VFWfDTS(&d), "an initialized extractor satisfies the invariant")
	vf.Assert(!d.prevDTSFilled, "no timestamp was returned yet")
	e := NewDTSExtractor()
	vf.Assert(VFWfDTS(e), "a new extractor satisfies the invariant")
}

//vf:prop C02 D02
//vf:nocand
func VFC_getPTSDTSDiff(buf []byte, sps *SPS, pps *PPS) (int, error) {
	vf.Requires(len(buf) != 0 && pps != nil && VFWfSPS(sps))
	d, err := getPTSDTSDiff(buf, sps, pps)
	vf.Ensures(int64(d) >= -(1<<33) && int64(d) <= 1<<33, "the difference is small")
	return d, err
}

//vf:prop C01 C02
//vf:nocand
func VFC_PPS_Unmarshal(p *PPS, buf []byte) error {
	vf.Requires(p != nil)
	vf.Modifies(p)
	return p.Unmarshal(buf)
}

func VFInv_DTSExtractor_extractInner_0(d *DTSExtractor) bool {
	return VFWfDTS(d) &&
		d.prevDTS == vf.Old(func() int64 { return d.prevDTS }) &&
		d.prevDTSFilled == vf.Old(func() bool { return d.prevDTSFilled })
}

//vf:prop C02 D02
//vf:nocand
func VFC_DTSExtractor_Extract(d *DTSExtractor, au [][]byte, pts int64) (int64, error) {
	vf.Requires(VFWfDTS(d))
	old := *d
	vf.Modifies(d)
	dts, err := d.Extract(au, pts)
	vf.Ensures(VFWfDTS(d), "the invariant is preserved")
	if err != nil {
		vf.Ensures(d.prevDTSFilled == old.prevDTSFilled && d.prevDTS == old.prevDTS, "a failed call does not change the reference")
		return dts, err
	}
	vf.Ensures(d.prevDTSFilled && d.prevDTS == dts, "the returned timestamp is the next reference")
	vf.Ensures(!old.prevDTSFilled || dts >= old.prevDTS, "timestamps never decrease")
	vf.Ensures(dts <= pts, "the timestamp is not after the presentation timestamp")
	return dts, err
}
