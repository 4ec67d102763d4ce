package h264

import "github.com/bluenviron/mediacommon/v2/internal/vf"

//vf:safe C01 SPS_Unmarshal
//vf:safe C02 SPS_Width SPS_Height SPS_FPS IsRandomAccess
func VFDirectivesSafe() {}

//vf:prop C01
func VFC_readScalingList(buf []byte, pos *int, size int) ([]int32, bool, error) {
	vf.Requires(pos != nil && 0 <= *pos && *pos <= len(buf)*8 && (size == 16 || size == 64))
	vf.Modifies(pos)
	l, d, err := readScalingList(buf, pos, size)
	vf.Ensures(0 <= *pos && *pos <= len(buf)*8, "position stays inside the buffer")
	return l, d, err
}

//vf:prop C01
func VFC_SPS_HRD_unmarshal(x *SPS_HRD, buf []byte, pos *int) error {
	vf.Requires(x != nil && pos != nil)
	vf.Requires(0 <= *pos && *pos <= len(buf)*8)
	vf.Modifies(pos)
	vf.Modifies(x)
	err := x.unmarshal(buf, pos)
	vf.Ensures(0 <= *pos && *pos <= len(buf)*8, "position stays inside the buffer")
	return err
}

//vf:prop C01
func VFC_SPS_TimingInfo_unmarshal(x *SPS_TimingInfo, buf []byte, pos *int) error {
	vf.Requires(x != nil && pos != nil)
	vf.Requires(0 <= *pos && *pos <= len(buf)*8)
	vf.Modifies(pos)
	vf.Modifies(x)
	err := x.unmarshal(buf, pos)
	vf.Ensures(0 <= *pos && *pos <= len(buf)*8, "position stays inside the buffer")
	return err
}

//vf:prop C01
func VFC_SPS_BitstreamRestriction_unmarshal(x *SPS_BitstreamRestriction, buf []byte, pos *int) error {
	vf.Requires(x != nil && pos != nil)
	vf.Requires(0 <= *pos && *pos <= len(buf)*8)
	vf.Modifies(pos)
	vf.Modifies(x)
	err := x.unmarshal(buf, pos)
	vf.Ensures(0 <= *pos && *pos <= len(buf)*8, "position stays inside the buffer")
	return err
}

//vf:prop C01
func VFC_SPS_VUI_unmarshal(x *SPS_VUI, buf []byte, pos *int) error {
	vf.Requires(x != nil && pos != nil)
	vf.Requires(0 <= *pos && *pos <= len(buf)*8)
	vf.Modifies(pos)
	vf.Modifies(x)
	err := x.unmarshal(buf, pos)
	vf.Ensures(0 <= *pos && *pos <= len(buf)*8, "position stays inside the buffer")
	return err
}

//vf:prop C01
func VFC_SPS_FrameCropping_unmarshal(x *SPS_FrameCropping, buf []byte, pos *int) error {
	vf.Requires(x != nil && pos != nil)
	vf.Requires(0 <= *pos && *pos <= len(buf)*8)
	vf.Modifies(pos)
	vf.Modifies(x)
	err := x.unmarshal(buf, pos)
	vf.Ensures(0 <= *pos && *pos <= len(buf)*8, "position stays inside the buffer")
	return err
}
