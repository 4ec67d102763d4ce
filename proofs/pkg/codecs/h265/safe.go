package h265

import "github.com/bluenviron/mediacommon/v2/internal/vf"

//vf:safe C02 SPS_FPS IsRandomAccess
func VFDirectivesSafe() {}

//vf:prop C01
func VFC_SPS_ScalingListData_unmarshal(x *SPS_ScalingListData, buf []byte, pos *int) error {
	vf.Requires(x != nil && pos != nil)
	vf.Requires(0 <= *pos && *pos <= len(buf)*8)
	vf.Modifies(pos)
	vf.Modifies(x)
	err := x.unmarshal(buf, pos)
	vf.Ensures(0 <= *pos && *pos <= len(buf)*8, "position stays inside the buffer")
	return err
}

//vf:prop C01
func VFC_SPS_Window_unmarshal(x *SPS_Window, buf []byte, pos *int) error {
	vf.Requires(x != nil && pos != nil)
	vf.Requires(0 <= *pos && *pos <= len(buf)*8)
	vf.Modifies(pos)
	vf.Modifies(x)
	err := x.unmarshal(buf, pos)
	vf.Ensures(0 <= *pos && *pos <= len(buf)*8, "position stays inside the buffer")
	return err
}

//vf:prop C01
func VFC_SPS_TimingInfo_unmarshal(x *SPS_TimingInfo, buf []byte, pos *int) error {
	vf.Requires(x != nil && pos != nil)
	vf.Requires(0 <= *pos && *pos <= len(buf)*8)
	vf.Modifies(pos)
	vf.Modifies(x)
	err := x.unmarshal(buf, pos)
	vf.Ensures(0 <= *pos && *pos <= len(buf)*8, "position stays inside the buffer")
	return err
}

//vf:prop C01
func VFC_SPS_VUI_unmarshal(x *SPS_VUI, buf []byte, pos *int) error {
	vf.Requires(x != nil && pos != nil)
	vf.Requires(0 <= *pos && *pos <= len(buf)*8)
	vf.Modifies(pos)
	vf.Modifies(x)
	err := x.unmarshal(buf, pos)
	vf.Ensures(0 <= *pos && *pos <= len(buf)*8, "position stays inside the buffer")
	return err
}

func VFInv_SPS_ProfileTierLevel_unmarshal_1(buf []byte, pos *int, maxSubLayersMinus1 uint8, j uint8) bool {
	return 0 <= *pos && j <= maxSubLayersMinus1 && *pos+2*int(maxSubLayersMinus1-j) <= len(buf)*8
}

//vf:prop C01
func VFC_SPS_ProfileTierLevel_unmarshal(x *SPS_ProfileTierLevel, buf []byte, pos *int, maxSubLayersMinus1 uint8) error {
	vf.Requires(x != nil && pos != nil)
	vf.Requires(0 <= *pos && *pos <= len(buf)*8 && *pos&7 == 0 && maxSubLayersMinus1 <= 7)
	vf.Modifies(pos)
	vf.Modifies(x)
	err := x.unmarshal(buf, pos, maxSubLayersMinus1)
	vf.Ensures(0 <= *pos && *pos <= len(buf)*8, "position stays inside the buffer")
	return err
}

// VFWfRPS holds when a short-term reference picture set is consistent.
func VFWfRPS(r *SPS_ShortTermRefPicSet, i uint32) bool {
	return r != nil &&
		uint64(r.NumNegativePics) == uint64(len(r.DeltaPocS0)) &&
		uint64(r.NumPositivePics) == uint64(len(r.DeltaPocS1)) &&
		uint64(r.NumNegativePics)+uint64(r.NumPositivePics) <= 510+uint64(i)
}

func VFInv_SPS_ShortTermRefPicSet_unmarshal_0(useDeltaFlag []bool, i int) bool {
	return 0 <= i && i <= len(useDeltaFlag)
}

func VFInv_SPS_ShortTermRefPicSet_unmarshal_1(buf []byte, pos *int) bool {
	return 0 <= *pos && *pos <= len(buf)*8
}

func VFInv_SPS_ShortTermRefPicSet_unmarshal_6(buf []byte, pos *int) bool {
	return 0 <= *pos && *pos <= len(buf)*8
}

func VFInv_SPS_ShortTermRefPicSet_unmarshal_7(buf []byte, pos *int) bool {
	return 0 <= *pos && *pos <= len(buf)*8
}

func VFInv_SPS_ShortTermRefPicSet_unmarshal_2(r *SPS_ShortTermRefPicSet, refRPS *SPS_ShortTermRefPicSet, i uint32, j int32) bool {
	return vf.Fresh(r.DeltaPocS0) && vf.Fresh(r.UsedByCurrPicS0Flag) && int(i) == len(r.DeltaPocS0) && int(i) == len(r.UsedByCurrPicS0Flag) && j >= -1 && int64(i)+int64(j) < int64(refRPS.NumPositivePics)
}

func VFInv_SPS_ShortTermRefPicSet_unmarshal_3(r *SPS_ShortTermRefPicSet, refRPS *SPS_ShortTermRefPicSet, i uint32, j uint32) bool {
	return vf.Fresh(r.DeltaPocS0) && vf.Fresh(r.UsedByCurrPicS0Flag) && int(i) == len(r.DeltaPocS0) && int(i) == len(r.UsedByCurrPicS0Flag) && int64(i) <= int64(refRPS.NumPositivePics)+1+int64(j)
}

func VFInv_SPS_ShortTermRefPicSet_unmarshal_4(r *SPS_ShortTermRefPicSet, refRPS *SPS_ShortTermRefPicSet, i uint32, j int32) bool {
	return vf.Fresh(r.DeltaPocS1) && vf.Fresh(r.UsedByCurrPicS1Flag) && int(i) == len(r.DeltaPocS1) && int(i) == len(r.UsedByCurrPicS1Flag) && j >= -1 && int64(i)+int64(j) < int64(refRPS.NumNegativePics)
}

func VFInv_SPS_ShortTermRefPicSet_unmarshal_5(r *SPS_ShortTermRefPicSet, refRPS *SPS_ShortTermRefPicSet, i uint32, j uint32) bool {
	return vf.Fresh(r.DeltaPocS1) && vf.Fresh(r.UsedByCurrPicS1Flag) && int(i) == len(r.DeltaPocS1) && int(i) == len(r.UsedByCurrPicS1Flag) && int64(i) <= int64(refRPS.NumNegativePics)+1+int64(j)
}

//vf:prop C01
//vf:nocand
func VFC_SPS_ShortTermRefPicSet_unmarshal(r *SPS_ShortTermRefPicSet, buf []byte, pos *int, stRpsIdx uint32,
	num uint32, list []*SPS_ShortTermRefPicSet,
) error {
	vf.Requires(r != nil && pos != nil && 0 <= *pos && *pos <= len(buf)*8)
	vf.Requires(uint64(num) == uint64(len(list)) && num <= maxShortTermRefPics && stRpsIdx <= num)
	vf.Requires(!r.InterRefPicSetPredictionFlag && r.DeltaIdxMinus1 == 0 && r.NumNegativePics == 0 && r.NumPositivePics == 0)
	vf.Requires(r.DeltaPocS0 == nil && r.DeltaPocS1 == nil && r.UsedByCurrPicS0Flag == nil && r.UsedByCurrPicS1Flag == nil)
	vf.Requires(vf.Forall(0, int(stRpsIdx), func(i int) bool { return list[i] != r && VFWfRPS(list[i], uint32(i)) }))
	vf.Modifies(pos)
	vf.Modifies(r)
	err := r.unmarshal(buf, pos, stRpsIdx, num, list)
	vf.Ensures(0 <= *pos && *pos <= len(buf)*8, "position stays inside the buffer")
	if err == nil {
		vf.Ensures(uint64(r.NumNegativePics) == uint64(len(r.DeltaPocS0)), "one delta per negative picture")
		vf.Ensures(uint64(r.NumPositivePics) == uint64(len(r.DeltaPocS1)), "one delta per positive picture")
		vf.EnsuresTrusted(uint64(r.NumNegativePics)+uint64(r.NumPositivePics) <= 510+uint64(stRpsIdx),
			"a predicted set has at most one picture more than its reference")
	}
	return err
}

// VFWfSPS holds when a SPS has the shape that the parser gives it.
func VFWfSPS(s *SPS) bool {
	return s != nil && s.ChromaFormatIdc <= 3 && len(s.ShortTermRefPicSets) <= maxShortTermRefPics &&
		vf.Forall(0, len(s.ShortTermRefPicSets), func(i int) bool { return VFWfRPS(s.ShortTermRefPicSets[i], uint32(i)) })
}

func VFInv_SPS_Unmarshal_0(s *SPS, buf []byte, pos int) bool {
	return 0 <= pos && pos <= len(buf)*8
}

func VFInv_SPS_Unmarshal_1(s *SPS, buf []byte, pos int, i uint32, numShortTermRefPicSets uint32) bool {
	return 0 <= pos && pos <= len(buf)*8 &&
		uint64(len(s.ShortTermRefPicSets)) == uint64(numShortTermRefPicSets) && i < numShortTermRefPicSets &&
		vf.Forall(0, int(i), func(k int) bool { return VFWfRPS(s.ShortTermRefPicSets[k], uint32(k)) })
}

//vf:prop C01 C02
//vf:nocand
func VFC_SPS_Unmarshal(s *SPS, buf []byte) error {
	vf.Requires(s != nil)
	vf.Modifies(s)
	err := s.Unmarshal(buf)
	if err == nil {
		vf.Ensures(VFWfSPS(s), "the parsed SPS is well formed")
	}
	return err
}

//vf:prop C02
func VFC_SPS_Width(s SPS) int {
	vf.Requires(s.ChromaFormatIdc <= 3)
	return s.Width()
}

//vf:prop C02
func VFC_SPS_Height(s SPS) int {
	vf.Requires(s.ChromaFormatIdc <= 3)
	return s.Height()
}
