package h264

import "github.com/bluenviron/mediacommon/v2/internal/vf"

// VFSpecDrop holds when byte i is an emulation prevention byte (H.264, 7.4.1).
func VFSpecDrop(nalu []byte, i int) bool {
	return i >= 2 && i < len(nalu) && nalu[i] == 3 && nalu[i-1] == 0 && nalu[i-2] == 0
}

// VFSpecDrops is the number of emulation prevention bytes among the first n bytes.
func VFSpecDrops(nalu []byte, n int) int {
	return vf.Count(n, func(i int) bool { return VFSpecDrop(nalu, i) })
}

func VFInv_EmulationPreventionRemove_0(nalu []byte, l int, n int, i int) bool {
	return 2 <= i && i <= l+2 && VFSpecDrops(nalu, 2) == 0 && n == l-VFSpecDrops(nalu, i) &&
		(i < l || VFSpecDrops(nalu, i) == VFSpecDrops(nalu, l))
}

func VFInv_EmulationPreventionRemove_1(nalu []byte, l int, i int, pos int, start int, ret []byte) bool {
	return 2 <= i && i <= l+2 && 0 <= start && start <= i && start <= l &&
		pos == start-VFSpecDrops(nalu, start) &&
		VFSpecDrops(nalu, i) == VFSpecDrops(nalu, start) &&
		vf.Forall(0, start, func(t int) bool { return VFSpecDrop(nalu, t) || ret[t-VFSpecDrops(nalu, t)] == nalu[t] })
}

//vf:prop N02
//vf:nocand
func VFC_EmulationPreventionRemove(nalu []byte) []byte {
	ret := EmulationPreventionRemove(nalu)
	vf.Ensures(len(ret) <= len(nalu), "the result is not longer than the input")
	vf.Ensures(len(nalu) >= 2 || len(ret) == len(nalu), "nothing is removed from the first two bytes")
	vf.Ensures(len(nalu) < 2 || len(ret) >= 2, "the first two bytes are kept")
	if !vf.Full() {
		return ret
	}
	vf.EnsuresFull(len(ret) == len(nalu)-VFSpecDrops(nalu, len(nalu)), "one byte less per emulation prevention byte")
	vf.EnsuresFull(vf.Forall(0, len(nalu), func(i int) bool {
		return VFSpecDrop(nalu, i) || ret[i-VFSpecDrops(nalu, i)] == nalu[i]
	}), "every other byte is kept, in order")
	return ret
}
