package av1

//vf:safe C01 SequenceHeader_Unmarshal SequenceHeader_Width SequenceHeader_Height LEB128_Unmarshal IsRandomAccess2 Bitstream_Unmarshal OBUHeader_Unmarshal
//vf:safe C01 IsRandomAccess
func VFDirectivesSafe() {}
