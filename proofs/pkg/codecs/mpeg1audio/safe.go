package mpeg1audio

//vf:safe C01 FrameHeader_Unmarshal
func VFDirectivesSafe() {}
