package flac

//vf:safe C01 StreamInfo_Unmarshal
func VFDirectivesSafe() {}
