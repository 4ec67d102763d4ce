package eac3

//vf:safe C01 SyncInfo_Unmarshal
func VFDirectivesSafe() {}
