package ac3

//vf:safe C01 BSI_Unmarshal SyncInfo_Unmarshal
func VFDirectivesSafe() {}
