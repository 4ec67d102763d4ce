package vp9

//vf:safe C01 Header_Unmarshal Header_Width Header_Height Header_ChromaSubsampling IsRandomAccess
func VFDirectivesSafe() {}
