package g711

//vf:safe C01 Alaw_Unmarshal Mulaw_Unmarshal
func VFDirectivesSafe() {}
