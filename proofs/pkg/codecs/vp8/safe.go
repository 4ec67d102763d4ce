package vp8

//vf:safe C01 IsRandomAccess
func VFDirectivesSafe() {}
