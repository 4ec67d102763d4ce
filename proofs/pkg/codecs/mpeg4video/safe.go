package mpeg4video

//vf:safe C01 IsValidConfig
func VFDirectivesSafe() {}
