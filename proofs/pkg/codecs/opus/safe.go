package opus

//vf:safe C01 IDHeader_Unmarshal PacketDuration PacketDuration2
func VFDirectivesSafe() {}
