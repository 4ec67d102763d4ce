package mpeg4audio

//vf:safe C01 AudioSpecificConfig_Unmarshal StreamMuxConfig_Unmarshal ADTSPackets_Unmarshal AudioSyncStream_Unmarshal ParsePCEFromRawDataBlock
func VFDirectivesSafe() {}
