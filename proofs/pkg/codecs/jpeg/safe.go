package jpeg

//vf:safe C01 DefineQuantizationTable_Unmarshal DefineRestartInterval_Unmarshal StartOfScan_Unmarshal StartOfFrame1_Unmarshal
func VFDirectivesSafe() {}
