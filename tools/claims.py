CLAIMS.update({
'C01':'every codec parser is free of run-time panics and terminates, for all inputs, function by function with inlined helpers (AudioMuxElement is not covered)',
'C02':'invariant of both extractors established initially and preserved by every call; no panic in any call, all inputs and histories',
'D01':'inductive invariant and transition contract of Extract, all inputs and histories',
'D02':'inductive invariant and transition contract of Extract, all inputs and histories',
'N02':'full functional contract of EmulationPreventionRemove, all inputs',
'S01':'Write, Seek and Reset under full functional contracts (content, length, position), all inputs and histories',
'S02':'Read and Rewind under contracts for an arbitrary io.Reader, all histories',
'T01':'transition contract of Decode, all timestamps and histories',
})
NA={}
for i in ('V01','A02','H01','O01','T02','T03','J01'): NA[i]='within reach of the family, but not brought under contract in the time available'
for i in ('A01','A03'): NA[i]='needs contracts over nested optional structures that were not brought under contract in the time available'
NA['N01']='contracts for all functions are written and proved (proofs/pkg/codecs/h264/framing.go), but the proof does not yet succeed on every run'
NA['G01']='facts about large constant tables (256 and 16384 entries), for which the verifier has no back end'
NA['F01']='contracts over sample construction were not brought under contract in the time available'
for i in ('F02','F03'): NA[i]='control runs inside callbacks of the external package go-mp4; an assumed contract for it would carry the whole property'

