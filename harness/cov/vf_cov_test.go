package termemu

import _ "unsafe" // for linkname

//go:linkname vfFuzzCoverage internal/fuzz.coverage
func vfFuzzCoverage() []byte

func init() { vfCounters = vfFuzzCoverage }
