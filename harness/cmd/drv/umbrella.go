package main

import (
	"encoding/json"
	"hash/fnv"
)

// viaRoot decides, from the case itself, whether an object is made through the umbrella package
// (github.com/phoenix-tui/phoenix) or through the module that owns it: both must give the same thing.
func viaRoot(v any) bool {
	b, _ := json.Marshal(v)
	h := fnv.New32a()
	_, _ = h.Write(b)
	return h.Sum32()&1 == 1
}
