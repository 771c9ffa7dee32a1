package main

import (
	"encoding/json"
	"os"
	"path/filepath"
)

type ReplayFile struct {
	Property string           `json:"property"`
	Pkg      string           `json:"pkg"`
	Harness  string           `json:"harness"`
	Params   map[string]int64 `json:"params"`
	Msg      string           `json:"msg"`
	Kind     string           `json:"kind"`
	Vals     []ReplayVal      `json:"vals"`
	Apps     []AppVal         `json:"apps"`
	SearchMs int64            `json:"search_ms"`
	StepMs   int64            `json:"step_ms"`
	Native   string           `json:"native_outcome,omitempty"`
}

// nativeVals translates recorded inputs to the raw values the native harness
// consumes. Engine-internal choices have no native counterpart.
func nativeVals(in []ReplayVal, ns []uint64) []ReplayVal {
	var out []ReplayVal
	for i, v := range in {
		switch v.Kind {
		case "intn":
			out = append(out, ReplayVal{Kind: "src", V: v.V << 32})
		case "int63n":
			// the largest multiple of n is accepted by Int63n; small values pass unchanged
			out = append(out, ReplayVal{Kind: "src", V: v.V})
		case "int31n_":
			n := ns[i]
			raw := uint64(0)
			if n > 0 {
				raw = (v.V<<32+n-1)/n + 1
			}
			out = append(out, ReplayVal{Kind: "src", V: raw << 31})
		case "src63", "src":
			out = append(out, ReplayVal{Kind: "src", V: v.V})
		case "src64":
			out = append(out, ReplayVal{Kind: "src", V: v.V})
		case "float":
			out = append(out, ReplayVal{Kind: "src", V: v.V})
		case "gsrc":
			out = append(out, ReplayVal{Kind: "gsrc", V: v.V << 32})
		case "gfloat":
			out = append(out, ReplayVal{Kind: "gsrc", V: v.V})
		case "pool", "gbyte":
		default:
			out = append(out, v)
		}
	}
	return out
}

func writeReplay(path string, r *ReplayFile) error {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, b, 0o644)
}
