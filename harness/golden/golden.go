// Package golden holds data produced by the code under test before any change
// of this framework (commit 5ca42db), as an application would have stored it.
package golden

import (
	_ "embed"
	"encoding/json"
	"strings"
)

//go:embed golden.jsonl
var lines string

type Vector struct {
	Kind  string
	Key   []byte
	Msg   []byte
	Data  []byte
	Text  string
	Level int
}

func Load(kinds ...string) []Vector {
	var out []Vector
	for _, l := range strings.Split(strings.TrimSpace(lines), "\n") {
		var v Vector
		if err := json.Unmarshal([]byte(l), &v); err != nil {
			panic(err)
		}
		for _, k := range kinds {
			if v.Kind == k {
				out = append(out, v)
			}
		}
	}
	if len(out) == 0 {
		panic("no vectors")
	}
	return out
}
