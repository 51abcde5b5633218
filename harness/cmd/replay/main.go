// Command replay runs harness cases natively: the solver's assignment becomes
// an ordinary execution of the real code.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	"verif/harness/vf"
)

type kase struct {
	Harness  string  `json:"harness"`
	Thorough bool    `json:"thorough"`
	Inputs   []vf.In `json:"inputs"`
	Obs      []vf.Ob `json:"obs"`
}

type result struct {
	Code int    `json:"code"`
	Msg  string `json:"msg"`
}

func runCase(k kase) (r result) {
	f := harnesses[k.Harness]
	if f == nil {
		return result{6, "no harness " + k.Harness}
	}
	defer func() {
		switch x := recover().(type) {
		case nil:
			if kf := vf.KnownHit(); kf != "" {
				r = result{5, "known finding " + kf}
			}
		case vf.Stop:
			r = result{x.Code, x.Msg}
			if x.Code == 6 && vf.KnownHit() != "" {
				r = result{5, "known finding " + vf.KnownHit()}
			}
		default:
			r = result{3, fmt.Sprintf("panic: %v\n%s", x, debug.Stack())}
		}
	}()
	vf.Begin(k.Inputs, k.Thorough)
	f()
	return result{}
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: replay case FILE | replay batch FILE")
		os.Exit(64)
	}
	debug.SetMaxStack(256 << 20)
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(64)
	}
	switch os.Args[1] {
	case "case":
		var k kase
		if err := json.Unmarshal(b, &k); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(64)
		}
		r := runCase(k)
		fmt.Println(r.Msg)
		os.Exit(r.Code)
	case "batch":
		var ks []kase
		if err := json.Unmarshal(b, &ks); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(64)
		}
		enc := json.NewEncoder(os.Stdout)
		for _, k := range ks {
			r := runCase(k)
			if r.Code == 0 || r.Code == 5 {
				ob := vf.Observed()
				if len(ob) != len(k.Obs) {
					r = result{7, fmt.Sprintf("%d observations, encoding has %d", len(ob), len(k.Obs))}
				} else {
					for i := range ob {
						if ob[i] != k.Obs[i] {
							r = result{7, fmt.Sprintf("observation %d: real %v, encoding %v", i, ob[i], k.Obs[i])}
							break
						}
					}
				}
			}
			enc.Encode(r)
		}
	}
}
