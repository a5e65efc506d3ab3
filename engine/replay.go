package main

import (
	"bytes"
	"context"
	"encoding/json"
	"os/exec"
	"time"
)

type NativeResult struct {
	Outcome string   `json:"outcome"`
	Panic   string   `json:"panic,omitempty"`
	Failed  []string `json:"failed,omitempty"`
	Reached []string `json:"reached,omitempty"`
	Obs     []ObsVal `json:"obs,omitempty"`
}

// Native runs one vector against the real code.
func (ld *Loaded) Native(v Vector, timeout time.Duration) NativeResult {
	js, _ := json.Marshal(v)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, ld.vrun)
	cmd.Dir = ld.work
	cmd.Env = []string{"PATH=/nonexistent", "HOME=/nonexistent", "GOMEMLIMIT=2GiB"}
	cmd.Stdin = bytes.NewReader(js)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		return NativeResult{Outcome: "hang"}
	}
	var r NativeResult
	if e := json.Unmarshal(out.Bytes(), &r); e != nil {
		msg := errb.String()
		if len(msg) > 400 {
			msg = msg[:400]
		}
		if err != nil {
			return NativeResult{Outcome: "crash", Panic: msg}
		}
		return NativeResult{Outcome: "error", Panic: e.Error()}
	}
	return r
}

// confirms reports whether a native run shows the candidate violation.
func (r NativeResult) confirms(label string) bool {
	switch label {
	case "panic":
		return r.Outcome == "panic" || r.Outcome == "crash"
	case "hang":
		return r.Outcome == "hang"
	}
	if r.Outcome == "assume" || r.Outcome == "missing" {
		return false
	}
	for _, f := range r.Failed {
		if f == label {
			return true
		}
	}
	return false
}
