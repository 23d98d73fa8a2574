package core

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"
)

// SubArg tells a worker started by Sub which part it is to run.
func SubArg() string { return os.Getenv("VERIF_SUB") }

// Sub runs a part of the check in a process of its own, with extra environment, and merges what it recorded.
// It returns everything the process wrote to its standard output and error.
func (t *T) Sub(arg string, env []string, max time.Duration) (stdout, stderr string) {
	if t.Filter != "" && !strings.Contains(t.Filter, arg) && !strings.Contains(arg, t.Filter) {
		return
	}
	t.mu.Lock()
	t.running["sub "+arg] = runInfo{time.Now(), max + 30*time.Second}
	t.mu.Unlock()
	defer func() {
		t.mu.Lock()
		delete(t.running, "sub "+arg)
		t.mu.Unlock()
	}()
	dir := filepath.Dir(t.out)
	out := filepath.Join(dir, fmt.Sprintf("sub-%d.json", time.Now().UnixNano()))
	self, _ := os.Executable()
	ctx, cancel := context.WithTimeout(context.Background(), max)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "worker", t.Prop, t.Tier, fmt.Sprint(t.Seed), out, strings.TrimPrefix(t.Filter, arg))
	cmd.Env = append(append(os.Environ(), "VERIF_SUB="+arg), env...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	stdout, stderr = so.String(), se.String()
	var r Result
	if b, e := os.ReadFile(out); e == nil {
		json.Unmarshal(b, &r)
	}
	os.Remove(out)
	atomic.AddInt64(&t.evals, r.Evals)
	t.mu.Lock()
	for k, n := range r.Events {
		t.events[k] += n
	}
	for k, n := range r.Classes {
		t.distinct[arg+": "+k] += n
	}
	for _, s := range r.Samples {
		if len(t.samples) < 24 {
			t.samples = append(t.samples, s)
		}
	}
	for k, n := range r.PerKey {
		t.perKey[k] += n
	}
	for _, v := range r.Viols {
		v.Case = arg + v.Case
		t.viols = append(t.viols, v)
	}
	t.mu.Unlock()
	if err != nil && !r.Done {
		tr := crashText(stderr)
		if tr != "" && InLibrary(firstStack(tr)) {
			t.Violate("crash", arg+strings.Join(r.Running, ","), nil, "the process died: %s", tr)
		} else {
			panic(fmt.Sprintf("harness: part %s failed: %v\n%s", arg, err, tail(stderr, 8000)))
		}
	}
	return
}

// Other runs the worker of another check for at most max and returns what it wrote to its standard output and error.
// What that check found is not looked at. ended tells whether it came to its end and not by a crash.
func (t *T) Other(id string, seed int64, max time.Duration) (stdout, stderr string, evals int64, crashed bool) {
	ck := registry[id]
	if ck == nil {
		return
	}
	dir, err := os.MkdirTemp(filepath.Dir(t.out), "other-"+id+"-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "result.json")
	self, _ := os.Executable()
	cmd := exec.Command(self, "worker", id, "quick", fmt.Sprint(seed), out, "")
	cmd.Env = append(append(os.Environ(), "VERIF_SUB="), ck.Env...)
	cmd.Dir = dir
	so, _ := os.Create(filepath.Join(dir, "stdout"))
	se, _ := os.Create(filepath.Join(dir, "stderr"))
	defer so.Close()
	defer se.Close()
	cmd.Stdout, cmd.Stderr = so, se
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	killed := false
	select {
	case err = <-done:
	case <-time.After(max):
		killed = true
		cmd.Process.Kill()
		err = <-done
	}
	var r Result
	if b, e := os.ReadFile(out); e == nil {
		json.Unmarshal(b, &r)
	}
	a, _ := os.ReadFile(filepath.Join(dir, "stdout"))
	b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	return string(a), string(b), r.Evals, err != nil && !killed
}
