package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

var (
	frameRe   = regexp.MustCompile(`(?m)^\s*(github\.com/(?:mindstand/go-bolt|jolestar/go-commons-pool)[^\s(]*(?:\(\*[A-Za-z0-9_]+\))?[^\s(]*)\(`)
	closureRe = regexp.MustCompile(`\.func\d+.*$`)
)

// Supervise runs the worker for one check and returns the exit code.
func Supervise(id, tier string, seed int64, root, filter string) int {
	ck := registry[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check", id)
		return 2
	}
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "result.json")
	self, _ := os.Executable()
	cmd := exec.Command(self, "worker", id, tier, fmt.Sprint(seed), out, filter)
	cmd.Dir = dir
	so, _ := os.Create(filepath.Join(dir, "stdout"))
	se, _ := os.Create(filepath.Join(dir, "stderr"))
	cmd.Stdout, cmd.Stderr = so, se
	cmd.Env = append(os.Environ(), "TZ=UTC", "GOTRACEBACK=all", "GORACE=halt_on_error=0 log_path="+filepath.Join(dir, "race")+" history_size=3")
	cmd.Env = append(cmd.Env, ck.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := 740 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	var werr error
	hung := false
	select {
	case werr = <-done:
	case <-time.After(limit):
		hung = true
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case werr = <-done:
		case <-time.After(20 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			werr = <-done
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	stderr, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	stdout, _ := os.ReadFile(filepath.Join(dir, "stdout"))

	var res Result
	if b, err := os.ReadFile(out); err == nil {
		json.Unmarshal(b, &res)
	}
	if res.PerKey == nil {
		res.PerKey = map[string]int{}
	}
	viols := res.Viols
	inconclusive := ""
	switch {
	case hung:
		inconclusive = "worker exceeded its time limit"
	case werr != nil && !(res.Done):
		// a crash: attribute it
		tr := crashText(string(stderr))
		if tr != "" && InLibrary(firstStack(tr)) {
			d := tr
			if len(d) > 6000 {
				d = d[:6000]
			}
			viols = append(viols, Viol{Key: "crash", Case: strings.Join(res.Running, ","), Detail: "the process died: " + d})
		} else {
			inconclusive = "worker failed: " + werr.Error()
		}
	case werr != nil && len(viols) == 0:
		// race builds exit 66 when races were found; handled below
		if ee, ok := werr.(*exec.ExitError); !ok || ee.ExitCode() != 66 {
			inconclusive = "worker failed: " + werr.Error()
		}
	}
	races, foreign := parseRaces(dir)
	for _, r := range races {
		viols = append(viols, r)
	}

	known := loadKnown(root, id)
	nviol := 0
	seenKnown := map[string]bool{}
	byKey := map[string]bool{}
	rdir := filepath.Join(root, "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, id+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	for _, v := range viols {
		if w, ok := known[v.Key]; ok {
			if !seenKnown[v.Key] {
				seenKnown[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, w)
			}
			continue
		}
		nviol++
		if byKey[v.Key] {
			continue
		}
		byKey[v.Key] = true
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, nviol))
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": id, "key": v.Key, "case": v.Case, "detail": v.Detail, "history": v.Log, "seed": seed, "tier": tier,
			"rerun": fmt.Sprintf("VERIF_SEED=%d /verif/check.sh %s %s '%s'", seed, id, tier, v.Case),
		}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		fmt.Printf("  [%s] case %s: %s\n", v.Key, v.Case, oneline(v.Detail))
	}
	for k, w := range known {
		if !seenKnown[k] && filter == "" {
			fmt.Printf("note: known finding not observed on this run: %s (%s)\n", w, k)
		}
	}

	rule := ck.Rule
	level := ck.Level
	if level == "" {
		level = "exploration"
	}
	samples := res.Samples
	if samples == nil {
		samples = []interface{}{}
	}
	cov := map[string]interface{}{
		"evaluations": res.Evals, "distinct_nontrivial": res.Distinct, "rule": rule, "samples": samples,
		"monitor_events": res.Events, "some_distinct_classes": res.Classes, "notes": res.Notes,
		"data_race_reports_in_library": len(races), "data_race_reports_in_harness": foreign,
		"violations_by_key": res.PerKey,
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ck.Assume, "wall_s": time.Since(start).Seconds(), "violations": nviol}
	if ck.Assume == nil {
		delete(ev, "assumptions")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d cases, %d distinct, events %v, %d violations, %.1fs\n", id, tier, res.Evals, res.Distinct, res.Events, nviol, time.Since(start).Seconds())
	if nviol > 0 {
		return 1
	}
	if inconclusive != "" {
		rf, _ := filepath.Glob(filepath.Join(dir, "race.*"))
		for _, f := range rf {
			b, _ := os.ReadFile(f)
			stderr = append(stderr, "\n--- "+filepath.Base(f)+"\n"+tail(string(b), 6000)...)
		}
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE: %s\nrunning: %v\n--- worker stderr\n%s\n--- worker stdout\n%s\n", inconclusive, res.Running, tail(string(stderr), 12000), tail(string(stdout), 2000))
		return 2
	}
	if filter == "" && (res.Evals == 0 || res.Distinct == 0 || res.Evals < ck.MinEvals) {
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE: observed nothing (%d cases, %d distinct)\n", res.Evals, res.Distinct)
		return 2
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func oneline(s string) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func crashText(s string) string {
	best := -1
	for _, m := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds", "unexpected fault address", "SIGSEGV"} {
		if i := strings.Index(s, m); i >= 0 && (best < 0 || i < best) {
			best = i
		}
	}
	if best < 0 {
		return ""
	}
	return s[best:]
}

// firstStack is the crash message with the stack of the crashing goroutine.
func firstStack(s string) string {
	parts := strings.Split(s, "\n\n")
	n := 0
	r := ""
	for _, p := range parts {
		r += p + "\n\n"
		if strings.Contains(p, "goroutine ") {
			n++
			if n == 1 {
				break
			}
		}
	}
	return r
}

// parseRaces reads the race detector's reports.
func parseRaces(dir string) (lib []Viol, foreign int) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	sort.Strings(files)
	seen := map[string]int{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			// the two accesses are the first two sections
			secs := strings.Split(strings.TrimSpace(blk), "\n\n")
			var fr []string
			for i := 0; i < len(secs) && i < 2; i++ {
				m := frameRe.FindStringSubmatch(secs[i])
				if m != nil {
					fr = append(fr, closureRe.ReplaceAllString(m[1], ""))
				}
			}
			if len(fr) == 0 {
				foreign++
				continue
			}
			sort.Strings(fr)
			key := "race:" + strings.Join(fr, "+")
			seen[key]++
			if seen[key] == 1 {
				d := blk
				if len(d) > 6000 {
					d = d[:6000]
				}
				lib = append(lib, Viol{Key: key, Case: "", Detail: "data race reported by the race detector: " + strings.Join(fr, " / "), Log: strings.Split(d, "\n")})
			}
		}
	}
	return
}

// loadKnown reads the known findings of a property: lines "known: property=<id> key=<key> <what>".
func loadKnown(root, id string) map[string]string {
	r := map[string]string{}
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return r
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		p := "known: property=" + id + " key="
		if strings.HasPrefix(l, p) {
			l = l[len(p):]
			if i := strings.IndexByte(l, ' '); i > 0 {
				r[l[:i]] = l[i+1:]
			}
		}
	}
	return r
}
