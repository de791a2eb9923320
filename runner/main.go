// Command vrun builds the harness of one property from the working tree of the repository (through an
// overlay, nothing is written there), runs it, and reports.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const modulePath = "github.com/r3volut1oner/go-karbo"

type violation struct {
	Msg  string `json:"msg"`
	Case string `json:"case"`
	Info string `json:"info"`
}

type result struct {
	Property   string                 `json:"property"`
	Violations []violation            `json:"violations"`
	Findings   []string               `json:"findings"`
	Coverage   map[string]interface{} `json:"coverage"`
	Exhaustive bool                   `json:"exhaustive"`
	Done       bool                   `json:"done"`
	phase      string
}

func fatal(f string, a ...interface{}) {
	fmt.Printf("CHECK-ERROR "+f+"\n", a...)
	os.Exit(2)
}

var (
	verifDir = os.Getenv("VERIF_DIR")
	repo     = os.Getenv("REPO")
	scratch  = os.Getenv("VERIF_SCRATCH")
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vrun ID [tier]")
	}
	id := os.Args[1]
	if id == "specs" {
		out := map[string]interface{}{}
		for k, x := range specs {
			out[k] = map[string]string{"technique": x.technique, "rule": x.rule, "bounds": x.bounds, "note": x.note}
		}
		b, _ := json.Marshal(out)
		os.Stdout.Write(b)
		return
	}
	if id == "manifest" {
		manifest()
		return
	}
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	spec, ok := specs[id]
	if !ok {
		fatal("unknown property %s", id)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()

	var all []*result
	var viol []violation
	phaseCov := map[string]interface{}{}
	for _, ph := range spec.phases {
		if one := os.Getenv("VERIF_ONLY"); one != "" && one != ph.name {
			continue // for work on one phase
		}
		r := runPhase(id, tier, ph)
		r.phase = ph.name
		all = append(all, r)
		viol = append(viol, r.Violations...)
		if len(viol) > 0 {
			break
		}
	}

	// Merge the coverage: counts add up, the rest is kept per phase.
	merged := map[string]interface{}{}
	exhaustive := true
	var samples []interface{}
	sums := map[string]float64{}
	findings := map[string]bool{}
	for _, r := range all {
		exhaustive = exhaustive && r.Exhaustive
		rest := map[string]interface{}{}
		for k, v := range r.Coverage {
			switch k {
			case "evaluations", "distinct", "transitions", "traces":
				if f, ok := v.(float64); ok {
					sums[k] += f
				}
			case "samples":
				if s, ok := v.([]interface{}); ok {
					samples = append(samples, s...)
				}
			default:
				rest[k] = v
			}
		}
		if len(rest) > 0 {
			phaseCov[r.phase] = rest
		}
		for _, f := range r.Findings {
			findings[f] = true
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none: the run ended before a sample was taken")
	}
	merged["samples"] = samples
	merged["exhaustive"] = exhaustive
	merged["bounds"] = spec.bounds
	merged["details"] = phaseCov
	switch spec.level {
	case "model_checking":
		merged["states"] = int64(sums["distinct"])
		merged["transitions"] = int64(sums["transitions"])
		merged["traces_validated_against_impl"] = int64(sums["traces"])
		if sums["evaluations"] > 0 {
			merged["comparisons"] = int64(sums["evaluations"])
		}
	default:
		merged["evaluations"] = int64(sums["evaluations"])
		merged["distinct_nontrivial"] = int64(sums["distinct"])
		merged["rule"] = spec.rule
	}
	ev := map[string]interface{}{
		"property":    id,
		"tier":        tier,
		"seed":        seed,
		"level":       spec.level,
		"coverage":    merged,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viol),
		"assumptions": spec.assumptions,
	}
	evDir := filepath.Join(verifDir, "evidence")
	_ = os.MkdirAll(evDir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, id+".json"), append(b, '\n'), 0644); err != nil {
		fatal("evidence: %s", err)
	}

	if len(viol) > 0 {
		replayDir := filepath.Join(evDir, "replay")
		_ = os.MkdirAll(replayDir, 0755)
		path := filepath.Join(replayDir, id+".json")
		rb, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": tier, "violations": viol}, "", " ")
		_ = os.WriteFile(path, append(rb, '\n'), 0644)
		for _, v := range viol {
			fmt.Printf("  %s\n  case: %s\n", v.Msg, clip(v.Case, 2000))
			if v.Info != "" {
				fmt.Printf("  %s\n", clip(v.Info, 3000))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		os.Exit(1)
	}
	var fs []string
	for f := range findings {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, knownText(id, f))
	}
	fmt.Printf("OK property=%s tier=%s wall=%.1fs %s\n", id, tier, time.Since(start).Seconds(), summary(merged))
}

func summary(m map[string]interface{}) string {
	var s []string
	for _, k := range []string{"states", "transitions", "traces_validated_against_impl", "comparisons", "evaluations", "distinct_nontrivial", "exhaustive"} {
		if v, ok := m[k]; ok {
			s = append(s, fmt.Sprintf("%s=%v", k, v))
		}
	}
	return strings.Join(s, " ")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// known_findings.txt: lines "finding: property=<id> key=<key> <text>" and "fixed: property=<id> <commit> <text>".
func knownLines(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "finding:" || f[1] != "property="+id || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		out[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[2:], " ")
	}
	return out
}

func knownText(id, key string) string { return knownLines(id)[key] }

func runPhase(id, tier string, ph phase) *result {
	dir := filepath.Join(scratch, ph.name)
	if err := os.MkdirAll(filepath.Join(dir, "cwd"), 0755); err != nil {
		fatal("%s", err)
	}
	bin := buildPhase(ph, dir)
	out := filepath.Join(dir, "result.json")
	soft, hard := ph.softQuick, 0
	if soft == 0 {
		soft = 150
	}
	if tier == "thorough" {
		soft = ph.softThorough
		if soft == 0 {
			soft = 700
		}
	}
	hard = soft + 330
	if tier != "thorough" && hard > 700 {
		hard = 700
	}
	var keys []string
	for k := range knownLines(id) {
		keys = append(keys, k)
	}
	args := []string{"-test.run=^TestVerif$", "-test.timeout=0", "-test.v=false"}
	limit := ""
	if !ph.race {
		limit = "ulimit -v 25165824; "
	}
	sh := limit + "exec \"$@\""
	cmd := exec.Command("/bin/bash", append([]string{"-c", sh, "sh", bin}, args...)...)
	cmd.Dir = filepath.Join(dir, "cwd")
	journal := filepath.Join(dir, "journal")
	cmd.Env = append(os.Environ(),
		"VERIF_OUT="+out, "VERIF_TIER="+tier, "VERIF_JOURNAL="+journal,
		"VERIF_SOFT_SECS="+strconv.Itoa(soft), "VERIF_KNOWN="+strings.Join(keys, "\n"), "VERIF_PHASE="+ph.name,
		"GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all",
		"VERIF_CWD="+cmd.Dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	logf, _ := os.Create(filepath.Join(dir, "log"))
	cmd.Stdout, cmd.Stderr = logf, logf
	if err := cmd.Start(); err != nil {
		fatal("start: %s", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	var werr error
	select {
	case werr = <-done:
	case <-time.After(time.Duration(hard) * time.Second):
		timedOut = true
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case werr = <-done:
		case <-time.After(5 * time.Second):
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			werr = <-done
		}
	}
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	logf.Close()
	logb, _ := os.ReadFile(filepath.Join(dir, "log"))
	if os.Getenv("VERIF_LOG") != "" {
		os.Stdout.Write(logb)
	}
	var r result
	if b, err := os.ReadFile(out); err == nil {
		if err := json.Unmarshal(b, &r); err != nil {
			fatal("result: %s", err)
		}
		if r.Done || len(r.Violations) > 0 {
			if r.Coverage == nil {
				r.Coverage = map[string]interface{}{}
			}
			return &r
		}
	}
	// The harness died: a crash, a fatal runtime error, a race or a hang in the code under test.
	r.Property = id
	r.Coverage = map[string]interface{}{}
	what := fmt.Sprintf("the process running the case died (%v)", werr)
	if timedOut {
		what = "the process running the case does not finish"
	}
	if bytes.Contains(logb, []byte("WARNING: DATA RACE")) {
		what = "data race"
	}
	text := string(logb)
	for _, mark := range []string{"WARNING: DATA RACE", "fatal error:", "panic:", "deadlock"} {
		if i := strings.Index(text, mark); i >= 0 {
			text = text[i:]
			break
		}
	}
	r.Violations = append(r.Violations, violation{Msg: what, Case: readJournal(journal), Info: clip(text, 6000)})
	return &r
}

func readJournal(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return "(no journal)"
	}
	var s []string
	for off := 0; off+4096 <= len(b); off += 4096 {
		n := int(b[off]) | int(b[off+1])<<8
		if n > 0 && n <= 4088 {
			s = append(s, string(b[off+8:off+8+n]))
		}
	}
	return strings.Join(s, " || ")
}

// manifest writes MANIFEST.json from the table of checks.
func manifest() {
	var ids []string
	for id := range specs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var checks []interface{}
	for _, id := range ids {
		s := specs[id]
		checks = append(checks, map[string]interface{}{
			"property":      id,
			"quick_cmd":     "bash bin/check.sh " + id + " quick",
			"thorough_cmd":  "bash bin/check.sh " + id + " thorough",
			"technique":     s.technique,
			"level":         s.level,
			"level_note":    s.note,
			"evidence_file": "evidence/" + id + ".json",
		})
	}
	m := map[string]interface{}{
		"version":        1,
		"setup_cmd":      "bash bin/setup.sh",
		"checks":         checks,
		"not_applicable": notApplicable,
		"notes":          "Every check builds its harness from the working tree of /repo through go's -overlay; nothing is written to /repo. Instrumented copies (scheduler, virtual network, map order) are made at check time, so no hooks are committed in /repo. See DESIGN.md.",
	}
	b, _ := json.MarshalIndent(m, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "MANIFEST.json"), append(b, '\n'), 0644); err != nil {
		fatal("%s", err)
	}
}
