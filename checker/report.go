package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one reported construct.
type Finding struct {
	Rule string
	Key  string // construct: function, field, call site (never a line number)
	Msg  string
	Pos  string
}

// Report collects what one property's check analysed and found.
type Report struct {
	ID       string
	Tier     string
	Start    time.Time
	Oblig    map[string]int // rule -> obligations discharged or failed
	Floors   map[string]int // rule -> minimum number of obligations
	Finds    []Finding
	seen     map[string]bool
	Funcs    map[string]bool
	Extra    map[string]any
	Rules    []string
	Assume   []string
	Variants []string
	Samples  map[string][]string
}

func newReport(id, tier string) *Report {
	return &Report{ID: id, Tier: tier, Start: time.Now(), Oblig: map[string]int{}, Floors: map[string]int{}, seen: map[string]bool{},
		Funcs: map[string]bool{}, Extra: map[string]any{}, Samples: map[string][]string{}}
}

// ok records one obligation of a rule; construct names it.
func (r *Report) ob(rule, construct string) {
	r.Oblig[rule]++
	if len(r.Samples[rule]) < 5 {
		r.Samples[rule] = append(r.Samples[rule], construct)
	}
}

func (r *Report) floor(rule string, n int) { r.Floors[rule] = n }

func (r *Report) fail(rule, key, pos, format string, args ...any) {
	k := rule + "|" + key
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Finds = append(r.Finds, Finding{rule, key, fmt.Sprintf(format, args...), pos})
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		if d := filepath.Dir(filepath.Dir(exe)); fileExists(filepath.Join(d, "properties.jsonl")) {
			return d
		}
	}
	return "/verif"
}

func fileExists(p string) bool { _, err := os.Stat(p); return err == nil }

// known findings: "finding: property=<id> key=<rule|construct> <description>"
func knownFindings(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" key=")
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		out[rest[:i]] = rest[i+4:]
	}
	return out
}

// finish prints the verdict, writes the evidence and returns the exit code.
func (r *Report) finish() int {
	for rule, n := range r.Floors {
		if r.Oblig[rule] < n {
			r.fail("coverage", rule, "", "only %d instances of rule %q were found, at least %d are expected: the rule no longer sees the code it is about", r.Oblig[rule], rule, n)
		}
	}
	known := knownFindings(r.ID)
	sort.SliceStable(r.Finds, func(i, j int) bool {
		return r.Finds[i].Rule+r.Finds[i].Key < r.Finds[j].Rule+r.Finds[j].Key
	})
	var viol []Finding
	for _, f := range r.Finds {
		if d, ok := known[f.Rule+"|"+f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.ID, f.Key, d)
			continue
		}
		viol = append(viol, f)
	}
	total := 0
	for _, n := range r.Oblig {
		total += n
	}
	ev := map[string]any{
		"property": r.ID,
		"tier":     r.Tier,
		"seed":     seed(),
		"level":    "other",
		"coverage": map[string]any{
			"explanation":          "Static analysis of the type-checked program (SSA form) of /repo's current source; nothing of the repository is executed. Rules: " + strings.Join(r.Rules, " "),
			"build_variants":       r.Variants,
			"functions_analysed":   len(r.Funcs),
			"obligations":          total,
			"obligations_per_rule": r.Oblig,
			"minimum_per_rule":     r.Floors,
			"sample_constructs":    r.Samples,
			"details":              r.Extra,
		},
		"wall_s":      time.Since(r.Start).Seconds(),
		"violations":  len(viol),
		"assumptions": r.Assume,
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if b, err := json.MarshalIndent(ev, "", "  "); err == nil {
		os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644)
	}
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d variants=%s\n", r.ID, total, len(r.Funcs), strings.Join(r.Variants, ","))
		return 0
	}
	replay := filepath.Join(dir, r.ID+".violations.txt")
	var b strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&b, "%s: [%s] %s: %s\n", f.Pos, f.Rule, f.Key, f.Msg)
	}
	os.WriteFile(replay, []byte(b.String()), 0o644)
	fmt.Print(b.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
	return 1
}

func seed() int {
	n := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}
