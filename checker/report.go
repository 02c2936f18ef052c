package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one violated obligation. Its Key names the rule and the
// construct (never a line number), so that it can be listed as known.
type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Detail    string `json:"detail"`
}

func (f Finding) Key() string { return f.Rule + " @ " + f.Construct }

// Report gathers what one check analysed and what it found.
type Report struct {
	Prop        string
	Findings    []Finding
	Obligations int                 // obligations raised
	Discharged  int                 // obligations discharged
	Counts      map[string]int      // what was enumerated
	Samples     map[string][]string // a few of the enumerated constructs
	Rules       []string            // the rules applied
	Assumptions []string            // what the verdict rests on
	seen        map[string]bool
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, Counts: map[string]int{}, Samples: map[string][]string{}, seen: map[string]bool{}}
}

// Count enumerates one construct analysed.
func (r *Report) Count(what, sample string) {
	r.Counts[what]++
	if len(r.Samples[what]) < 40 && sample != "" {
		for _, s := range r.Samples[what] {
			if s == sample {
				return
			}
		}
		r.Samples[what] = append(r.Samples[what], sample)
	}
}

// Oblige records an obligation and, when it does not hold, the finding.
func (r *Report) Oblige(ok bool, rule, construct, where, detail string) bool {
	r.Obligations++
	if ok {
		r.Discharged++
		return true
	}
	r.Fail(rule, construct, where, detail)
	return false
}

func (r *Report) Fail(rule, construct, where, detail string) {
	f := Finding{rule, construct, where, detail}
	k := f.Key() + "|" + where + "|" + detail
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Findings = append(r.Findings, f)
}

func (r *Report) Rule(format string, args ...any) {
	r.Rules = append(r.Rules, fmt.Sprintf(format, args...))
}
func (r *Report) Assume(format string, args ...any) {
	r.Assumptions = append(r.Assumptions, fmt.Sprintf(format, args...))
}

// add takes over what another report says.
func (r *Report) add(q *Report) {
	for _, f := range q.Findings {
		r.Fail(f.Rule, f.Construct, f.Where, f.Detail)
	}
	r.Obligations += q.Obligations
	r.Discharged += q.Discharged
	for k, n := range q.Counts {
		for _, s := range q.Samples[k] {
			r.Count(k, s)
		}
		r.Counts[k] += n - len(q.Samples[k])
	}
}

// AtLeast fails the check when an enumeration found fewer constructs than
// were confirmed by reading: a rule that matches nothing passes vacuously.
func (r *Report) AtLeast(what string, n int) {
	if r.Counts[what] < n {
		r.Fail("vacuity", what, "-", fmt.Sprintf("%d constructs enumerated, at least %d expected", r.Counts[what], n))
	}
}

// knownFindings reads the committed list. Lines:
//
//	known: property=<id> key=<rule @ construct> -- explanation
//	fixed: property=<id> <commit> <what failed>      (suppresses nothing)
func knownFindings(path, prop string) (map[string]string, error) {
	out := map[string]string{}
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		rest, ok := strings.CutPrefix(line, "known: property="+prop+" key=")
		if !ok {
			continue
		}
		key, expl, _ := strings.Cut(rest, " -- ")
		out[strings.TrimSpace(key)] = expl
	}
	return out, sc.Err()
}

// Finish writes the evidence and prints the verdict; it returns the exit code.
func (r *Report) Finish(verif string, level string, technique string, start time.Time) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	known, err := knownFindings(filepath.Join(verif, "known_findings.txt"), r.Prop)
	if err != nil {
		r.Fail("known-findings", "file", "known_findings.txt", err.Error())
	}
	var violations []Finding
	var knownHit []string
	for _, f := range r.Findings {
		if expl, ok := known[f.Key()]; ok {
			knownHit = append(knownHit, fmt.Sprintf("%s (%s) %s", f.Key(), f.Where, expl))
			continue
		}
		violations = append(violations, f)
	}
	sort.SliceStable(violations, func(i, j int) bool { return violations[i].Key() < violations[j].Key() })
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k)
	}
	evDir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	replay := filepath.Join(evDir, r.Prop+".violation.txt")
	_ = os.Remove(replay)
	coverage := map[string]any{
		"obligations": r.Obligations,
		"discharged":  r.Discharged,
		"analysed":    r.Counts,
		"constructs":  r.Samples,
		"rules":       r.Rules,
		"checker_cmd": "bin/check " + r.Prop,
		"trusted_base": []string{
			"the Go type checker and golang.org/x/tools/go/ssa",
			"the analyses in /verif/checker and their models of the standard library",
		},
		"explanation": technique,
	}
	ev := map[string]any{
		"property":    r.Prop,
		"tier":        tier,
		"seed":        seed,
		"level":       level,
		"coverage":    coverage,
		"assumptions": r.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(violations),
	}
	if r.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	data, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(evDir, r.Prop+".json"), append(data, '\n'), 0o644)
	}
	if err != nil {
		fmt.Printf("cannot write evidence: %v\n", err)
		return 2
	}
	if len(violations) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d %v\n", r.Prop, r.Obligations, r.Discharged, r.Counts)
		return 0
	}
	var b strings.Builder
	for _, f := range violations {
		fmt.Fprintf(&b, "rule:      %s\nconstruct: %s\nwhere:     %s\ndetail:    %s\n\n", f.Rule, f.Construct, f.Where, f.Detail)
	}
	_ = os.WriteFile(replay, []byte(b.String()), 0o644)
	fmt.Print(b.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}
