package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Rule decides one property.
type Rule struct {
	ID    string
	Title string
	Run   func(p *Prog, r *Report)
}

var rules []Rule

func register(id, title string, run func(p *Prog, r *Report)) {
	rules = append(rules, Rule{id, title, run})
}

func main() {
	repo := flag.String("repo", "/repo", "root of the repository")
	prop := flag.String("property", "", "property to decide, or all")
	out := flag.String("out", "/verif", "directory holding evidence/")
	knownDir := flag.String("known", "/verif", "directory holding known-findings.txt")
	verbose := flag.Bool("v", false, "print the sites")
	flag.Parse()

	start := time.Now()
	p, lerr := Load(*repo)
	code := 0
	for _, ru := range rules {
		if *prop != "all" && !contains(strings.Split(*prop, ","), ru.ID) {
			continue
		}
		t0 := time.Now()
		if *prop != "all" {
			t0 = start
		}
		r := newReport(ru.ID)
		if lerr != nil {
			r.fail("load", "-", "the repository could not be loaded and type-checked: %v", lerr)
		} else {
			runRule(p, ru, r)
		}
		if finish(ru, r, *out, *knownDir, time.Since(t0), *verbose) {
			code = 1
		}
	}
	os.Exit(code)
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

func runRule(p *Prog, ru Rule, r *Report) {
	defer func() {
		if e := recover(); e != nil {
			if ce, ok := e.(checkError); ok {
				r.fail("undecided: "+string(ce), "-", "the rule could not be decided: %s", string(ce))
				return
			}
			r.fail("internal", "-", "the analyser failed: %v\n%s", e, debug.Stack())
		}
	}()
	ru.Run(p, r)
	r.finish()
}

// knownFindings reads the committed list of recorded defects: "known: property=<id> key=<key> :: text".
func knownFindings(dir, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		rest := strings.TrimPrefix(l, pre)
		if i := strings.Index(rest, " :: "); i >= 0 {
			out[rest[:i]] = rest[i+4:]
		}
	}
	return out
}

func finish(ru Rule, r *Report, dir, knownDir string, wall time.Duration, verbose bool) bool {
	known := knownFindings(knownDir, ru.ID)
	var viol []Finding
	var knownHit []string
	for _, f := range r.Findings {
		if t, ok := known[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", ru.ID, t, f.Pos)
			knownHit = append(knownHit, f.Key)
			continue
		}
		viol = append(viol, f)
	}
	var fns []string
	for _, f := range sortedFuncs(r.Funcs) {
		fns = append(fns, fname(f))
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	sort.Strings(r.Sites)
	sites := r.Sites
	if len(sites) > 200 {
		sites = sites[:200]
	}
	total := 0
	for _, n := range r.Counts {
		total += n
	}
	cov := map[string]interface{}{
		"explanation":        strings.Join(r.Rules, " "),
		"obligations":        total,
		"discharged":         total - min(total, len(r.Findings)),
		"instances":          r.Counts,
		"minimum_instances":  r.Mins,
		"functions_analysed": len(fns),
		"functions":          fns,
		"sites":              sites,
		"findings_known":     knownHit,
	}
	if r.steps > 0 {
		cov["dataflow_states"] = r.states
		cov["dataflow_steps"] = r.steps
	}
	var vs []string
	for _, f := range viol {
		vs = append(vs, f.text())
	}
	if len(vs) > 0 {
		cov["violations"] = vs
	}
	ev := map[string]interface{}{
		"property": ru.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": r.Assume, "wall_s": wall.Seconds(), "violations": len(viol),
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	evd := filepath.Join(dir, "evidence")
	_ = os.MkdirAll(evd, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(evd, ru.ID+".json"), append(b, '\n'), 0644)
	if verbose {
		for _, s := range r.Sites {
			fmt.Println("  site:", s)
		}
	}
	if len(viol) == 0 {
		fmt.Printf("ok property=%s instances=%v functions=%d wall=%.1fs\n", ru.ID, r.Counts, len(fns), wall.Seconds())
		return false
	}
	rep := filepath.Join(evd, ru.ID+".violation.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\n\n", ru.ID, ru.Title)
	for _, f := range viol {
		sb.WriteString(f.text())
		sb.WriteByte('\n')
	}
	_ = os.WriteFile(rep, []byte(sb.String()), 0644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", ru.ID, rep)
	return true
}
