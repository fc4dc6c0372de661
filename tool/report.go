package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violation of a rule, keyed by rule and construct.
type Finding struct {
	Key  string   // rule + construct, independent of line numbers
	Pos  string   // file:line
	Msg  string   // what is wrong
	Path []string // path through the program, for path rules
}

// Report collects what one rule looked at and what it found.
type Report struct {
	ID       string
	Findings []Finding
	Counts   map[string]int // instances by kind
	Mins     map[string]int
	Funcs    map[*ssa.Function]bool
	Sites    []string
	Rules    []string
	Assume   []string
	seen     map[string]bool
	states   int
	steps    int
	seenSite map[string]bool
}

func newReport(id string) *Report {
	return &Report{ID: id, Counts: map[string]int{}, Mins: map[string]int{}, Funcs: map[*ssa.Function]bool{}, seen: map[string]bool{}, seenSite: map[string]bool{}}
}

// rule records the rule text applied.
func (r *Report) rule(format string, a ...interface{}) {
	r.Rules = append(r.Rules, fmt.Sprintf(format, a...))
}

func (r *Report) assume(format string, a ...interface{}) {
	r.Assume = append(r.Assume, fmt.Sprintf(format, a...))
}

// site counts an instance of the rule once per construct.
func (r *Report) site(kind, where string) {
	k := kind + " " + where
	if r.seenSite[k] {
		return
	}
	r.seenSite[k] = true
	r.Counts[kind]++
	r.Sites = append(r.Sites, k)
}

// min is the number of instances confirmed by hand: fewer means that the rule lost its anchor.
func (r *Report) min(kind string, n int) { r.Mins[kind] = n }

func (r *Report) fail(key, pos, format string, a ...interface{}) {
	r.failPath(key, pos, nil, format, a...)
}

func (r *Report) failPath(key, pos string, path []string, format string, a ...interface{}) {
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.Findings = append(r.Findings, Finding{Key: key, Pos: pos, Msg: fmt.Sprintf(format, a...), Path: path})
}

func (r *Report) exec(x *Exec) {
	r.states += x.States
	r.steps += x.Steps
	for f := range x.Inlined {
		r.Funcs[f] = true
	}
}

func (r *Report) funcs(fs ...*ssa.Function) {
	for _, f := range fs {
		r.Funcs[f] = true
	}
}

func (r *Report) finish() {
	var ks []string
	for k := range r.Mins {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if r.Counts[k] < r.Mins[k] {
			r.fail("lost-anchor "+k, "-", "only %d instances of %q were found, %d were confirmed: the rule has lost its anchor and decides nothing", r.Counts[k], k, r.Mins[k])
		}
	}
	sort.SliceStable(r.Findings, func(i, j int) bool { return len(r.Findings[i].Path) < len(r.Findings[j].Path) })
}

func (f Finding) text() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s: %s\n  instance: %s\n", f.Pos, f.Msg, f.Key)
	for _, l := range f.Path {
		fmt.Fprintf(&sb, "    %s\n", l)
	}
	return sb.String()
}
