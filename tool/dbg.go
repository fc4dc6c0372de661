package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

func (x *Exec) dump(s *State) {
	if os.Getenv("VXD") == "" {
		return
	}
	fr := s.top()
	if !strings.Contains(fname(fr.fn)+fmt.Sprint(":", fr.block.Index), os.Getenv("VXD")) {
		return
	}
	x.dumped++
	if x.dumped > 60 {
		return
	}
	fmt.Println("== state", fname(fr.fn), fr.block.Index)
	var ls []string
	for v, t := range fr.env {
		ls = append(ls, "  env "+v.Name()+"="+t.String())
	}
	for a, v := range s.store {
		ls = append(ls, "  cell "+a.String()+"="+v.String())
	}
	for t, f := range s.facts {
		ls = append(ls, fmt.Sprintf("  fact %s n%d t%d eq%v neq%s %x", t, f.nilness, f.truth, f.eq, f.neq, f.dom))
	}
	for k, v := range s.ts {
		ls = append(ls, fmt.Sprintf("  ts %s=%s %s", k, v.s, v.t))
	}
	for k := range s.dirty {
		ls = append(ls, "  dirty "+k)
	}
	sort.Strings(ls)
	fmt.Println(strings.Join(ls, "\n"))
}
