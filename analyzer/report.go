package main

import (
	"fmt"
	"sort"
	"strings"
)

// Report collects the obligations of one property. An obligation is keyed by
// rule and construct; it is discharged when every instance holds.
type Report struct {
	id    string
	obl   map[string]*RObl
	notes []string
	units map[string]int
	fns   map[string]bool
	known []string
}

// RObl is one obligation.
type RObl struct {
	Rule, Construct string
	Instances       int
	Fails           int
	Why             string
	Pos             string
	Undecided       bool
}

func newReport(id string) *Report {
	return &Report{id: id, obl: map[string]*RObl{}, units: map[string]int{}, fns: map[string]bool{}}
}

func (r *Report) get(rule, construct string) *RObl {
	k := rule + "|" + construct
	o := r.obl[k]
	if o == nil {
		o = &RObl{Rule: rule, Construct: construct}
		r.obl[k] = o
	}
	return o
}

// ok records an instance that holds.
func (r *Report) ok(rule, construct string) { r.get(rule, construct).Instances++ }

// fail records an instance that does not hold.
func (r *Report) fail(rule, construct, why string, a ...interface{}) {
	o := r.get(rule, construct)
	o.Instances++
	o.Fails++
	if o.Why == "" {
		o.Why = fmt.Sprintf(why, a...)
	}
}

// check records an instance.
func (r *Report) check(ok bool, rule, construct, why string, a ...interface{}) bool {
	if ok {
		r.ok(rule, construct)
	} else {
		r.fail(rule, construct, why, a...)
	}
	return ok
}

func (r *Report) unit(kind string, n int) { r.units[kind] += n }

func (r *Report) failures() []*RObl {
	var out []*RObl
	for _, o := range r.obl {
		if o.Fails > 0 {
			out = append(out, o)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].Rule+out[i].Construct < out[j].Rule+out[j].Construct
	})
	return out
}

// merge adds the obligations of s to r.
func (r *Report) merge(s *Report) {
	for k, o := range s.obl {
		t := r.obl[k]
		if t == nil {
			r.obl[k] = o
			continue
		}
		t.Instances += o.Instances
		t.Fails += o.Fails
		if t.Why == "" {
			t.Why = o.Why
		}
		if t.Pos == "" {
			t.Pos = o.Pos
		}
	}
	for k, n := range s.units {
		r.units[k] += n
	}
	for f := range s.fns {
		r.fns[f] = true
	}
	r.notes = append(r.notes, s.notes...)
}

// engine records what the interpreter itself could not resolve.
func (r *Report) engine(an *An, what string) {
	for u := range an.unres {
		r.fail("resolved", what, "construct not resolved: %s", u)
	}
	for f := range an.fns {
		r.fns[fnName(f)] = true
	}
}

func short(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
