package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is a listed defect of the repository.
type Finding struct {
	Property, Key, Text string
}

// loadFindings reads known-findings.txt: lines
//
//	finding: property=<id> key=<rule @ construct> :: <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// Only the first kind has an effect.
func loadFindings(path string) ([]Finding, error) {
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var out []Finding
	sc := bufio.NewScanner(f)
	re := regexp.MustCompile(`^finding: property=(\S+) key=(.*?) :: (.*)$`)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil {
			out = append(out, Finding{m[1], m[2], m[3]})
		}
	}
	return out, sc.Err()
}

var posRE = regexp.MustCompile(`,? ?[A-Za-z0-9_./-]+\.go:\d+(:\d+)?`)

// key identifies an obligation independently of line numbers.
func (o *RObl) key() string {
	return o.Rule + " @ " + posRE.ReplaceAllString(o.Construct, "")
}

func checkMain(id, root, repo string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := newReport(id)
	chk, ok := checks[id]
	if !ok {
		fmt.Println("no check for", id)
		return 2
	}
	w, err := load(repo)
	if err != nil {
		r.fail("loaded", "repository", "%v", err)
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.fail("analysed", "analysis", "the analysis stopped: %v", e)
					fmt.Fprintf(os.Stderr, "%v\n%s\n", e, debug.Stack())
				}
			}()
			c := &ctx{w: w, lab: newLab(w), tier: tier}
			chk.run(c, r)
		}()
	}
	findings, err := loadFindings(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		r.fail("loaded", "known-findings.txt", "%v", err)
	}
	var viol, known []*RObl
	for _, o := range r.failures() {
		listed := false
		for _, f := range findings {
			if f.Property == id && f.Key == o.key() {
				listed = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.Text)
			}
		}
		if listed {
			known = append(known, o)
		} else {
			viol = append(viol, o)
		}
	}
	writeEvidence(root, id, tier, seed, chk, r, viol, known, time.Since(start))
	ev := filepath.Join("evidence", id+".violations.txt")
	if len(viol) == 0 {
		os.Remove(filepath.Join(root, ev))
		n := 0
		for _, o := range r.obl {
			n += o.Instances
		}
		fmt.Printf("%s holds: %d obligations over %d instances, %.1fs\n", id, len(r.obl), n, time.Since(start).Seconds())
		return 0
	}
	var b strings.Builder
	for _, o := range viol {
		fmt.Fprintf(&b, "rule: %s\nconstruct: %s\nkey: %s\ninstances failing: %d of %d\n%s\n\n", o.Rule, o.Construct, o.key(), o.Fails, o.Instances, o.Why)
	}
	os.WriteFile(filepath.Join(root, ev), []byte(b.String()), 0o644)
	for _, o := range viol {
		fmt.Printf("%s: %s\n    %s\n", o.Rule, o.Construct, short(o.Why, 600))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, ev)
	return 1
}

func writeEvidence(root, id, tier string, seed int, chk Check, r *Report, viol, known []*RObl, wall time.Duration) {
	inst, disc := 0, 0
	rules := map[string]map[string]int{}
	var cons []string
	for _, o := range r.obl {
		inst += o.Instances
		if o.Fails == 0 {
			disc++
		}
		m := rules[o.Rule]
		if m == nil {
			m = map[string]int{}
			rules[o.Rule] = m
		}
		m["obligations"]++
		m["instances"] += o.Instances
		m["failing"] += o.Fails
		cons = append(cons, o.Rule+" @ "+o.Construct)
	}
	sort.Strings(cons)
	if len(cons) > 60 {
		step := len(cons) / 60
		var s []string
		for i := 0; i < len(cons); i += step + 1 {
			s = append(s, cons[i])
		}
		cons = s
	}
	var fns []string
	for f := range r.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"obligations":        len(r.obl),
		"discharged":         disc,
		"instances":          inst,
		"rules":              rules,
		"units":              r.units,
		"functions_analysed": fns,
		"samples":            cons,
		"checker_cmd":        "./check.sh " + id,
		"trusted_base":       trustedBase,
		"explanation":        chk.Explain,
	}
	if len(r.notes) > 0 {
		sort.Strings(r.notes)
		cov["notes"] = r.notes
	}
	var kf []string
	for _, o := range known {
		kf = append(kf, o.key())
	}
	if len(kf) > 0 {
		cov["known_findings"] = kf
	}
	m := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": chk.Level, "coverage": cov,
		"assumptions": append(append([]string{}, commonAssumptions...), chk.Assume...),
		"wall_s":      wall.Seconds(), "violations": len(viol),
	}
	data, _ := json.MarshalIndent(m, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(data, '\n'), 0o644)
}

var trustedBase = []string{
	"the abstract interpreter in /verif/analyzer (linear domain, partitioning, loop invariants)",
	"its models of Go library functions (analyzer/models.go)",
	"golang.org/x/tools go/packages and go/ssa, the Go type checker",
	"the property specifications in analyzer/spec_*.go and check_*.go",
}

var commonAssumptions = []string{
	"texts are shorter than 2^48 bytes; memory and stack are not exhausted",
	"the Go library functions used behave as documented",
}
