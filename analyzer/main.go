package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if len(os.Args) == 5 && os.Args[1] == "check" {
		os.Exit(superviseMain(os.Args[2], os.Args[3], os.Args[4]))
	}
	if len(os.Args) == 5 && os.Args[1] == "check1" {
		os.Exit(checkMain(os.Args[2], os.Args[3], os.Args[4]))
	}
	if len(os.Args) > 1 && os.Args[1] == "manifest" {
		manifestMain()
		return
	}
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) > 1 && os.Args[1] == "debug" {
		debugMain(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "debugtools" {
		w, err := load("/repo")
		if err != nil {
			panic(err)
		}
		(&ctx{w: w, lab: newLab(w)}).toolDebug()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "debugcmd" {
		repo := os.Getenv("REPO")
		if repo == "" {
			repo = "/repo"
		}
		w, err := load(repo)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(1)
		}
		c := &ctx{w: w, lab: newLab(w), tier: "quick"}
		c.newCmdLab().debug()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "try" {
		tryMain(os.Args[2:])
		return
	}
}

func tryMain(ids []string) {
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	w, err := load(repo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	c := &ctx{w: w, lab: newLab(w), tier: "quick"}
	for _, id := range ids {
		t := time.Now()
		r := newReport(id)
		checks[id].run(c, r)
		n := 0
		for _, o := range r.obl {
			n += o.Instances
		}
		fmt.Printf("%s: %d obligations, %d instances, %d failing, units %v, %v\n", id, len(r.obl), n, len(r.failures()), r.units, time.Since(t).Round(time.Millisecond))
		for _, o := range r.failures() {
			fmt.Printf("   FAIL %s | %s (%d/%d)\n        %s\n", o.Rule, o.Construct, o.Fails, o.Instances, short(o.Why, 1500))
		}
	}
}

func debugMain(args []string) {
	t0 := time.Now()
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	w, err := load(repo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	fmt.Println("load", time.Since(t0))
	l := newLab(w)
	fmt.Println("lab", time.Since(t0), l.errs, len(l.names))
	for u := range w.initAn.unres {
		fmt.Println("  init unres", u)
	}
	verbose := os.Getenv("V") != ""
	for _, n := range l.names {
		if len(args) > 0 && args[0] != "all" {
			hit := false
			for _, a := range args {
				hit = hit || a == n
			}
			if !hit {
				continue
			}
		}
		for k := 0; k <= 4; k++ {
			t := time.Now()
			an := newAn(w)
			outs := l.runBuiltin(an, l.builtins[n], k, k == 4)
			ok, bad := 0, 0
			for _, o := range an.oblig {
				if o.Fail > 0 {
					bad++
				} else {
					ok++
				}
			}
			nf := 0
			for _, o := range outs {
				if o.ok {
					nf++
				}
			}
			if k != 4 && nf == 0 && !verbose && bad == 0 && len(an.unres) == 0 {
				continue
			}
			fmt.Printf("%s/%d: %d outcomes (%d ok) obligations %d ok %d bad, queries %d, %v\n", n, k, len(outs), nf, ok, bad, an.queries, time.Since(t).Round(time.Millisecond))
			for u := range an.unres {
				fmt.Println("   unres", u)
			}
			for _, o := range an.oblig {
				if o.Fail > 0 {
					fmt.Println("   BAD", o.Kind, o.Fn, o.Pos, o.What, "|", o.Why)
				}
			}
			for _, r := range an.loopsRun {
				fmt.Println("   loop", r.Fn, r.Pos, r.Mode, r.Rank, r.Bounded, r.Fails)
				for _, i := range r.Inv {
					fmt.Println("       inv", i)
				}
			}
			if verbose {
				for _, o := range outs {
					fmt.Println("  ->", o.out.kind, o.ok, an.showVal(o.out.st, o.ret), "err", an.showVal(o.out.st, o.err))
					for _, p := range o.post {
						fmt.Println("      text", p.st.showStr(p.obs.Text), "point", an.show(p.obs.Point), "mark", an.show(p.obs.Mark), "match", an.showVal(p.st, p.obs.Match[0]), an.showVal(p.st, p.obs.Match[1]), an.showVal(p.st, p.obs.Match[2]))
						fmt.Println("      ", p.st.describe())
					}
				}
			}
		}
	}
	fmt.Println("total", time.Since(t0))
}
