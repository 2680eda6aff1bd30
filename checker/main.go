package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) >= 5 && os.Args[1] == "run" {
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		if len(os.Args) > 5 {
			tier = os.Args[5]
		}
		os.Exit(runProperty(os.Args[2], os.Args[3], os.Args[4], tier))
	}
	if len(os.Args) >= 3 && os.Args[1] == "grammar" {
		p, err := loadProg(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		r := &Rep{p: p}
		for _, g := range r.grammar().rules {
			fmt.Println(g.name, "=", g.expr.show(0))
		}
		return
	}
	if len(os.Args) >= 3 && os.Args[1] == "points" {
		devPoints(os.Args[2])
		return
	}
	if len(os.Args) >= 3 && os.Args[1] == "block" {
		blockDump(os.Args[2])
		return
	}
	if len(os.Args) >= 3 && os.Args[1] == "sem" {
		semDump(os.Args[2], strings.Join(os.Args[3:], " "))
		return
	}
	if len(os.Args) >= 3 && os.Args[1] == "align" {
		alignDump(os.Args[2])
		return
	}
	if len(os.Args) >= 4 && os.Args[1] == "dump" {
		p, err := loadProg(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, fn := range p.funcs {
			if strings.HasSuffix(fn.String(), os.Args[3]) {
				e := p.newExec()
				e.hazards = true
				dumpFn(e, fn)
			}
		}
		return
	}
}

func dumpFn(e *Exec, fn *ssa.Function) {
	fmt.Println("=====", fn)
	var args []*T
	for _, pa := range fn.Params {
		args = append(args, mkSym(pa.Name(), pa.Type()))
	}
	outs := e.Call(fn, args, nil, newSt(), nil, nil)
	dumpOuts(outs)
	for _, u := range e.undec {
		fmt.Println("UNDEC", u)
	}
}

func dumpOuts(outs []Outcome) {
	seen := map[*Loop]bool{}
	var q []*Loop
	note := func(t *T) {
		walkTerm(t, func(x *T) bool {
			if x.lp != nil && !seen[x.lp] {
				seen[x.lp] = true
				q = append(q, x.lp)
			}
			return true
		})
	}
	showEv := func(evs []*Ev) {
		for _, ev := range evs {
			fmt.Println("     ev", ev)
			if ev.lp != nil && !seen[ev.lp] {
				seen[ev.lp] = true
				q = append(q, ev.lp)
			}
			for _, a := range ev.args {
				if a != nil {
					note(a)
				}
			}
		}
	}
	for i, o := range outs {
		fmt.Printf(" #%d kind=%d facts=%s\n", i, o.kind, factsString(o.st.facts))
		for _, v := range o.vals {
			fmt.Println("     val", v)
			note(v)
		}
		if o.pan != nil {
			fmt.Println("     panic", o.pan)
		}
		showEv(o.st.ev)
	}
	for len(q) > 0 {
		l := q[0]
		q = q[1:]
		fmt.Printf("  loop %d in %s heads=%d K=%s\n", l.id, l.fn.Name(), len(l.heads), l.K)
		for _, c := range l.comps {
			fmt.Println("    comp", c.key, "mode", c.mode, "step", c.step, "init", c.init)
		}
		for _, h := range l.heads {
			fmt.Println("    head", h.idx, h.vals, h.flags, factsString(h.carry))
		}
		for _, t := range l.trans {
			fmt.Printf("    %d->%d facts=%s\n", t.from, t.to, factsString(t.facts))
			for k, v := range t.emit {
				fmt.Println("       emit", k, v)
				for _, x := range v {
					note(x)
				}
			}
			showEv(t.ev)
		}
	}
}
