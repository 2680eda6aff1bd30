package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Detail    string `json:"detail"`
}

func (f Finding) key() string { return f.Rule + " " + f.Construct }

// Rep collects the obligations of one property.
type Rep struct {
	prop     string
	p        *Prog
	tier     string
	ok       []string
	bad      []Finding
	badSet   map[string]bool
	counts   map[string]int
	floors   map[string][2]int
	funcs    map[string]bool
	notes    []string
	known    []Finding
	gram     *gtable
	gramPtr  *T
	vmr      *vmRoles
	semt     *semTab
	visits   map[*ssa.Function]*visiting
	cmds     map[string]*command
	cmdEntry *ssa.Function
	cmdExec  *Exec
	cmdOuts  []Outcome
	assume   []string
	expl     string
	nevers   map[*ssa.Function]bool
	lent     []string // rules (and constructs) of another property that count here
}

// borrow applies rules of another property this one rests on; only the named ones, possibly limited to constructs, count.
func (r *Rep) borrow(rules func(r *Rep), names ...string) {
	r.lent = names
	defer func() { r.lent = nil }()
	rules(r)
}

func (r *Rep) counts4(rule, construct string) bool {
	if r.lent == nil || rule == "undecided" {
		return true
	}
	for _, n := range r.lent {
		if n == rule || strings.HasPrefix(n, rule+" ") && strings.HasPrefix(rule+" "+construct, n) || rule == "instances" && strings.Fields(n)[0] == construct {
			return true
		}
	}
	return false
}

func (r *Rep) pass(rule, f string, a ...any) {
	if !r.counts4(rule, fmt.Sprintf(f, a...)) {
		return
	}
	r.ok = append(r.ok, rule+": "+fmt.Sprintf(f, a...))
	r.counts[rule]++
}

func (r *Rep) fail(rule, construct, where, f string, a ...any) {
	if !r.counts4(rule, construct) {
		return
	}
	fd := Finding{rule, construct, where, clip(fmt.Sprintf(f, a...), 1500)}
	r.counts[rule]++
	if r.badSet[fd.key()] {
		return
	}
	r.badSet[fd.key()] = true
	r.bad = append(r.bad, fd)
}

// check records one obligation.
func (r *Rep) check(ok bool, rule, construct, where, f string, a ...any) bool {
	if ok {
		r.pass(rule, "%s", construct)
	} else {
		r.fail(rule, construct, where, f, a...)
	}
	return ok
}

// floor demands that a rule had at least n instances.
func (r *Rep) floor(rule string, n int) {
	for _, l := range r.lent {
		if strings.HasPrefix(l, rule+" ") {
			n = 1 // a part of the rule only
		}
	}
	if r.lent != nil && !r.counts4("instances", rule) {
		return
	}
	r.floors[rule] = [2]int{r.counts[rule], n}
	if r.counts[rule] < n {
		r.fail("instances", rule, "", "rule %s was applied to %d constructs, at least %d were confirmed when it was written; its anchors no longer resolve", rule, r.counts[rule], n)
	}
}

func (r *Rep) note(f string, a ...any) { r.notes = append(r.notes, fmt.Sprintf(f, a...)) }

func clip(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "..."
	}
	return s
}

// exec returns a fresh interpreter; done reports its unresolved constructs.
func (r *Rep) exec() *Exec {
	e := r.p.newExec()
	return e
}

func (r *Rep) done(rule string, e *Exec, fn string) {
	for f := range e.visited {
		r.funcs[f.String()] = true
	}
	for _, u := range e.undec {
		r.fail("undecided", rule+"/"+fn, "", "the analysis cannot decide this construct: %s", u)
	}
}

func (r *Rep) where(pos token.Pos) string { return r.p.pos(pos) }

func (r *Rep) fnWhere(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return r.p.pos(fn.Pos())
}

// symArgs gives symbolic arguments for a function.
func symArgs(fn *ssa.Function) []*T {
	var args []*T
	for _, pa := range fn.Params {
		args = append(args, mkSym(pa.Name(), pa.Type()))
	}
	return args
}

type anchorError string

// need stops the rule when an anchor is missing.
func need[X any](v *X, what string) *X {
	if v == nil {
		panic(anchorError(what))
	}
	return v
}

func needType(t types.Type, what string) types.Type {
	if t == nil {
		panic(anchorError(what))
	}
	return t
}

type rule struct {
	id   string
	run  func(r *Rep)
	expl string
	ass  []string
}

var rules = map[string]*rule{}

func register(id, expl string, run func(r *Rep), assumptions ...string) {
	rules[id] = &rule{id, run, expl, assumptions}
}

type knownEntry struct{ prop, key, text string }

func readKnown(file string) []knownEntry {
	var out []knownEntry
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		prop, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimPrefix(strings.TrimSpace(rest), "key=")
		key, text, _ := strings.Cut(rest, " | ")
		out = append(out, knownEntry{prop, strings.TrimSpace(key), strings.TrimSpace(text)})
	}
	return out
}

// runProperty runs the rules of a property and prints the verdict. It returns the exit status.
func runProperty(id, dir, vdir, tier string) (status int) {
	start := time.Now()
	r := &Rep{prop: id, tier: tier, counts: map[string]int{}, floors: map[string][2]int{}, funcs: map[string]bool{}, badSet: map[string]bool{}}
	ru := rules[id]
	func() {
		defer func() {
			if x := recover(); x != nil {
				if a, ok := x.(anchorError); ok {
					r.fail("anchor", string(a), "", "the construct this rule is anchored on cannot be found in the source: %s", string(a))
					return
				}
				if os.Getenv("CHK_DEBUG") != "" {
					panic(x)
				}
				r.fail("analysis", "internal", "", "the analysis stopped: %v", x)
			}
		}()
		if ru == nil {
			panic(anchorError("no rule for property " + id))
		}
		p, err := loadProg(dir)
		if err != nil {
			r.fail("load", "repository", dir, "%v", err)
			return
		}
		r.p = p
		for _, e := range p.initErr {
			r.fail("undecided", "package initialisation", "", "%s", e)
		}
		ru.run(r)
	}()
	known := readKnown(filepath.Join(vdir, "known_findings.txt"))
	var viol []Finding
	for _, f := range r.bad {
		hit := false
		for _, k := range known {
			if k.prop == id && k.key == f.key() {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				hit = true
				break
			}
		}
		if hit {
			r.known = append(r.known, f)
		} else {
			viol = append(viol, f)
		}
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].key() < viol[j].key() })
	obl := len(r.ok) + len(r.bad)
	fmt.Printf("property %s: %d obligations, %d discharged, %d known findings, %d violations; %d functions analysed\n",
		id, obl, len(r.ok), len(r.known), len(viol), len(r.funcs))
	for _, k := range sortedKeys(r.counts) {
		fmt.Printf("  rule %-34s %4d constructs\n", k, r.counts[k])
	}
	for _, n := range r.notes {
		fmt.Println("  note", n)
	}
	wall := time.Since(start).Seconds()
	var fns []string
	for k := range r.funcs {
		fns = append(fns, k)
	}
	sort.Strings(fns)
	samples := r.ok
	if len(samples) > 40 {
		samples = samples[:40]
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":        ruExpl(ru),
			"obligations":        obl,
			"discharged":         len(r.ok),
			"known_findings":     r.known,
			"constructs_by_rule": r.counts,
			"minimum_instances":  r.floors,
			"functions_analysed": fns,
			"samples":            samples,
			"notes":              r.notes,
		},
		"assumptions": ruAss(ru),
		"violations":  len(viol),
		"wall_s":      wall,
	}
	os.MkdirAll(filepath.Join(vdir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	evPath := filepath.Join(vdir, "evidence", id+".json")
	if err := os.WriteFile(evPath, append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if len(viol) == 0 {
		fmt.Printf("OK property=%s\n", id)
		return 0
	}
	rp := filepath.Join(vdir, "evidence", id+".violations.json")
	vb, _ := json.MarshalIndent(viol, "", " ")
	os.WriteFile(rp, append(vb, '\n'), 0o644)
	for i, v := range viol {
		if i >= 25 {
			fmt.Printf("  ... %d more\n", len(viol)-i)
			break
		}
		fmt.Printf("  [%s] %s (%s): %s\n", v.Rule, v.Construct, v.Where, v.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func ruExpl(r *rule) string {
	if r == nil {
		return "no rule"
	}
	return r.expl
}

func ruAss(r *rule) []string {
	base := []string{
		"the Go type checker and golang.org/x/tools/go/ssa represent the source faithfully",
		"models of the standard library functions named in checker/model.go follow their documentation",
	}
	if r == nil {
		return base
	}
	return append(base, r.ass...)
}
