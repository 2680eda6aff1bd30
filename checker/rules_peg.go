package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// The grammar file against the generated table (C26). The two are aligned coinductively (align.go). The code of the file is
// compiled, through an overlay, into functions beside the generated ones; each pair is interpreted symbolically with the
// functions the file mentions left uninterpreted, and has to call the same functions with the same arguments in the same
// order and give the same results.

type pegCode struct {
	name   string
	labels []string
	fn     *ssa.Function
}

func init() {
	register("C26", "The committed grammar file is parsed and aligned with the parser table read from the initialiser of the package, coinductively and up to inlining, splitting and merging of expressions: same kinds, alternatives, characters, repetitions, predicates and labels in scope. The code blocks of the file are compiled beside the generated functions through an overlay; the functions of each aligned pair are interpreted symbolically with the calls the file makes left uninterpreted, and must make the same calls with the same arguments and return the same results on every path. The texts a literal of the table expects are compared with what it matches.", ruleGrammarFile)
}

func ruleGrammarFile(r *Rep) {
	pf := r.pegFile()
	g := r.grammar()
	al := align(pf.by, g.by, pf.rules[0].name, g.rules[0].name)
	for i, d := range al.diffs {
		r.fail("table", clip(al.dkeys[i], 200), "", "the parser table is not the one the grammar file describes: %s", d)
	}
	for _, n := range sortedKeys(al.rules) {
		r.pass("table", "rule %s of the grammar file", n)
	}
	r.floor("table", 20)
	r.notes = append(r.notes, al.summary())

	// expectations
	for _, n := range g.nodes {
		if n.kind != "lit" {
			continue
		}
		want := strconv.Quote(n.lit)
		if n.ic {
			want += "i"
		}
		r.check(n.want == want, "expectation", n.rule+" "+want, n.pos, "the literal %s is announced as %s", want, n.want)
	}
	r.floor("expectation", 20)

	// display names
	for _, a := range pf.rules {
		if b := g.by[a.name]; b != nil && a.display != "" {
			r.check(a.display == b.display, "table", a.name+" display name", "", "rule %s is displayed as %q, the grammar file says %q", a.name, b.display, a.display)
		}
	}
	if len(al.diffs) > 0 {
		return
	}

	// code
	pkg, gen := r.generatedFile(al)
	codes, src := r.pegSource(pf, al, pkg, gen)
	file := filepath.Join(r.p.dir, "zz_grammar_file_code.go")
	p2, err := loadWith(r.p.dir, map[string][]byte{file: []byte(src)})
	if err != nil {
		r.fail("code", "the code of the grammar file", "", "the code of the grammar file does not compile beside the parser: %s", clip(err.Error(), 400))
		return
	}
	r.p, r.gram, r.gramPtr, r.semt = p2, nil, nil, nil
	s := &semTab{r: r, g: r.grammar(), refOf: map[*gnode]*gnode{}, busy: map[*gnode]bool{}, shm: map[*gnode]*lshape{}, opaqueLabels: true}
	s.ref = pf
	s.al = align(pf.by, s.g.by, pf.rules[0].name, s.g.rules[0].name)
	s.side = s.al.b
	s.any = types.Universe.Lookup("any").Type()
	s.list = types.NewSlice(s.any)
	for _, p := range s.al.pairs {
		s.refOf[p.sub] = p.ref
	}
	for _, c := range codes {
		if c.fn = s.pegMethod(c.name); c.fn == nil {
			panic(anchorError("compiled code of the grammar file"))
		}
	}
	opaque := map[*ssa.Function]bool{}
	for _, f := range p2.funcs {
		if !strings.HasPrefix(f.Name(), "zzcode") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if c := call.Common().StaticCallee(); c != nil && p2.inRepo(c) && len(c.Blocks) > 0 {
						opaque[c] = true
					}
				}
			}
		}
	}
	for _, p := range s.al.pairs {
		s.codePair(p, codes[p.ref], opaque)
	}
	r.floor("code", 40)
	r.notes = append(r.notes, fmt.Sprintf("%d functions of the package are called by the code of the grammar file and left uninterpreted", len(opaque)))
}

func (s *semTab) pegMethod(name string) *ssa.Function {
	for _, fn := range s.r.p.funcs {
		if fn.Name() == name && fn.Signature.Recv() != nil {
			return fn
		}
	}
	return nil
}

// generatedFile finds the package and the file holding the code of the table.
func (r *Rep) generatedFile(al *aligner) (*packages.Package, *ast.File) {
	for _, p := range al.pairs {
		pos := r.p.fset.Position(p.sub.run.Pos())
		for _, pk := range r.p.pkgs {
			for _, f := range pk.Syntax {
				if r.p.fset.Position(f.Pos()).Filename == pos.Filename {
					return pk, f
				}
			}
		}
	}
	panic(anchorError("the file holding the code of the parser table"))
}

func nodeText(fset *token.FileSet, n any) string {
	var b strings.Builder
	printer.Fprint(&b, fset, n)
	return b.String()
}

// pegSource writes the code of the grammar file as methods.
func (r *Rep) pegSource(pf *pegFile, al *aligner, pkg *packages.Package, gen *ast.File) (map[*gnode]*pegCode, string) {
	run := al.pairs[0].sub.run
	pt, ok := ptrElem(run.Params[0].Type()).(*types.Named)
	if !ok {
		panic(anchorError("parser type"))
	}
	ct, ok := fieldType(structOf(pt), "cur").(*types.Named)
	if !ok {
		panic(anchorError("type of the code context"))
	}
	// the preamble: the package clause and declarations
	fset := token.NewFileSet()
	pre, err := parser.ParseFile(fset, "preamble.go", pf.preamble, parser.SkipObjectResolution)
	if err != nil {
		r.fail("code", "preamble", "", "the first code block of the grammar file is not Go source: %v", err)
	} else {
		r.check(pre.Name.Name == pkg.Name, "code", "preamble package", "", "the grammar file declares package %s, the parser is in package %s", pre.Name.Name, pkg.Name)
		for _, d := range pre.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				continue
			}
			text, found := nodeText(fset, d), false
			for _, f := range pkg.Syntax {
				for _, d2 := range f.Decls {
					found = found || nodeText(r.p.fset, d2) == text
				}
			}
			r.check(found, "code", "preamble "+clip(text, 60), "", "the parser has no declaration %s", clip(text, 100))
		}
	}
	imports := map[string]string{}
	for _, f := range append([]*ast.File{gen}, pkg.Syntax...) {
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			name := filepath.Base(path)
			if q := pkg.Imports[path]; q != nil {
				name = q.Name
			}
			if im.Name != nil {
				name = im.Name.Name
			}
			if _, ok := imports[name]; !ok {
				imports[name] = path
			}
		}
	}
	codes := map[*gnode]*pegCode{}
	used := map[string]bool{}
	var body strings.Builder
	for _, p := range al.pairs {
		if codes[p.ref] != nil {
			continue
		}
		n := len(codes)
		c := &pegCode{name: fmt.Sprintf("zzcallcode%d", n)}
		for l := range p.scope {
			c.labels = append(c.labels, l)
		}
		sort.Strings(c.labels)
		codes[p.ref] = c
		res := "(interface{}, error)"
		switch p.ref.kind {
		case "andcode", "notcode":
			res = "(bool, error)"
		case "statecode":
			res = "error"
		}
		params := ""
		if len(c.labels) > 0 {
			params = strings.Join(c.labels, ", ") + " interface{}"
		}
		fmt.Fprintf(&body, "func (c *%s) zzcode%d(%s) %s {\n%s\n}\n", ct.Obj().Name(), n, params, res, p.ref.code)
		fmt.Fprintf(&body, "func (p *%s) %s(%s) %s {\nreturn p.cur.zzcode%d(%s)\n}\n", pt.Obj().Name(), c.name, params, res, n, strings.Join(c.labels, ", "))
		if f, err := parser.ParseFile(token.NewFileSet(), "x.go", "package x\nfunc f() {\n"+p.ref.code+"\n}\n", 0); err == nil {
			for _, id := range f.Unresolved {
				if imports[id.Name] != "" {
					used[id.Name] = true
				}
			}
		}
	}
	var src strings.Builder
	fmt.Fprintf(&src, "package %s\n\n", pkg.Name)
	for _, n := range sortedKeys(used) {
		if pkg.Types.Scope().Lookup(n) == nil {
			fmt.Fprintf(&src, "import %s %q\n", n, imports[n])
		}
	}
	src.WriteString(body.String())
	return codes, src.String()
}

// codePair compares the code of the file with that of the table.
func (s *semTab) codePair(p *npair, c *pegCode, opaque map[*ssa.Function]bool) {
	r := s.r
	what := p.ref.rule + ": " + strings.Join(strings.Fields(p.ref.code), " ")
	where := r.fnWhere(p.sub.run)
	text := mkSym("text", tString)
	conf := func(e *Exec) {
		e.hook = func(ci *callInfo) ([]Outcome, bool) {
			if ci.fn == nil || !opaque[ci.fn] {
				return nil, false
			}
			k := 0
			for _, ev := range ci.st.ev {
				if ev.kind == "filecall" {
					k++
				}
			}
			var args []*T
			for _, a := range ci.args {
				args = append(args, e.resolve(ci.st, a))
			}
			ev := &Ev{kind: "filecall", name: fnName(ci.fn), args: args}
			if ci.instr != nil {
				ev.pos = ci.instr.Pos()
			}
			e.event(ci.st, ev)
			var vals []*T
			res := ci.fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				vals = append(vals, mk(&T{k: KRes, s: fmt.Sprintf("call%d.%d", k, i), typ: res.At(i).Type(), a: args}))
			}
			return one(ci.st, vals...), true
		}
	}
	given := map[string]*T{}
	for l := range p.scope {
		given[l] = mkSym("label "+l, s.any)
	}
	s.instead = c
	want := s.run(p, text, given, conf)
	s.instead = nil
	got := s.run(p, text, given, conf)
	for _, e := range []*Exec{want.e, got.e} {
		r.done("code", e, what)
		for _, u := range e.undec {
			r.fail("undecided", what, where, "%s", u)
		}
	}
	if !r.check(len(got.outs) > 0 && len(want.outs) > 0, "code", what, where, "no path returns") {
		return
	}
	for _, a := range want.outs {
		for _, b := range got.outs {
			st := b.st.clone()
			ok := true
			for _, f := range a.st.facts {
				if ok = got.e.assume(st, f); !ok {
					break
				}
			}
			if !ok {
				continue
			}
			msg := s.sameOutcome(got.e, st, &a, &b)
			r.check(msg == "", "code", what, where, "the code for %s (%s) is not that of the grammar file (%s): %s", p.ref.rule, p.sub.codeName(), p.ref.pos, msg)
		}
	}
}

func (s *semTab) sameOutcome(e *Exec, st *St, a, b *Outcome) string {
	same := func(x, y *T) bool { return x == y || e.truth(st, mkEq(x, y)) == 1 }
	if a.kind != b.kind {
		return "one of them panics"
	}
	evs := func(o *Outcome) (out []*Ev) {
		for _, ev := range o.st.ev {
			if ev.kind != "hazard" {
				out = append(out, ev)
			}
		}
		return
	}
	ea, eb := evs(a), evs(b)
	for i := 0; i < len(ea) || i < len(eb); i++ {
		switch {
		case i >= len(ea):
			return "it also does " + eb[i].String()
		case i >= len(eb):
			return "it does not do " + ea[i].String()
		case ea[i].kind != eb[i].kind || ea[i].name != eb[i].name || len(ea[i].args) != len(eb[i].args):
			return fmt.Sprintf("it does %s instead of %s", eb[i], ea[i])
		}
		for j := range ea[i].args {
			x, y := ea[i].args[j], eb[i].args[j]
			if x != nil && y != nil && !same(x, y) {
				return fmt.Sprintf("it does %s instead of %s", eb[i], ea[i])
			}
		}
	}
	if len(a.vals) != len(b.vals) {
		return "the number of results differs"
	}
	for i := range a.vals {
		if x, y := e.resolve(a.st, a.vals[i]), e.resolve(b.st, b.vals[i]); !same(x, y) {
			return fmt.Sprintf("result %d is %s instead of %s", i+1, y, x)
		}
	}
	return ""
}
