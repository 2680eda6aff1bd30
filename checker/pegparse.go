package main

// Reader for grammar files: the committed grammar of the repository and the
// reference grammar of the checks are both read by it.

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"
)

type pegFile struct {
	gtable
	preamble string
}

type pegReader struct {
	s    string
	i    int
	f    *pegFile
	rule string
	file string
}

func (p *pegReader) bad(f string, a ...any) {
	line := 1 + strings.Count(p.s[:min(p.i, len(p.s))], "\n")
	panic(anchorError(fmt.Sprintf("readable grammar file (%s line %d: %s)", p.file, line, fmt.Sprintf(f, a...))))
}

func parsePEG(file, src string) *pegFile {
	p := &pegReader{s: src, file: file, f: &pegFile{gtable: gtable{by: map[string]*grule{}}}}
	p.space()
	if p.peek() == '{' {
		p.f.preamble = p.code()
		p.space()
	}
	for p.i < len(p.s) {
		name := p.ident()
		if name == "" {
			p.bad("rule name expected")
		}
		p.space()
		r := &grule{name: name}
		p.rule = name
		if c := p.peek(); c == '"' || c == '\'' || c == '`' {
			r.display = p.quoted()
			p.space()
		}
		if !p.arrow() {
			p.bad("rule definition expected after %s", name)
		}
		p.space()
		r.expr = p.choice()
		if p.f.by[name] != nil {
			p.bad("rule %s defined twice", name)
		}
		p.f.rules = append(p.f.rules, r)
		p.f.by[name] = r
		p.space()
		if p.peek() == ';' {
			p.i++
			p.space()
		}
	}
	return p.f
}

func (p *pegReader) arrow() bool {
	for _, a := range []string{"<-", "=", "←", "⟵"} {
		if strings.HasPrefix(p.s[p.i:], a) {
			p.i += len(a)
			return true
		}
	}
	return false
}

func (p *pegReader) peek() byte {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func (p *pegReader) space() {
	for p.i < len(p.s) {
		switch {
		case strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0:
			p.i++
		case strings.HasPrefix(p.s[p.i:], "//"):
			for p.i < len(p.s) && p.s[p.i] != '\n' {
				p.i++
			}
		case strings.HasPrefix(p.s[p.i:], "/*"):
			j := strings.Index(p.s[p.i+2:], "*/")
			if j < 0 {
				p.bad("open comment")
			}
			p.i += j + 4
		default:
			return
		}
	}
}

func identChar(c byte, first bool) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || !first && c >= '0' && c <= '9'
}

func (p *pegReader) ident() string {
	j := p.i
	for j < len(p.s) && identChar(p.s[j], j == p.i) {
		j++
	}
	id := p.s[p.i:j]
	p.i = j
	return id
}

// code reads a balanced block of Go code, from brace to brace.
func (p *pegReader) code() string {
	start, depth := p.i, 0
	for p.i < len(p.s) {
		c := p.s[p.i]
		switch {
		case strings.HasPrefix(p.s[p.i:], "//") || strings.HasPrefix(p.s[p.i:], "/*"):
			p.space()
			continue
		case c == '"' || c == '\'':
			p.i++
			for p.i < len(p.s) && p.s[p.i] != c {
				if p.s[p.i] == '\\' {
					p.i++
				}
				p.i++
			}
		case c == '`':
			p.i++
			for p.i < len(p.s) && p.s[p.i] != '`' {
				p.i++
			}
		case c == '{':
			depth++
		case c == '}':
			depth--
			if depth == 0 {
				p.i++
				return p.s[start+1 : p.i-1]
			}
		}
		p.i++
	}
	p.bad("open code block")
	return ""
}

func (p *pegReader) node(kind string, kids ...*gnode) *gnode {
	n := &gnode{kind: kind, kids: kids, rule: p.rule, id: len(p.f.nodes)}
	n.pos = fmt.Sprintf("%s:%d", p.file, 1+strings.Count(p.s[:min(p.i, len(p.s))], "\n"))
	p.f.nodes = append(p.f.nodes, n)
	return n
}

func (p *pegReader) choice() *gnode {
	alts := []*gnode{p.action()}
	for {
		p.space()
		if p.peek() != '/' {
			break
		}
		p.i++
		p.space()
		alts = append(alts, p.action())
	}
	if strings.HasPrefix(p.s[p.i:], "//{") {
		p.bad("recovery expressions are not used")
	}
	if len(alts) == 1 {
		return alts[0]
	}
	return p.node("choice", alts...)
}

func (p *pegReader) action() *gnode {
	n := p.seq()
	p.space()
	if p.peek() == '{' {
		a := p.node("action", n)
		a.code = p.code()
		return a
	}
	return n
}

// ruleAhead tells whether the next rule definition starts here.
func (p *pegReader) ruleAhead() bool {
	save := p.i
	defer func() { p.i = save }()
	if p.ident() == "" {
		return false
	}
	p.space()
	if c := p.peek(); c == '"' || c == '\'' || c == '`' {
		func() {
			defer func() { _ = recover() }()
			p.quoted()
		}()
		p.space()
	}
	return p.arrow()
}

func (p *pegReader) seq() *gnode {
	var items []*gnode
	for {
		p.space()
		c := p.peek()
		if c == 0 || strings.IndexByte("/){;", c) >= 0 || p.ruleAhead() {
			break
		}
		items = append(items, p.labeled())
	}
	switch len(items) {
	case 0:
		p.bad("expression expected")
	case 1:
		return items[0]
	}
	return p.node("seq", items...)
}

func (p *pegReader) labeled() *gnode {
	save := p.i
	if id := p.ident(); id != "" {
		p.space()
		if p.peek() == ':' {
			p.i++
			p.space()
			n := p.node("label", p.prefixed())
			n.name = id
			return n
		}
	}
	p.i = save
	return p.prefixed()
}

func (p *pegReader) prefixed() *gnode {
	switch p.peek() {
	case '&', '!', '#':
		op := p.peek()
		p.i++
		p.space()
		if p.peek() == '{' {
			n := p.node(map[byte]string{'&': "andcode", '!': "notcode", '#': "statecode"}[op])
			n.code = p.code()
			return n
		}
		if op == '#' {
			p.bad("code expected after #")
		}
		return p.node(map[byte]string{'&': "and", '!': "not"}[op], p.suffixed())
	}
	return p.suffixed()
}

func (p *pegReader) suffixed() *gnode {
	n := p.primary()
	for {
		p.space()
		switch p.peek() {
		case '?':
			n = p.node("opt", n)
		case '*':
			n = p.node("star", n)
		case '+':
			n = p.node("plus", n)
		default:
			return n
		}
		p.i++
	}
}

func (p *pegReader) primary() *gnode {
	switch c := p.peek(); c {
	case '(':
		p.i++
		p.space()
		n := p.choice()
		p.space()
		if p.peek() != ')' {
			p.bad("closing parenthesis expected")
		}
		p.i++
		return n
	case '.':
		p.i++
		return p.node("any")
	case '[':
		return p.class()
	case '"', '\'', '`':
		n := p.node("lit")
		n.lit = p.quoted()
		if p.peek() == 'i' && (p.i+1 >= len(p.s) || !identChar(p.s[p.i+1], false)) {
			p.i++
			n.ic = true
		}
		return n
	case '%':
		p.bad("throw expressions are not used")
	}
	if id := p.ident(); id != "" {
		n := p.node("ref")
		n.name = id
		return n
	}
	p.bad("unexpected %q", p.peek())
	return nil
}

func (p *pegReader) quoted() string {
	q := p.peek()
	p.i++
	if q == '`' {
		j := strings.IndexByte(p.s[p.i:], '`')
		if j < 0 {
			p.bad("open literal")
		}
		s := p.s[p.i : p.i+j]
		p.i += j + 1
		return s
	}
	var b strings.Builder
	for {
		if p.i >= len(p.s) {
			p.bad("open literal")
		}
		if p.s[p.i] == q {
			p.i++
			return b.String()
		}
		r := p.char(q)
		b.WriteString(r)
	}
}

// char reads one possibly escaped character.
func (p *pegReader) char(q byte) string {
	if p.s[p.i] != '\\' {
		_, w := utf8.DecodeRuneInString(p.s[p.i:])
		p.i += w
		return p.s[p.i-w : p.i]
	}
	if p.i+1 < len(p.s) && strings.IndexByte("[]-^'\"", p.s[p.i+1]) >= 0 {
		p.i += 2
		return p.s[p.i-1 : p.i]
	}
	v, mb, tail, err := strconv.UnquoteChar(p.s[p.i:], q)
	if err != nil {
		p.bad("escape sequence: %v", err)
	}
	p.i = len(p.s) - len(tail)
	if !mb && v < 256 && v >= 128 {
		p.bad("byte escapes are not supported")
	}
	return string(v)
}

func (p *pegReader) class() *gnode {
	n := p.node("class")
	p.i++
	inv := false
	if p.peek() == '^' {
		inv = true
		p.i++
	}
	var set runeSet
	one := func() rune {
		if p.i >= len(p.s) {
			p.bad("open class")
		}
		if strings.HasPrefix(p.s[p.i:], `\p`) {
			p.bad("Unicode classes are not supported")
		}
		c, _ := utf8.DecodeRuneInString(p.char(']'))
		return c
	}
	for p.peek() != ']' {
		lo := one()
		hi := lo
		if p.peek() == '-' && p.i+1 < len(p.s) && p.s[p.i+1] != ']' {
			p.i++
			hi = one()
		}
		set = append(set, [2]rune{lo, hi})
	}
	p.i++
	if p.peek() == 'i' && (p.i+1 >= len(p.s) || !identChar(p.s[p.i+1], false)) {
		p.i++
		n.ic = true
	}
	if inv {
		set = set.norm().invert()
	}
	n.set = set.norm()
	return n
}

// pegFile reads the committed grammar file.
func (r *Rep) pegFile() *pegFile {
	ms, _ := filepath.Glob(filepath.Join(r.p.dir, "*.peg"))
	if len(ms) != 1 {
		panic(anchorError("the grammar file (*.peg) of the repository"))
	}
	b, err := os.ReadFile(ms[0])
	if err != nil {
		panic(anchorError("readable grammar file: " + err.Error()))
	}
	return parsePEG(filepath.Base(ms[0]), string(b))
}
