package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Node: spec expression syntax tree.
type Node struct {
	k    string // int str bool nil id hole field index slice call ghost un bin quant cond let old
	s    string
	n    *big.Int
	a    []*Node
	bn   []string // binder names / hole type
	bt   []string // binder types
	trig [][]*Node
	src  string
}

type lexer struct {
	in   string
	pos  int
	toks []tok
	i    int
}
type tok struct {
	k string // int str id op eof
	s string
}

func lex(in string) ([]tok, error) {
	var out []tok
	i := 0
	isid := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= '0' && c <= '9' || c == '$'
	}
	ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", "++", "+", "-", "*", "/", "%", "<", ">", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "?", "@", "=", ";", "^"}
	for i < len(in) {
		c := in[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(in) && (isid(in[j])) {
				j++
			}
			out = append(out, tok{"int", in[i:j]})
			i = j
		case isid(c):
			j := i
			for j < len(in) && isid(in[j]) {
				j++
			}
			out = append(out, tok{"id", in[i:j]})
			i = j
		case c == '"':
			j := i + 1
			var b strings.Builder
			for j < len(in) && in[j] != '"' {
				if in[j] == '\\' && j+1 < len(in) {
					switch in[j+1] {
					case '0':
						b.WriteByte(0)
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteByte(in[j+1])
					}
					j += 2
					continue
				}
				b.WriteByte(in[j])
				j++
			}
			out = append(out, tok{"str", b.String()})
			i = j + 1
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(in[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				return nil, fmt.Errorf("bad character %q in %q", c, in)
			}
		}
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

func parseExpr(in string) (n *Node, err error) {
	ts, err := lex(in)
	if err != nil {
		return nil, err
	}
	l := &lexer{in: in, toks: ts}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s in %q", s, in)
				return
			}
			panic(r)
		}
	}()
	n = l.expr(0)
	if l.peek().k != "eof" {
		panic(fmt.Sprintf("unexpected %q (token %d)", l.peek().s, l.i))
	}
	n.src = in
	return n, nil
}

func (l *lexer) peek() tok { return l.toks[l.i] }
func (l *lexer) next() tok { t := l.toks[l.i]; l.i++; return t }
func (l *lexer) is(s string) bool {
	t := l.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (l *lexer) accept(s string) bool {
	if l.is(s) {
		l.i++
		return true
	}
	return false
}
func (l *lexer) expect(s string) {
	if !l.accept(s) {
		panic(fmt.Sprintf("expected %q, got %q", s, l.peek().s))
	}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "++": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (l *lexer) expr(min int) *Node {
	left := l.unary()
	for {
		t := l.peek()
		p, ok := prec[t.s]
		if !ok || (t.k != "op" && t.s != "in") || p <= min && !(t.s == "==>" && p >= min && p > min-0) {
			break
		}
		if p <= min {
			break
		}
		l.i++
		var right *Node
		if t.s == "==>" {
			right = l.expr(p - 1)
		} else {
			right = l.expr(p)
		}
		left = &Node{k: "bin", s: t.s, a: []*Node{left, right}}
		// chained comparisons: a <= b < c
		if p == 5 {
			for {
				t2 := l.peek()
				if t2.k != "op" || prec[t2.s] != 5 {
					break
				}
				l.i++
				r2 := l.expr(5)
				left = &Node{k: "bin", s: "&&", a: []*Node{left, {k: "bin", s: t2.s, a: []*Node{right, r2}}}}
				right = r2
			}
		}
	}
	return left
}

func (l *lexer) typeName() string {
	var b strings.Builder
	for {
		t := l.peek()
		if t.k == "op" && (t.s == "*" || t.s == "[" || t.s == "]" || t.s == "." || t.s == "(" || t.s == ")") {
			if t.s == ")" && !strings.Contains(b.String(), "(") {
				break
			}
			b.WriteString(t.s)
			l.i++
			continue
		}
		if t.k == "id" {
			b.WriteString(t.s)
			l.i++
			continue
		}
		break
	}
	return b.String()
}

func (l *lexer) unary() *Node {
	switch {
	case l.accept("!"):
		return &Node{k: "un", s: "!", a: []*Node{l.unary()}}
	case l.accept("-"):
		return &Node{k: "un", s: "-", a: []*Node{l.unary()}}
	}
	return l.postfix(l.primary())
}

func (l *lexer) postfix(n *Node) *Node {
	for {
		switch {
		case l.accept("."):
			t := l.next()
			n = &Node{k: "field", s: t.s, a: []*Node{n}}
		case l.accept("["):
			if l.accept(":") {
				hi := l.expr(0)
				l.expect("]")
				n = &Node{k: "slice", a: []*Node{n, {k: "int", n: big.NewInt(0)}, hi}}
				continue
			}
			i := l.expr(0)
			if l.accept(":") {
				if l.accept("]") {
					n = &Node{k: "slice", a: []*Node{n, i, nil}}
					continue
				}
				hi := l.expr(0)
				l.expect("]")
				n = &Node{k: "slice", a: []*Node{n, i, hi}}
				continue
			}
			l.expect("]")
			n = &Node{k: "index", a: []*Node{n, i}}
		default:
			return n
		}
	}
}

func (l *lexer) args() []*Node {
	var as []*Node
	if l.accept(")") {
		return as
	}
	for {
		as = append(as, l.expr(0))
		if l.accept(")") {
			return as
		}
		l.expect(",")
	}
}

func (l *lexer) primary() *Node {
	t := l.next()
	switch t.k {
	case "int":
		v, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			panic("bad integer " + t.s)
		}
		if l.is("^") && t.s == "2" {
			l.i++
			e := l.next()
			x, _ := new(big.Int).SetString(e.s, 10)
			v = pow2(uint(x.Int64()))
		}
		return &Node{k: "int", n: v}
	case "str":
		return &Node{k: "str", s: t.s}
	case "op":
		switch t.s {
		case "(":
			n := l.expr(0)
			l.expect(")")
			return n
		case "?":
			nm := l.next().s
			ty := ""
			if l.accept(":") {
				if l.accept("@") {
					ty = "@"
				}
				ty += l.typeName()
			}
			return &Node{k: "hole", s: nm, bn: []string{ty}}
		case "@":
			nm := l.next().s
			l.expect("(")
			return &Node{k: "ghost", s: nm, a: l.args()}
		}
	case "id":
		switch t.s {
		case "true", "false":
			return &Node{k: "bool", s: t.s}
		case "nil":
			return &Node{k: "nil"}
		case "old":
			l.expect("(")
			n := l.expr(0)
			l.expect(")")
			return &Node{k: "old", a: []*Node{n}}
		case "forall", "exists":
			q := &Node{k: "quant", s: t.s}
			for {
				q.bn = append(q.bn, l.next().s)
				l.expect(":")
				q.bt = append(q.bt, l.typeName())
				if !l.accept(",") {
					break
				}
			}
			for l.accept("{") {
				var tr []*Node
				for {
					tr = append(tr, l.expr(0))
					if l.accept("}") {
						break
					}
					l.expect(",")
				}
				q.trig = append(q.trig, tr)
			}
			l.expect("::")
			q.a = []*Node{l.expr(0)}
			return q
		case "if":
			c := l.expr(0)
			l.expect("then")
			a := l.expr(0)
			l.expect("else")
			b := l.expr(0)
			return &Node{k: "cond", a: []*Node{c, a, b}}
		case "let":
			nm := l.next().s
			l.expect("=")
			e := l.expr(0)
			l.expect(";")
			b := l.expr(0)
			return &Node{k: "let", s: nm, a: []*Node{e, b}}
		}
		if l.accept("(") {
			return &Node{k: "call", s: t.s, a: l.args()}
		}
		return &Node{k: "id", s: t.s}
	}
	panic(fmt.Sprintf("unexpected %q", t.s))
}

// ---- contract files ----

type Clause struct {
	tags []string
	n    *Node
	src  string
	name string
}

type Contract struct {
	name       string
	params     []string
	results    []string
	file       string
	requires   []Clause
	ensures    []Clause
	lets       []Clause // named abbreviations evaluated at entry
	modifies   []*Node
	modAny     bool
	hints      []Clause
	uses       []Clause
	assumes    []Clause
	panicTags  []string
	nopanic    bool
	panicsIf   []Clause
	opts       map[string]string
	inline     map[string]bool
	cases      []caseSplit
	ghostSets  []Clause
	extern     bool
	onexit     []Clause
	atRelease  []Clause
	termTags   []string
	terminates bool
	decreases  *Node
}

type caseSplit struct {
	n    *Node
	vals []*Node
}

type defn struct {
	name   string
	params []string
	body   *Node
}
type ufDecl struct {
	name string
	args []string
	res  string
}
type guardDecl struct {
	typ     string // struct type key
	lock    string // lock field
	fields  map[string]bool
	inv     *Node // over variable "s"
	tags    []string
	deep    []string // extra heap keys havocked on acquisition
	deepOwn []*Node
}

type Spec struct {
	contracts map[string]*Contract
	order     []string
	defs      map[string]*defn
	ufs       map[string]*ufDecl
	ghosts    map[string]*ufDecl
	axioms    []Clause
	lemmas    []Clause
	guards    map[string]*guardDecl
	messages  map[string][]Clause
	props     map[string][]string // extra roots per property
	ifaceInv  map[string]*Node
	consts    map[string]*Node
	files     []string
}

func NewSpec() *Spec {
	return &Spec{contracts: map[string]*Contract{}, defs: map[string]*defn{}, ufs: map[string]*ufDecl{}, ghosts: map[string]*ufDecl{}, guards: map[string]*guardDecl{}, messages: map[string][]Clause{}, props: map[string][]string{}, ifaceInv: map[string]*Node{}, consts: map[string]*Node{}}
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, st := 0, 0
	q := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			q = !q
		case '(', '[', '{':
			if !q {
				d++
			}
		case ')', ']', '}':
			if !q {
				d--
			}
		default:
			if s[i] == sep && d == 0 && !q {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

func (sp *Spec) parseFile(name, text string) (err error) {
	// logical lines: continuation = line indented by 4 or more
	type ll struct {
		no  int
		ind int
		s   string
	}
	var lines []ll
	for i, raw := range strings.Split(text, "\n") {
		s := raw
		if j := strings.Index(s, "#"); j >= 0 && !strings.Contains(s[:j], "\"") {
			s = s[:j]
		}
		s = strings.TrimRight(strings.ReplaceAll(s, "\t", "    "), " ")
		if strings.TrimSpace(s) == "" {
			continue
		}
		ind := len(s) - len(strings.TrimLeft(s, " "))
		if ind >= 4 && len(lines) > 0 {
			lines[len(lines)-1].s += " " + strings.TrimSpace(s)
			continue
		}
		lines = append(lines, ll{i + 1, ind, strings.TrimSpace(s)})
	}
	var cur *Contract
	for _, l := range lines {
		fail := func(e error) error { return fmt.Errorf("%s:%d: %v", name, l.no, e) }
		head, rest := l.s, ""
		if i := strings.IndexByte(l.s, ' '); i >= 0 {
			head, rest = l.s[:i], strings.TrimSpace(l.s[i+1:])
		}
		var tags []string
		if i := strings.IndexByte(head, '['); i >= 0 && strings.HasSuffix(head, "]") {
			tags = strings.Split(head[i+1:len(head)-1], ",")
			head = head[:i]
		}
		clause := func(s string) (Clause, error) {
			c := Clause{tags: tags, src: s}
			if strings.HasPrefix(s, "\"") {
				j := strings.IndexByte(s[1:], '"')
				c.name = s[1 : 1+j]
				s = strings.TrimSpace(s[j+2:])
			}
			n, err := parseExpr(s)
			c.n = n
			return c, err
		}
		if l.ind == 0 {
			cur = nil
			switch head {
			case "func", "extern":
				var ps, rs []string
				if i := strings.Index(rest, " | "); i >= 0 {
					ps = strings.Fields(rest[i+3:])
					rest = strings.TrimSpace(rest[:i])
					for j, p := range ps {
						if p == "->" {
							ps, rs = ps[:j], ps[j+1:]
							break
						}
					}
				}
				cur = &Contract{name: rest, params: ps, results: rs, file: name, opts: map[string]string{}, inline: map[string]bool{}, extern: head == "extern"}
				if _, dup := sp.contracts[rest]; dup {
					return fail(fmt.Errorf("duplicate contract %s", rest))
				}
				sp.contracts[rest] = cur
				sp.order = append(sp.order, rest)
			case "define":
				eq := strings.Index(rest, "=")
				// find "=" after the parameter list
				cp := strings.IndexByte(rest, ')')
				eq = cp + 1 + strings.IndexByte(rest[cp+1:], '=')
				h := rest[:cp]
				op := strings.IndexByte(h, '(')
				d := &defn{name: strings.TrimSpace(h[:op])}
				for _, p := range splitTop(h[op+1:], ',') {
					d.params = append(d.params, p)
				}
				n, err := parseExpr(rest[eq+1:])
				if err != nil {
					return fail(err)
				}
				d.body = n
				sp.defs[d.name] = d
			case "uf", "ghost":
				op, cp := strings.IndexByte(rest, '('), strings.LastIndexByte(rest, ')')
				u := &ufDecl{name: strings.TrimSpace(rest[:op]), args: splitTop(rest[op+1:cp], ','), res: strings.TrimSpace(rest[cp+1:])}
				if head == "uf" {
					sp.ufs[u.name] = u
				} else {
					sp.ghosts[u.name] = u
				}
			case "axiom":
				c, err := clause(rest)
				if err != nil {
					return fail(err)
				}
				sp.axioms = append(sp.axioms, c)
			case "lemma":
				c, err := clause(rest)
				if err != nil {
					return fail(err)
				}
				sp.lemmas = append(sp.lemmas, c)
			case "property":
				// property C01 f1 ; f2 ; ...
				i := strings.IndexByte(rest, ' ')
				for _, f := range splitTop(rest[i:], ';') {
					sp.props[rest[:i]] = append(sp.props[rest[:i]], f)
				}
			case "message", "onsend", "onclose", "onrecv", "gives", "sendset", "recvset":
				// message T "name" expr: obligation at every send of a T, assumed at every receive
				i := strings.IndexByte(rest, ' ')
				c, err := clause(strings.TrimSpace(rest[i:]))
				if err != nil {
					return fail(err)
				}
				sp.messages[head+":"+rest[:i]] = append(sp.messages[head+":"+rest[:i]], c)
			case "guard":
				// guard T.lock : f1, f2 ; deep k1, k2 ; inv expr
				parts := splitTop(rest, ';')
				h := splitTop(parts[0], ':')
				j := strings.LastIndexByte(h[0], '.')
				g := &guardDecl{typ: strings.TrimSpace(h[0][:j]), lock: h[0][j+1:], fields: map[string]bool{}, tags: tags}
				if len(h) > 1 {
					for _, f := range splitTop(h[1], ',') {
						g.fields[f] = true
					}
				}
				for _, p := range parts[1:] {
					switch {
					case strings.HasPrefix(p, "deep "):
						g.deep = append(g.deep, splitTop(p[5:], ',')...)
					case strings.HasPrefix(p, "inv "):
						n, err := parseExpr(p[4:])
						if err != nil {
							return fail(err)
						}
						g.inv = n
					}
				}
				sp.guards[g.typ] = g
			default:
				return fail(fmt.Errorf("unknown declaration %q", head))
			}
			continue
		}
		if cur == nil {
			return fail(fmt.Errorf("clause outside a contract: %s", l.s))
		}
		add := func(dst *[]Clause) error {
			c, err := clause(rest)
			if err != nil {
				return fail(err)
			}
			*dst = append(*dst, c)
			return nil
		}
		switch head {
		case "requires":
			err = add(&cur.requires)
		case "ensures":
			err = add(&cur.ensures)
		case "defines": // names given to fresh objects: assumed at exits and by callers
			err = add(&cur.onexit)
		case "atrelease": // ghost update made at the end of the critical section
			err = add(&cur.atRelease)
			if c := cur.atRelease[len(cur.atRelease)-1]; err == nil && (c.n.k != "bin" || c.n.s != "==" || c.n.a[0].k != "ghost") {
				err = fail(fmt.Errorf("atrelease: @ghost(..) == expr expected"))
			}
		case "assume":
			err = add(&cur.assumes)
		case "hint":
			err = add(&cur.hints)
		case "use":
			err = add(&cur.uses)
		case "set":
			err = add(&cur.ghostSets)
		case "let":
			i := strings.Index(rest, "=")
			n, e2 := parseExpr(rest[i+1:])
			if e2 != nil {
				return fail(e2)
			}
			cur.lets = append(cur.lets, Clause{n: n, name: strings.TrimSpace(rest[:i])})
		case "panics_if":
			err = add(&cur.panicsIf)
			cur.panicTags = append(cur.panicTags, tags...)
			cur.nopanic = true
		case "nopanic":
			cur.nopanic = true
			cur.panicTags = append(cur.panicTags, tags...)
		case "decreases":
			cur.decreases, err = parseExpr(rest)
			if err != nil {
				err = fail(err)
			}
		case "terminates":
			cur.terminates = true
			cur.termTags = tags
		case "modifies":
			for _, p := range splitTop(rest, ',') {
				if p == "nothing" {
					continue
				}
				if p == "anything" {
					cur.modAny = true
					continue
				}
				n, e2 := parseExpr(p)
				if e2 != nil {
					return fail(e2)
				}
				cur.modifies = append(cur.modifies, n)
			}
		case "inline":
			for _, p := range splitTop(rest, ',') {
				cur.inline[p] = true
			}
		case "cases":
			p := splitTop(rest, ':')
			n, e2 := parseExpr(p[0])
			if e2 != nil {
				return fail(e2)
			}
			cs := caseSplit{n: n}
			for _, v := range splitTop(p[1], ',') {
				vn, e3 := parseExpr(v)
				if e3 != nil {
					return fail(e3)
				}
				cs.vals = append(cs.vals, vn)
			}
			cur.cases = append(cur.cases, cs)
		case "opt":
			i := strings.IndexByte(rest, ' ')
			if i < 0 {
				cur.opts[rest] = "1"
			} else {
				cur.opts[rest[:i]] = strings.TrimSpace(rest[i+1:])
			}
		default:
			return fail(fmt.Errorf("unknown clause %q", head))
		}
		if err != nil {
			return err
		}
	}
	return nil
}
