package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	ast_applications "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)

// The grammars of the checks are written as text, for example
//
//	R: a? T* | b @R ; T: 'ab2 | !E ; !E: X / Y ; X: x ; Y: y ; #S ; #S<P>N ; +T: aab ; -T: b
//
// R, the first token, is the root. An element is a value (a), a token (T), a reference to an enclosing token (@R),
// an everything (!E, with its exception and escape), an external grammar (%X) or a compose ('ab2, which is abb). It
// has a cardinality: exactly one, ?, *, +, {2}, {1,}, {1,2}. #S<P>N is a channel S, with its previous and next
// conditions, +T and -T are the valid and invalid suites of T. The underscore is a space.
// This is the specification side: nothing below reads the grammar instances of the code under check.

type gKind int

const (
	gValue gKind = iota
	gToken
	gRecursive
	gEverything
	gExternal
	gCompose
)

type gCont struct {
	kind   gKind
	name   string // of the element
	b      byte
	tok    *gTok // the token, or the exception
	escape *gTok
	ext    *gGram
	parts  []gPart
	min    int
	max    int // -1: none
	real   grammars.Container
}

type gPart struct {
	b   byte
	occ int
}

type gTok struct {
	name   string
	lines  [][]*gCont
	rlines []grammars.Line
	suites []*gSuite
	real   grammars.Token
}

type gSuite struct {
	valid bool
	data  []byte
	real  grammars.Suite
}

type gChan struct {
	tok, prev, next *gTok
}

type gGram struct {
	text  string
	root  *gTok
	chans []*gChan
	toks  map[string]*gTok
	order []string
	real  grammars.Grammar
	wrap  func(t grammars.Token) grammars.Token // of the real tokens, when they are built
}

type gDef struct {
	name  string
	lines []string
}

type gBuilder struct {
	g       *gGram
	defs    map[string]string
	every   map[string][2]string
	exts    map[string]*gGram
	pending map[string]bool
	suites  map[string][]*gSuite
	names   map[string]string
}

func mustOK(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

var theParser = ast_applications.NewApplication()

func newGram(text string, exts map[string]*gGram) *gGram {
	return newGramWrapped(text, exts, nil)
}

func newGramWrapped(text string, exts map[string]*gGram, wrap func(t grammars.Token) grammars.Token) *gGram {
	b := &gBuilder{
		g:       &gGram{text: text, toks: map[string]*gTok{}, wrap: wrap},
		defs:    map[string]string{},
		every:   map[string][2]string{},
		exts:    exts,
		pending: map[string]bool{},
		suites:  map[string][]*gSuite{},
		names:   map[string]string{},
	}
	root := ""
	chans := [][3]string{}
	for _, st := range strings.Split(text, ";") {
		st = strings.TrimSpace(st)
		if st == "" {
			continue
		}
		if st[0] == '#' {
			st = st[1:]
			var ch [3]string
			if i := strings.IndexByte(st, '>'); i >= 0 {
				ch[2] = strings.TrimSpace(st[i+1:])
				st = st[:i]
			}
			if i := strings.IndexByte(st, '<'); i >= 0 {
				ch[1] = strings.TrimSpace(st[i+1:])
				st = st[:i]
			}
			ch[0] = strings.TrimSpace(st)
			chans = append(chans, ch)
			continue
		}
		i := strings.IndexByte(st, ':')
		name, def := strings.TrimSpace(st[:i]), strings.TrimSpace(st[i+1:])
		switch name[0] {
		case '=':
			b.names[name[1:]] = string(unescape(def))
		case '!':
			parts := strings.SplitN(def, "/", 2)
			e := [2]string{strings.TrimSpace(parts[0]), ""}
			if len(parts) > 1 {
				e[1] = strings.TrimSpace(parts[1])
			}
			b.every[name[1:]] = e
		case '+', '-':
			s := &gSuite{valid: name[0] == '+', data: unescape(strings.ReplaceAll(def, "_", " "))}
			b.suites[name[1:]] = append(b.suites[name[1:]], s)
		default:
			if root == "" {
				root = name
			}
			b.defs[name] = def
			b.g.order = append(b.g.order, name)
		}
	}
	b.g.root = b.token(root)
	builder := grammars.NewBuilder().Create().WithRoot(b.g.root.real)
	list := []grammars.Channel{}
	for _, ch := range chans {
		c := &gChan{tok: b.token(ch[0])}
		cb := grammars.NewChannelBuilder().Create().WithToken(c.tok.real)
		if ch[1] != "" || ch[2] != "" {
			kb := grammars.NewChannelConditionBuilder().Create()
			if ch[1] != "" {
				c.prev = b.token(ch[1])
				kb.WithPrevious(c.prev.real)
			}
			if ch[2] != "" {
				c.next = b.token(ch[2])
				kb.WithNext(c.next.real)
			}
			cond, err := kb.Now()
			mustOK(err)
			cb.WithCondition(cond)
		}
		real, err := cb.Now()
		mustOK(err)
		b.g.chans = append(b.g.chans, c)
		list = append(list, real)
	}
	if len(list) > 0 {
		chs, err := grammars.NewChannelsBuilder().Create().WithList(list).Now()
		mustOK(err)
		builder.WithChannels(chs)
	}
	real, err := builder.Now()
	mustOK(err)
	b.g.real = real
	return b.g
}

// nm returns the name that a statement like "=T: name" gives
func (b *gBuilder) nm(name string) string {
	if n, ok := b.names[name]; ok {
		return n
	}
	return name
}

func mkValue(c byte) values.Value {
	return mkNamed(string([]byte{c}), c)
}

func mkNamed(name string, c byte) values.Value {
	v, err := values.NewBuilder().Create().WithName(name).WithNumber(c).Now()
	mustOK(err)
	return v
}

func mkCompose(name string, parts []gPart, nm func(name string) string) grammars.Compose {
	list := []grammars.ComposeElement{}
	for _, p := range parts {
		el, err := grammars.NewComposeElementBuilder().Create().WithValue(mkNamed(nm(string([]byte{p.b})), p.b)).WithOccurences(uint(p.occ)).Now()
		mustOK(err)
		list = append(list, el)
	}
	c, err := grammars.NewComposeBuilder().Create().WithName(name).WithList(list).Now()
	mustOK(err)
	return c
}

// runs groups the bytes that are repeated
func runs(data []byte) []gPart {
	out := []gPart{}
	for _, c := range data {
		if n := len(out); n > 0 && out[n-1].b == c {
			out[n-1].occ++
			continue
		}
		out = append(out, gPart{c, 1})
	}
	return out
}

func (b *gBuilder) token(name string) *gTok {
	if t, ok := b.g.toks[name]; ok {
		return t
	}
	def, ok := b.defs[name]
	if !ok || b.pending[name] {
		panic("harness: the token " + name + " is unknown or cyclic in " + b.g.text)
	}
	b.pending[name] = true
	t := &gTok{name: b.nm(name)}
	for _, l := range strings.Split(def, "|") {
		line := []*gCont{}
		reals := []grammars.Container{}
		for _, f := range strings.Fields(l) {
			c := b.container(f)
			line = append(line, c)
			reals = append(reals, c.real)
		}
		real, err := grammars.NewLineBuilder().Create().WithContainers(reals).Now()
		mustOK(err)
		t.lines = append(t.lines, line)
		t.rlines = append(t.rlines, real)
	}
	blk, err := grammars.NewBlockBuilder().Create().WithLines(t.rlines).Now()
	mustOK(err)
	tb := grammars.NewTokenBuilder().Create().WithName(t.name).WithBlock(blk)
	if ss := b.suites[name]; len(ss) > 0 {
		list := []grammars.Suite{}
		for i, s := range ss {
			comp := mkCompose(fmt.Sprintf("suite%d", i), runs(s.data), b.nm)
			sb := grammars.NewSuiteBuilder().Create()
			if s.valid {
				sb.WithValid(comp)
			} else {
				sb.WithInvalid(comp)
			}
			s.real, err = sb.Now()
			mustOK(err)
			list = append(list, s.real)
		}
		t.suites = ss
		suites, err := grammars.NewSuitesBuilder().Create().WithList(list).Now()
		mustOK(err)
		tb.WithSuites(suites)
	}
	t.real, err = tb.Now()
	mustOK(err)
	if b.g.wrap != nil {
		t.real = b.g.wrap(t.real)
	}
	delete(b.pending, name)
	b.g.toks[name] = t
	return t
}

func (b *gBuilder) container(f string) *gCont {
	c := &gCont{min: 1, max: 1}
	switch {
	case strings.HasSuffix(f, "?") && len(f) > 1:
		c.min, f = 0, f[:len(f)-1]
	case strings.HasSuffix(f, "*") && len(f) > 1:
		c.min, c.max, f = 0, -1, f[:len(f)-1]
	case strings.HasSuffix(f, "+") && len(f) > 1:
		c.min, c.max, f = 1, -1, f[:len(f)-1]
	case strings.HasSuffix(f, "}"):
		i := strings.LastIndexByte(f, '{')
		in := strings.SplitN(f[i+1:len(f)-1], ",", 2)
		n, err := strconv.Atoi(in[0])
		mustOK(err)
		c.min, c.max = n, n
		if len(in) > 1 {
			c.max = -1
			if in[1] != "" {
				c.max, err = strconv.Atoi(in[1])
				mustOK(err)
			}
		}
		f = f[:i]
	}
	if f[0] == '\'' {
		c.kind = gCompose
		c.name = b.nm(f)
		for i := 1; i < len(f); i++ {
			if f[i] >= '0' && f[i] <= '9' {
				n := 0
				for ; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
					n = 10*n + int(f[i]-'0')
				}
				i--
				c.parts[len(c.parts)-1].occ = n
				continue
			}
			if strings.HasPrefix(f[i:], "\\x") {
				c.parts = append(c.parts, gPart{unescape(f[i : i+4])[0], 1})
				i += 3
				continue
			}
			c.parts = append(c.parts, gPart{space(f[i]), 1})
		}
		real, err := grammars.NewContainerBuilder().Create().WithCompose(mkCompose(c.name, c.parts, b.nm)).Now()
		mustOK(err)
		c.real = real
		return c
	}
	cb := cardinalities.NewBuilder().Create().WithMin(uint(c.min))
	if c.max >= 0 {
		cb.WithMax(uint(c.max))
	}
	card, err := cb.Now()
	mustOK(err)
	eb := grammars.NewElementBuilder().Create().WithCardinality(card)
	switch {
	case f[0] == '@':
		c.kind, c.name = gRecursive, b.nm(f[1:])
		eb.WithRecursive(c.name)
	case f[0] == '!':
		c.kind, c.name = gEverything, b.nm(f[1:])
		def, ok := b.every[f[1:]]
		if !ok {
			panic("harness: unknown everything " + c.name + " in " + b.g.text)
		}
		c.tok = b.token(def[0])
		vb := grammars.NewEverythingBuilder().Create().WithName(c.name).WithException(c.tok.real)
		if def[1] != "" {
			c.escape = b.token(def[1])
			vb.WithEscape(c.escape.real)
		}
		every, err := vb.Now()
		mustOK(err)
		ins, err := grammars.NewInstanceBuilder().Create().WithEverything(every).Now()
		mustOK(err)
		eb.WithInstance(ins)
	case f[0] == '%':
		c.kind, c.name = gExternal, b.nm(f[1:])
		ext, ok := b.exts[f[1:]]
		if !ok {
			panic("harness: unknown external " + c.name + " in " + b.g.text)
		}
		c.ext = ext
		ex, err := grammars.NewExternalBuilder().Create().WithName(c.name).WithGrammar(ext.real).Now()
		mustOK(err)
		eb.WithExternal(ex)
	case f[0] >= 'A' && f[0] <= 'Z':
		c.kind, c.name = gToken, b.nm(f)
		c.tok = b.token(f)
		ins, err := grammars.NewInstanceBuilder().Create().WithToken(c.tok.real).Now()
		mustOK(err)
		eb.WithInstance(ins)
	default:
		c.kind, c.b = gValue, space(f[0])
		if strings.HasPrefix(f, "\\x") {
			c.b = unescape(f)[0]
		}
		c.name = b.nm(string([]byte{c.b}))
		eb.WithValue(mkNamed(c.name, c.b))
	}
	el, err := eb.Now()
	mustOK(err)
	c.real, err = grammars.NewContainerBuilder().Create().WithElement(el).Now()
	mustOK(err)
	return c
}

// unescape replaces each \xNN
func unescape(s string) []byte {
	out := []byte{}
	for i := 0; i < len(s); i++ {
		if strings.HasPrefix(s[i:], "\\x") {
			n, err := strconv.ParseUint(s[i+2:i+4], 16, 8)
			mustOK(err)
			out = append(out, byte(n))
			i += 3
			continue
		}
		out = append(out, s[i])
	}
	return out
}

func space(c byte) byte {
	if c == '_' {
		return ' '
	}
	return c
}

// ---- the reference interpreter, on positions of the input

type rTree struct {
	tok    *gTok
	ext    string // name of the external, if any
	ok     bool
	rev    bool
	line   int
	elems  []*rElem
	suffix []*rTree
	start  int
	rem    int
	drops  []int // positions that are dropped, in an everything
}

type rElem struct {
	cont     *gCont // nil: reverse
	contents []*rContent
}

type rContent struct {
	val    byte
	prefix []*rTree
	tree   *rTree
}

type rAct struct {
	tok   *gTok
	marks []int // by line, -1: none
}

type rParser struct {
	in    []byte
	steps int
	limit int
}

type rLimit struct{}

func refParse(g *gGram, in []byte) *rTree {
	p := &rParser{in: in}
	return p.gram(g, len(in), 0)
}

func (p *rParser) gram(g *gGram, prev int, pos int) *rTree {
	return p.token(g.root, map[string]*rAct{}, g.chans, prev, pos)
}

func (p *rParser) push(t *gTok, st map[string]*rAct) (*rAct, func()) {
	p.steps++
	if p.limit > 0 && p.steps > p.limit {
		panic(rLimit{})
	}
	cur := &rAct{tok: t, marks: make([]int, len(t.lines))}
	for i := range cur.marks {
		cur.marks[i] = -1
	}
	enclosing, nested := st[t.name]
	if nested && enclosing.tok == t {
		copy(cur.marks, enclosing.marks)
	}
	st[t.name] = cur
	return cur, func() {
		if nested {
			st[t.name] = enclosing
		} else {
			delete(st, t.name)
		}
	}
}

// token returns nil when it fails, and a tree that is not ok when a line matched nothing at all
func (p *rParser) token(t *gTok, st map[string]*rAct, chans []*gChan, prev int, pos int) *rTree {
	cur, pop := p.push(t, st)
	out := &rTree{tok: t, start: pos, rem: pos}
	listed := false
	for i, l := range t.lines {
		if cur.marks[i] == pos {
			continue
		}
		cur.marks[i] = pos
		elems, end, ok := p.line(l, st, chans, prev, pos)
		if !ok {
			continue
		}
		listed = true
		if len(elems) > 0 {
			out.ok, out.line, out.elems, out.rem = true, i, elems, end
			break
		}
	}
	pop()
	if !listed {
		return nil
	}
	out.suffix, out.rem = p.channels(chans, prev, out.rem)
	return out
}

func (p *rParser) line(l []*gCont, st map[string]*rAct, chans []*gChan, prev int, pos int) ([]*rElem, int, bool) {
	out := []*rElem{}
	for _, c := range l {
		el := &rElem{cont: c}
		if c.kind == gCompose {
			for _, part := range c.parts {
				for i := 0; i < part.occ; i++ {
					content, end := p.value(part.b, chans, prev, pos)
					if content == nil {
						return nil, 0, false
					}
					el.contents = append(el.contents, content)
					prev, pos = pos, end
				}
			}
			out = append(out, el)
			continue
		}
		for pos < len(p.in) && (c.max < 0 || len(el.contents) < c.max) {
			content, end := p.element(c, st, chans, prev, pos)
			if content == nil {
				break
			}
			el.contents = append(el.contents, content)
			prev, pos = pos, end
		}
		if len(el.contents) < c.min {
			return nil, 0, false
		}
		if len(el.contents) > 0 {
			out = append(out, el)
		}
	}
	return out, pos, true
}

func (p *rParser) element(c *gCont, st map[string]*rAct, chans []*gChan, prev int, pos int) (*rContent, int) {
	var t *rTree
	switch c.kind {
	case gValue:
		return p.value(c.b, chans, prev, pos)
	case gToken:
		t = p.token(c.tok, st, chans, prev, pos)
	case gRecursive:
		if act, ok := st[c.name]; ok {
			t = p.token(act.tok, st, chans, prev, pos)
		}
	case gEverything:
		t = p.everything(c, st, prev, pos)
	case gExternal:
		t = p.gram(c.ext, prev, pos)
		if t != nil {
			t.ext = c.name
		}
	}
	if t == nil || !t.ok {
		return nil, 0
	}
	return &rContent{tree: t}, t.rem
}

func (p *rParser) value(b byte, chans []*gChan, prev int, pos int) (*rContent, int) {
	prefix, pos := p.channels(chans, prev, pos)
	if pos >= len(p.in) || p.in[pos] != b {
		return nil, 0
	}
	return &rContent{val: b, prefix: prefix}, pos + 1
}

func (p *rParser) everything(c *gCont, st map[string]*rAct, prev int, pos int) *rTree {
	_, pop := p.push(c.tok, st)
	defer pop()
	out := &rTree{tok: c.tok, ok: true, rev: true, start: pos}
	el := &rElem{}
	for pos < len(p.in) {
		n, skip := 1, 0
		escaped := false
		if c.escape != nil {
			if e := p.token(c.escape, st, nil, prev, pos); e != nil && e.ok {
				if x := p.token(c.tok, st, nil, pos, e.rem); x != nil && x.ok {
					escaped = true
					skip, n = e.rem-pos, x.rem-e.rem
				}
			}
		}
		if !escaped {
			if x := p.token(c.tok, st, nil, prev, pos); x != nil && x.ok {
				break
			}
		}
		for i := 0; i < skip; i++ {
			out.drops = append(out.drops, pos+i)
		}
		for _, b := range p.in[pos+skip : pos+skip+n] {
			el.contents = append(el.contents, &rContent{val: b})
		}
		prev = pos
		pos += skip + n
	}
	if len(el.contents) == 0 {
		return nil
	}
	out.elems, out.rem = []*rElem{el}, pos
	return out
}

func (p *rParser) channels(chans []*gChan, prev int, pos int) ([]*rTree, int) {
	var list []*rTree
	for {
		progress := false
		for _, c := range chans {
			t := p.channel(c, prev, pos)
			if t == nil || t.rem == pos {
				continue
			}
			progress = true
			list = append(list, t)
			prev, pos = pos, t.rem
		}
		if !progress {
			return list, pos
		}
	}
}

func (p *rParser) channel(c *gChan, prev int, pos int) *rTree {
	t := p.token(c.tok, map[string]*rAct{}, nil, prev, pos)
	if t == nil {
		return nil
	}
	if c.prev != nil && p.token(c.prev, map[string]*rAct{}, nil, len(p.in), prev) == nil {
		return nil
	}
	if c.next != nil && p.token(c.next, map[string]*rAct{}, nil, len(p.in), t.rem) == nil {
		return nil
	}
	return t
}

// ---- comparison of a real tree with the one of the reference

type astCmp struct {
	in []byte
}

func refString(t *rTree, in []byte) string {
	if t == nil {
		return "nothing"
	}
	sb := &strings.Builder{}
	t.write(sb)
	fmt.Fprintf(sb, " remaining %q", in[t.rem:])
	return sb.String()
}

func (t *rTree) write(sb *strings.Builder) {
	name := t.tok.name
	if t.ext != "" {
		name = t.ext
	}
	fmt.Fprintf(sb, "%s", name)
	if !t.ok {
		sb.WriteString("(none)")
		return
	}
	fmt.Fprintf(sb, ".%d(", t.line)
	for i, e := range t.elems {
		if i > 0 {
			sb.WriteString(" ")
		}
		for j, c := range e.contents {
			if j > 0 {
				sb.WriteString(",")
			}
			if c.tree != nil {
				c.tree.write(sb)
				continue
			}
			for _, x := range c.prefix {
				sb.WriteString("<")
				x.write(sb)
				sb.WriteString(">")
			}
			fmt.Fprintf(sb, "%c", c.val)
		}
	}
	sb.WriteString(")")
	for _, x := range t.suffix {
		sb.WriteString("<")
		x.write(sb)
		sb.WriteString(">")
	}
}

// realString describes a real tree
func realString(t trees.Tree) string {
	if t == nil {
		return "nothing"
	}
	sb := &strings.Builder{}
	writeReal(t, sb)
	fmt.Fprintf(sb, " remaining %q", t.Remaining())
	return sb.String()
}

func writeReal(t trees.Tree, sb *strings.Builder) {
	fmt.Fprintf(sb, "%s", t.Grammar().Name())
	if !t.Block().HasSuccessful() {
		sb.WriteString("(none)")
		return
	}
	l := t.Block().Successful()
	fmt.Fprintf(sb, ".%d(", l.Index())
	for i, e := range l.Elements().List() {
		if i > 0 {
			sb.WriteString(" ")
		}
		for j, c := range e.Contents().List() {
			if j > 0 {
				sb.WriteString(",")
			}
			if c.IsTree() {
				writeReal(c.Tree(), sb)
				continue
			}
			if c.Value().HasPrefix() {
				for _, x := range c.Value().Prefix().List() {
					sb.WriteString("<")
					writeReal(x, sb)
					sb.WriteString(">")
				}
			}
			fmt.Fprintf(sb, "%c", c.Value().Content())
		}
	}
	sb.WriteString(")")
	if t.HasSuffix() {
		for _, x := range t.Suffix().List() {
			sb.WriteString("<")
			writeReal(x, sb)
			sb.WriteString(">")
		}
	}
}

// compareRoot compares the outcome of a parse with the reference
func compareRoot(real trees.Tree, err error, ref *rTree, in []byte) error {
	success := err == nil && real != nil && real.Block().HasSuccessful()
	expected := ref != nil && ref.ok
	if success != expected {
		got := "an error: "
		if err == nil {
			got = realString(real)
		} else {
			got += clip(err.Error(), 200)
		}
		return fmt.Errorf("on %q the grammar denotes %s, the parser returns %s", in, refString(ref, in), got)
	}
	if !success {
		return nil
	}
	cmp := &astCmp{in: in}
	if e := cmp.tree(real, ref, ref.tok.name); e != nil {
		return fmt.Errorf("on %q the grammar denotes %s, the parser returns %s: %v", in, refString(ref, in), realString(real), e)
	}
	return nil
}

func (c *astCmp) tree(real trees.Tree, ref *rTree, path string) error {
	name := ref.tok.name
	if ref.ext != "" {
		name = ref.ext
	} else if real.Grammar() != ref.tok.real {
		return fmt.Errorf("%s: the tree is of the token %s, not of %s", path, real.Grammar().Name(), name)
	}
	if real.Grammar().Name() != name {
		return fmt.Errorf("%s: the tree is of the token %s, not of %s", path, real.Grammar().Name(), name)
	}
	if rem := c.in[ref.rem:]; !bytes.Equal(real.Remaining(), rem) || real.HasRemaining() != (len(rem) > 0) {
		return fmt.Errorf("%s: the remaining is %q (%t), not %q", path, real.Remaining(), real.HasRemaining(), rem)
	}
	if err := c.trees(real.Suffix(), real.HasSuffix(), ref.suffix, path+" suffix"); err != nil {
		return err
	}
	if real.Block().HasSuccessful() != ref.ok {
		return fmt.Errorf("%s: is successful: %t instead of %t", path, real.Block().HasSuccessful(), ref.ok)
	}
	if !ref.ok {
		return nil
	}
	line := real.Block().Successful()
	lines := real.Block().Lines()
	if len(lines) == 0 || lines[len(lines)-1] != line {
		return fmt.Errorf("%s: the line of the tree is not its last one", path)
	}
	if line.Grammar() != ref.tok.rlines[ref.line] || line.Index() != uint(ref.line) || line.IsReverse() != ref.rev || !line.IsSuccessful() || !line.HasElements() {
		return fmt.Errorf("%s: the line is %d (reverse: %t) instead of %d (reverse: %t)", path, line.Index(), line.IsReverse(), ref.line, ref.rev)
	}
	els := line.Elements().List()
	if len(els) != len(ref.elems) {
		return fmt.Errorf("%s: %d elements instead of %d", path, len(els), len(ref.elems))
	}
	for i, e := range ref.elems {
		p := fmt.Sprintf("%s/%d", path, i)
		re := els[i]
		if e.cont == nil {
			if re.HasGrammar() {
				return fmt.Errorf("%s: the element of an everything has a grammar", p)
			}
		} else if !re.HasGrammar() || re.Grammar() != e.cont.real {
			return fmt.Errorf("%s: the element is not the one of the container %s", p, e.cont.name)
		}
		list := re.Contents().List()
		if len(list) != len(e.contents) || re.Amount() != uint(len(e.contents)) || !re.IsSuccessful() {
			return fmt.Errorf("%s: %d contents instead of %d", p, len(list), len(e.contents))
		}
		for j, x := range e.contents {
			q := fmt.Sprintf("%s.%d", p, j)
			rc := list[j]
			if x.tree != nil {
				if !rc.IsTree() || rc.IsValue() {
					return fmt.Errorf("%s: the content is not a tree", q)
				}
				if err := c.tree(rc.Tree(), x.tree, q+"("+x.tree.tok.name+")"); err != nil {
					return err
				}
				continue
			}
			if !rc.IsValue() || rc.IsTree() {
				return fmt.Errorf("%s: the content is not a value", q)
			}
			if rc.Value().Content() != x.val {
				return fmt.Errorf("%s: the value is %q instead of %q", q, rc.Value().Content(), x.val)
			}
			if err := c.trees(rc.Value().Prefix(), rc.Value().HasPrefix(), x.prefix, q+" prefix"); err != nil {
				return err
			}
		}
	}
	return nil
}

func (c *astCmp) trees(real trees.Trees, has bool, ref []*rTree, path string) error {
	if !has {
		if len(ref) > 0 {
			return fmt.Errorf("%s: there is none instead of %d", path, len(ref))
		}
		return nil
	}
	list := real.List()
	if len(list) != len(ref) {
		return fmt.Errorf("%s: %d trees instead of %d", path, len(list), len(ref))
	}
	for i, r := range ref {
		if err := c.tree(list[i], r, fmt.Sprintf("%s[%d]", path, i)); err != nil {
			return err
		}
	}
	return nil
}

// words returns all the words of the alphabet, up to the length
func words(alphabet string, max int) [][]byte {
	out := [][]byte{{}}
	level := [][]byte{{}}
	for n := 0; n < max; n++ {
		next := [][]byte{}
		for _, w := range level {
			for i := 0; i < len(alphabet); i++ {
				next = append(next, append(append([]byte{}, w...), alphabet[i]))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

// parseAll parses all the inputs with the grammar and compares each outcome with the reference
func (c *C) parseAll(g *gGram, inputs [][]byte) error {
	for _, in := range inputs {
		// in memory, the input is followed by what it could go on with
		room := append(append(append(make([]byte, 0, 2*len(in)+8), in...), in...), 0)
		if len(in) > 0 {
			room[len(room)-1] = inputs[len(inputs)-1][0]
		}
		given := room[:len(in)]
		real, err := theParser.Execute(g.real, given)
		c.Step(1)
		c.Exec()
		if !bytes.Equal(given, in) || !bytes.Equal(room[len(in):2*len(in)], in) {
			return fmt.Errorf("the input %q was modified: %q", in, room)
		}
		ref := refParse(g, in)
		if e := compareRoot(real, err, ref, in); e != nil {
			return e
		}
		if ref != nil && ref.ok {
			c.State(refString(ref, in))
		} else {
			c.State("no")
		}
	}
	return nil
}

// gramCase is a case which parses all the inputs with a grammar
func (c *C) gramCase(text string, exts map[string]*gGram, inputs [][]byte) {
	c.Do(func() string { return "grammar " + text + describeExts(exts) }, func() error {
		return c.parseAll(newGram(text, exts), inputs)
	})
}

func describeExts(exts map[string]*gGram) string {
	s := ""
	for n, e := range exts {
		s += " %" + n + "={" + e.text + "}"
	}
	return s
}
