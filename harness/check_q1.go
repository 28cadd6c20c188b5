package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	query_applications "github.com/steve-care-software/rodkina/libs/queries/applications"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
)

func init() {
	register("Q01", "every query of the families (token, element, index, content, functions, fetchers, recursion) executed on the trees of every grammar of the family and every input up to a length, and its result and the calls of its functions compared with a reference evaluator", checkQ01)
	register("Q02", "every well-formed and ill-formed query of the families on every tree, successful or not: no panic, the outcome of the reference evaluator, the same outcome again, the tree unchanged, and an error injected in each call of each function", checkQ02)
}

// qSpec is a query, of the harness
type qSpec struct {
	tok, rev, el string
	idx          int
	content      int // or -1
	in           byte
	fetch        []*qFetch
	fn           byte
	real         queries.Query
	rig          *qRig
}

type qFetch struct {
	rec string
	q   *qSpec
}

func (q *qSpec) String() string {
	s := fmt.Sprintf("%s.%s[%d]", q.tok, q.el, q.idx)
	if q.rev != qNoReverse {
		s += "(reverse " + q.rev + ")"
	}
	if q.content >= 0 {
		s += fmt.Sprintf("[%d]", q.content)
	}
	if len(q.fetch) == 0 {
		return s + fmt.Sprintf(".%c%c", q.in, q.fn)
	}
	l := []string{}
	for _, f := range q.fetch {
		if f.q == nil {
			l = append(l, "^"+f.rec)
			continue
		}
		l = append(l, f.q.String())
	}
	return s + "{" + strings.Join(l, ", ") + "}." + string(q.fn)
}

const qNoReverse = "zzReverse"

// the functions of the contents: s (the content), S (the content, twice), z (nothing), m (each content), M (all of
// them in one value), e (nothing). Those of the queries: 1 (the value), n (the values), i (not valid), I (a value,
// not valid), N (no value, valid)

type qRig struct {
	ids  map[trees.Content]string
	log  []string
	fail int // the call that fails, or 0
	n    int
	hook func() // called by each function, before it returns
}

var errQuery = errors.New("the function fails")

func (r *qRig) call(text string) error {
	r.n++
	r.log = append(r.log, text)
	if r.hook != nil {
		r.hook()
	}
	if r.n == r.fail {
		return errQuery
	}
	return nil
}

// number names each content of a tree by its path
func (r *qRig) number(t trees.Tree, path string) {
	if t == nil || !t.Block().HasSuccessful() {
		return
	}
	for i, e := range t.Block().Successful().Elements().List() {
		for j, c := range e.Contents().List() {
			name := fmt.Sprintf("%s/%d.%d", path, i, j)
			r.ids[c] = name
			if c.IsTree() {
				r.number(c.Tree(), name)
			}
		}
	}
}

func (r *qRig) content(kind byte, cs []trees.Content) ([]interface{}, error) {
	names := []string{}
	for _, c := range cs {
		id, ok := r.ids[c]
		if !ok {
			id = "unknown"
		}
		names = append(names, id)
	}
	text := string(kind) + "(" + strings.Join(names, ",") + ")"
	if err := r.call(text); err != nil {
		return nil, err
	}
	switch kind {
	case 's', 'M':
		return []interface{}{text}, nil
	case 'S':
		return []interface{}{text + "a", text + "b"}, nil
	case 'm':
		out := []interface{}{}
		for _, n := range names {
			out = append(out, n)
		}
		return out, nil
	case 'Y', 'y':
		return []interface{}{nil, []interface{}{text}, text}, nil
	}
	return nil, nil
}

func (r *qRig) result(kind byte, list []interface{}) (interface{}, bool, error) {
	text := fmt.Sprintf("%c%v", kind, list)
	if err := r.call(text); err != nil {
		return "with an error", true, err
	}
	switch kind {
	case 'i':
		return nil, false, nil
	case 'I':
		return text, false, nil
	case 'j':
		return text, false, nil
	case 'N':
		return nil, true, nil
	case 'L':
		return []interface{}{text, nil}, true, nil
	case 'l':
		return []interface{}{[]interface{}{}}, true, nil
	}
	return text, true, nil
}

func single(kind byte) bool {
	return kind == 's' || kind == 'S' || kind == 'z' || kind == '1' || kind == 'i' || kind == 'y' || kind == 'j' || kind == 'l'
}

// build makes the real query
func (q *qSpec) build(r *qRig) queries.Query {
	el, err := queries.NewElementBuilder().Create().WithName(q.el).WithIndex(uint(q.idx)).Now()
	mustOK(err)
	tb := queries.NewTokenBuilder().Create().WithName(q.tok).WithReverseName(q.rev).WithElement(el)
	if q.content >= 0 {
		tb.WithContent(uint(q.content))
	}
	tok, err := tb.Now()
	mustOK(err)
	ib := queries.NewInsideBuilder().Create()
	if len(q.fetch) == 0 {
		kind := q.in
		cb := queries.NewContentFnBuilder().Create()
		if single(kind) {
			cb.WithSingle(func(c trees.Content) ([]interface{}, error) { return r.content(kind, []trees.Content{c}) })
		} else {
			cb.WithMulti(func(cs []trees.Content) ([]interface{}, error) { return r.content(kind, cs) })
		}
		fn, err := cb.Now()
		mustOK(err)
		ib.WithFn(fn)
	} else {
		list := []queries.Fetcher{}
		for _, f := range q.fetch {
			fb := queries.NewFetcherBuilder().Create()
			if f.q != nil {
				fb.WithQuery(f.q.build(r))
			} else {
				fb.WithRecursive(f.rec)
			}
			ins, err := fb.Now()
			mustOK(err)
			list = append(list, ins)
		}
		fs, err := queries.NewFetchersBuilder().Create().WithList(list).Now()
		mustOK(err)
		ib.WithFetchers(fs)
	}
	in, err := ib.Now()
	mustOK(err)
	fb := queries.NewQueryFnBuilder().Create()
	kind := q.fn
	if single(kind) {
		fb.WithSingle(func(i interface{}) (interface{}, bool, error) { return r.result(kind, []interface{}{i}) })
	} else {
		fb.WithMulti(func(l []interface{}) (interface{}, bool, error) { return r.result(kind, l) })
	}
	fn, err := fb.Now()
	mustOK(err)
	out, err := queries.NewBuilder().Create().WithToken(tok).WithInside(in).WithFn(fn).Now()
	mustOK(err)
	return out
}

var errRefQuery = errors.New("ill-formed")
var errUnspecified = errors.New("unspecified")

func nearest(list []*qSpec, name string) *qSpec {
	for _, q := range list {
		if q.tok == name {
			return q
		}
	}
	return nil
}

// refQuery evaluates the query: enclosing lists the queries that it is written in, the nearest first, through those
// that are being applied
func (r *qRig) refQuery(q *qSpec, t trees.Tree, enclosing []*qSpec, through []*qSpec, run map[string]bool) (interface{}, bool, error) {
	if t.Grammar().Name() != q.tok || !t.Block().HasSuccessful() {
		return nil, false, errRefQuery
	}
	run[q.tok] = true
	enclosing = append([]*qSpec{q}, enclosing...)
	through = append([]*qSpec{q}, through...)
	var selected []trees.Content
	found := 0
	for _, e := range t.Block().Successful().Elements().List() {
		match := false
		if e.HasGrammar() {
			match = e.Grammar().Name() == q.el
		} else {
			match = q.rev == q.el
		}
		if !match {
			continue
		}
		if found == q.idx {
			selected = e.Contents().List()
			if q.content >= 0 {
				if q.content >= len(selected) {
					return nil, false, errRefQuery
				}
				selected = selected[q.content : q.content+1]
			}
			break
		}
		found++
	}
	values := []interface{}{}
	if len(q.fetch) == 0 {
		given := selected
		if single(q.in) {
			if len(given) == 0 {
				return nil, false, errRefQuery
			}
			given = given[:1]
		}
		l, err := r.content(q.in, given)
		if err != nil {
			return nil, false, err
		}
		values = l
	} else {
		for _, c := range selected {
			if c.IsValue() {
				continue
			}
			for _, f := range q.fetch {
				sub := f.q
				if sub == nil {
					sub = nearest(enclosing, f.rec)
					if sub != nearest(through, f.rec) {
						return nil, false, errUnspecified // the recursion went through another query of the name
					}
					if sub == nil {
						if run[f.rec] {
							return nil, false, errUnspecified
						}
						return nil, false, errRefQuery
					}
				}
				around := enclosing
				if f.q == nil {
					// the query that recurs is applied where it was written: around it are its own enclosing queries
					for i, e := range enclosing {
						if e == sub {
							around = enclosing[i+1:]
							break
						}
					}
				}
				v, valid, err := r.refQuery(sub, c.Tree(), around, through, run)
				if err != nil {
					return nil, false, err
				}
				if valid {
					values = append(values, v)
				}
			}
		}
	}
	if len(values) == 0 {
		return nil, false, nil
	}
	if single(q.fn) {
		values = values[:1]
	}
	return r.result(q.fn, values)
}

var theQueries = query_applications.NewApplication()

type qOutcome struct {
	value string
	valid bool
	err   error
	log   string
}

// query executes the query on the tree, and compares
func (c *C) query(r *qRig, q *qSpec, t trees.Tree, inject bool) error {
	if q.rig != r {
		q.real, q.rig = q.build(r), r
	}
	r.fail = 0
	r.n, r.log = 0, nil
	v, valid, err := r.refQuery(q, t, nil, nil, map[string]bool{})
	if err == errUnspecified {
		return nil
	}
	want := qOutcome{fmt.Sprint(v), valid, err, strings.Join(r.log, " ")}
	calls := r.n
	for fail := 0; fail <= calls; fail++ {
		if fail > 0 && !inject {
			break
		}
		w := want
		if fail > 0 {
			r.n, r.log, r.fail = 0, nil, fail
			_, _, e := r.refQuery(q, t, nil, nil, map[string]bool{})
			w = qOutcome{"<nil>", false, e, strings.Join(r.log, " ")}
		}
		for times := 0; times < 2; times++ {
			r.n, r.log, r.fail = 0, nil, fail
			got, valid, remaining, err := theQueries.Execute(q.real, t)
			c.Step(1)
			c.Exec()
			where := fmt.Sprintf("query %s, execution %d", q, times+1)
			if fail > 0 {
				where += fmt.Sprintf(", the function call %d of %d fails", fail, calls)
			}
			if strings.Join(r.log, " ") != w.log {
				return fmt.Errorf("%s: the functions were called as %v, instead of [%s]", where, r.log, w.log)
			}
			if (err != nil) != (w.err != nil) {
				return fmt.Errorf("%s: the error is %v, instead of %v", where, err, w.err)
			}
			if fail > 0 && !strings.Contains(err.Error(), errQuery.Error()) {
				return fmt.Errorf("%s: the error is %q, which is not the one of the function", where, err)
			}
			if err != nil {
				if got != nil || valid {
					return fmt.Errorf("%s: returned %v, %v with the error %s", where, got, valid, err)
				}
				continue
			}
			if fmt.Sprint(got) != w.value || valid != w.valid {
				return fmt.Errorf("%s: returned %v (valid: %v), instead of %s (valid: %v)", where, got, valid, w.value, w.valid)
			}
			if string(remaining) != string(t.Remaining()) {
				return fmt.Errorf("%s: the remaining is %q, instead of %q", where, remaining, t.Remaining())
			}
			c.State(w.value, w.log)
		}
	}
	return nil
}

// qGram is a grammar of the family, with the names of its tokens and elements
type qGram struct {
	text   string
	inputs [][]byte
	toks   []string
	els    map[string][]string // the names of the elements of each token
	exts   map[string]*gGram
	trees  func(g *gGram) []trees.Tree // instead of those of the inputs
}

func queryGrams(c *C, max int) []*qGram {
	w := func(a string) [][]byte { return words(a, max) }
	return []*qGram{
		{text: "R: a b* a | T? c ; T: b", inputs: w("abc"), toks: []string{"R"}, els: map[string][]string{"R": {"a", "b", "T"}}},
		{text: "R: T T{2} b? | a T | b ; T: a b | a", inputs: w("ab"), toks: []string{"R", "T"}, els: map[string][]string{"R": {"T", "b", "a"}, "T": {"a", "b"}}},
		{text: "R: a @R* b | T ; T: b", inputs: w("ab"), toks: []string{"R", "T"}, els: map[string][]string{"R": {"R", "a", "T"}, "T": {"b"}}},
		{text: "R: T+ a? ; T: b @R? c", inputs: w("bca"), toks: []string{"R", "T"}, els: map[string][]string{"R": {"T", "a"}, "T": {"R", "b"}}},
		{text: "R: !E X Y? ; !E: X / Y ; X: x ; Y: y", inputs: w("xya"), toks: []string{"R", "E", "X"}, els: map[string][]string{"R": {"E", "X", "Y"}, "E": {"rev", "x"}, "X": {"x"}}},
		{text: "R: %X T* ; T: 'ab2 | a ; #S ; S: _", inputs: w("ab "), toks: []string{"R", "G", "T"}, els: map[string][]string{"R": {"X", "G", "T"}, "G": {"b", "a"}, "T": {"a", "ab2"}}, exts: map[string]*gGram{"X": newGram("G: b a? b?", nil)}},
	}
}

// qLeaves are the queries whose inside is a function
func qLeaves(tok string, els []string, maxIdx int, contents []int, ins string, fns string, fn func(q *qSpec)) {
	for _, el := range els {
		rev := qNoReverse
		if el == "rev" {
			rev = "rev"
		}
		for idx := 0; idx <= maxIdx; idx++ {
			for _, ct := range contents {
				for _, in := range ins {
					for _, f := range fns {
						fn(&qSpec{tok: tok, rev: rev, el: el, idx: idx, content: ct, in: byte(in), fn: byte(f)})
					}
				}
			}
		}
	}
}

// queriesOf runs a query on the tree of each input, one case per batch of queries
func (c *C) queriesOf(g *qGram, inject bool, gen func(fn func(q *qSpec))) {
	batch := []*qSpec{}
	flush := func() {
		if len(batch) == 0 {
			return
		}
		qs := batch
		batch = nil
		c.Do(func() string {
			return fmt.Sprintf("grammar %s%s, %d queries from %s", g.text, describeExts(g.exts), len(qs), qs[0])
		}, func() error {
			gram := newGram(g.text, g.exts)
			seen := map[string]bool{}
			r := &qRig{}
			list := []trees.Tree{}
			if g.trees != nil {
				list = g.trees(gram)
			}
			for _, in := range g.inputs {
				t, err := theParser.Execute(gram.real, in)
				if err != nil || t == nil {
					continue
				}
				list = append(list, t)
			}
			for _, t := range list {
				shape := realString(t)
				if g.trees == nil && seen[shape] {
					continue // the trees that are made by hand differ by what the text does not show
				}
				seen[shape] = true
				r.ids = map[trees.Content]string{}
				r.number(t, "")
				for _, q := range qs {
					if err := c.query(r, q, t, inject); err != nil {
						return fmt.Errorf("tree %s: %w", shape, err)
					}
				}
				if realString(t) != shape {
					return fmt.Errorf("the tree %s became %s", shape, realString(t))
				}
				if c.Over() {
					break
				}
			}
			return nil
		})
	}
	gen(func(q *qSpec) {
		batch = append(batch, q)
		if len(batch) >= 60 {
			flush()
		}
	})
	flush()
}

// pairs of fetchers that are made
type pairs int

const (
	noPairs  pairs = iota
	recPairs       // one of the two is recursive
	allPairs
)

// nested makes the queries whose inside fetches: from the children, and the names of the enclosing queries
func (g *qGram) nested(children []*qSpec, recs []string, fns string, two pairs, fn func(q *qSpec)) {
	fetchers := []*qFetch{}
	for _, ch := range children {
		fetchers = append(fetchers, &qFetch{q: ch})
	}
	for _, r := range recs {
		fetchers = append(fetchers, &qFetch{rec: r})
	}
	for _, tok := range g.toks {
		for _, el := range g.els[tok] {
			rev := qNoReverse
			if el == "rev" {
				rev = "rev"
			}
			for _, ct := range []int{-1, 1} {
				for _, f := range fns {
					for _, a := range fetchers {
						fn(&qSpec{tok: tok, rev: rev, el: el, idx: 0, content: ct, fetch: []*qFetch{a}, fn: byte(f)})
						if two == noPairs || ct >= 0 {
							continue
						}
						for _, b := range fetchers {
							if two == recPairs && a.q != nil && b.q != nil {
								continue
							}
							fn(&qSpec{tok: tok, rev: rev, el: el, idx: 0, content: ct, fetch: []*qFetch{a, b}, fn: byte(f)})
						}
					}
				}
			}
		}
	}
}

func (g *qGram) children(ins string, fns string, contents []int) []*qSpec {
	out := []*qSpec{}
	for _, tok := range g.toks {
		qLeaves(tok, g.els[tok], 0, contents, ins, fns, func(q *qSpec) { out = append(out, q) })
	}
	return out
}

// treesByHand are the trees of R whose elements are every sequence, up to a length, of: a value (a), an element of T
// with two trees, and elements without a grammar: of values (u, v) and of trees (w)
func treesByHand(max int) func(g *gGram) []trees.Tree {
	return func(g *gGram) []trees.Tree {
		value, element, tree, inside := handMakers(g)
		contA, contT := g.root.lines[0][0], g.root.lines[0][1]
		mk := map[byte]func() trees.Element{
			'a': func() trees.Element { return element(contA, value('a')) },
			'u': func() trees.Element { return element(nil, value('u')) },
			'v': func() trees.Element { return element(nil, value('v'), value('v')) },
			'T': func() trees.Element {
				return element(contT, inside(element(contA, value('a'))), inside(element(nil, value('u')), element(contA, value('a')), element(nil, value('v'))))
			},
			'w': func() trees.Element {
				return element(nil, inside(element(nil, value('u'), value('v'))), value('v'), inside(element(contA, value('a'))))
			},
		}
		out := []trees.Tree{}
		for _, w := range words("auvTw", max) {
			if len(w) == 0 {
				continue
			}
			list := []trees.Element{}
			for _, k := range w {
				list = append(list, mk[k]())
			}
			out = append(out, tree(g.root, list...))
		}
		return out
	}
}

// handMakers make a value, an element, a tree of R, and a content that is a tree of T
func handMakers(g *gGram) (func(b byte) trees.Content, func(cont *gCont, list ...trees.Content) trees.Element, func(tok *gTok, list ...trees.Element) trees.Tree, func(list ...trees.Element) trees.Content) {
	value := func(b byte) trees.Content {
		v, err := trees.NewValueBuilder().Create().WithContent(b).Now()
		mustOK(err)
		c, err := trees.NewContentBuilder().Create().WithValue(v).Now()
		mustOK(err)
		return c
	}
	element := func(cont *gCont, list ...trees.Content) trees.Element {
		cs, err := trees.NewContentsBuilder().Create().WithList(list).Now()
		mustOK(err)
		b := trees.NewElementBuilder().Create().WithContents(cs)
		if cont != nil {
			b.WithGrammar(cont.real)
		}
		e, err := b.Now()
		mustOK(err)
		return e
	}
	tree := func(tok *gTok, list ...trees.Element) trees.Tree {
		es, err := trees.NewElementsBuilder().Create().WithList(list).Now()
		mustOK(err)
		l, err := trees.NewLineBuilder().Create().WithIndex(0).WithGrammar(tok.rlines[0]).WithElements(es).IsReverse().Now()
		mustOK(err)
		blk, err := trees.NewBlockBuilder().Create().WithLines([]trees.Line{l}).Now()
		mustOK(err)
		t, err := trees.NewTreeBuilder().Create().WithGrammar(tok.real).WithBlock(blk).Now()
		mustOK(err)
		return t
	}
	inside := func(list ...trees.Element) trees.Content {
		c, err := trees.NewContentBuilder().Create().WithTree(tree(g.toks["T"], list...)).Now()
		mustOK(err)
		return c
	}
	return value, element, tree, inside
}

// contentsByHand are trees whose first element has the contents of each word (v is a value, t and T are trees), with
// or without a grammar, and is followed by others
func contentsByHand(ws []string) func(g *gGram) []trees.Tree {
	return func(g *gGram) []trees.Tree {
		value, element, tree, inside := handMakers(g)
		contA, contT := g.root.lines[0][0], g.root.lines[0][1]
		out := []trees.Tree{}
		for _, w := range ws {
			for _, cont := range []*gCont{contT, nil} {
				list := []trees.Content{}
				for _, k := range w {
					switch k {
					case 'v':
						list = append(list, value('v'))
					case 't':
						list = append(list, inside(element(contA, value('a'))))
					case 'T':
						list = append(list, inside(element(nil, value('u')), element(contA, value('b')), element(nil, value('x'), value('y'))))
					}
				}
				first := element(cont, list...)
				out = append(out, tree(g.root, first), tree(g.root, first, element(contA, value('a')), element(cont, value('z')), element(nil, value('n')), element(contT, inside(element(contA, value('c'))))))
			}
		}
		return out
	}
}

// queriesOfTreesByHand are the queries whose names are those of an element, or of those without a grammar (r)
func queriesOfTreesByHand(maxIdx int, fn func(q *qSpec)) {
	revs := []string{qNoReverse, "r", "a", "T"}
	for _, el := range []string{"a", "T", "r"} {
		for _, rev := range revs {
			for idx := 0; idx <= maxIdx; idx++ {
				for _, ct := range []int{-1, 0, 1, 2} {
					for _, in := range "sm" {
						q := qLeaf("R", el, idx, ct, byte(in), 'n')
						q.rev = rev
						fn(q)
					}
					for _, el2 := range []string{"a", "r"} {
						for _, rev2 := range []string{qNoReverse, "r", "a"} {
							for idx2 := 0; idx2 < 2; idx2++ {
								ch := qLeaf("T", el2, idx2, -1, 'm', 'n')
								ch.rev = rev2
								q := qNode("R", el, idx, ct, 'n', qQuery(ch))
								q.rev = rev
								fn(q)
							}
						}
					}
				}
			}
		}
	}
}

// contentsOfElements are the queries on the elements of every sequence of contents, up to a length, and of n values
func (c *C) contentsOfElements(share float64, inject bool) {
	c.Group("elements of every sequence of contents", share)
	max := c.B("contents-of-an-element", 5, 7)
	if inject {
		max -= 2
	}
	batch := []string{}
	flush := func(idx int) {
		ws := batch
		batch = nil
		c.queriesOf(&qGram{text: "R: a T* ; T: a", trees: contentsByHand(ws)}, inject, func(fn func(q *qSpec)) { queriesOfTreesByHand(idx, fn) })
	}
	most := 130
	if inject {
		most = 20
	}
	for n := 4; n <= most; n += 1 + n/16 {
		batch = append(batch, rep("v", n), rep("t", n), rep("v", n-1)+"t", rep("t", n-1)+"v")
		flush(1)
	}
	for _, w := range words("vtT", max) {
		if len(w) == 0 || (len(w) > 3 && !inject && strings.Count(string(w), "T") > 1) {
			continue
		}
		if batch = append(batch, string(w)); len(batch) >= 16 {
			flush(2)
		}
	}
	flush(2)
}

// rowsOfFetchers are the lists of fetchers whose outcomes differ: a value, no value, not valid, nothing, a recursion
func (c *C) rowsOfFetchers(share float64, inject bool) {
	c.Group("lists of fetchers of different outcomes", share)
	n := c.B("fetchers", 4, 5)
	if inject {
		n--
	}
	below := false // the leaves are in a token of those of T
	leaf := func(el string, idx, content int, in, f byte) *qFetch {
		if below {
			return qQuery(qNode("T", "U", 0, -1, 'n', qQuery(qLeaf("U", el, idx, content, in, f))))
		}
		return qQuery(qLeaf("T", el, idx, content, in, f))
	}
	kinds := []func() *qFetch{
		func() *qFetch { return leaf("a", 0, -1, 'm', 'n') },
		func() *qFetch { return leaf("a", 0, -1, 'm', 'N') },
		func() *qFetch { return leaf("a", 0, -1, 's', 'I') },
		func() *qFetch { return leaf("b", 0, -1, 'm', '1') },
		nil, nil, nil, // queries that recur
		func() *qFetch { return leaf("a", 0, -1, 'Y', '1') },
		func() *qFetch { return leaf("a", 0, -1, 'm', 'l') },
		func() *qFetch { return leaf("a", 0, -1, 'y', 'j') },
		func() *qFetch { return leaf("a", 0, -1, 'y', 'L') },
	}
	some := 5    // the kinds of the longest lists
	fns := "nNI" // of the queries that recur
	all := fns + "1ilLj"
	for _, g := range []*qGram{
		{text: "R: T* ; T: a b? @T?", inputs: [][]byte{[]byte("ab"), []byte("aba"), []byte("aab"), []byte("abaaab")}},
		{text: "R: T ; T: a @T* b", inputs: [][]byte{[]byte("ab"), []byte("aabb"), []byte("aababb"), []byte("aaabbabb"), []byte("aabaabbabb")}},
		{text: "R: T* ; T: U @T? ; U: a b?", inputs: [][]byte{[]byte("ab"), []byte("aba"), []byte("aab"), []byte("abaaab")}},
	} {
		g := g
		below = strings.Contains(g.text, "U")
		c.queriesOf(g, inject, func(fn func(q *qSpec)) {
			for l := 1; l <= n; l++ {
				of := len(kinds)
				if l == n {
					of = some
				}
				sequences(of, l, func(seq []int) bool {
					list := []*qFetch{}
					for _, k := range seq {
						if kinds[k] == nil {
							// inside of the query of T, that it is made again with
							list = append(list, qQuery(qNode("T", "T", 0, -1, fns[k-4], leaf("a", 0, 0, 'm', 'n'), qRec("T"))))
							continue
						}
						list = append(list, kinds[k]())
					}
					for i := range all {
						if i == 0 || l < n {
							fn(qNode("R", "T", 0, -1, all[i], list...))
							fn(qNode("R", "T", 0, -1, 'n', qQuery(qNode("T", "T", 0, -1, all[i], append([]*qFetch{qRec("T")}, list...)...))))
						}
					}
					return true
				})
			}
		})
	}
}

// queriesOfOneName are the queries of a token inside of queries of the same token, on one element or another, that recur
func (c *C) queriesOfOneName(share float64, inject bool) {
	c.Group("queries of a token inside of others of the same token", share)
	max := c.B("one-name-input", 10, 12)
	if inject {
		max -= 2
	}
	inputs := [][]byte{}
	for _, w := range words("ab", max) {
		// the inputs are the well-balanced words
		depth := 0
		for i, b := range w {
			if b == 'a' {
				depth++
			} else {
				depth--
			}
			if depth < 0 || (depth == 0 && i < len(w)-1) {
				depth = -1
				break
			}
		}
		if len(w) > 1 && depth == 0 {
			inputs = append(inputs, w)
		}
	}
	leaves := []*qFetch{qQuery(qLeaf("T", "a", 0, 0, 'm', 'n')), qQuery(qLeaf("T", "T", 1, -1, 'm', 'n')), qRec("T")}
	grow := func(others []*qFetch) []*qFetch {
		out := []*qFetch{}
		for idx := 0; idx < 2; idx++ {
			for i, o := range others {
				out = append(out, qQuery(qNode("T", "T", idx, -1, 'n', o)))
				for j, l := range leaves {
					if i < len(leaves) && j < i {
						continue
					}
					out = append(out, qQuery(qNode("T", "T", idx, -1, 'n', l, o)), qQuery(qNode("T", "T", idx, -1, 'n', o, l)))
				}
			}
		}
		return out
	}
	one := grow(leaves)
	two := grow(append(append([]*qFetch{}, leaves...), one...))
	for _, text := range []string{"R: T ; T: a @T? @T? b", "R: T ; T: a @T{1} @T* b | a b", "R: T ; T: a @T* b"} {
		c.queriesOf(&qGram{text: text, inputs: inputs}, inject, func(fn func(q *qSpec)) {
			for _, f := range two {
				fn(qNode("R", "T", 0, -1, 'n', f))
			}
			if inject && !c.thorough() {
				return
			}
			for i := range two {
				for _, l := range leaves[:1] {
					for idx := 0; idx < 2; idx++ {
						fn(qNode("R", "T", 0, -1, 'n', qQuery(qNode("T", "T", idx, -1, 'n', two[i], l, qRec("T"))), qQuery(qNode("T", "T", 1-idx, -1, 'n', qRec("R"), l))))
					}
				}
			}
		})
	}
}

func checkQ01(c *C) {
	c.Group("trees made by hand", 0.12)
	max := c.B("hand-elements", 3, 4)
	c.queriesOf(&qGram{text: "R: a T* ; T: a", trees: treesByHand(max)}, false, func(fn func(q *qSpec)) { queriesOfTreesByHand(max, fn) })

	c.Group("one query", 0.3)
	for _, g := range queryGrams(c, c.B("leaf-input", 7, 8)) {
		g := g
		c.queriesOf(g, false, func(fn func(q *qSpec)) {
			for i, tok := range g.toks {
				qLeaves(tok, g.els[tok], 2, []int{-1, 0, 1, 2}, "sSzmMe", "1niIN", func(q *qSpec) {
					if i == 0 {
						fn(q)
						return
					}
					// in the trees of the root
					for _, el := range g.els["R"] {
						if el == tok {
							fn(qNode("R", el, 0, -1, 'n', qQuery(q)))
						}
					}
				})
			}
		})
	}
	c.Group("what remains", 0.1)
	for first := 0; first < 256; first += 16 {
		rest := [][]byte{[]byte("aa"), []byte("ba")}
		for b := first; b < first+16; b++ {
			x := []byte{byte(b)}
			for _, r := range []string{"%", "%%", "z%", "%z", "%%z", "z%z", "zzzzz%", "%zzzzz", "z%%%"} {
				for _, in := range []string{"a", "ab", "bab"} {
					rest = append(rest, append([]byte(in), bytes.ReplaceAll([]byte(r), []byte("%"), x)...))
				}
			}
		}
		c.queriesOf(&qGram{text: "R: b? T ; T: a b?", inputs: rest}, false, func(fn func(q *qSpec)) {
			fn(qLeaf("R", "b", 0, -1, 'm', 'n'))
			fn(qLeaf("R", "T", 0, -1, 's', '1'))
			fn(qNode("R", "T", 0, -1, 'n', qQuery(qLeaf("T", "a", 0, 0, 'm', 'n')), qRec("R")))
			fn(qNode("R", "T", 0, 0, '1', qQuery(qLeaf("T", "b", 0, -1, 'm', 'i'))))
		})
	}
	c.rowsOfFetchers(0.2, false)
	c.queriesOfOneName(0.2, false)
	c.contentsOfElements(0.2, false)
	c.nearQueries(0.2, false)
	c.scaleQueries("sizes of the queries and of the trees", 0.3, 300, false)

	c.Group("queries that fetch", 0.5)
	for _, g := range queryGrams(c, c.B("fetch-input", 6, 7)) {
		g := g
		c.queriesOf(g, false, func(fn func(q *qSpec)) {
			g.nested(g.children("m", "nI", []int{-1, 0}), g.toks, "n1", allPairs, fn)
		})
	}
	c.Group("queries that fetch queries that fetch, and recursion", 0.9)
	for _, g := range queryGrams(c, c.B("deep-input", 6, 7)) {
		g := g
		c.queriesOf(g, false, func(fn func(q *qSpec)) {
			inner := []*qSpec{}
			leaves := g.children("M", "n", []int{-1})
			two := recPairs
			if c.thorough() {
				two = allPairs
			}
			g.nested(leaves, g.toks, "n", two, func(q *qSpec) {
				if q.content < 0 {
					inner = append(inner, q)
				}
			})
			g.nested(append(inner, leaves...), g.toks, "n", noPairs, fn)
			if c.thorough() {
				g.nested(inner, g.toks, "n", allPairs, fn)
				return
			}
			// two fetchers, one of which recurs
			for _, tok := range g.toks {
				for _, el := range g.els[tok] {
					for _, rec := range g.toks {
						for _, i := range inner {
							if el == "rev" {
								continue
							}
							fn(&qSpec{tok: tok, rev: qNoReverse, el: el, content: -1, fetch: []*qFetch{{q: i}, {rec: rec}}, fn: 'n'})
							fn(&qSpec{tok: tok, rev: qNoReverse, el: el, content: -1, fetch: []*qFetch{{rec: rec}, {q: i}}, fn: 'n'})
						}
					}
				}
			}
		})
	}
}

func checkQ02(c *C) {
	c.Group("trees made by hand", 0.12)
	max := c.B("hand-elements", 3, 4)
	c.queriesOf(&qGram{text: "R: a T* ; T: a", trees: treesByHand(max)}, true, func(fn func(q *qSpec)) { queriesOfTreesByHand(max, fn) })

	c.Group("every query, well-formed or not", 0.4)
	for _, g := range queryGrams(c, c.B("leaf-input", 7, 8)) {
		g := g
		c.queriesOf(g, true, func(fn func(q *qSpec)) {
			for _, tok := range append([]string{"Z"}, g.toks...) {
				els := append([]string{"Z", "rev"}, g.els["R"]...)
				for _, rev := range []string{qNoReverse, "rev", "a", "T"} {
					qLeaves(tok, els, 1, []int{-1, 0, 3}, "sme", "1nI", func(q *qSpec) {
						q.rev = rev
						fn(q)
					})
				}
				qLeaves(tok, els, 1, []int{-1, 1}, "sM", "1n", func(q *qSpec) {
					q.idx, q.content = 1<<40, 1<<40*q.content
					if q.content < 0 {
						q.content = -1
					}
					fn(q)
				})
			}
		})
	}
	c.rowsOfFetchers(0.2, true)
	c.queriesOfOneName(0.2, true)
	c.contentsOfElements(0.2, true)
	c.nearQueries(0.2, true)
	c.scaleQueries("sizes of the queries and of the trees, errors of the functions", 0.4, 17, true)

	c.Group("fetchers, well-formed or not, and errors of the functions", 0.6)
	for _, g := range queryGrams(c, c.B("fetch-input", 6, 7)) {
		g := g
		c.queriesOf(g, true, func(fn func(q *qSpec)) {
			children := g.children("sm", "1n", []int{-1, 0})
			children = append(children, &qSpec{tok: "Z", rev: qNoReverse, el: "a", content: -1, in: 'm', fn: 'n'})
			g.nested(children, append([]string{"Z"}, g.toks...), "n1", noPairs, fn)
			g.nested(g.children("m", "n", []int{-1}), append([]string{"Z"}, g.toks...), "n", allPairs, fn)
			inner := []*qSpec{}
			g.nested(g.children("M", "n", []int{-1}), g.toks, "nI", noPairs, func(q *qSpec) { inner = append(inner, q) })
			g.nested(inner, append([]string{"Z"}, g.toks...), "n", noPairs, fn)
		})
	}
}
