package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/coverages"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)

func init() {
	register("A08", "the coverage reports of every grammar of the family (suites on tokens at every place: root, nested, shared, recursive, exceptions, escapes, channels, externals), compared with an independent reference walk and interpreter", checkA08)
	register("A09", "every fetch (each name of the grammar and a missing one, each index) on every node of the trees of every grammar of the families and every input up to a length, compared with a walk of the tree", checkA09)
}

// places of the elements: token, line, place -> name of the element
type places map[string]map[uint]map[uint]string

func (p places) add(tok string, line int, place int, name string) {
	if p[tok] == nil {
		p[tok] = map[uint]map[uint]string{}
	}
	if p[tok][uint(line)] == nil {
		p[tok][uint(line)] = map[uint]string{}
	}
	p[tok][uint(line)][uint(place)] = name
}

func (p places) String() string {
	out := []string{}
	for t, ls := range p {
		for l, es := range ls {
			for e, n := range es {
				out = append(out, fmt.Sprintf("%s.%d.%d=%s", t, l, e, n))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// refExec is a suite that must be executed
type refExec struct {
	tok   *gTok
	suite *gSuite
	tree  *rTree
}

// refCoverage walks the tokens of a grammar, each one once
func refCoverage(g *gGram, out *[]refExec) {
	seen := map[*gTok]bool{}
	var walk func(t *gTok, chans []*gChan)
	walk = func(t *gTok, chans []*gChan) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, s := range t.suites {
			p := &rParser{in: s.data}
			*out = append(*out, refExec{t, s, p.token(t, map[string]*rAct{}, chans, len(s.data), 0)})
		}
		for _, l := range t.lines {
			for _, c := range l {
				switch c.kind {
				case gToken, gEverything:
					walk(c.tok, chans)
					walk(c.escape, chans)
				case gExternal:
					refCoverage(c.ext, out)
				}
			}
		}
	}
	walk(g.root, g.chans)
	for _, ch := range g.chans {
		walk(ch.tok, nil)
	}
}

// refElements lists every element of a grammar, without the composes
func refElements(g *gGram, out places) {
	seen := map[*gTok]bool{}
	var walk func(t *gTok)
	walk = func(t *gTok) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for i, l := range t.lines {
			for j, c := range l {
				if c.kind == gCompose {
					continue
				}
				out.add(t.name, i, j, c.name)
				switch c.kind {
				case gToken, gEverything:
					walk(c.tok)
					walk(c.escape)
				case gExternal:
					refElements(c.ext, out)
				}
			}
		}
	}
	walk(g.root)
	for _, ch := range g.chans {
		walk(ch.tok)
	}
}

// refCovered lists the elements that a tree matched
func refCovered(name string, t *rTree, out places, composes places) {
	if t == nil || !t.ok {
		return
	}
	for _, e := range t.elems {
		if e.cont == nil {
			continue
		}
		for j, c := range t.tok.lines[t.line] {
			if c == e.cont {
				if c.kind == gCompose {
					composes.add(name, t.line, j, c.name)
				} else {
					out.add(name, t.line, j, c.name)
				}
			}
		}
		for _, ct := range e.contents {
			if ct.tree != nil {
				// the elements of an external are those of the root of its grammar, whatever the name of the external
				sub := e.cont.name
				if e.cont.kind == gExternal {
					sub = e.cont.ext.root.name
				}
				refCovered(sub, ct.tree, out, composes)
			}
		}
	}
}

// comparePlaces: the elements must be the same, those of optional can be there or not
func comparePlaces(what string, got map[string]map[uint]map[uint]string, want places, optional places) error {
	for t, ls := range want {
		for l, es := range ls {
			for e, n := range es {
				if g, ok := got[t][l][e]; !ok || g != n {
					return fmt.Errorf("%s: the element %s.%d.%d (%s) is missing or %q, in %s instead of %s", what, t, l, e, n, g, places(got), want)
				}
			}
		}
	}
	for t, ls := range got {
		for l, es := range ls {
			for e, n := range es {
				if w, ok := want[t][l][e]; ok && w == n {
					continue
				}
				if w, ok := optional[t][l][e]; ok && w == n {
					continue
				}
				return fmt.Errorf("%s: the element %s.%d.%d (%s) should not be there, in %s instead of %s", what, t, l, e, n, places(got), want)
			}
		}
	}
	return nil
}

// ambiguousNames tells if two tokens of the grammar and of its externals have the same name
func ambiguousNames(g *gGram) bool {
	seen := map[string]interface{}{}
	same := func(name string, one interface{}) bool {
		o, ok := seen[name]
		seen[name] = one
		return ok && o != one
	}
	var walk func(g *gGram) bool
	walk = func(g *gGram) bool {
		for _, t := range g.toks {
			if same(t.name, t) {
				return true
			}
			for _, l := range t.lines {
				for _, ct := range l {
					if ct.kind == gExternal && walk(ct.ext) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(g)
}

func (c *C) coverageCase(text string, exts map[string]*gGram) error {
	g := newGram(text, exts)
	want := []refExec{}
	refCoverage(g, &want)
	covered, composes, all := places{}, places{}, places{}
	for _, w := range want {
		refCovered(w.tok.name, w.tree, covered, composes)
	}
	refElements(g, all)
	uncovered := places{}
	for t, ls := range all {
		for l, es := range ls {
			for e, n := range es {
				if _, ok := covered[t][l][e]; !ok {
					uncovered.add(t, int(l), int(e), n)
				}
			}
		}
	}
	ambiguous := ambiguousNames(g)
	for i := 0; i < 2; i++ {
		cov, err := theParser.Coverages(g.real)
		c.Step(1)
		if err != nil {
			return fmt.Errorf("the coverages fail: %v", err)
		}
		if err := c.compareCoverages(cov, want); err != nil {
			return err
		}
		if ambiguous {
			// the other reports are by name, and these names are of several tokens
			if _, err := theParser.Covered(cov); err != nil {
				return fmt.Errorf("the covered elements fail: %v", err)
			}
			if _, err := theParser.Uncovered(g.real); err != nil {
				return fmt.Errorf("the uncovered elements fail: %v", err)
			}
			continue
		}
		got, err := theParser.Covered(cov)
		c.Step(1)
		if err != nil {
			return fmt.Errorf("the covered elements fail: %v", err)
		}
		if err := comparePlaces("covered", got, covered, composes); err != nil {
			return err
		}
		un, err := theParser.Uncovered(g.real)
		c.Step(1)
		if err != nil {
			return fmt.Errorf("the uncovered elements fail: %v", err)
		}
		if err := comparePlaces("uncovered", un, uncovered, places{}); err != nil {
			return err
		}
	}
	c.Exec()
	c.State(covered.String(), "/", uncovered.String())
	return nil
}

func (c *C) compareCoverages(cov coverages.Coverages, want []refExec) error {
	left := map[*gSuite][]refExec{}
	for _, w := range want {
		left[w.suite] = append(left[w.suite], w)
	}
	contains := false
	n := 0
	if cov != nil {
		for _, one := range cov.List() {
			inCoverage := false
			for _, ex := range one.Executions().List() {
				n++
				var w *refExec
				for s, list := range left {
					if s.real == ex.Expectation() {
						if len(list) == 0 {
							return fmt.Errorf("the suite %q of %s is executed too many times", s.data, one.Token().Name())
						}
						w = &list[0]
						left[s] = list[1:]
					}
				}
				if w == nil {
					return fmt.Errorf("a suite of %s that is not of the grammar is executed", one.Token().Name())
				}
				if one.Token() != w.tok.real {
					return fmt.Errorf("the suite %q of %s is reported in %s", w.suite.data, w.tok.name, one.Token().Name())
				}
				res := ex.Result()
				if res.IsTree() == res.IsError() {
					return fmt.Errorf("the suite %q of %s has a tree: %t and an error: %t", w.suite.data, w.tok.name, res.IsTree(), res.IsError())
				}
				contains = contains || res.IsError()
				inCoverage = inCoverage || res.IsError()
				var tree trees.Tree
				var err error
				if res.IsTree() {
					tree = res.Tree()
				} else {
					err = fmt.Errorf("%s", res.Error())
				}
				if e := compareRoot(tree, err, w.tree, w.suite.data); e != nil {
					return fmt.Errorf("the suite %q of %s: %v", w.suite.data, w.tok.name, e)
				}
			}
			if one.Executions().ContainsError() != inCoverage {
				return fmt.Errorf("the executions of %s contain an error: %t", one.Token().Name(), !inCoverage)
			}
		}
		if cov.ContainsError() != contains {
			return fmt.Errorf("the coverages contain an error: %t", !contains)
		}
	}
	for s, list := range left {
		if len(list) > 0 {
			return fmt.Errorf("the suite %q of %s is not executed", s.data, list[0].tok.name)
		}
	}
	if n != len(want) {
		return fmt.Errorf("%d executions instead of %d", n, len(want))
	}
	return nil
}

func checkA08(c *C) {
	suites := func(tok string, datas []string) []string {
		out := []string{""}
		for _, d := range datas {
			out = append(out, " ; +"+tok+": "+d, " ; -"+tok+": "+d)
		}
		for i, d := range datas {
			for _, e := range datas[i:] {
				out = append(out, " ; +"+tok+": "+d+" ; -"+tok+": "+e)
			}
		}
		return out
	}
	chans := []string{"", " ; #S ; S: _", " ; #S ; #D ; S: _ | c ; D: T b? ; +S: _ ; -S: a", " ; #S>T ; S: _ V ; V: c? a ; +V: ca ; +S: _a"}

	c.Group("suites on a root and a nested token", 0.5)
	c.family(16, nil, func(fn gramFn) {
		rs := []string{"T b", "T? b*", "T T", "a | T b | b", "a? @R? T", "T* | b T", "'ab T", "T 'a2 b?", "a{2} b? T*", "a a? T | T b? b?"}
		ts := []string{"a", "a | b", "a? b", "@R b | a", "'ab | a", "b* a?", "a @T?"}
		datas := []string{"a", "ab", "b"}
		if c.thorough() {
			datas = []string{"a", "ab", "b", "aab", "_a_b", "x"}
		}
		for _, r := range rs {
			for _, t := range ts {
				for _, s1 := range suites("R", append([]string{"aab"}, datas...)) {
					for _, s2 := range suites("T", datas) {
						for _, ch := range chans {
							if !c.thorough() && ch != "" && strings.Count(s1+s2, ";") > 2 {
								continue
							}
							fn("R: "+r+" ; T: "+t+s1+s2+ch, nil)
						}
					}
				}
			}
		}
	}, func(text string, exts map[string]*gGram, in [][]byte) error { return c.coverageCase(text, exts) })

	c.Group("shared tokens, exceptions and escapes", 0.6)
	c.family(16, nil, func(fn gramFn) {
		for _, r := range []string{"!E", "!E x", "T !E", "!E | T", "!E !F", "T? !E? X", "U T U", "!E T | X Y", "a !E* x?"} {
			for _, x := range []string{"x", "x | U a", "U x", "!F x", "x @R?"} {
				for _, y := range []string{"", "y", "U y", "y | !F"} {
					text := "R: " + r + " ; X: " + x + " ; T: a U? | !E ; U: u | b ; F1: f | U ; !F: F1"
					if y == "" && strings.Contains(r, "Y") {
						continue
					}
					if y != "" {
						text += " ; Y: " + y + " ; !E: X / Y"
						text += " ; +Y: y ; +Y: uy"
					} else {
						text += " ; !E: X"
					}
					swapped := strings.NewReplacer("X", "Y", "Y", "X", "x", "y", "y", "x")
					for _, s := range []string{"", " ; +R: abx", " ; +R: ax ; -R: x ; +R: auyxax", " ; +X: x ; -X: ua ; +X: ux", " ; +U: u ; -U: b ; +U: a", " ; +T: au ; +T: bbf", " ; +F1: f ; +F1: b ; +R: aax ; +R: uau ; +R: bbau"} {
						for _, ch := range []string{"", " ; #S ; S: _ ; +S: _", " ; #S ; S: U ; -S: a"} {
							fn(text+s+ch, nil)
							if s != "" && ch == "" {
								fn(swapped.Replace(text+s), nil)
							}
						}
					}
				}
			}
		}
	}, func(text string, exts map[string]*gGram, in [][]byte) error { return c.coverageCase(text, exts) })

	c.Group("externals", 0.7)
	c.family(16, nil, func(fn gramFn) {
		inners := []string{"G: a b? | H ; H: b ; +G: ab ; +H: b ; -H: a", "G: a* ; +G: aa", "G: a | @G b", "G: H !E ; H: a | b ; !E: X ; X: x ; +X: x ; +G: aax ; -H: x ; #S ; S: _ ; +S: _", "G: a+ ; #S ; S: _ ; +G: a_a ; +S: b"}
		for _, in := range inners {
			for _, mid := range []string{"", "M: %G b? | a ; +M: ab ; -M: b", "M: a? %G ; #S ; S: _ ; +M: _a_b"} {
				for _, r := range []string{"%Q", "a %Q?", "T %Q* ; T: a | b ; +T: b ; -T: c", "%Q | b", "%Q T ; T: %Q? a ; +T: aa", "%Q{2} ; #S ; S: _ ; +S: _"} {
					for _, s := range []string{"", " ; +R: ab", " ; +R: aab ; -R: b ; +R: baa", " ; +R: aaxb ; +R: _a_a"} {
						exts := map[string]*gGram{"G": newGram(in, nil)}
						name := "G"
						if mid != "" {
							exts = map[string]*gGram{"M": newGram(mid, exts)}
							name = "M"
						}
						fn("R: "+strings.ReplaceAll(r, "%Q", "%"+name)+s, exts)
						for _, other := range []string{"A", "Z", "H"} {
							fn("R: "+strings.ReplaceAll(r, "%Q", "%"+other)+s, map[string]*gGram{other: exts[name]})
						}
					}
				}
			}
		}
	}, func(text string, exts map[string]*gGram, in [][]byte) error { return c.coverageCase(text, exts) })

	cover := func(text string, exts map[string]*gGram, in [][]byte) error { return c.coverageCase(text, exts) }
	c.Group("externals whose tokens have the names of others", 0.3)
	c.family(16, nil, func(fn gramFn) {
		inners := []string{"R: a b? ; +R: ab ; -R: b", "T: a | R b ; R: b ; +T: a ; +T: bb ; -R: a", "S: b? a ; +S: a ; #T ; T: _ ; +T: _ ; -T: b", "X: a !T ; !T: R ; R: x ; +X: a ; +R: x ; -R: a"}
		for _, in := range inners {
			for _, second := range inners {
				exts := map[string]*gGram{"X": newGram(in, nil), "Y": newGram(second, nil), "T": newGram(in, nil)}
				exts["Z"] = newGram("R: a? %X b? ; +R: aabb ; -R: b", map[string]*gGram{"X": exts["X"]})
				for _, r := range []string{"%X", "%X %Y", "T %X ; T: a %Y? | b ; +T: a ; -T: c", "%Y? T ; T: b %X? ; +T: b", "%T", "%T T ; T: %X | b ; +T: b", "%Z b?", "%X? %Z | %Y", "!E %X ; !E: T / S ; T: x %Y? ; S: y ; +T: x ; -S: y", "a ; #S ; S: %X | _ ; +S: ab ; -S: a"} {
					for _, s := range []string{"", " ; +R: ab", " ; +R: aba ; -R: b ; +R: ab"} {
						fn("R: "+r+s, exts)
					}
				}
			}
		}
	}, cover)
	c.scale("sizes of the grammars and of the suites", 0.5, 130, cover, scaleSuites)
	c.everyByte(0.2, cover, byteSuites)
	c.nearTokens(0.2, func(text string, exts map[string]*gGram, in [][]byte) error { return c.coverageCase(text, exts) }, nearSuites)

	c.Group("the grammars of the other families, with each short word as a suite", 0.7)
	allSuites := func(tok, alphabet string, max int) string {
		out := ""
		for i, w := range words(alphabet, max) {
			if len(w) > 0 {
				out += " ; " + []string{"+", "-"}[i%2] + tok + ": " + strings.ReplaceAll(string(w), " ", "_")
			}
		}
		return out
	}
	length := c.B("suite-length", 3, 4)
	with := func(suites string, fam func(fn gramFn)) {
		c.family(16, nil, func(fn gramFn) {
			fam(func(text string, exts map[string]*gGram) { fn(text+suites, exts) })
		}, func(text string, exts map[string]*gGram, in [][]byte) error {
			return c.coverageCase(text, exts)
		})
	}
	with(allSuites("R", "axe", length), func(fn gramFn) { famEverything(c.thorough(), fn) })
	with(allSuites("R", "axe", length)+" ; +S:  _ ; -S: x", famEverythingChannels)
	with(allSuites("R", "ab_", length)+" ; +S: _ ; -S: a", func(fn gramFn) { famChannels(c.thorough(), fn) })
	with(allSuites("R", "ab", length), func(fn gramFn) { famExternals(c.thorough(), fn) })
	with(allSuites("R", "ab", length), func(fn gramFn) { famComposes(c.thorough(), fn) })
	with(allSuites("R", "ab", length+1), famNested)

	c.Group("recursions and every place of a line", 1)
	c.family(16, nil, func(fn gramFn) {
		els := []string{"a", "b?", "T?", "@R?", "'a"}
		for _, l := range lines(els, c.B("line", 3, 4)) {
			t := ""
			if strings.Contains(l, "T") {
				t = " ; T: a b? | @T? b ; +T: b ; -T: ab"
			}
			for _, s := range []string{" ; +R: a", " ; +R: ab ; -R: ba", " ; +R: aab", " ; -R: abab ; +R: aaa"} {
				fn("R: "+l+t+s, nil)
				fn("R: b | "+l+t+s, nil)
				fn("R: "+l+" | a b"+t+s+" ; #S ; S: b", nil)
			}
		}
	}, func(text string, exts map[string]*gGram, in [][]byte) error { return c.coverageCase(text, exts) })
}

// scaleSuites are the grammars of n suites, tokens of suites, lines, elements and externals
func scaleSuites(n int) []scaleItem {
	item := func(text string, exts map[string]*gGram) scaleItem { return scaleItem{text, exts, nil} }
	hex := func(i int) string { return fmt.Sprintf("\\x%02x\\x%02x", 65+i/100, 97+i%100) }
	out := []scaleItem{
		item("R: !E x? ; !E: K / L ; K: "+seqf(n, " | ", func(i int) string { return "x " + twoEls(i) })+" ; L: "+seqf(n, " | ", func(i int) string { return "y " + twoEls(i) })+" ; +K: x"+hex(n-1)+" ; +L: y"+hex(0)+" ; +R: ay"+hex(n/2)+"x"+hex(n/2)+"ax"+hex(0), nil),
		item("R: a* b? | T ; T: b c?"+seqf(n, "", func(i int) string {
			return " ; " + []string{"+", "-"}[i%2] + []string{"R", "T"}[i%3/2] + ": " + rep("a", i%7) + []string{"b", "c", "bc"}[i%3]
		}), nil),
		item("R: "+seqf(n, " | ", twoEls)+" ; +R: "+hex(n-1)+" ; +R: "+hex(n)+" ; -R: "+hex(0)+" ; +R: "+hex(n/2), nil),
		item("R: "+strings.TrimSpace(rep("a b ", n))+" ; +R: "+rep("ab", n)+" ; -R: "+rep("ab", n-1)+"aa ; +R: "+rep("ab", n)+"a", nil),
		item("R: T* ; T: a b? | a ; +R: "+rep("ab", n)+" ; -T: b ; +R: "+rep("a", n), nil),
		item("R: a T{"+fmt.Sprint(n)+"} b? ; T: a | b ; +R: "+rep("a", n)+" ; +R: "+rep("a", n+1)+" ; +R: "+rep("ab", n)+"b", nil),
		item("R: "+seqf(n, " ", func(i int) string { return fmt.Sprintf("T%d?", i) })+" c"+seqf(n, "", func(i int) string {
			return fmt.Sprintf(" ; T%d: a b? | %s ; +T%d: a ; -T%d: b ; +T%d: %s", i, twoEls(i), i, i, i, hex(i))
		})+" ; +R: c ; +R: "+rep("a", n)+"c ; +R: "+rep("ab", n)+"c", nil),
		item("R: a @R b | c ; +R: "+rep("a", n)+"c"+rep("b", n)+" ; -R: "+rep("a", n)+"c"+rep("b", n-1), nil),
	}
	if n <= 65 {
		chain := "R: T0"
		for i := 0; i < n; i++ {
			chain += fmt.Sprintf(" ; T%d: a? T%d b? ; +T%d: ac ; -T%d: b ; +T%d: cb", i, i+1, i, i, i)
		}
		out = append(out, item(chain+fmt.Sprintf(" ; T%d: c ; +T%d: c", n, n)+" ; +R: "+rep("a", n)+"c"+rep("b", n-1), nil))
		ext := newGram("E0: a | b ; +E0: a ; -E0: c", nil)
		for i := 1; i < n; i++ {
			ext = newGram(fmt.Sprintf("E%d: x? %%E%d y? ; +E%d: xa ; -E%d: x", i, i-1, i, i), map[string]*gGram{fmt.Sprintf("E%d", i-1): ext})
		}
		out = append(out, item("R: %X b? ; +R: ab", map[string]*gGram{"X": ext}))
		exts := map[string]*gGram{}
		for i := 0; i < n; i++ {
			exts[fmt.Sprintf("X%d", i)] = newGram(fmt.Sprintf("G%d: %s | a ; +G%d: %s ; -G%d: b", i, twoEls(i), i, hex(i), i), nil)
		}
		out = append(out, item("R: "+seqf(n, " ", func(i int) string { return fmt.Sprintf("%%X%d", i) })+" ; +R: "+rep("a", n)+" ; -R: "+rep("a", n-1)+"b", exts))
		out = append(out, item("R: a b"+seqf(n, "", func(i int) string {
			return fmt.Sprintf(" ; #C%d ; C%d: c %s | T ; +C%d: c%s ; -C%d: a", i, i, twoEls(i), i, hex(i), i)
		})+" ; T: d e? ; +T: d ; +R: adb", nil))
	}
	return out
}

// ---- fetch

type match struct {
	tree trees.Tree
	elem trees.Element
}

// findTree lists, in document order, the trees and elements of the name that are not inside of another match
func findTree(t trees.Tree, name string, out *[]match) {
	if t.Grammar().Name() == name {
		*out = append(*out, match{tree: t})
		return
	}
	if !t.Block().HasSuccessful() {
		return
	}
	for _, e := range t.Block().Successful().Elements().List() {
		findElement(e, name, out)
	}
}

func findElement(e trees.Element, name string, out *[]match) {
	if e.HasGrammar() && e.Grammar().Name() == name {
		*out = append(*out, match{elem: e})
		return
	}
	for _, ct := range e.Contents().List() {
		if ct.IsTree() {
			findTree(ct.Tree(), name, out)
		}
	}
}

func (c *C) checkFetch(what string, got trees.Tree, el trees.Element, err error, want *match) error {
	c.Step(1)
	if want == nil {
		if err == nil {
			return fmt.Errorf("%s returns something, instead of an error", what)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s fails: %v", what, err)
	}
	if got != want.tree || el != want.elem {
		return fmt.Errorf("%s returns another tree or element than the expected one", what)
	}
	return nil
}

func (c *C) fetches(t trees.Tree, names []string, path string) error {
	for _, name := range names {
		all := []match{}
		findTree(t, name, &all)
		var want *match
		if len(all) > 0 {
			want = &all[0]
		}
		got, el, err := t.Fetch(name, 0)
		if e := c.checkFetch(fmt.Sprintf("%s.Fetch(%s, 0)", path, name), got, el, err, want); e != nil {
			return e
		}
		if !t.Block().HasSuccessful() {
			continue
		}
		list := t.Block().Successful().Elements().List()
		direct := []match{}
		onlyDirect := t.Grammar().Name() != name
		for _, e := range list {
			if e.HasGrammar() && e.Grammar().Name() == name {
				direct = append(direct, match{elem: e})
			}
			one := []match{}
			findElement(e, name, &one)
			want = nil
			if len(one) > 0 {
				want = &one[0]
			}
			got, el, err := e.Fetch(name, 0)
			if x := c.checkFetch(fmt.Sprintf("%s(element).Fetch(%s, 0)", path, name), got, el, err, want); x != nil {
				return x
			}
		}
		found, err := t.Block().Successful().Elements().Fetch(name)
		if (err == nil) != (len(direct) > 0) {
			return fmt.Errorf("%s: the elements return the element %s: %v", path, name, err)
		}
		if err == nil && (!found.HasGrammar() || found.Grammar().Name() != name) {
			return fmt.Errorf("%s: the elements return another element than %s", path, name)
		}
		if !onlyDirect || len(all) != len(direct) {
			continue
		}
		for i := 0; i <= len(direct)+1; i++ {
			want = nil
			if i < len(direct) {
				want = &direct[i]
			}
			got, el, err := t.Fetch(name, uint(i))
			if e := c.checkFetch(fmt.Sprintf("%s.Fetch(%s, %d)", path, name, i), got, el, err, want); e != nil {
				return e
			}
		}
	}
	if !t.Block().HasSuccessful() {
		return nil
	}
	for i, e := range t.Block().Successful().Elements().List() {
		for j, ct := range e.Contents().List() {
			if ct.IsTree() {
				if err := c.fetches(ct.Tree(), names, fmt.Sprintf("%s/%d.%d", path, i, j)); err != nil {
					return err
				}
			}
			if ct.IsValue() && ct.Value().HasPrefix() {
				for k, x := range ct.Value().Prefix().List() {
					if err := c.fetches(x, names, fmt.Sprintf("%s/%d.%d prefix %d", path, i, j, k)); err != nil {
						return err
					}
				}
			}
		}
	}
	return nil
}

func gramNames(g *gGram, out map[string]bool) {
	for _, t := range g.toks {
		out[t.name] = true
		for _, l := range t.lines {
			for _, ct := range l {
				out[ct.name] = true
				if ct.kind == gExternal {
					gramNames(ct.ext, out)
				}
			}
		}
	}
}

func checkA09(c *C) {
	run := func(text string, exts map[string]*gGram, inputs [][]byte) error {
		g := newGram(text, exts)
		set := map[string]bool{"missing": true, "": true}
		gramNames(g, set)
		names := []string{}
		for n := range set {
			names = append(names, n)
		}
		sort.Strings(names)
		done := map[string]bool{}
		for _, in := range inputs {
			tree, err := theParser.Execute(g.real, in)
			if err != nil {
				continue
			}
			before := realString(tree)
			shape := strings.SplitN(before, " remaining ", 2)[0]
			if done[shape] {
				continue
			}
			done[shape] = true
			c.Exec()
			if err := c.fetches(tree, names, g.root.name); err != nil {
				return fmt.Errorf("on %q, %s: %v", in, before, err)
			}
			if after := realString(tree); after != before {
				return fmt.Errorf("on %q, the fetches changed %s to %s", in, before, after)
			}
			c.State(shape)
		}
		return nil
	}
	c.combos(0.2, comboDims{kinds: []string{"a", "T", "aT", "E", "X", "C"}, elements: 4, contents: 3, depth: 2, amount: 1}, run)
	c.scale("scale", 0.3, 20, run, scaleCore, scaleEverything, scaleExternals, scaleComposes)
	c.nearTokens(0.2, run, nearCore, nearEverything, nearExternals, nearComposes)
	c.Group("trees made by hand", 0.2)
	byHand := newGram("R: a T* ; T: a", nil)
	for _, t := range treesByHand(c.B("hand-elements", 4, 5))(byHand) {
		t := t
		c.Do(func() string { return "the tree made by hand " + realString(t) }, func() error {
			before := realString(t)
			c.Exec()
			if err := c.fetches(t, []string{"R", "T", "a", "missing", ""}, "R"); err != nil {
				return fmt.Errorf("%s: %v", before, err)
			}
			if after := realString(t); after != before {
				return fmt.Errorf("the fetches changed %s to %s", before, after)
			}
			c.State(before)
			return nil
		})
	}
	c.Group("lines with repeated names", 0.3)
	c.family(16, words("ab", c.B("line-input", 5, 6)), func(fn gramFn) {
		for _, l := range lines([]string{"a", "b", "a*", "T", "b?", "'ab"}, c.B("line", 3, 4)) {
			if strings.Contains(l, "T") {
				for _, t := range []string{"a", "a b?", "b a | a", "U b? ; U: a | b", "a T2? ; T2: b b?"} {
					fn("R: "+l+" ; T: "+t, nil)
				}
				continue
			}
			fn("R: "+l, nil)
		}
	}, run)
	c.Group("nested and recursive tokens", 0.4)
	c.family(8, words("ab_", c.B("nested-input", 6, 7)), famNested, run)
	c.family(8, words("ab", c.B("recursive-input", 7, 8)), func(fn gramFn) {
		for _, r := range []string{"T @R? b | a", "@R T | T", "T T T", "T U T ; U: T b? | b", "U* T ; U: b @U?"} {
			for _, t := range []string{"a", "a @R? b", "@T a | b", "a @T? b?", "b T3 b? | a ; T3: a @T?"} {
				fn("R: "+r+" ; T: "+t, nil)
			}
		}
	}, run)
	c.Group("everythings", 0.5)
	c.family(16, words("axe", c.B("everything-input", 5, 6)), func(fn gramFn) { famEverything(true, fn) }, run)
	c.Group("channels, externals and composes", 1)
	c.family(16, words("ab_", c.B("input", 5, 6)), func(fn gramFn) {
		famExternals(c.thorough(), fn)
		famComposes(c.thorough(), fn)
		famChannels(false, fn)
	}, run)
}
