package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)

// The families of grammars of the checks A02 to A07: each calls fn with the text of every grammar of the family.

type gramFn func(text string, exts map[string]*gGram)

// famEverything: everythings with any exception and escape, at any place
func famEverything(full bool, fn gramFn) {
	roots := []string{
		"!E", "!E x", "!E X", "a !E x", "!E? X", "!E* X", "!E+ x a", "X !E X", "T+ ; T: !E x", "T* e? ; T: X !E? X | a",
		"!E{2}", "x !E e", "!E a | !E x | !E", "!E x? !F", "T x ; T: a? !E", "x @R? !E", "a T ; T: !E @R? | x",
	}
	excs := []string{
		"x", "x x", "x | a", "a | x", "x a | a x", "x? a", "x*", "x+ a", "x e", "e", "x a | e", "T2 ; T2: x", "T2 x ; T2: a? | x", "'xa", "x 'x2 | a",
		"x @R? ", "x @X?", "@R", "x !G", "a !G x",
	}
	escs := []string{"", "e", "e e", "e | a", "x", "e?", "e+", "e a?", "T3 ; T3: e", "x e | e", "'e2"}
	if !full {
		roots = roots[:12]
	}
	for _, r := range roots {
		for _, x := range excs {
			for _, y := range escs {
				e := "!E: X"
				if y != "" {
					e += " / Y ; Y: " + y
				}
				text := "R: " + r + " ; X: " + x + " ; " + e
				if strings.Contains(r, "!F") {
					text += " ; !F: F1 ; F1: e"
				}
				if strings.Contains(x, "!G") {
					text += " ; !G: G1 ; G1: a"
				}
				fn(text, nil)
			}
		}
	}
}

// famEverythingChannels: everythings in a grammar that has channels
func famEverythingChannels(fn gramFn) {
	for _, r := range []string{"!E x", "!E? X a", "a !E X", "T+ ; T: !E x", "!E", "X !E X a?"} {
		for _, x := range []string{"x", "x a", "_ | x", "a | x"} {
			for _, y := range []string{"", "e", "_"} {
				e := "!E: X"
				if y != "" {
					e += " / Y ; Y: " + y
				}
				for _, ch := range []string{"#S ; S: _", "#S>X ; S: _", "#S<A ; A: a ; S: _", "#S ; #C ; S: _ ; C: e !K ; !K: A ; A: a"} {
					fn("R: "+r+" ; X: "+x+" ; "+e+" ; "+ch, nil)
				}
			}
		}
	}
}

// famChannels: channels with every condition, in grammars of every kind
func famChannels(full bool, fn gramFn) {
	roots := []string{
		"a", "a b", "a* b?", "a{2}", "T b ; T: a", "T* ; T: a b?", "a | b", "a b | a c", "T+ b ; T: a U ; U: b", "a @R? b", "a? b? c?", "T T ; T: a | b", "'ab", "a 'b2",
		"T U ; T: a? b | a ; U: c | b", "a T? b ; T: c", "T c ; T: a b | a",
	}
	if !full {
		roots = roots[:13]
	}
	sets := channelSets(full)
	for _, r := range roots {
		for _, s := range sets {
			fn("R: "+r+" ; "+s, nil)
		}
	}
}

// famComposesChannels are composes, between and around of which channels apply
func famComposesChannels(full bool, fn gramFn) {
	roots := []string{"'ab b?", "'a2 b?", "'a2b", "a 'b2 | 'a", "'a 'b", "'b3", "T 'a | 'ab c ; T: 'b2"}
	if full {
		roots = append(roots, "'ab2 T? ; T: a 'c", "'aba", "'ab2a 'c")
	}
	for _, r := range roots {
		for _, s := range channelSets(full) {
			fn("R: "+r+" ; "+s, nil)
		}
	}
}

// channelSets are the sets of channels, with and without conditions
func channelSets(full bool) []string {
	sets := []string{}
	for _, s := range []string{"_", "_ _", "_ | c", "_ b?", "c _", "_+", "b", "T9 ; T9: _ c?", "_?", "_? | c"} {
		sets = append(sets, "#S ; S: "+s)
		for _, k := range []string{"a", "b", "_", "c", "a b", "a | _", "_ b", "c? | a"} {
			sets = append(sets, "#S<P ; S: "+s+" ; P: "+k, "#S>P ; S: "+s+" ; P: "+k)
		}
	}
	for _, s := range []string{"_", "_ | b"} {
		for _, k := range []string{"a", "b", "_", "c"} {
			for _, l := range []string{"a", "b", "_", "c"} {
				sets = append(sets, "#S<P>N ; S: "+s+" ; P: "+k+" ; N: "+l)
			}
		}
	}
	for _, s := range []string{"_", "_ _", "_ c"} {
		for _, t := range []string{"c", "_", "c _", "b"} {
			sets = append(sets, "#S ; #D ; S: "+s+" ; D: "+t)
			for _, k := range []string{"_", "a", "b", "c"} {
				sets = append(sets, "#S ; #D<P ; S: "+s+" ; D: "+t+" ; P: "+k, "#S>P ; #D ; S: "+s+" ; D: "+t+" ; P: "+k)
				if full {
					sets = append(sets, "#D<P ; #S ; S: "+s+" ; D: "+t+" ; P: "+k, "#S ; #D>P ; S: "+s+" ; D: "+t+" ; P: "+k, "#S<P ; #D>P ; S: "+s+" ; D: "+t+" ; P: "+k)
				}
			}
		}
	}
	sets = append(sets, "#S ; S: c !K ; !K: B ; B: b", "#S ; S: c !K b ; !K: B ; B: b", "#S ; S: c @S? b", "#S ; S: _ @S?", "#S ; #S ; S: _", "#S ; S: @S _ | _", "#S ; #D ; #E ; S: _ ; D: c ; E: b b")
	return sets
}

var externalInners = []string{
	"G: a", "G: a b | b", "G: a* b", "G: a @G?", "G: a? b?", "G: a+ ; #S ; S: _", "G: a b ; #S ; S: _", "G: T b? ; T: a | b", "G: a @G b | a b ; #S ; S: _", "G: !E b ; !E: X ; X: b",
	"G: !E ; !E: X / Y ; X: b ; Y: _", "G: a ; #S>P ; S: _ ; P: b", "G: 'ab", "G: 'a2 b?; #S ; S: _", "G: R? a ; R: b",
	"G: a @R | a", "G: b @X | a", "G: a b? ; #S<P ; S: _ ; P: a", "G: a b? | b ; #S<P ; S: _ ; P: b", "G: b ; #S<P ; S: a ; P: _ | b a",
}

// famExternals: externals in hosts of every kind, with and without channels
func famExternals(full bool, fn gramFn) {
	hosts := []string{
		"%X", "%X b", "a %X", "%X* b?", "%X?", "%X+", "%X{2}", "a? %X b | b %X", "T+ ; T: %X b?", "%X %Y", "%X? %Y b", "%X @R?", "T b ; T: %X | a", "a @R? %X",
	}
	chans := []string{"", "#S ; S: _", "#S>P ; S: _ ; P: b", "#S ; S: b"}
	inners := externalInners
	if !full {
		chans = chans[:2]
	}
	other := newGram("H: b ; #S ; S: _", nil)
	for _, in := range inners {
		for _, name := range []string{"X", "G"} {
			g := newGram(in, nil)
			for _, h := range hosts {
				if name == "G" && !full && h != "%X b" && h != "%X*" {
					continue
				}
				for _, ch := range chans {
					text := "R: " + strings.ReplaceAll(h, "%X", "%"+name)
					if ch != "" {
						text += " ; " + ch
					}
					fn(text, map[string]*gGram{name: g, "Y": other})
				}
			}
		}
		// nested: an external whose grammar has an external
		for _, mid := range []string{"M: %I", "M: a? %I b?", "M: %I* ; #S ; S: _", "M: %I @M?"} {
			m := newGram(mid, map[string]*gGram{"I": newGram(in, nil)})
			for _, h := range []string{"%X", "%X b", "a %X*", "%X{2} ; #S ; S: _"} {
				fn("R: "+h, map[string]*gGram{"X": m})
			}
		}
	}
}

// famComposes: composes at any place of a line, with channels
func famComposes(full bool, fn gramFn) {
	comps := []string{"'a", "'ab", "'a2", "'a2b", "'ab2", "'aba", "'ba2", "'a3"}
	els := append([]string{"a", "b?", "a*", "T"}, comps...)
	max := 2
	if full {
		max = 3
	}
	for _, ch := range []string{"", " ; #S ; S: _", " ; #S>P ; S: _ ; P: b"} {
		for _, l := range lines(els, max) {
			if !strings.Contains(l, "'") {
				continue
			}
			t := "R: " + l
			if strings.Contains(l, "T") {
				t += " ; T: 'ba | a"
			}
			fn(t+ch, nil)
		}
		for _, l := range comps {
			for _, m := range comps {
				fn("R: "+l+" | "+m+ch, nil)
				fn("R: T* b? ; T: "+l+" | "+m+ch, nil)
			}
		}
	}
}

// famNested: nested and recursive tokens
func famNested(fn gramFn) {
	for _, r := range []string{"T", "T b", "a T*", "T? b | a", "T{2}", "T @R?", "a @R? b", "T T | T", "@R b | T", "a? b? a*"} {
		for _, t := range []string{"a", "a b?", "a @R", "@T b | a", "a @T? b", "b? a*", "a | b", "@R | a"} {
			text := "R: " + r
			if strings.Contains(r, "T") {
				text += " ; T: " + t
			}
			for _, ch := range []string{"", " ; #S ; S: _", " ; #S ; S: b"} {
				fn(text+ch, nil)
			}
		}
	}
}

func init() {
	register("A02", "the real parser on every grammar of the families and every input up to a length: the bytes of each node of the tree, with and without its channels, compared with the part of the input that it covers", checkA02)
	register("A04", "the real parser on every everything of the family (exceptions, escapes, places) and every input up to a length, compared with an independent reference interpreter", checkA04)
	register("A05", "the real parser on every set of channels and conditions of the family and every input up to a length, compared with an independent reference interpreter", checkA05)
	register("A06", "the real parser on every host and external grammar of the family and every input up to a length, compared with an independent reference interpreter and with the parse of the external on its own", checkA06)
	register("A07", "the real parser and composer on every line of composes of the family and every input up to a length, compared with an independent reference interpreter", checkA07)
}

func (c *C) family(size int, inputs [][]byte, gen func(fn gramFn), run func(text string, exts map[string]*gGram, inputs [][]byte) error) {
	type item struct {
		text string
		exts map[string]*gGram
	}
	items := []item{}
	flush := func() {
		if len(items) == 0 {
			return
		}
		list := items
		items = nil
		current := list[0]
		c.Do(func() string {
			return fmt.Sprintf("grammar %s%s (of %d grammars)", current.text, describeExts(current.exts), len(list))
		}, func() error {
			for _, it := range list {
				current = it
				var err error
				if run != nil {
					err = run(it.text, it.exts, inputs)
				} else {
					err = c.parseAll(newGram(it.text, it.exts), inputs)
				}
				if err != nil {
					return fmt.Errorf("grammar %s%s: %w", it.text, describeExts(it.exts), err)
				}
			}
			return nil
		})
	}
	gen(func(text string, exts map[string]*gGram) {
		items = append(items, item{text, exts})
		if len(items) >= size {
			flush()
		}
	})
	flush()
}

func checkA04(c *C) {
	c.combos(0.2, comboDims{kinds: []string{"E", "aE", "ET"}, channels: false, elements: 4, contents: 3, depth: 2, amount: 3}, nil)
	c.scale("scale", 0.3, 300, nil, scaleEverything)
	c.everyByte(0.2, nil, byteEverything)
	c.nearTokens(0.2, nil, nearEverything)
	c.mixed(0.4, "!E", nil)
	c.Group("everythings", 0.8)
	c.family(16, words("axe", c.B("input", 6, 7)), func(fn gramFn) { famEverything(true, fn) }, nil)
	c.Group("everythings with channels", 1)
	c.family(16, words("axe_", c.B("channels-input", 5, 6)), famEverythingChannels, nil)
}

func checkA05(c *C) {
	c.combos(0.2, comboDims{kinds: []string{"a", "T", "aT", "Tab", "E", "X", "C"}, channels: true, elements: 4, contents: 3, depth: 2, amount: 3}, nil)
	c.scale("scale", 0.3, 300, nil, scaleChannels)
	c.everyByte(0.2, nil, byteChannels)
	c.mixed(0.4, "#", nil)
	c.Group("channels", 0.7)
	c.family(16, words("ab_c", c.B("input", 5, 6)), func(fn gramFn) { famChannels(true, fn) }, nil)
	c.Group("channels on spaces", 0.5)
	c.family(16, words("ab_", c.B("spaces-input", 5, 7)), func(fn gramFn) { famChannels(false, fn) }, nil)
	c.Group("channels with composes", 0.5)
	c.family(16, words("ab_c", c.B("composes-input", 5, 6)), func(fn gramFn) { famComposesChannels(c.thorough(), fn) }, nil)
	c.Group("channels with everythings and externals", 1)
	c.family(16, words("axe_", c.B("everything-input", 5, 6)), famEverythingChannels, nil)
	c.family(16, words("ab_", c.B("external-input", 5, 6)), func(fn gramFn) { famExternals(true, fn) }, nil)
}

func checkA06(c *C) {
	c.combos(0.2, comboDims{kinds: []string{"X", "aX", "XT"}, channels: true, elements: 4, contents: 3, depth: 2, amount: 3}, nil)
	c.scale("scale", 0.3, 300, nil, scaleExternals)
	c.everyByte(0.2, nil, byteExternals)
	c.nearTokens(0.2, nil, nearExternals)
	c.mixed(0.4, "%X", nil)
	c.Group("externals", 0.6)
	c.family(8, words("ab_", c.B("input", 6, 7)), func(fn gramFn) { famExternals(true, fn) }, nil)

	c.Group("externals: the same as the grammar on its own", 1)
	inputs := words("ab_", c.B("alone-input", 6, 7))
	c.family(1, inputs, func(fn gramFn) {
		for _, in := range externalInners {
			for _, name := range []string{"X", "G"} {
				fn("R: %"+name, map[string]*gGram{name: newGram(in, nil)})
			}
		}
	}, func(text string, exts map[string]*gGram, inputs [][]byte) error {
		host := newGram(text, exts)
		for name, inner := range exts {
			for _, in := range inputs {
				alone, errAlone := theParser.Execute(inner.real, in)
				in2 := append([]byte{}, in...)
				tree, err := theParser.Execute(host.real, in2)
				c.Step(2)
				c.Exec()
				okAlone := errAlone == nil && alone.Block().HasSuccessful()
				ok := err == nil && tree.Block().HasSuccessful()
				if ok != okAlone {
					return fmt.Errorf("on %q the external matches: %t, and its grammar alone: %t", in, ok, okAlone)
				}
				if !ok {
					continue
				}
				a, b := realString(alone), realString(tree)
				want := "R.0(" + name + strings.TrimPrefix(strings.SplitN(a, " remaining ", 2)[0], "G") + ")"
				if got := strings.SplitN(b, " remaining ", 2)[0]; got != want {
					return fmt.Errorf("on %q the external gives %s instead of %s", in, got, want)
				}
				x := tree.Block().Successful().Elements().List()[0].Contents().List()[0].Tree()
				if !bytes.Equal(x.Remaining(), alone.Remaining()) || !bytes.Equal(tree.Remaining(), alone.Remaining()) {
					return fmt.Errorf("on %q the external leaves %q, the host %q and its grammar alone %q", in, x.Remaining(), tree.Remaining(), alone.Remaining())
				}
			}
		}
		return nil
	})
}

func checkA07(c *C) {
	c.combos(0.2, comboDims{kinds: []string{"C", "aC", "CT"}, channels: true, elements: 4, contents: 3, depth: 2, amount: 3}, nil)
	c.scale("scale", 0.3, 300, nil, scaleComposes)
	c.everyByte(0.2, nil, byteComposes)
	c.nearTokens(0.2, nil, nearComposes)
	c.mixed(0.4, "'", nil)
	c.Group("composes in lines", 0.6)
	c.family(16, words("ab_", c.B("input", 6, 7)), func(fn gramFn) { famComposes(true, fn) }, nil)

	c.Group("composed bytes", 1)
	comps := []string{"'a", "'ab", "'a2", "'a2b", "'ab2", "'aba", "'ba2", "'a9b9"}
	for _, ch := range []string{"", " ; #S ; S: _", " ; #S ; S: a"} {
		for _, l := range lines(comps, c.B("composes", 3, 4)) {
			l, ch := l, ch
			c.Do(func() string { return "compose R: " + l + ch }, func() error {
				return c.composed("R: "+l+ch, l, ch == " ; #S ; S: a")
			})
		}
	}
	for _, bad := range []string{"R: 'a | 'b", "R: 'a b", "R: a", "R: a 'a", "R: 'a T ; T: 'b", "R: 'a | b", "R: !E ; !E: X ; X: b", "R: @R", "R: 'a 'b a?", "R: 'a | 'a | 'a"} {
		bad := bad
		c.Do(func() string { return "compose " + bad }, func() error {
			g := newGram(bad, nil)
			if out, err := theParser.Compose(g.root.real); err == nil {
				return fmt.Errorf("it cannot be composed, but gives %q", out)
			}
			return nil
		})
	}
}

// composed checks the bytes that a token composes, and that the token parses them
func (c *C) composed(text string, line string, eaten bool) error {
	g := newGram(text, nil)
	want := []byte{}
	for _, ct := range g.root.lines[0] {
		for _, p := range ct.parts {
			want = append(want, bytes.Repeat([]byte{p.b}, p.occ)...)
		}
	}
	for i := 0; i < 2; i++ {
		got, err := theParser.Compose(g.root.real)
		if err != nil {
			return fmt.Errorf("cannot be composed: %v", err)
		}
		if !bytes.Equal(got, want) {
			return fmt.Errorf("it composes %q instead of %q", got, want)
		}
		c.Step(1)
		tree, err := theParser.Execute(g.real, got)
		if !eaten {
			if err != nil || !tree.Block().HasSuccessful() {
				return fmt.Errorf("what it composes (%q) is not parsed: %v", got, err)
			}
			if len(tree.Remaining()) > 0 || !bytes.Equal(tree.Bytes(true), got) {
				return fmt.Errorf("what it composes (%q) is not parsed completely: remaining %q", got, tree.Remaining())
			}
			// with more text after, and a missing byte
			more, err := theParser.Execute(g.real, append(append([]byte{}, got...), "bz"...))
			if err != nil || string(more.Remaining()) != "bz" {
				return fmt.Errorf("the text after what it composes is not left: %v", err)
			}
			less, err := theParser.Execute(g.real, got[:len(got)-1])
			if err == nil && less.Block().HasSuccessful() {
				return fmt.Errorf("it parses %q, which is not complete", got[:len(got)-1])
			}
		}
		if e := compareRoot(tree, err, refParse(g, got), got); e != nil {
			return e
		}
		for j := range got { // the result is of the caller
			got[j] = 'z'
		}
	}
	c.State(want)
	return nil
}

func checkA02(c *C) {
	run := func(text string, exts map[string]*gGram, inputs [][]byte) error {
		g := newGram(text, exts)
		escapes := strings.Contains(text, "/")
		for _, e := range exts {
			escapes = escapes || strings.Contains(e.text, "/")
		}
		for _, in := range inputs {
			given := append(make([]byte, 0, len(in)+8), in...)
			tree, err := theParser.Execute(g.real, given)
			c.Step(1)
			c.Exec()
			if !bytes.Equal(given, in) || !bytes.Equal(given[:len(in)+8], append(append([]byte{}, in...), 0, 0, 0, 0, 0, 0, 0, 0)) {
				return fmt.Errorf("the input %q was modified: %q", in, given[:len(in)+8])
			}
			if err != nil || !tree.Block().HasSuccessful() {
				continue
			}
			w := &byteWalk{in: in}
			if !escapes {
				if e := w.tree(tree, in, "R"); e != nil {
					return fmt.Errorf("on %q, %s: %v", in, realString(tree), e)
				}
			}
			ref := refParse(g, in)
			if compareRoot(tree, err, ref, in) == nil {
				if e := w.ref(tree, ref, "R"); e != nil {
					return fmt.Errorf("on %q, %s: %v", in, realString(tree), e)
				}
			} else if !escapes {
				// another property: it does not denote the right tree
			}
			if !bytes.Equal(given, in) {
				return fmt.Errorf("the input %q was modified by reading the tree: %q", in, given)
			}
			c.State(realString(tree))
		}
		return nil
	}
	c.combos(0.2, comboDims{kinds: []string{"a", "T", "aT", "E", "X", "C"}, channels: true, elements: 5, contents: 3, depth: 2, amount: 3}, run)
	c.scale("scale", 0.3, 130, run, scaleCore, scaleEverything, scaleChannels, scaleExternals, scaleComposes)
	c.everyByte(0.2, run, byteCore, byteEverything, byteChannels, byteExternals, byteComposes)
	c.nearTokens(0.2, run, nearCore, nearEverything, nearExternals, nearComposes)
	c.mixed(0.3, "", run)
	c.Group("nested and recursive tokens", 0.3)
	c.family(8, words("ab_", c.B("nested-input", 6, 7)), famNested, run)
	c.Group("everythings", 0.35)
	c.family(16, words("axe", c.B("everything-input", 5, 6)), func(fn gramFn) { famEverything(true, fn) }, run)
	c.family(16, words("axe_", c.B("everything-channels-input", 5, 6)), famEverythingChannels, run)
	c.Group("channels", 0.5)
	c.family(16, words("ab_c", c.B("channels-input", 5, 6)), func(fn gramFn) { famChannels(c.thorough(), fn) }, run)
	c.Group("externals", 0.6)
	c.family(16, words("ab_", c.B("externals-input", 5, 6)), func(fn gramFn) { famExternals(c.thorough(), fn) }, run)
	c.Group("composes", 1)
	c.family(16, words("ab_", c.B("composes-input", 5, 6)), func(fn gramFn) { famComposes(c.thorough(), fn) }, run)
}

// byteWalk checks the bytes of a tree, without anything but the tree and the input
type byteWalk struct {
	in []byte
}

func (w *byteWalk) tree(t trees.Tree, data []byte, path string) error {
	whole := append(append([]byte{}, t.Bytes(true)...), t.Remaining()...)
	if !bytes.Equal(whole, data) {
		return fmt.Errorf("%s: the bytes are %q and the remaining %q, the data was %q", path, t.Bytes(true), t.Remaining(), data)
	}
	full, bare := []byte{}, []byte{}
	rest := data
	take := func(b []byte, what string) error {
		if !bytes.HasPrefix(rest, b) {
			return fmt.Errorf("%s: the bytes of %s are %q, the data is %q", path, what, b, rest)
		}
		rest = rest[len(b):]
		full = append(full, b...)
		return nil
	}
	if t.Block().HasSuccessful() {
		for i, e := range t.Block().Successful().Elements().List() {
			eFull, eBare := []byte{}, []byte{}
			for j, ct := range e.Contents().List() {
				p := fmt.Sprintf("%s/%d.%d", path, i, j)
				if ct.IsTree() {
					if err := w.tree(ct.Tree(), rest, p); err != nil {
						return err
					}
					b := ct.Tree().Bytes(true)
					eFull = append(eFull, b...)
					eBare = append(eBare, ct.Tree().Bytes(false)...)
					if !bytes.Equal(ct.Bytes(true), b) || !bytes.Equal(ct.Bytes(false), ct.Tree().Bytes(false)) {
						return fmt.Errorf("%s: the bytes of the content are %q and %q, those of its tree %q and %q", p, ct.Bytes(true), ct.Bytes(false), b, ct.Tree().Bytes(false))
					}
					if err := take(b, "the content"); err != nil {
						return err
					}
					continue
				}
				b := []byte{}
				if ct.Value().HasPrefix() {
					sub := rest
					for k, x := range ct.Value().Prefix().List() {
						if err := w.tree(x, sub, fmt.Sprintf("%s prefix %d", p, k)); err != nil {
							return err
						}
						sub = sub[len(x.Bytes(true)):]
						b = append(b, x.Bytes(true)...)
					}
					if !bytes.Equal(ct.Value().Prefix().Bytes(true), b) {
						return fmt.Errorf("%s: the bytes of the prefix are %q instead of %q", p, ct.Value().Prefix().Bytes(true), b)
					}
				}
				b = append(b, ct.Value().Content())
				if !bytes.Equal(ct.Bytes(true), b) || !bytes.Equal(ct.Bytes(false), b[len(b)-1:]) {
					return fmt.Errorf("%s: the bytes of the content are %q and %q instead of %q and %q", p, ct.Bytes(true), ct.Bytes(false), b, b[len(b)-1:])
				}
				eFull = append(eFull, b...)
				eBare = append(eBare, b[len(b)-1])
				if err := take(b, "the content"); err != nil {
					return err
				}
			}
			if !bytes.Equal(e.Bytes(true), eFull) || !bytes.Equal(e.Bytes(false), eBare) {
				return fmt.Errorf("%s/%d: the bytes of the element are %q and %q instead of %q and %q", path, i, e.Bytes(true), e.Bytes(false), eFull, eBare)
			}
			bare = append(bare, eBare...)
		}
	}
	if t.HasSuffix() {
		list := []byte{}
		for k, x := range t.Suffix().List() {
			if err := w.tree(x, rest, fmt.Sprintf("%s suffix %d", path, k)); err != nil {
				return err
			}
			list = append(list, x.Bytes(true)...)
			if err := take(x.Bytes(true), "the suffix"); err != nil {
				return err
			}
		}
		if !bytes.Equal(t.Suffix().Bytes(true), list) {
			return fmt.Errorf("%s: the bytes of the suffix are %q instead of %q", path, t.Suffix().Bytes(true), list)
		}
	}
	if !bytes.Equal(rest, t.Remaining()) {
		return fmt.Errorf("%s: the remaining is %q instead of %q", path, t.Remaining(), rest)
	}
	if !bytes.Equal(t.Bytes(true), full) || !bytes.Equal(t.Bytes(false), bare) {
		return fmt.Errorf("%s: the bytes are %q and %q instead of %q and %q", path, t.Bytes(true), t.Bytes(false), full, bare)
	}
	return nil
}

// ref checks the bytes of each tree against the positions of the reference (which knows the escapes)
func (w *byteWalk) ref(t trees.Tree, ref *rTree, path string) error {
	drops := map[int]bool{}
	ref.collect(drops)
	full, bare := []byte{}, []byte{}
	for i := ref.start; i < ref.rem; i++ {
		if !drops[i] {
			full = append(full, w.in[i])
		}
	}
	ref.bare(&bare)
	if !bytes.Equal(t.Bytes(true), full) || !bytes.Equal(t.Bytes(false), bare) {
		return fmt.Errorf("%s: the bytes are %q and %q instead of %q and %q", path, t.Bytes(true), t.Bytes(false), full, bare)
	}
	for i, e := range ref.elems {
		for j, ct := range e.contents {
			if ct.tree != nil {
				real := t.Block().Successful().Elements().List()[i].Contents().List()[j].Tree()
				if err := w.ref(real, ct.tree, fmt.Sprintf("%s/%d.%d", path, i, j)); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func (t *rTree) collect(drops map[int]bool) {
	for _, d := range t.drops {
		drops[d] = true
	}
	for _, x := range t.suffix {
		x.collect(drops)
	}
	for _, e := range t.elems {
		for _, ct := range e.contents {
			if ct.tree != nil {
				ct.tree.collect(drops)
			}
			for _, x := range ct.prefix {
				x.collect(drops)
			}
		}
	}
}

func (t *rTree) bare(out *[]byte) {
	for _, e := range t.elems {
		for _, ct := range e.contents {
			if ct.tree != nil {
				ct.tree.bare(out)
			} else {
				*out = append(*out, ct.val)
			}
		}
	}
}
