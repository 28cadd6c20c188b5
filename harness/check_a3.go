package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
)

// meter counts the uses of the tokens of a grammar, and their nesting
type meter struct {
	uses     int
	maxUses  int
	maxDepth int
}

type meterError struct {
	text string
}

type meteredToken struct {
	grammars.Token
	m *meter
}

func (t *meteredToken) Block() grammars.Block {
	t.m.uses++
	if t.m.maxUses > 0 && t.m.uses > t.m.maxUses {
		panic(meterError{fmt.Sprintf("the tokens were used more than %d times", t.m.maxUses)})
	}
	if t.m.maxDepth > 0 && t.m.uses%7 == 0 {
		var pcs [1]uintptr
		if runtime.Callers(t.m.maxDepth, pcs[:]) > 0 {
			panic(meterError{fmt.Sprintf("the nesting is of more than %d calls", t.m.maxDepth)})
		}
	}
	return t.Token.Block()
}

func init() {
	register("A03", "the real parser on every grammar of the families (left, mutual and unknown recursions, elements, channels and conditions that match nothing, everythings, externals) and every input up to a length, with a counter of the steps and of the nesting, compared with an independent reference interpreter", checkA03)
}

func countLines(g *gGram) int {
	n := 0
	for _, t := range g.toks {
		n += len(t.lines)
	}
	return n
}

func (c *C) metered(text string, exts map[string]*gGram, inputs [][]byte) error {
	m := &meter{}
	wrap := func(t grammars.Token) grammars.Token { return &meteredToken{t, m} }
	wrapped := map[string]*gGram{}
	total := 0
	for n, e := range exts {
		wrapped[n] = rewrap(e, wrap)
		total += countLines(wrapped[n]) + 4
	}
	g := newGramWrapped(text, wrapped, wrap)
	total += countLines(g)
	for _, in := range inputs {
		p := &rParser{in: in, limit: 300000}
		var ref *rTree
		over := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(rLimit); !ok {
						panic(r)
					}
					over = true
				}
			}()
			ref = p.gram(g, len(in), 0)
		}()
		if over {
			continue
		}
		m.uses, m.maxUses, m.maxDepth = 0, 100*p.steps+1000, 100*total*(len(in)+2)+300
		var err error
		func() {
			defer func() {
				if r := recover(); r != nil {
					me, ok := r.(meterError)
					if !ok {
						panic(r)
					}
					err = fmt.Errorf("on %q (%d uses of a token by the reference): %s", in, p.steps, me.text)
				}
			}()
			real, e := theParser.Execute(g.real, in)
			err = compareRoot(real, e, ref, in)
		}()
		c.Step(m.uses)
		c.Exec()
		if err != nil {
			return err
		}
		c.State(refString(ref0(ref), in))
	}
	return nil
}

func ref0(t *rTree) *rTree {
	if t == nil || !t.ok {
		return nil
	}
	return t
}

// rewrap builds a grammar again with other tokens
func rewrap(g *gGram, wrap func(t grammars.Token) grammars.Token) *gGram {
	exts := map[string]*gGram{}
	for _, t := range g.toks {
		for _, l := range t.lines {
			for _, ct := range l {
				if ct.kind == gExternal {
					exts[ct.name] = rewrap(ct.ext, wrap)
				}
			}
		}
	}
	return newGramWrapped(g.text, exts, wrap)
}

func checkA03(c *C) {
	run := c.metered
	ab := words("ab", c.B("input", 5, 6))

	c.mixed(0.5, "", run)
	c.Group("left and unknown recursions", 0.25)
	els := []string{"a", "a?", "@R", "@R?", "@R*", "@R{2}", "@Z?", "@Z"}
	first := lines(els, 2)
	second := lines([]string{"a", "@R", "@R*", "a?"}, c.B("second-line", 2, 3))
	c.family(32, ab, func(fn gramFn) {
		defs(first, second, 2, func(d string) { fn("R: "+d, nil) })
	}, run)
	c.family(32, words("ab", c.B("three-lines-input", 4, 5)), func(fn gramFn) {
		defs(lines([]string{"@R", "@R?", "a?", "b"}, 2), lines([]string{"@R", "a", "@R*"}, 2), 3, func(d string) { fn("R: "+d, nil) })
	}, run)

	c.Group("mutual recursions", 0.4)
	c.family(32, words("ab", c.B("mutual-input", 4, 5)), func(fn gramFn) {
		ts := []string{}
		defs(lines([]string{"@R", "@T", "@T*", "a?", "b", "@Z?"}, 2), []string{"a", "@R", "@T b"}, 2, func(d string) { ts = append(ts, d) })
		rs := []string{}
		defs(lines([]string{"T", "T*", "@R", "a?", "b"}, 2), []string{"b", "T", "@R a"}, 2, func(d string) {
			if strings.Contains(d, "T") {
				rs = append(rs, d)
			}
		})
		for _, t := range ts {
			for _, r := range rs {
				fn("R: "+r+" ; T: "+t, nil)
			}
		}
	}, run)

	c.Group("three tokens", 0.4)
	c.family(32, words("ab", c.B("three-input", 4, 5)), func(fn gramFn) {
		for _, r := range []string{"T", "T*", "T? U*", "U T", "T | U", "T b | U | a", "@R | T"} {
			for _, t := range []string{"U", "@R U", "U? @T", "U* | @R*", "@T* | U", "@R | @T | U", "U @R b | a"} {
				for _, u := range lines([]string{"@R", "@T", "@U", "a?", "a", "@T*"}, 2) {
					for _, v := range []string{"", " | @R", " | a", " | @T b", " | @U* b"} {
						fn("R: "+r+" ; T: "+t+" ; U: "+u+v, nil)
					}
				}
			}
		}
	}, run)

	c.Group("channels that match nothing or refer to themselves", 0.5)
	c.family(16, words("ab_", c.B("channels-input", 5, 6)), func(fn gramFn) {
		for _, r := range []string{"a", "a b", "a* b?", "T* ; T: a? b?", "@R a | a", "a? @R? b?", "T ; T: @T | @R | b"} {
			for _, s := range []string{"_?", "_*", "@S", "@S?", "@S* _?", "@S | _", "V* ; V: _?", "V? ; V: @S? _?", "a?", "_? _?", "@Z", "@R", "_ @Z?", "!K b ; !K: B ; B: b", "!K? ; !K: B ; B: b | _"} {
				if strings.Contains(s, "V") && strings.Contains(r, "V") {
					continue
				}
				fn("R: "+r+" ; #S ; S: "+s, nil)
				fn("R: "+r+" ; #S ; #D ; D: b? ; S: "+s, nil)
				for _, k := range []string{"@P", "@P | a", "a @P?", "b", "@S", "@R", "_ @P | _"} {
					fn("R: "+r+" ; #S>P ; S: "+s+" ; P: "+k, nil)
					fn("R: "+r+" ; #S<P ; S: "+s+" ; P: "+k, nil)
				}
			}
		}
	}, run)

	c.Group("everythings", 0.5)
	c.family(16, words("axe", c.B("everything-input", 3, 5)), func(fn gramFn) { famEverything(true, fn) }, run)
	c.family(16, words("axe", c.B("everything-recursive-input", 4, 5)), func(fn gramFn) {
		for _, r := range []string{"!E", "!E* x", "!E? @R?", "@R !E | !E", "x @R? !E", "T* ; T: !E? @R?"} {
			for _, x := range []string{"x?", "@R", "@X", "@X x | x", "@R | x", "x @R", "x* a*", "!G", "!G @R | x", "@Z", "@Z | x", "@T"} {
				for _, y := range []string{"", "e?", "@Y", "@X", "@R", "@R | e", "e* a*", "@Y e | e", "!H a"} {
					e := "!E: X"
					if y != "" {
						e += " / Y ; Y: " + y
					}
					fn("R: "+r+" ; X: "+x+" ; "+e+" ; !G: G1 / G2 ; G1: a | @R ; G2: e | @X ; !H: H1 ; H1: a", nil)
				}
			}
		}
	}, run)

	c.Group("externals", 0.6)
	c.family(16, words("ab_", c.B("externals-input", 4, 5)), func(fn gramFn) { famExternals(c.thorough(), fn) }, run)
	c.family(16, words("ab_", c.B("externals-recursive-input", 5, 6)), func(fn gramFn) {
		for _, in := range []string{"G: @G", "G: a? ; #S ; S: _?", "G: @G* a?", "G: @R | a", "G: T* ; T: @G | @T | a?", "G: a? b?", "G: @X | b"} {
			for _, h := range []string{"%X", "%X*", "%X? @R?", "@R %X | %X", "a? %X* b?", "T* ; T: %X? @R? @T?"} {
				for _, ch := range []string{"", " ; #S ; S: _?", " ; #S ; S: @S? _"} {
					fn("R: "+h+ch, map[string]*gGram{"X": newGram(in, nil), "G": newGram(in, nil)})
					fn("R: "+strings.ReplaceAll(h, "%X", "%R")+ch, map[string]*gGram{"R": newGram(in, nil)})
				}
			}
		}
	}, run)

	c.scale("sizes of the grammars and of the inputs", 0.7, 129, run, scaleCore, scaleEverything, scaleChannels, scaleExternals, scaleComposes)

	c.Group("long inputs", 1)
	for _, n := range []int{1, 10, 100, 300} {
		in := [][]byte{[]byte(strings.Repeat("a", n)), []byte(strings.Repeat("ab", n)), []byte(strings.Repeat("_", n)), []byte(strings.Repeat("a ", n)), []byte(strings.Repeat("a", n) + "b")}
		c.family(1, in, func(fn gramFn) {
			for _, g := range []string{
				"R: @R a | a", "R: a @R | a", "R: a? @R?", "R: T* ; T: a | @R b", "R: T* ; T: a? b? ; #S ; S: _*", "R: !E b | a @R ; !E: X ; X: b",
				"R: a* ; #S ; #D ; S: _ ; D: b", "R: T ; T: U @T? ; U: a @U? | b",
			} {
				fn(g, nil)
			}
		}, run)
	}
}
