package main

import (
	"fmt"
	"strings"
)

// joinLines calls fn with each token definition made of 1 to max lines (the lines after the first are from others)
func defs(first []string, others []string, max int, fn func(def string)) {
	for _, f := range first {
		fn(f)
		if max < 2 {
			continue
		}
		for _, o := range others {
			fn(f + " | " + o)
			if max < 3 {
				continue
			}
			for _, p := range others {
				fn(f + " | " + o + " | " + p)
			}
		}
	}
}

// lines returns the lines of 1 to max elements
func lines(elems []string, max int) []string {
	out := []string{}
	level := []string{""}
	for n := 0; n < max; n++ {
		next := []string{}
		for _, l := range level {
			for _, e := range elems {
				next = append(next, strings.TrimSpace(l+" "+e))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

// cards returns each element with each cardinality
func cards(elems []string, cs []string) []string {
	out := []string{}
	for _, e := range elems {
		for _, k := range cs {
			out = append(out, e+k)
		}
	}
	return out
}

// batch groups grammars in cases
type batch struct {
	c      *C
	inputs [][]byte
	exts   map[string]*gGram
	size   int
	texts  []string
	run    func(text string, exts map[string]*gGram, inputs [][]byte) error
}

func (c *C) newBatch(size int, inputs [][]byte, exts map[string]*gGram) *batch {
	return &batch{c: c, inputs: inputs, exts: exts, size: size}
}

func (b *batch) add(text string) {
	b.texts = append(b.texts, text)
	if len(b.texts) >= b.size {
		b.flush()
	}
}

func (b *batch) flush() {
	if len(b.texts) == 0 {
		return
	}
	texts := b.texts
	b.texts = nil
	current := texts[0]
	b.c.Do(func() string {
		return fmt.Sprintf("grammar %s%s (of %d grammars, the first is %s)", current, describeExts(b.exts), len(texts), texts[0])
	}, func() error {
		for _, t := range texts {
			current = t
			if b.run != nil {
				if err := b.run(t, b.exts, b.inputs); err != nil {
					return fmt.Errorf("grammar %s: %w", t, err)
				}
				continue
			}
			if err := b.c.parseAll(newGram(t, b.exts), b.inputs); err != nil {
				return fmt.Errorf("grammar %s: %w", t, err)
			}
		}
		return nil
	})
}

func init() {
	register("A01", "the real parser on every grammar of the families (lines, cardinalities, nested and recursive tokens) and every input up to a length, each tree compared node by node with an independent reference interpreter", checkA01)
}

func checkA01(c *C) {
	small := words("ab", c.B("flat-input", 6, 7))

	c.mixed(0.2, "", nil)

	c.Group("flat: one line of up to 3 elements, every cardinality", 0.3)
	all := cards([]string{"a", "b"}, []string{"", "?", "*", "+", "{2}", "{1,2}", "{2,}", "{0}", "{2,1}", "{0,2}"})
	b := c.newBatch(64, small, nil)
	for _, l := range lines(all, 3) {
		b.add("R: " + l)
	}
	b.flush()

	c.Group("flat: two lines of up to 2 elements", 0.3)
	few := cards([]string{"a", "b"}, []string{"", "?", "*", "{2}"})
	if c.thorough() {
		few = cards([]string{"a", "b"}, []string{"", "?", "*", "+", "{2}", "{1,2}"})
	}
	ls := lines(few, 2)
	b = c.newBatch(64, words("ab", c.B("flat2-input", 5, 6)), nil)
	defs(ls, ls, 2, func(d string) { b.add("R: " + d) })
	b.flush()

	c.Group("flat: three lines", 0.3)
	ls = lines([]string{"a", "b", "a?", "b*"}, 2)
	b = c.newBatch(64, words("ab", c.B("flat3-input", 5, 6)), nil)
	defs(ls, ls, 3, func(d string) { b.add("R: " + d) })
	b.flush()

	c.Group("nested: a token used by the root", 0.4)
	b = c.newBatch(64, words("ab", c.B("nested-input", 5, 6)), nil)
	subs := []string{}
	defs(lines([]string{"a", "b", "a?", "b*"}, 2), lines([]string{"a", "b?"}, 2), 2, func(d string) { subs = append(subs, d) })
	roots := []string{}
	defs(lines([]string{"a", "T", "T?", "T*", "T{2}", "b"}, 2), lines([]string{"b", "T"}, 2), 2, func(d string) {
		if strings.Contains(d, "T") {
			roots = append(roots, d)
		}
	})
	for _, s := range subs {
		for _, r := range roots {
			b.add("R: " + r + " ; T: " + s)
		}
	}
	b.flush()

	c.Group("recursive: a token that refers to itself", 0.4)
	b = c.newBatch(64, words("ab", c.B("self-input", 6, 7)), nil)
	rec := lines([]string{"a", "b", "@R", "@R?", "@R*", "a?"}, 2)
	rec3 := lines([]string{"a", "b", "@R", "@R?"}, 3)
	if c.thorough() {
		rec3 = lines([]string{"a", "b", "@R", "@R?", "@R*", "a?"}, 3)
	}
	defs(rec3, rec, 2, func(d string) {
		if strings.Contains(d, "@") {
			b.add("R: " + d)
		}
	})
	b.flush()
	b = c.newBatch(64, words("ab", c.B("self3-input", 5, 6)), nil)
	rec2 := lines([]string{"a", "b", "@R", "@R*"}, 2)
	defs(rec2, rec2, 3, func(d string) {
		if strings.Contains(d, "@") {
			b.add("R: " + d)
		}
	})
	b.flush()

	c.Group("recursive: two tokens that refer to each other", 0.6)
	b = c.newBatch(64, words("ab", c.B("mutual-input", 5, 6)), nil)
	subs = []string{}
	defs(lines([]string{"a", "b", "@R", "@T", "@R?"}, 2), lines([]string{"a", "@R", "@T"}, c.B("mutual-second", 1, 2)), 2, func(d string) {
		if strings.Contains(d, "@") {
			subs = append(subs, d)
		}
	})
	roots = []string{}
	defs(lines([]string{"a", "T", "T*", "@R", "b"}, 2), lines([]string{"b", "T", "@R"}, c.B("mutual-second", 1, 2)), 2, func(d string) {
		if strings.Contains(d, "T") {
			roots = append(roots, d)
		}
	})
	for _, s := range subs {
		for _, r := range roots {
			b.add("R: " + r + " ; T: " + s)
		}
	}
	b.flush()

	c.Group("recursive: three tokens, references to every enclosing one, shared tokens", 0.8)
	b = c.newBatch(64, words("ab", c.B("three-input", 5, 6)), nil)
	us := []string{}
	defs(lines([]string{"a", "@R", "@T", "@U"}, 2), lines([]string{"b", "@T"}, 1), 2, func(d string) { us = append(us, d) })
	ts := []string{}
	defs(lines([]string{"a", "U", "@R"}, 2), lines([]string{"b", "U", "@T"}, 1), 2, func(d string) {
		if strings.Contains(d, "U") {
			ts = append(ts, d)
		}
	})
	rs := []string{}
	defs(lines([]string{"T", "U", "b"}, 2), lines([]string{"a", "U"}, 1), 2, func(d string) {
		if strings.Contains(d, "T") {
			rs = append(rs, d)
		}
	})
	for _, u := range us {
		for _, t := range ts {
			for _, r := range rs {
				b.add("R: " + r + " ; T: " + t + " ; U: " + u)
			}
		}
	}
	b.flush()

	c.combos(0.3, comboDims{kinds: []string{"a", "T", "aT", "Tab"}, elements: 5, contents: 4, depth: 3, amount: 3}, nil)
	c.scale("scale", 0.6, 300, nil, scaleCore)
	c.everyByte(0.3, nil, byteCore)
	c.nearTokens(0.3, nil, nearCore)

	c.Group("long: deep nesting and long inputs", 1)
	for _, n := range []int{1, 2, 3, 7, 31, 100, 257, 500} {
		in := [][]byte{}
		in = append(in, []byte(strings.Repeat("a", n)+strings.Repeat("b", n)))
		in = append(in, []byte(strings.Repeat("a", n)+strings.Repeat("b", n-1)))
		in = append(in, []byte(strings.Repeat("ab", n)))
		in = append(in, []byte(strings.Repeat("a", n)))
		for _, g := range []string{
			"R: a @R b | a b",
			"R: a @R? b",
			"R: a* b*",
			"R: T* ; T: a b | a",
			"R: T+ ; T: U{1,3} b? ; U: a",
			"R: a @R | a",
			"R: T ; T: a U | b ; U: @T b | b",
		} {
			c.gramCase(g, nil, in)
		}
	}
	// values: every byte matches itself and nothing else
	every := [][]byte{}
	for i := 0; i < 256; i++ {
		every = append(every, []byte{byte(i)})
	}
	for i := 0; i < 256; i++ {
		c.gramCase(fmt.Sprintf("R: \\x%02x", i), nil, every)
	}
}
