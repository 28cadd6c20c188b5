package main

import (
	"fmt"
	"strings"
)

// The scale families: each dimension of a grammar or of an input (amounts of elements, lines, tokens, repetitions,
// nesting, channels, bytes of an everything...) is grown alone, through the sizes around the usual limits.

type scaleItem struct {
	text   string
	exts   map[string]*gGram
	inputs []string
}

var scaleSizes = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300}
var scaleMore = []int{400, 511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025}

func rep(s string, n int) string {
	if n <= 0 {
		return ""
	}
	return strings.Repeat(s, n)
}

func seqf(n int, sep string, fn func(i int) string) string {
	out := make([]string, n)
	for i := range out {
		out[i] = fn(i)
	}
	return strings.Join(out, sep)
}

// two returns a text of two bytes for a number
func two(i int) string { return string([]byte{byte(65 + i/100), byte(97 + i%100)}) }

func twoEls(i int) string { return fmt.Sprintf("\\x%02x \\x%02x", 65+i/100, 97+i%100) }

func scaleCore(n int) []scaleItem {
	as := func(l ...int) []string {
		out := []string{}
		for _, k := range l {
			out = append(out, rep("a", k), rep("a", k)+"b", rep("a", k)+"c")
		}
		return out
	}
	item := func(text string, inputs ...string) scaleItem { return scaleItem{text, nil, inputs} }
	around := as(n-1, n, n+1, 2*n, 2*n+1)
	out := []scaleItem{}
	for _, el := range []string{"a", "T", "U"} {
		for _, k := range []string{"{%d}", "{%d,}", "{0,%d}", "{1,%d}"} {
			out = append(out, item("R: "+el+fmt.Sprintf(k, n)+" b? ; T: a ; U: a b? | a", around...))
		}
		out = append(out, item(fmt.Sprintf("R: %s{%d,%d} b? ; T: a ; U: a a", el, n, 2*n), append(around, as(3*n, 4*n-1, 4*n, 4*n+2)...)...))
		out = append(out, item("R: "+el+"* b ; T: a ; U: b? a", around...))
	}
	line := strings.TrimSpace(rep("a b ", n))
	out = append(out, item("R: "+line, rep("ab", n), rep("ab", n)+"a", rep("ab", n-1)+"a", rep("ab", n-1)+"aa", "b"+rep("ab", n)))
	out = append(out, item("R: "+strings.TrimSpace(rep("a? ", n))+" b", around...))
	out = append(out, item("R: "+strings.TrimSpace(rep("T ", n))+" ; T: a | b", rep("ab", (n+1)/2), rep("a", n), rep("b", n-1), rep("b", n+1)))
	lines := seqf(n, " | ", twoEls)
	ins := []string{two(n), two(0) + "x", "x", "A"}
	for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
		if i >= 0 && i < n {
			ins = append(ins, two(i), two(i)+two(0), two(i)[:1])
		}
	}
	out = append(out, item("R: "+lines, ins...), item("R: T* ; T: "+lines, append(ins, seqf(n, "", two), seqf(n, "", func(i int) string { return two(n - 1 - i) }))...))
	out = append(out, item("R: a "+seqf(n, " | a ", func(i int) string { return rep("b ", i) + "c" }), "a"+rep("b", n-1)+"c", "a"+rep("b", n)+"c", "a"+rep("b", n/2)+"c", "ac"))
	chain := func(mid string, last string) string {
		return "R: T0 ; " + seqf(n, " ; ", func(i int) string { return fmt.Sprintf("T%d: "+mid, i, i+1) }) + fmt.Sprintf(" ; T%d: %s", n, last)
	}
	out = append(out, item(chain("T%d", "a | b"), "a", "b", "c", "ab"))
	out = append(out, item(chain("x? T%d y?", "a | b"), "a", "xa", "xxay", "b"+rep("y", n), rep("x", n)+"b"+rep("y", n+1), rep("x", n+1)+"a"))
	out = append(out, item(chain("b a | T%d", "a"), "a", "ba", "b", "c"))
	if n <= 65 {
		out = append(out, item(chain("a T%d | b", "a @R | @T0 | c"), rep("a", n)+"c", rep("a", n)+"b", rep("a", 2*n+1)+"c", rep("a", 3*n)+"b"))
	}
	out = append(out, item("R: "+seqf(n, " ", func(i int) string { return fmt.Sprintf("T%d", i) })+" ; "+seqf(n, " ; ", func(i int) string { return fmt.Sprintf("T%d: ", i) + twoEls(i) }),
		seqf(n, "", two), seqf(n-1, "", two), seqf(n+1, "", two), seqf(n, "", func(i int) string { return two(n - 1 - i) })))
	out = append(out, item("R: a @R b | c", rep("a", n)+"c"+rep("b", n), rep("a", n)+"c"+rep("b", n-1), rep("a", n)+"c"+rep("b", n+1)))
	out = append(out, item("R: a @R | b", rep("a", n)+"b", rep("a", n)))
	out = append(out, item("R: T+ c? ; T: a a b | a c? | b", rep("aab", n)+"c", rep("a", n)+"c", rep("ba", n), rep("aac", n)))
	out = append(out, item("R: a", "a"+rep("b", n), rep("a", n)))
	return out
}

func scaleEverything(n int) []scaleItem {
	item := func(text string, inputs ...string) scaleItem { return scaleItem{text, nil, inputs} }
	xs := strings.TrimSpace(rep("x ", n))
	es := strings.TrimSpace(rep("e ", n))
	return []scaleItem{
		item("R: !E x? ; !E: X ; X: x", rep("a", n)+"x", rep("a", n), rep("a", n)+"xa", rep("x", n)),
		item("R: !E X a? ; !E: X ; X: "+xs, "a"+rep("x", n), rep("a", n)+rep("x", n-1)+"a"+rep("x", n)+"a", rep("x", n), "a"+rep("x", n-1), rep("x", n-1)+"a"+rep("x", n)),
		item("R: !E x? ; !E: X / Y ; X: x ; Y: e", rep("ex", n)+"x", rep("aex", n)+"ex", rep("e", n)+"x", rep("e", n)+"ax", rep("ex", n)),
		item("R: !E x? ; !E: X / Y ; X: x ; Y: "+es, rep("e", n)+"x"+"ax", "a"+rep("e", n-1)+"x", "a"+rep("e", n+1)+"xx", rep("e", 2*n)+"x"),
		item("R: !E x? a? ; !E: X ; X: "+seqf(n, " | ", twoEls), "x"+two(n-1), "xa"+two(0), "xx"+two(n), "b"+two(n/2)+two(0)),
		item("R: T* ; T: !E x | x ; !E: X ; X: x", rep("ax", n), rep("aax", n)+"a", rep("x", n)),
		item("R: !E{"+fmt.Sprint(n)+"} ; !E: X / Y ; X: x ; Y: e", rep("a", n), "ax"),
		item("R: a !E X ; !E: X ; X: x a* y | z", "a"+rep("x", n)+"y", "ab"+"x"+rep("a", n)+"y", "ab"+"x"+rep("a", n)+"z", "a"+rep("xa", n)+"z"),
	}
}

func scaleChannels(n int) []scaleItem {
	item := func(text string, inputs ...string) scaleItem { return scaleItem{text, nil, inputs} }
	s := rep(" ", n)
	spaced := []string{s + "ab", "a" + s + "b", "ab" + s, s + "a" + s + "b" + s, s + "a" + s + "c", s + "a" + s + "b" + s + "c", s}
	chans := seqf(n, " ; ", func(i int) string { return fmt.Sprintf("#C%d ; C%d: c ", i, i) + twoEls(i) })
	one := func(i int) string { return "c" + two(i) }
	all, back := seqf(n, "", one), seqf(n, "", func(i int) string { return one(n - 1 - i) })
	return []scaleItem{
		item("R: a b ; #S ; S: _", spaced...),
		item("R: a b ; #S ; S: _*", spaced...),
		item("R: a b ; #S ; S: T{1,2} ; T: _ | c", spaced...),
		item("R: T ; T: a U? ; U: b ; #S ; S: _ _?", spaced...),
		item("R: T+ ; T: a b? ; #S ; S: _", rep("a b ", n), rep(" ab", n), rep("ab", n)+s+"a"),
		item("R: a b ; #S ; S: c !E ; !E: X ; X: b", "c"+rep("x", n)+"b", "ac"+rep(" ", n)+"bb", "ac"+rep("a", n)+"b"),
		item("R: a b ; "+chans, "a"+all+"b", all+"a"+back+"b"+all, "a"+one(n-1)+"b", "ab"+one(n-1)+"c", "a"+one(n)+"b", "a"+rep(one(n/2), 3)+"b"),
		item("R: a* b ; #S<P ; S: _ ; P: a", rep("a ", n)+"b", "a"+s+"b", rep("a", n)+" b", s+"ab"),
		item("R: a* b ; #S>P ; S: _ ; P: b | _", "a"+s+"b", s+"ab", "a"+s+"a", rep(" a", n)+"b"),
		item("R: a b ; #S ; S: "+strings.TrimSpace(rep("_ ", n)), spaced...),
	}
}

func scaleExternals(n int) []scaleItem {
	item := func(text string, exts map[string]*gGram, inputs ...string) scaleItem {
		return scaleItem{text, exts, inputs}
	}
	g := func(text string) map[string]*gGram { return map[string]*gGram{"X": newGram(text, nil)} }
	s := rep(" ", n)
	out := []scaleItem{
		item(fmt.Sprintf("R: %%X{%d} b?", n), g("G: a"), rep("a", n-1), rep("a", n), rep("a", n)+"b", rep("a", n+1)),
		item("R: a %X b", g(fmt.Sprintf("G: a{%d} | c", n)), rep("a", n+1)+"b", rep("a", n)+"b", "acb", rep("a", n+1)),
		item("R: a %X b? ; #S ; S: c", g("G: a b ; #T ; T: _"), "aa"+s+"b"+s+"b", "a"+s+"ab"+s, "acc"+s+"ab"+s+"ccb", "ac"+s+"ab"+s+"c"+s+"b"),
		item("R: %X*", g("G: a b? | @G b"), rep("ab", n), rep("a", n), rep("aab", n)+"b"),
		item("R: %X b* c", g("G: a @G | a"), rep("a", n)+"c", rep("a", n)+rep("b", n)+"c"),
	}
	if n <= 65 {
		ext := newGram("E0: a | b", nil)
		for i := 1; i < n; i++ {
			ext = newGram(fmt.Sprintf("E%d: x? %%E%d y?", i, i-1), map[string]*gGram{fmt.Sprintf("E%d", i-1): ext})
		}
		out = append(out, item("R: %X b?", map[string]*gGram{"X": ext}, "a", rep("x", n)+"a"+rep("y", n), rep("x", n-1)+"b"+rep("y", n-1)+"b", "xayb", "c"))
	}
	exts := map[string]*gGram{}
	for i := 0; i < n && n <= 130; i++ {
		exts[fmt.Sprintf("X%d", i)] = newGram("G: "+twoEls(i), nil)
	}
	if n <= 130 {
		out = append(out, item("R: "+seqf(n, " ", func(i int) string { return fmt.Sprintf("%%X%d", i) }), exts, seqf(n, "", two), seqf(n-1, "", two)+"x", seqf(n+1, "", two)))
	}
	return out
}

func scaleComposes(n int) []scaleItem {
	item := func(text string, inputs ...string) scaleItem { return scaleItem{text, nil, inputs} }
	s := rep(" ", n)
	return []scaleItem{
		item("R: 'a"+fmt.Sprint(n)+"b", rep("a", n)+"b", rep("a", n-1)+"b", rep("a", n+1)+"b", rep("a", n), rep("a", n)+"bb"),
		item("R: '"+rep("ab", n), rep("ab", n), rep("ab", n)+"a", rep("ab", n-1)+"aa", rep("ab", n-1)+"a"),
		item("R: a 'a"+fmt.Sprint(n)+" a? | a*", rep("a", n), rep("a", n+1), rep("a", n+2), rep("a", n+3)),
		item("R: "+strings.TrimSpace(rep("'ab ", n)), rep("ab", n), rep("ab", n-1)+"a"),
		item("R: 'a"+fmt.Sprint(n)+" ; #S ; S: _", rep("a ", n), s+rep("a", n)+s, rep(" a", n-1), rep("a", n)),
	}
}

// scale runs the families on each size
func (c *C) scale(name string, share float64, max int, run func(text string, exts map[string]*gGram, inputs [][]byte) error, fams ...func(n int) []scaleItem) {
	c.Group(name, share)
	sizes := scaleSizes
	if c.thorough() {
		sizes = append(append([]int{}, sizes...), scaleMore...)
		max *= 4
	}
	for _, n := range sizes {
		if n > max {
			continue
		}
		n := n
		for fi, fam := range fams {
			fam := fam
			count := len(fam(1))
			if c.thorough() || count < len(fam(n)) {
				count = len(fam(n))
			}
			for k := 0; k < count; k++ {
				k := k
				c.Do(func() string { return fmt.Sprintf("size %d, family %d, grammar %d", n, fi, k) }, func() error {
					items := fam(n)
					if k >= len(items) {
						return errSkip
					}
					it := items[k]
					ins := [][]byte{}
					for _, in := range it.inputs {
						ins = append(ins, []byte(in))
					}
					var err error
					if run != nil {
						err = run(it.text, it.exts, ins)
					} else {
						err = c.parseAll(newGram(it.text, it.exts), ins)
					}
					if err != nil {
						return fmt.Errorf("grammar %s%s: %w", clip(it.text, 2000), clip(describeExts(it.exts), 2000), err)
					}
					return nil
				})
			}
		}
	}
}

// The grammars on every byte: B and O are two bytes, H the host grammar and X an external

var byteCore = []string{"R: B* O?", "R: O | B @R?", "R: T+ ; T: B | O B", "R: B{2} O* | B O", "R: T{1,2} B? ; T: O? B"}
var byteEverything = []string{"R: !E B* ; !E: X ; X: B", "R: !E O* ; !E: X / Y ; X: B ; Y: O", "R: B !E ; !E: X ; X: O B", "R: !E T? ; T: B O? ; !E: X / Y ; X: B ; Y: B"}
var byteChannels = []string{"R: O* ; #S ; S: B", "R: O B? O ; #S ; S: B", "R: O+ ; #S<P ; S: B ; P: B", "R: O+ ; #S>N ; S: B ; N: O", "R: O+ ; #S<P>N ; S: B ; P: O ; N: B", "R: T* ; T: O ; #S ; S: B ; #U ; U: B O"}
var byteExternals = []string{"R: %X B? | O", "R: O? %X* ; #S ; S: B"}
var byteComposes = []string{"R: 'B O?", "R: 'B2O | 'O", "R: 'BO* O", "R: 'B3 'O ; #S ; S: O"}

// everyByte runs grammars of two bytes, for every byte with others (that differ by one bit, or that follow), on all
// the words of them
func (c *C) everyByte(share float64, run func(text string, exts map[string]*gGram, inputs [][]byte) error, fams ...[]string) {
	c.Group("every byte", share)
	length := c.B("every-byte-input", 4, 5)
	for b := 0; b < 256; b++ {
		b := b
		c.Do(func() string { return fmt.Sprintf("the byte %d", b) }, func() error {
			others := []int{b ^ 0x80, b ^ 0x20, (b + 1) & 255}
			if c.thorough() {
				others = append(others, b^1, b^0xff, b^0x40, 0, 255)
			}
			for _, o := range others {
				if o == b {
					continue
				}
				inputs := words(string([]byte{byte(b), byte(o)}), length)
				text := func(s string) string {
					return strings.ReplaceAll(strings.ReplaceAll(s, "B", fmt.Sprintf("\\x%02x", b)), "O", fmt.Sprintf("\\x%02x", o))
				}
				for _, fam := range fams {
					for _, f := range fam {
						exts := map[string]*gGram{}
						if strings.Contains(f, "%X") {
							exts["X"] = newGram(text("G: B O? | O ; #S ; S: O"), nil)
						}
						var err error
						if run != nil {
							err = run(text(f), exts, inputs)
						} else {
							err = c.parseAll(newGram(text(f), exts), inputs)
						}
						if err != nil {
							return fmt.Errorf("grammar %s%s: %w", text(f), describeExts(exts), err)
						}
					}
				}
			}
			return nil
		})
	}
}

// a suite may hold any byte
var byteSuites = []string{"R: B* O? ; +R: BB ; +R: BO ; -R: OB", "R: T T ; T: O | B ; +T: B ; -T: OO ; +R: BO", "R: !E B ; !E: X ; X: B ; +R: OB ; +R: OOB ; -R: B"}
