package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/steve-care-software/rodkina/libs/databases/applications"
)

// The families of values that are almost equal: a hash, and the same with a bit changed at each place

// flipped returns the bytes, where the bits of a mask are changed at a place
func flipped(b []byte, at int, mask byte) []byte {
	out := append([]byte{}, b...)
	out[at] ^= mask
	return out
}

// nearHashes stores contents whose hashes differ in one byte
func (c *C) nearHashes(share float64, verify func(h *dbHistory) func(app applications.Application, ctx uint, db mDB) error) {
	c.Group("hashes that are almost equal", share)
	bases := []struct {
		name string
		b    []byte
	}{{"a digest", sum("near")}, {"zeros", make([]byte, 64)}, {"ones", bytes.Repeat([]byte{0xff}, 64)}, {"spaces", bytes.Repeat([]byte{0x20}, 64)}}
	for bi, base := range bases {
		for at := 0; at < 64; at++ {
			for mi, mask := range []byte{0x01, 0x80, 0x20, 0xff} {
				if bi+mi > 1 && !c.thorough() && (at+bi+mi)%4 != 0 {
					continue
				}
				bi, base, at, mi, mask := bi, base, at, mi, mask
				c.Do(func() string {
					return fmt.Sprintf("%s, and the same where the byte %d is changed by %x", base.name, at, mask)
				}, func() error {
					h, err := newHistory(c, uint(16*(mi+bi)), nil)
					if err != nil {
						return err
					}
					h.verify = verify(h)
					defer func() { h.app.Close(h.ctx) }()
					x, y := base.b, flipped(base.b, at, mask)
					if at%2 == 1 {
						x, y = y, x
					}
					w := func(hash []byte, i int, size int, kind uint) func() error {
						return func() error { return h.write(mContent{hash, fill(i, size), kind}) }
					}
					full := func() error { return h.check(true) }
					if err := h.all(w(x, 1, 5, 0), w(y, 2, 6, 1), h.commit, full,
						w(y, 3, 7, 0), h.commit, full,
						w(x, 4, 8, 1), h.commit, full,
						w(flipped(x, 63-at, 0x10), 5, 9, 1), h.commit, full); err != nil {
						return err
					}
					c.State(h.fingerprint())
					return nil
				})
			}
		}
	}
}

// nearBlocks returns lists of blocks of which some are almost equal
func nearBlocks(at int, mask byte) [][][]byte {
	h := sum("near")
	long := fill(9, 200)
	far := at * 3
	return [][][]byte{
		// of 64 bytes
		{h, flipped(h, at, mask)},
		{flipped(h, at, mask), []byte("a"), h, h, flipped(h, 63-at, mask)},
		// of another length, with what begins or ends the same
		{h[:at], h, append(append([]byte{}, h...), mask)},
		{h[at:], h, append([]byte{mask}, h...)},
		{long, flipped(long, far, mask), flipped(long, 199-far, mask)},
		{long[:far], long[:far+1], long, long[far:]},
	}
}

// nearNames are pairs of names that are almost equal
func nearNames() [][2]string {
	long := strings.Repeat("n", 63)
	longer := strings.Repeat("m", 300)
	return [][2]string{
		{"ab", "abc"}, {"abc", "ab"}, {"ab", "Ab"}, {"AB", "ab"}, {"ab", "ba"}, {"a", "aa"}, {"zab", "ab"}, {"a", "a "}, {" a", "a"}, {"a b", "a  b"}, {"a\n", "a"},
		{"a\x00", "a"}, {"a\x00b", "a\x00c"}, {"a_b", "a-b"}, {"a.b", "a_b"}, {"a", "a."}, {"a/b", "a"}, {"1", "01"}, {"1", "1.0"}, {"-1", "1"}, {"é", "è"}, {"e\u0301", "é"}, {"ß", "ss"},
		{"\xff", "\xfe"}, {long + "a", long + "b"}, {"a" + long, "b" + long}, {longer + "a", longer + "b"}, {"a" + longer, "b" + longer}, {longer, longer + "m"},
		{"@P", "P"}, {"!P", "P"}, {"P0", "P"}, {"P[0]", "P[1]"}, {"*", "?"}, {"%s", "%d"}, {"a:b", "a:c"}, {"a", "b"}, {"nil", "null"}, {"true", "false"},
	}
}

// escaped makes a name that can be part of the text of a grammar
func escaped(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		out += fmt.Sprintf("\\x%02x", s[i])
	}
	return out
}

// P and Q are two tokens (or an everything, an external, values) whose names are almost equal
var nearCore = []string{"R: P Q? | Q ; P: a b* ; Q: b | a", "P: a @P? Q | b ; Q: a @Q? b | a @P b", "P: Q* @P? a | b ; Q: a Q2? ; Q2: b @Q? a", "Q: P P? ; P: a @Q? b | b @P? a",
	"P: a @P? b | b T? ; T: a @P? | b @Q b? ; Q: a | b @P ; =T: $P ; =Q: $Q", "P: a T b? | T | b @P ; T: b Q? | a @P ; Q: b | a @P ; =T: $P", "P: T | a @P b | b ; T: U b | a U a ; U: a @P | b ; =T: $Q ; =U: $P",
	"R: a b* | b{2} a ; =a: $P ; =b: $Q", "R: a b | b @R a ; =a: b ; =b: a", "P: a @P? b | Q ; Q: b Q2? ; Q2: a ; =a: $Q"}
var nearSuites = []string{"R: P Q ; P: a b* ; Q: b | a ; +P: ab ; +P: a ; -P: b ; +Q: b ; -Q: aa", "P: Q+ ; Q: a @P? b | b ; +P: abb ; -P: a ; +Q: ab ; -Q: aab"}
var nearEverything = []string{"R: !P Q ; !P: Q ; Q: b", "R: !P Q? ; !P: Q / Q2 ; Q: b ; Q2: a b", "P: !Q a b ; !Q: Z ; Z: a b"}
var nearExternals = []string{"P: %Q b? | a", "R: %P %Q? | a b", "R: %P b? ; #S ; S: Q ; Q: a a"}
var nearComposes = []string{"R: 'ab P? ; P: 'ba ; ='ab: $P ; ='ba: $Q", "R: 'ab Q? | 'ba2 | P ; P: a 'ab ; Q: 'ba ; ='ab: $P ; ='ba: $Q ; ='ba2: $P "}

func (c *C) nearTokens(share float64, run func(text string, exts map[string]*gGram, inputs [][]byte) error, fams ...[]string) {
	c.Group("names that are almost equal", share)
	inputs := words("ab", c.B("near-names-input", 5, 7))
	for _, pair := range nearNames() {
		for _, fam := range fams {
			for _, f := range fam {
				pair, f := pair, f
				c.Do(func() string { return fmt.Sprintf("grammar %s where P is %q and Q is %q", f, pair[0], pair[1]) }, func() error {
					names := fmt.Sprintf(" ; =P: %s ; =Q: %s", escaped(pair[0]), escaped(pair[1]))
					text := strings.ReplaceAll(strings.ReplaceAll(f, "$P", escaped(pair[0])), "$Q", escaped(pair[1])) + names
					exts := map[string]*gGram{}
					for _, x := range []string{"P", "Q"} {
						if strings.Contains(f, "%"+x) {
							exts[x] = newGram("G: b a? | a b b? ; =G: "+escaped("root of "+x), nil)
						}
					}
					if run != nil {
						return run(text, exts, inputs)
					}
					return c.parseAll(newGram(text, exts), inputs)
				})
			}
		}
	}
}

// nearPrograms are programs in which two names are almost equal
func (c *C) nearPrograms(share float64) {
	c.Group("names that are almost equal", share)
	for _, pair := range nearNames() {
		p, q := pair[0], pair[1]
		if progNames([]byte(p)) == progNames([]byte(q)) || progNames(useName(p)) != progNames(declName(p)) || progNames(useName(q)) != progNames(declName(q)) {
			continue
		}
		c.Do(func() string { return fmt.Sprintf("programs with the names %q and %q", p, q) }, func() error {
			r := newProgRig()
			start := []*pIns{iMod(p, 0), iMod(q, 1), iApp(p, q), iApp(q, p), iIn(p), iOut(q), iIn("x"), iOut("y")}
			alphabet := []*pIns{
				iConst(p, "p"), iConst(q, "q"), iVar(q, p), iVar("y", "x"), iVar("y", p), iVar("y", q), iExec(q, p), iExec("y", q), iAttach(p, p, 0), iAttach(q, p, 1), iAttach(p, q, 0), iRun(p), iRun(q),
				iSub("y", iIn(q), iOut(p), iVar(p, q)), iSub("y", iMod(q, 1), iApp(p, q), iRun(p)),
			}
			for _, list := range [][]*pIns{
				// what is declared and what is used differ
				{iMod(p, 0), iApp("a", q)}, {iMod(p, 0), iApp(p, p), iRun(q)}, {iIn(p), iOut("o"), iVar("o", q)}, {iIn(p), iMod("m", 0), iApp("a", "m"), iAttach(q, "a", 0), iRun("a")},
				{iConst(p, "c"), iMod("m", 0), iApp("a", "m"), iAttach(q, "a", 0), iRun("a")}, {iMod("m", 0), iApp(p, "m"), iOut("o"), iExec("o", q)}, {iMod("m", 0), iApp(p, "m"), iConst("v", "c"), iAttach("v", q, 0), iRun(p)},
				{iMod(p, 0), iMod(q, 0), iRun(p)}, {iIn(p), iIn(q), iOut("o"), iVar("o", q), iVar("o", p)}, {iOut(p), iOut(q), iConst(q, "q"), iConst(p, "p")}, {iOut(p), iConst(q, "q"), iConst("v", "p")},
			} {
				if err := r.check(c, list, []int{0, 1, 2, 3}); err != nil {
					return err
				}
			}
			for n := 1; n <= c.B("near-instructions", 3, 4); n++ {
				var err error
				sequences(len(alphabet), n, func(seq []int) bool {
					list := append([]*pIns{}, start...)
					for _, i := range seq {
						list = append(list, alphabet[i])
					}
					err = r.check(c, list, []int{0, 2})
					return err == nil && !c.Over()
				})
				if err != nil {
					return err
				}
			}
			return nil
		})
	}
}

// nearQueries are queries on tokens whose names are almost equal
func (c *C) nearQueries(share float64, inject bool) {
	c.Group("names that are almost equal", share)
	inputs := words("ab", c.B("near-query-input", 4, 6))
	for _, pair := range nearNames() {
		p, q := pair[0], pair[1]
		names := fmt.Sprintf(" ; =P: %s ; =Q: %s", escaped(p), escaped(q))
		value := func(s string) string {
			return strings.ReplaceAll(strings.ReplaceAll(s, "$P", escaped(p)), "$Q", escaped(q))
		}
		for _, g := range []*qGram{
			{text: "P: Q @P? b? | a Q ; Q: a b" + names, toks: []string{p, q}, els: map[string][]string{p: {q, p, "a"}, q: {"a", p}}},
			{text: "Q: P+ ; P: a b? | b" + names, toks: []string{q, p}, els: map[string][]string{q: {p, q}, p: {"a", q}}},
			{text: value("Q: a b a? | b ; =a: $P ; =b: b") + names, toks: []string{q, p}, els: map[string][]string{q: {p, q, "b", "a"}, p: {p}}},
			{text: "P: !Q a b ; !Q: Z ; Z: a b" + names, toks: []string{p, q}, els: map[string][]string{p: {q, p, "a"}, q: {"rev", p}}},
		} {
			g := g
			g.inputs = inputs
			c.queriesOf(g, inject, func(fn func(q *qSpec)) {
				for _, tok := range g.toks {
					qLeaves(tok, g.els[tok], 1, []int{-1, 0}, "sm", "1n", fn)
				}
				// the reverse name is almost the one of the element
				for _, e := range pair {
					for _, rev := range pair {
						fn(&qSpec{tok: g.toks[0], rev: rev, el: e, content: -1, in: 'm', fn: 'n'})
					}
				}
				g.nested(g.children("m", "n", []int{-1}), []string{p, q}, "n", recPairs, fn)
			})
		}
	}
}
