package main

import "strings"

// famMixed are the lines of elements of every kind (values, tokens, recursions, everythings, externals, composes), in
// every order, in grammars of every kind of channels: what one element leaves is what the next one begins with. Those
// that have none of what is needed (an element or #, for the channels) are left out.
func famMixed(need string, size int, fn gramFn) {
	els := []string{"a", "b?", "T", "T*", "@R?", "!E", "%X", "'ab"}
	chans := []string{"", " ; #S ; S: _", " ; #S<P ; S: _ ; P: a", " ; #S<P ; S: _ ; P: b | x", " ; #S>P ; S: _ ; P: b", " ; #S<P>N ; S: _ | x ; P: a | b ; N: a | _"}
	every := []string{"!E: K ; K: x", "!E: K / L ; K: x ; L: a", "!E: K / L ; K: x a? ; L: b @R?", "!E: K / L ; K: b ; L: a @R? | a", "!E: K / L ; K: b | x @R? ; L: @R"}
	if size > 2 {
		els, every = []string{"a", "T", "@R?", "!E", "%X", "'ab"}, every[1:3]
		if strings.HasPrefix(need, "!") {
			els = els[:5]
		}
	}
	ext := map[string]*gGram{"X": newGram("G: a b? | b ; #S ; S: _", nil)}
	ext2 := map[string]*gGram{"X": newGram("G: T x? ; T: a @G? | b ; #S<P ; S: _ ; P: a", nil)}
	for _, l := range lines(els, size) {
		n := len(strings.Fields(l))
		for _, ch := range chans {
			if (need == "#" && ch == "") || (need != "" && need != "#" && !strings.Contains(l, need)) {
				continue
			}
			for i, e := range every {
				if i > 0 && !strings.Contains(l, "!E") {
					break
				}
				rest := " ; T: a b? | b"
				if strings.Contains(l, "!E") {
					rest += " ; " + e
				}
				fn("R: "+l+rest+ch, ext)
				if n < 3 && strings.Contains(l, "%X") {
					fn("R: "+l+rest+ch, ext2)
				}
				if n < 3 {
					fn("R: U x? | U @R ; U: "+l+rest+ch, ext)
					if i < 2 {
						// the suites change nothing to what is parsed
						fn("R: "+l+rest+" ; +R: ab ; -R: b"+ch, ext)
						fn("R: "+l+rest+" ; +T: b ; +T: ab ; -T: x"+ch, ext)
					}
				}
			}
		}
	}
}

// famCards are elements of every kind with every cardinality
func famCards(need string, fn gramFn) {
	exts := map[string]*gGram{"X": newGram("G: a b? | b", nil), "Y": newGram("G: a @G? b ; #S ; S: _", nil)}
	for _, k := range []string{"", "?", "*", "+", "{2}", "{3}", "{1,2}", "{0,2}", "{2,}", "{0}", "{2,3}", "{4,}"} {
		for _, l := range []string{"a#", "T#", "@R#", "!E#", "%X#", "%Y#"} {
			if strings.HasPrefix(need, "!") && l[0] != '!' || strings.HasPrefix(need, "%") && l[0] != '%' {
				continue
			}
			l = l[:len(l)-1] + k
			for _, r := range []string{l, l + " b", "a " + l, "a " + l + " b | b", "b | a " + l + " | x " + l, "U* b? ; U: " + l + " x | b", "a U | b ; U: " + l + " x?"} {
				t := "R: " + r + " ; T: a b | b"
				if l[0] == '!' {
					t += " ; !E: K / L ; K: x ; L: a"
				}
				fn(t, exts)
				fn(t+" ; #S ; S: _", exts)
			}
		}
	}
}

// mixed checks them
func (c *C) mixed(share float64, need string, run func(text string, exts map[string]*gGram, inputs [][]byte) error) {
	c.Group("elements of every kind, one after the other", share)
	c.family(16, words("ab_x", c.B("mixed-input", 4, 6)), func(fn gramFn) { famMixed(need, 2, fn) }, run)
	if need != "'" {
		c.family(16, words("abx", c.B("cards-input", 6, 7)), func(fn gramFn) { famCards(need, fn) }, run)
	}
	c.family(16, words("ab_x", c.B("mixed-lines-input", 4, 5)), func(fn gramFn) { famMixed(need, c.B("mixed-lines", 3, 4), fn) }, run)
}
