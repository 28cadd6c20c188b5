package main

import (
	"fmt"
	"strings"
)

// The combinations of small sizes: where the scale families grow one dimension alone, these take every combination of
// the amounts of elements of a line, contents of an element, nested tokens, channels before, between and after, and
// bytes that remain.

// comboElement is an element of a kind, and what it matches
func comboElement(kind string, i int, k int) (string, string) {
	card := ""
	if k > 1 {
		card = fmt.Sprintf("{%d}", k)
	}
	switch kind[i%len(kind)] {
	case 'a':
		return "a" + card, "a"
	case 'b':
		return "b" + card, "b"
	case 'T':
		return "T" + card, "t"
	case 'X':
		return "%X" + card, "x"
	case 'C':
		return "'ab" + card, "ab"
	}
	return "!E" + card, "e"
}

type comboDims struct {
	kinds    []string
	channels bool
	elements int
	contents int
	depth    int
	amount   int // of channels, and of bytes that remain
}

func (c *C) combos(share float64, d comboDims, run func(text string, exts map[string]*gGram, inputs [][]byte) error) {
	c.Group("combinations of sizes", share)
	if c.thorough() {
		d.elements++
		d.contents++
		d.depth++
		d.amount++
	}
	for _, kind := range d.kinds {
		for e := 1; e <= d.elements; e++ {
			for k := 1; k <= d.contents; k++ {
				for depth := 0; depth <= d.depth; depth++ {
					if depth > 0 && !strings.Contains(kind, "T") {
						continue
					}
					kind, e, k, depth := kind, e, k, depth
					c.Do(func() string {
						return fmt.Sprintf("%d elements of kind %s, of %d contents, %d nested tokens", e, kind, k, depth)
					}, func() error {
						line, atoms := []string{}, []string{}
						for i := 0; i < e; i++ {
							el, in := comboElement(kind, i, k)
							line = append(line, el)
							for j := 0; j < k; j++ {
								atoms = append(atoms, in)
							}
						}
						text := "R: " + strings.Join(line, " ")
						exts := map[string]*gGram{}
						if strings.Contains(kind, "T") {
							text += " ; T: "
							for i := 0; i < depth; i++ {
								text += fmt.Sprintf("T%d d? ; T%d: ", i, i)
							}
							text += "t f?"
						}
						if strings.Contains(kind, "X") {
							exts["X"] = newGram("G: x y? ; #S ; S: _", nil)
						}
						if strings.Contains(kind, "E") {
							text += " ; !E: Z ; Z: z z | _"
						}
						texts := []string{text}
						inputs := [][]byte{}
						for r := 0; r <= d.amount; r++ {
							inputs = append(inputs, []byte(strings.Join(atoms, "")+rep("z", r)), []byte(strings.Join(atoms, "d")+rep("f", r)), []byte(strings.Join(atoms[1:], "")+rep("z", r)))
						}
						if d.channels {
							texts = []string{text + " ; #S ; S: _", text + " ; #S ; #V ; S: _ ; V: c _?"}
							for p := 0; p <= d.amount; p++ {
								for m := 0; m <= d.amount; m++ {
									for s := 0; s <= d.amount; s++ {
										for r := 0; r <= d.amount; r += 2 {
											inputs = append(inputs, []byte(rep(" ", p)+strings.Join(atoms, rep(" ", m))+rep(" ", s)+rep("z", r)))
											inputs = append(inputs, []byte(rep("c ", p)+strings.Join(atoms, rep("c", m))+rep(" c", s)+rep("z", r)))
										}
									}
								}
							}
						}
						for _, t := range texts {
							var err error
							if run != nil {
								err = run(t, exts, inputs)
							} else {
								err = c.parseAll(newGram(t, exts), inputs)
							}
							if err != nil {
								return fmt.Errorf("grammar %s%s: %w", t, describeExts(exts), err)
							}
						}
						return nil
					})
				}
			}
		}
	}
}
