package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)

// handElement builds an element of the container (or of none), of an amount of contents
func handElement(cont *gCont, amount int) trees.Element {
	list := []trees.Content{}
	for i := 0; i < amount; i++ {
		v, err := trees.NewValueBuilder().Create().WithContent(byte('a' + i)).Now()
		mustOK(err)
		ct, err := trees.NewContentBuilder().Create().WithValue(v).Now()
		mustOK(err)
		list = append(list, ct)
	}
	cs, err := trees.NewContentsBuilder().Create().WithList(list).Now()
	mustOK(err)
	b := trees.NewElementBuilder().Create().WithContents(cs)
	if cont != nil {
		b.WithGrammar(cont.real)
	}
	e, err := b.Now()
	mustOK(err)
	return e
}

// accepts tells if the container accepts an amount of contents
func (g *gCont) accepts(n int) bool {
	if g.kind == gCompose {
		total := 0
		for _, p := range g.parts {
			total += p.occ
		}
		return n == total
	}
	return n >= g.min && (g.max < 0 || n <= g.max)
}

// successfulLines: each line of containers, with each amount of contents for each (zero: without an element), and the
// blocks of two or three of them
func (c *C) successfulLines(share float64) {
	c.Group("the lines that are successful", share)
	max := c.B("amount of contents", 4, 6)
	conts := cards([]string{"a", "T"}, []string{"", "?", "*", "+", "{2}", "{3}", "{1,2}", "{2,3}", "{2,}", "{0,2}", "{0}", "{2,1}"})
	conts = append(conts, "'a", "'ab", "'a2", "'a2b", "'aba")
	check := func(text string) error {
		g := newGram("R: "+text+" ; T: a", nil)
		line := g.root.lines[0]
		var lines []trees.Line
		var oks []bool
		amounts := make([]int, len(line))
		for {
			list := []trees.Element{}
			want := true
			for i, n := range amounts {
				want = want && line[i].accepts(n)
				if n > 0 {
					e := handElement(line[i], n)
					list = append(list, e)
					c.Step(1)
					if ok := e.IsSuccessful(); line[i].kind != gCompose && ok != line[i].accepts(n) {
						return fmt.Errorf("the element of %d contents of %s is successful: %t", n, strings.Fields(text)[i], ok)
					}
				}
			}
			b := trees.NewLineBuilder().Create().WithIndex(0).WithGrammar(g.root.rlines[0])
			if len(list) > 0 {
				es, err := trees.NewElementsBuilder().Create().WithList(list).Now()
				mustOK(err)
				b.WithElements(es)
			}
			l, err := b.Now()
			if err != nil {
				return err
			}
			c.Step(1)
			c.Exec()
			if len(list) == 0 {
				want = false // a line without elements holds nothing
			}
			if l.IsSuccessful() != want {
				return fmt.Errorf("the line %s with the amounts %v is successful: %t", text, amounts, !want)
			}
			lines, oks = append(lines, l), append(oks, want)
			i := 0
			for i < len(amounts) {
				amounts[i]++
				if amounts[i] <= max {
					break
				}
				amounts[i] = 0
				i++
			}
			if i == len(amounts) {
				break
			}
		}
		// the blocks: the successful line is the first one
		n := len(lines)
		if n > 25 {
			n = 25
		}
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				for d := 0; d < 3; d++ {
					idx := []int{a, b, (a + 3*b + d) % n}[:1+d]
					three := []trees.Line{}
					var want trees.Line
					for _, i := range idx {
						three = append(three, lines[i])
						if oks[i] && want == nil {
							want = lines[i]
						}
					}
					blk, err := trees.NewBlockBuilder().Create().WithLines(three).Now()
					if err != nil {
						return err
					}
					c.Step(1)
					if blk.HasSuccessful() != (want != nil) || (want != nil && blk.Successful() != want) {
						return fmt.Errorf("the block of the lines %v of %s has the successful line %v", idx, text, blk.Successful())
					}
				}
			}
		}
		c.State(text)
		return nil
	}
	for _, one := range conts {
		one := one
		c.Do(func() string { return "lines that begin with " + one }, func() error {
			if err := check(one); err != nil {
				return err
			}
			for _, two := range conts {
				if err := check(one + " " + two); err != nil {
					return err
				}
				if !c.thorough() && !strings.HasPrefix(two, "'") && len(two) > 2 {
					continue
				}
				for _, three := range []string{"a", "b?", "T{2}", "'ab"} {
					if err := check(one + " " + two + " " + three); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
}
