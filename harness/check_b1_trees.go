package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
)

// the builder of the hash trees: a tree is made of blocks, or of its head and its parent

type htState struct {
	blocks [][]byte
	head   *hash.Hash
	parent hashtrees.ParentLeaf
}

func (s htState) String() string {
	return fmt.Sprintf("blocks: %v, head: %t, parent: %t", s.blocks, s.head != nil, s.parent != nil)
}

func headOf(blocks [][]byte) []byte {
	leaves := [][]byte{}
	for _, b := range blocks {
		if len(b) != hash.Size {
			b = sum(string(b))
		}
		leaves = append(leaves, b)
	}
	for n := 2; len(leaves) < n || len(leaves)&(len(leaves)-1) != 0; {
		leaves = append(leaves, sum(""))
	}
	levels := merkle(leaves)
	return levels[len(levels)-1][0]
}

// htHolds verifies a tree against what was given to its builder
func htHolds(t hashtrees.HashTree, s htState, b02 bool) error {
	if !b02 {
		return nil
	}
	if s.head != nil && s.parent != nil && t.Head().Compare(*s.head) && t.Parent() == s.parent {
		return nil
	}
	if len(s.blocks) > 0 && bytes.Equal(t.Head(), headOf(s.blocks)) && t.Parent() != nil {
		return nil
	}
	return fmt.Errorf("the hash tree built with %v has the head %x, and is neither that of its blocks nor that of its head and parent", s, []byte(t.Head())[:4])
}

func checkHashTreeBuilder(c *C, b01 bool, b02 bool) {
	c.Group("the builder of the hash trees", 0.1)
	parts := []hashtrees.HashTree{}
	for _, blocks := range [][][]byte{{{4}, {5}}, {{6}, {7}, {8}}} {
		t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
		mustOK(err)
		parts = append(parts, t)
	}
	type op struct {
		name string
		run  func(b hashtrees.Builder, s *htState) hashtrees.Builder
	}
	ops := []op{}
	for i, blocks := range [][][]byte{nil, {}, {{1}, {2}, {3}}, {{9}}} {
		blocks := blocks
		ops = append(ops, op{fmt.Sprintf("blocks %d", i), func(b hashtrees.Builder, s *htState) hashtrees.Builder {
			s.blocks = blocks
			return b.WithBlocks(blocks)
		}})
	}
	for i, t := range parts {
		t := t
		ops = append(ops, op{fmt.Sprintf("head %d", i), func(b hashtrees.Builder, s *htState) hashtrees.Builder {
			h := t.Head()
			s.head = &h
			return b.WithHead(h)
		}}, op{fmt.Sprintf("parent %d", i), func(b hashtrees.Builder, s *htState) hashtrees.Builder {
			s.parent = t.Parent()
			return b.WithParent(t.Parent())
		}})
	}
	ops = append(ops, op{"parent nil", func(b hashtrees.Builder, s *htState) hashtrees.Builder {
		s.parent = nil
		return b.WithParent(nil)
	}}, op{"create", nil}, op{"back to the first builder", nil}, op{"now", nil})

	depth := c.B("operations_on_the_builder_of_hash_trees", 4, 5)
	for first := range ops {
		first := first
		c.Do(func() string {
			return fmt.Sprintf("the builder of hash trees: %s, then every sequence of %d operations", ops[first].name, depth-1)
		}, func() error {
			var failed error
			sequences(len(ops), depth-1, func(seq []int) bool {
				all := append([]int{first}, seq...)
				texts := []string{}
				type made struct {
					t hashtrees.HashTree
					s htState
				}
				done := []made{}
				builders := []hashtrees.Builder{hashtrees.NewBuilder().Create()}
				states := []*htState{{}}
				cur := 0
				now := func(k int) error {
					s := *states[k]
					t, err := builders[k].Now()
					complete := len(s.blocks) > 0 || (s.head != nil && s.parent != nil)
					if b01 && (err == nil) != complete {
						return fmt.Errorf("a hash tree with %v: error %v", s, err)
					}
					if err != nil {
						return nil
					}
					if b01 && t == nil {
						return fmt.Errorf("no error and no instance")
					}
					if !complete {
						return nil
					}
					done = append(done, made{t, s})
					return htHolds(t, s, b02)
				}
				run := func() error {
					for _, i := range all {
						o := ops[i]
						texts = append(texts, o.name)
						switch o.name {
						case "create":
							builders = append(builders, builders[cur].Create())
							states = append(states, &htState{})
							cur = len(builders) - 1
						case "back to the first builder":
							cur = 0
						case "now":
							if err := now(cur); err != nil {
								return err
							}
						default:
							b := o.run(builders[cur], states[cur])
							if i%2 == 0 {
								builders[cur] = b
							}
						}
					}
					for k := range builders {
						if err := now(k); err != nil {
							return fmt.Errorf("builder %d of %d: %w", k+1, len(builders), err)
						}
					}
					for _, d := range done {
						if err := htHolds(d.t, d.s, b02); err != nil {
							return fmt.Errorf("afterwards: %w", err)
						}
					}
					return nil
				}
				c.Step(len(all))
				c.Exec()
				if err := run(); err != nil {
					failed = fmt.Errorf("%s: %w", strings.Join(texts, "; "), err)
					return false
				}
				c.State("hash tree", fmt.Sprint(states), cur)
				return true
			})
			return failed
		})
	}
}
