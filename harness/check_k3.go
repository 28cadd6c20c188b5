package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)

func init() {
	register("K03", "each node of the tree is the one of the definition, whatever is done with the tree or its blocks later", checkK03)
	register("K04", "the blocks come back in the order of the tree, each as many times as given, or an error is returned", checkK04)
	register("K05", "different commits have different hashes, the same parts the same hash; the score is the one of the definition", checkK05)
}

func blockAlphabet() [][]byte {
	return [][]byte{[]byte("a"), {}, []byte("b"), sum("x"), sum("a"), append(sum("y"), 7), sum("z")[:63]}
}

// blocksOf returns blocks with memory that can be watched: each block and the slice have room after their end
type watched struct {
	list   [][]byte
	all    [][]byte
	copies [][]byte
	canary []byte
}

func watch(blocks [][]byte) *watched {
	w := &watched{canary: []byte("canary")}
	w.all = make([][]byte, len(blocks)+3)
	for i, b := range blocks {
		room := append(append(make([]byte, 0, len(b)+8), b...), 0xaa, 0xaa)
		w.all[i] = room[:len(b)]
		w.copies = append(w.copies, append([]byte{}, room...))
	}
	for i := len(blocks); i < len(w.all); i++ {
		w.all[i] = w.canary
	}
	w.list = w.all[:len(blocks)]
	return w
}

func (w *watched) unchanged() error {
	for i, c := range w.copies {
		b := w.all[i]
		if len(b) != len(c)-2 || !bytes.Equal(b[:len(c)], c) {
			return fmt.Errorf("the given block %d was modified: %x, then %x", i, c[:len(c)-2], b)
		}
	}
	for i := len(w.copies); i < len(w.all); i++ {
		if len(w.all[i]) != 6 || &w.all[i][0] != &w.canary[0] {
			return fmt.Errorf("the slice of blocks was written after its end")
		}
	}
	return nil
}

func (w *watched) spoil() {
	for i := range w.copies {
		b := w.all[i][:len(w.copies[i])]
		for j := range b {
			b[j] ^= 0x33
		}
	}
	for i := range w.list {
		w.list[i] = []byte("spoiled")
	}
}

func describeBlocks(blocks [][]byte) string {
	out := []string{}
	for _, b := range blocks {
		if len(b) > 8 {
			out = append(out, fmt.Sprintf("%d:%x…", len(b), b[:4]))
			continue
		}
		out = append(out, fmt.Sprintf("%q", b))
	}
	if len(out) > 40 {
		return fmt.Sprintf("%d blocks: %s…", len(out), strings.Join(out[:40], " "))
	}
	return "[" + strings.Join(out, " ") + "]"
}

// treeOps are the operations on a tree, none changes it
var treeOpNames = []string{"ToContent", "ToLength", "ToCompact", "merge the leaves", "ToOrder", "decode", "leaves of the sides"}

func treeOp(op int, tree hashtrees.HashTree, blocks [][]byte) error {
	adapter := hashtrees.NewAdapter()
	leaves := 2
	for leaves < len(blocks) {
		leaves *= 2
	}
	switch op {
	case 0:
		b, err := adapter.ToContent(tree)
		if err != nil {
			return fmt.Errorf("ToContent: %v", err)
		}
		for i := range b {
			b[i] ^= 0xff
		}
	case 1:
		p, err := adapter.ToLength(tree)
		if err != nil {
			return fmt.Errorf("ToLength: %v", err)
		}
		if *p != uint(leaves) {
			return fmt.Errorf("ToLength returns %d, the tree has %d leaves", *p, leaves)
		}
		*p = 0
	case 2:
		compact, err := adapter.ToCompact(tree)
		if err != nil {
			return fmt.Errorf("ToCompact: %v", err)
		}
		if err := verifyCompact(compact, tree, blocks); err != nil {
			return err
		}
		compact.Leaves().Merge(compact.Leaves())
		list := compact.Leaves().Leaves()
		for i := range list {
			list[i] = nil
		}
	case 3:
		leafAdapter := hashtrees.NewLeafAdapter()
		l, err := leafAdapter.ParentLeafToLeaves(tree.Parent())
		if err != nil {
			return fmt.Errorf("ParentLeafToLeaves: %v", err)
		}
		r, err := leafAdapter.LeafToLeaves(tree.Parent().Right())
		if err != nil {
			return fmt.Errorf("LeafToLeaves: %v", err)
		}
		n := len(l.Leaves())
		m := l.Merge(r)
		if len(m.Leaves()) != n+leaves/2 {
			return fmt.Errorf("%d leaves merged with %d give %d", n, leaves/2, len(m.Leaves()))
		}
	case 4:
		given := [][]byte{}
		for i := range blocks {
			given = append(given, blocks[len(blocks)-1-i])
		}
		if _, err := adapter.ToOrder(tree, given); err != nil {
			return fmt.Errorf("ToOrder: %v", err)
		}
	case 5:
		b, err := adapter.ToContent(tree)
		if err != nil {
			return fmt.Errorf("ToContent: %v", err)
		}
		again, err := adapter.ToHashTree(b)
		if err != nil {
			return fmt.Errorf("ToHashTree: %v", err)
		}
		if err := verifyTree(again, blocks); err != nil {
			return fmt.Errorf("the decoded tree: %v", err)
		}
		for i := range b {
			b[i] ^= 0xff
		}
		if err := verifyTree(again, blocks); err != nil {
			return fmt.Errorf("the decoded tree, after its bytes changed: %v", err)
		}
	case 6:
		leafAdapter := hashtrees.NewLeafAdapter()
		l, err := leafAdapter.LeafToLeaves(tree.Parent().Left())
		if err != nil {
			return fmt.Errorf("LeafToLeaves: %v", err)
		}
		r, err := leafAdapter.LeafToLeaves(tree.Parent().Right())
		if err != nil {
			return fmt.Errorf("LeafToLeaves: %v", err)
		}
		all := append(l.Leaves(), r.Leaves()...)
		again, err := hashtrees.NewLeavesAdapter().ToHashTree(mkLeaves(all...))
		if err != nil {
			return fmt.Errorf("ToHashTree of the leaves: %v", err)
		}
		if err := verifyTree(again, blocks); err != nil {
			return fmt.Errorf("the tree of the leaves: %v", err)
		}
		if all[0].Height() != 0 {
			return fmt.Errorf("the height of a leaf is %d", all[0].Height())
		}
	}
	return nil
}

func verifyCompact(compact hashtrees.Compact, tree hashtrees.HashTree, blocks [][]byte) error {
	hashes := [][]byte{}
	for _, b := range blocks {
		hashes = append(hashes, leafHash(b))
	}
	expected := merkle(hashes)[0]
	if !bytes.Equal(compact.Head(), tree.Head()) {
		return fmt.Errorf("the head of the compact tree is %x, the one of the tree is %x", []byte(compact.Head())[:4], []byte(tree.Head())[:4])
	}
	list := compact.Leaves().Leaves()
	if len(list) != len(expected) || compact.Length() != uint(len(expected)) {
		return fmt.Errorf("the compact tree has %d leaves (length %d), the tree has %d", len(list), compact.Length(), len(expected))
	}
	for i := range list {
		if !bytes.Equal(list[i].Head(), expected[i]) {
			return fmt.Errorf("the leaf %d of the compact tree is %x, expected %x", i, []byte(list[i].Head())[:4], expected[i][:4])
		}
	}
	return nil
}

func treeCase(c *C, blocks [][]byte, ops []int) error {
	w := watch(blocks)
	builder := hashtrees.NewBuilder().Create().WithBlocks(w.list)
	tree, err := builder.Now()
	if len(blocks) == 0 {
		if err == nil {
			return fmt.Errorf("a tree is built without block")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("the tree cannot be built: %v", err)
	}
	if err := w.unchanged(); err != nil {
		return err
	}
	if err := verifyTree(tree, blocks); err != nil {
		return err
	}
	second, err := builder.Now()
	if err != nil {
		return fmt.Errorf("the tree cannot be built a second time: %v", err)
	}
	if err := w.unchanged(); err != nil {
		return err
	}
	w.spoil()
	if err := verifyTree(tree, blocks); err != nil {
		return fmt.Errorf("after the caller changed its blocks: %v", err)
	}
	if err := verifyTree(second, blocks); err != nil {
		return fmt.Errorf("the tree that was built a second time: %v", err)
	}
	for i, op := range ops {
		if err := treeOp(op, tree, blocks); err != nil {
			return fmt.Errorf("operation %d (%s): %v", i, treeOpNames[op], err)
		}
		if err := verifyTree(tree, blocks); err != nil {
			return fmt.Errorf("after the operation %d (%s): %v", i, treeOpNames[op], err)
		}
		c.Step(1)
	}
	c.State([]byte(tree.Head()))
	c.Step(2)
	return nil
}

func checkK03(c *C) {
	alphabet := blockAlphabet()
	pick := func(seq []int) [][]byte {
		out := [][]byte{}
		for _, s := range seq {
			out = append(out, alphabet[s])
		}
		return out
	}
	allOps := []int{0, 1, 2, 3, 4, 5, 6}

	c.Group("no block", 0.1)
	c.Do(func() string { return "no block" }, func() error {
		for i, blocks := range [][][]byte{nil, {}, make([][]byte, 0, 5)} {
			if _, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now(); err == nil {
				return fmt.Errorf("a tree is built without block (%d)", i)
			}
		}
		if _, err := hashtrees.NewBuilder().Create().Now(); err == nil {
			return fmt.Errorf("a tree is built without anything")
		}
		return nil
	})

	c.Group("lists of blocks", 0.4)
	for n := 1; n <= c.B("blocks", 6, 7); n++ {
		sequences(len(alphabet), n, func(seq []int) bool {
			c.Do(func() string { return describeBlocks(pick(seq)) }, func() error { return treeCase(c, pick(seq), allOps) })
			return !c.Over()
		})
	}

	c.Group("sequences of operations", 0.4)
	for _, blocks := range [][]int{{0}, {0, 2}, {0, 1, 2}, {0, 0, 3, 1, 2}} {
		for n := 1; n <= c.B("operations", 5, 6); n++ {
			sequences(len(treeOpNames), n, func(ops []int) bool {
				c.Do(func() string { return fmt.Sprintf("%s, operations %v", describeBlocks(pick(blocks)), ops) },
					func() error { return treeCase(c, pick(blocks), ops) })
				return !c.Over()
			})
		}
	}

	c.Group("a builder used again", 0.3)
	for n := 1; n <= c.B("builder_blocks", 4, 5); n++ {
		sequences(4, n, func(a []int) bool {
			for m := 0; m <= 3; m++ {
				sequences(4, m, func(b []int) bool {
					c.Do(func() string { return fmt.Sprintf("%v then %v with the same builder", a, b) }, func() error {
						builder := hashtrees.NewBuilder()
						first, err := builder.Create().WithBlocks(pick(a)).Now()
						if err != nil {
							return err
						}
						second, err := builder.Create().WithBlocks(pick(b)).Now()
						if m == 0 && err == nil {
							return fmt.Errorf("a tree is built without block, by a builder that was used before")
						}
						if m > 0 {
							if err != nil {
								return err
							}
							if err := verifyTree(second, pick(b)); err != nil {
								return fmt.Errorf("the second tree: %v", err)
							}
						}
						c.Step(2)
						return verifyTree(first, pick(a))
					})
					return !c.Over()
				})
			}
			return !c.Over()
		})
	}

	c.Group("blocks that are almost equal", 0.2)
	for at := 0; at < 64; at++ {
		for _, mask := range []byte{0x01, 0x80, 0x20, 0xff} {
			at, mask := at, mask
			for i, blocks := range nearBlocks(at, mask) {
				i, blocks := i, blocks
				c.Do(func() string { return fmt.Sprintf("the list %d, of the byte %d changed by %x", i, at, mask) }, func() error { return treeCase(c, blocks, allOps) })
			}
		}
	}

	c.Group("amounts of blocks", 1)
	counts := []int{}
	for n := 1; n <= c.B("block_amount", 600, 1100); n++ {
		counts = append(counts, n)
	}
	for p := 512; p <= c.B("block_amount_power", 16384, 65536); p *= 2 {
		counts = append(counts, p-1, p, p+1, p+p/2)
	}
	for _, n := range counts {
		for kind := 0; kind < 5; kind++ {
			n, kind := n, kind
			c.Do(func() string { return fmt.Sprintf("%d blocks of kind %d", n, kind) }, func() error {
				blocks := [][]byte{}
				for i := 0; i < n; i++ {
					switch kind {
					case 0:
						blocks = append(blocks, []byte(fmt.Sprint(i)))
					case 1:
						blocks = append(blocks, []byte("same"))
					case 2:
						blocks = append(blocks, []byte{})
					case 3:
						blocks = append(blocks, sum(fmt.Sprint(i)))
					case 4:
						blocks = append(blocks, fill(i, i%131))
					}
				}
				return treeCase(c, blocks, []int{2, 1, 5})
			})
		}
	}
}

// orderCase verifies a re-ordering
func orderCase(c *C, blocks [][]byte, given [][]byte) error {
	tree, err := hashtrees.NewBuilder().Create().WithBlocks(append([][]byte{}, blocks...)).Now()
	if err != nil {
		return fmt.Errorf("the tree cannot be built: %v", err)
	}
	w := watch(given)
	got, err := hashtrees.NewAdapter().ToOrder(tree, w.list)
	if e := w.unchanged(); e != nil {
		return e
	}
	if e := verifyTree(tree, blocks); e != nil {
		return fmt.Errorf("the tree changed: %v", e)
	}
	c.Step(1)

	hashes := []string{}
	for _, b := range blocks {
		hashes = append(hashes, string(leafHash(b)))
	}
	has := map[string]int{} // times that it can be given
	for _, h := range hashes {
		has[h]++
	}
	padded := 2
	for padded < len(blocks) {
		padded *= 2
	}
	empty := string(leafHash(nil))
	valid, unclear := true, false
	count := map[string]int{}
	for _, g := range given {
		h := string(leafHash(g))
		count[h]++
		if count[h] > has[h] {
			// the leaves that fill the tree are empty blocks too
			if h == empty && count[h] <= has[h]+padded-len(blocks) {
				unclear = true
				continue
			}
			valid = false
		}
	}
	c.State(fmt.Sprint(valid, err == nil), describeBlocks(got), len(blocks))
	if !valid {
		if err == nil {
			return fmt.Errorf("some block is not in the tree, or given more often, but the result is %s", describeBlocks(got))
		}
		return nil
	}
	if err != nil {
		if unclear {
			return nil
		}
		return fmt.Errorf("the given blocks are those of the tree, but there is an error: %v", err)
	}

	// the same blocks
	bag := map[string]int{}
	for _, g := range given {
		bag[string(g)]++
	}
	for _, g := range got {
		bag[string(g)]--
	}
	for b, n := range bag {
		if n != 0 {
			return fmt.Errorf("the result %s has the block %s %d times more or less than given", describeBlocks(got), describeBlocks([][]byte{[]byte(b)}), n)
		}
	}
	// in the order of the tree (a subsequence of its leaves)
	all := append([]string{}, hashes...)
	for len(all) < padded {
		all = append(all, empty)
	}
	at := 0
	for i, g := range got {
		h := string(leafHash(g))
		for at < len(all) && all[at] != h {
			at++
		}
		if at >= len(all) {
			return fmt.Errorf("the result %s is not in the order of the tree (%d)", describeBlocks(got), i)
		}
		at++
	}
	// everything was given: exactly the original, unless two different blocks have the same hash
	if len(given) == len(blocks) && !unclear {
		for i := range got {
			if string(leafHash(got[i])) != hashes[i] {
				return fmt.Errorf("the result is %s, the original is %s", describeBlocks(got), describeBlocks(blocks))
			}
		}
	}
	return nil
}

func checkK04(c *C) {
	alphabet := [][]byte{[]byte("a"), {}, []byte("b"), sum("x"), []byte("outside")}
	pick := func(seq []int) [][]byte {
		out := [][]byte{}
		for _, s := range seq {
			out = append(out, alphabet[s])
		}
		return out
	}
	c.Group("all lists against all trees", 0.7)
	most := c.B("tree_blocks", 4, 5)
	for n := 1; n <= most; n++ {
		sequences(4, n, func(blocks []int) bool {
			for m := 0; m <= n+1 && m <= most; m++ {
				m := m
				c.Do(func() string { return fmt.Sprintf("the tree of %v, all lists of %d blocks", blocks, m) }, func() (err error) {
					sequences(5, m, func(given []int) bool {
						err = orderCase(c, pick(blocks), pick(given))
						c.Exec()
						if err != nil {
							err = fmt.Errorf("given %s: %v", describeBlocks(pick(given)), err)
						}
						return err == nil
					})
					return err
				})
			}
			return !c.Over()
		})
	}

	c.Group("all permutations", 0.6)
	for n := 1; n <= c.B("permuted_blocks", 8, 9); n++ {
		for kind := 0; kind < 4; kind++ {
			blocks := [][]byte{}
			for i := 0; i < n; i++ {
				switch kind {
				case 0:
					blocks = append(blocks, []byte(fmt.Sprint(i)))
				case 1:
					blocks = append(blocks, []byte(fmt.Sprint(i%3)))
				case 2:
					blocks = append(blocks, fill(i%4, (i%4)*21))
				case 3:
					blocks = append(blocks, sum(fmt.Sprint(i/2)))
				}
			}
			kind := kind
			c.Do(func() string { return fmt.Sprintf("all permutations of %s (kind %d)", describeBlocks(blocks), kind) }, func() (err error) {
				permutations(n, func(p []int) bool {
					given := [][]byte{}
					for _, i := range p {
						given = append(given, blocks[i])
					}
					err = orderCase(c, blocks, given)
					c.Exec()
					if err != nil {
						err = fmt.Errorf("given %s: %v", describeBlocks(given), err)
					}
					return err == nil
				})
				return err
			})
		}
	}

	c.Group("blocks that are almost equal", 0.4)
	for at := 0; at < 64; at++ {
		for _, mask := range []byte{0x01, 0x80, 0x20, 0xff} {
			at, mask := at, mask
			for i, blocks := range nearBlocks(at, mask) {
				i, blocks := i, blocks
				n := len(blocks)
				c.Do(func() string {
					return fmt.Sprintf("all lists of the blocks of the list %d, of the byte %d changed by %x", i, at, mask)
				}, func() (err error) {
					// the last symbol is a block that is not in the tree, and almost equal to the first one
					outside := flipped(append([]byte{}, append(blocks[0], 0)...), at%len(append(blocks[0], 0)), mask)
					for m := 1; m <= n && m <= 3; m++ {
						sequences(n+1, m, func(seq []int) bool {
							given := [][]byte{}
							for _, s := range seq {
								if s == n {
									given = append(given, outside)
									continue
								}
								given = append(given, blocks[s])
							}
							err = orderCase(c, blocks, given)
							c.Exec()
							if err != nil {
								err = fmt.Errorf("given %v: %v", seq, err)
							}
							return err == nil
						})
						if err != nil {
							return err
						}
					}
					permutations(n, func(p []int) bool {
						given := [][]byte{}
						for _, i := range p {
							given = append(given, blocks[i])
						}
						err = orderCase(c, blocks, given)
						c.Exec()
						return err == nil
					})
					return err
				})
			}
		}
	}

	c.Group("large lists, all alterations", 1)
	counts := []int{8, 9, 15, 16, 17, 31, 33, 64, 65, 100}
	for _, n := range counts {
		if n > c.B("large_blocks", 65, 129) {
			continue
		}
		for kind := 0; kind < 3; kind++ {
			blocks := [][]byte{}
			for i := 0; i < n; i++ {
				switch kind {
				case 0:
					blocks = append(blocks, []byte(fmt.Sprint(i)))
				case 1:
					blocks = append(blocks, fill(i%5, i%5))
				case 2:
					blocks = append(blocks, sum(fmt.Sprint(i)))
				}
			}
			shuffled := [][]byte{}
			for i := range blocks {
				shuffled = append(shuffled, blocks[(i*7+3)%n])
			}
			if n%7 == 0 {
				continue
			}
			for i := 0; i < n; i++ {
				i, kind, n := i, kind, n
				c.Do(func() string { return fmt.Sprintf("%d blocks of kind %d, altered at %d", n, kind, i) }, func() error {
					for j := 0; j < n; j++ {
						swapped := append([][]byte{}, blocks...)
						swapped[i], swapped[j] = swapped[j], swapped[i]
						twice := append([][]byte{}, shuffled...)
						twice[i] = twice[j]
						more := append(append([][]byte{}, shuffled...), shuffled[j])
						without := append(append([][]byte{}, shuffled[:i]...), shuffled[i+1:]...)
						for k, given := range [][][]byte{swapped, twice, more, without} {
							if err := orderCase(c, blocks, given); err != nil {
								return fmt.Errorf("alteration %d with %d: %v", k, j, err)
							}
							c.Exec()
						}
					}
					return nil
				})
			}
		}
	}
}

func permutations(n int, fn func(p []int) bool) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			return fn(p)
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			if !rec(k + 1) {
				return false
			}
			p[k], p[i] = p[i], p[k]
		}
		return true
	}
	rec(0)
}

// mCommit is a commit of the domain
type mCommit struct {
	name   string
	tree   int
	time   int64
	parent []byte
	proof  *big.Int
}

func checkK05(c *C) {
	treeBlocks := [][][]byte{{[]byte("a")}, {[]byte("b")}, {[]byte("a"), []byte("b")}, {[]byte("a"), {}, []byte("b")}, {[]byte("b"), []byte("a")}}
	trees := []hashtrees.HashTree{}
	for _, b := range treeBlocks {
		trees = append(trees, mkTree(b...))
	}
	p, q := sum("P"), sum("Q")
	// the second 64 bytes of these are special: an empty end, the digits of a time, a zero
	zero := make([]byte, 64)
	digits := bytes.Repeat([]byte("1"), 64)
	parents := []struct {
		name string
		b    []byte
	}{{"-", nil}, {"P", p}, {"Q", q}, {"zero", zero}, {"digits", digits}}
	proofsOf := []struct {
		name string
		v    *big.Int
	}{{"-", nil}, {"0", big.NewInt(0)}, {"1", big.NewInt(1)}, {"2", big.NewInt(2)}, {"0x32", big.NewInt(0x32)}, {"255", big.NewInt(255)},
		{"256", big.NewInt(256)}, {"0x3132", big.NewInt(0x3132)}, {"2^64", new(big.Int).Lsh(big.NewInt(1), 64)},
		{"2^64+1", new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))},
		{"P", new(big.Int).SetBytes(p)}, {"Q", new(big.Int).SetBytes(q)}, {"P||Q", new(big.Int).SetBytes(append(append([]byte{}, p...), q...))},
		{"2^512", new(big.Int).Lsh(big.NewInt(1), 512)}}
	times := []int64{0, 1, 12, 2, 10, 100, -1, -12, 1000000000, 1000000001, 1670000000123456789, 1670000000123456788, 1670000001123456789, 1<<63 - 1, -1 << 63}
	if c.thorough() {
		for i := int64(20001); i < 20130; i++ {
			times = append(times, i)
		}
		for i := uint(8); i < 62; i++ {
			times = append(times, 1<<i)
		}
	}

	domain := func(tree int, all bool) []mCommit {
		out := []mCommit{}
		for ti := range trees {
			if !all && ti != tree {
				continue
			}
			for _, t := range times {
				for _, pa := range parents {
					for _, pr := range proofsOf {
						out = append(out, mCommit{fmt.Sprintf("{tree=%d,time=%d,parent=%s,proof=%s}", ti, t, pa.name, pr.name), ti, t, pa.b, pr.v})
					}
				}
			}
		}
		return out
	}
	build := func(m mCommit) references.Commit {
		return mkCommit(trees[m.tree], time.Unix(0, m.time), m.parent, m.proof)
	}

	// pairs
	c.Group("pairs of commits", 0.6)
	everything := domain(0, true)
	byHash := map[string][]int{}
	for i, m := range everything {
		h := string(build(m).Hash())
		byHash[h] = append(byHash[h], i)
	}
	for i := range everything {
		i := i
		m := everything[i]
		h := string(build(m).Hash())
		others := byHash[h]
		for _, j := range others {
			if j <= i {
				continue
			}
			j := j
			c.Do(func() string { return m.name + " and " + everything[j].name }, func() error {
				a, b := build(m), build(everything[j])
				c.Step(2)
				if bytes.Equal(a.Hash(), b.Hash()) {
					return keyed(pairKey(m, everything[j]), "the commits %s and %s have the same hash", m.name, everything[j].name)
				}
				return nil
			})
		}
		c.Do(func() string { return m.name + " and the others" }, func() error {
			a := build(m)
			if string(a.Hash()) != h {
				return fmt.Errorf("the commit %s has the hash %x, then %x", m.name, h[:4], []byte(a.Hash())[:4])
			}
			if len(a.Hash()) != 64 {
				return fmt.Errorf("the hash of the commit has %d bytes", len(a.Hash()))
			}
			c.State(h)
			c.Step(len(everything) - 1)
			return nil
		})
	}

	// commits that are almost equal
	c.Group("commits that are almost equal", 0.3)
	parts := []struct {
		name   string
		places int
		of     func(at int, mask byte) references.Commit
	}{
		{"the parent", 64, func(at int, mask byte) references.Commit {
			return mkCommit(trees[0], time.Unix(0, 5), flipped(p, at, mask), nil)
		}},
		{"the parent of a commit with a proof", 64, func(at int, mask byte) references.Commit {
			return mkCommit(trees[0], time.Unix(0, 5), flipped(p, at, mask), big.NewInt(7))
		}},
		{"the time", 8, func(at int, mask byte) references.Commit {
			return mkCommit(trees[0], time.Unix(0, int64(1670000000123456789)^int64(mask)<<(8*uint(at))), p, nil)
		}},
		{"the time of a first commit", 8, func(at int, mask byte) references.Commit {
			return mkCommit(trees[2], time.Unix(0, int64(1670000000123456789)^int64(mask)<<(8*uint(at))), nil, nil)
		}},
		{"the proof", 64, func(at int, mask byte) references.Commit {
			return mkCommit(trees[0], time.Unix(0, 5), p, new(big.Int).SetBytes(flipped(append([]byte{}, q...), at, mask)))
		}},
		{"a long proof", 200, func(at int, mask byte) references.Commit {
			return mkCommit(trees[0], time.Unix(0, 5), nil, new(big.Int).SetBytes(flipped(append([]byte{1}, fill(3, 199)...), at, mask)))
		}},
		{"the values", 64, func(at int, mask byte) references.Commit {
			return mkCommit(mkTree(flipped(p, at, mask), q), time.Unix(0, 5), q, nil)
		}},
		{"the second value", 64, func(at int, mask byte) references.Commit {
			return mkCommit(mkTree(p, flipped(q, at, mask), p), time.Unix(0, 5), nil, big.NewInt(1))
		}},
	}
	for _, part := range parts {
		part := part
		c.Do(func() string { return part.name + ", where each bit is changed" }, func() error {
			seen := map[string]string{}
			for at := 0; at < part.places; at++ {
				for bit := uint(0); bit <= 8; bit++ {
					name := fmt.Sprintf("the one where the byte %d is changed by %x", at, 1<<bit&0xff)
					if bit == 8 {
						if at > 0 {
							continue
						}
						name = "the original"
					}
					commit := part.of(at, byte(1<<bit&0xff))
					h := string(commit.Hash())
					if other, ok := seen[h]; ok {
						return fmt.Errorf("%s has the same hash as %s", name, other)
					}
					seen[h] = name
					c.State(h)
					c.Step(1)
				}
			}
			return nil
		})
	}

	// the same parts, however they were put together
	c.Group("the same parts", 0.4)
	for i := range domain(0, true) {
		m := everything[i]
		if !c.thorough() && i%7 != 0 && m.tree != 0 {
			continue
		}
		c.Do(func() string { return m.name + " built in each way" }, func() error {
			want := build(m)
			adapter := references.NewCommitAdapter(kMining)
			for w := 0; w < 6; w++ {
				var got references.Commit
				b := references.NewCommitBuilder(kMining)
				if w == 1 { // a builder that was used for another commit
					_, err := b.Create().WithValues(trees[1]).CreatedOn(time.Unix(7, 7)).WithParent(toHash(hashX)).WithProof(big.NewInt(99)).Now()
					must(err)
				}
				b = b.Create()
				values, created := trees[m.tree], time.Unix(0, m.time)
				switch w {
				case 2:
					created = created.In(time.FixedZone("z", -3600*7))
				case 3:
					created = created.UTC()
					values = mkTree(treeBlocks[m.tree]...)
				case 4: // the other order
					if m.proof != nil {
						b = b.WithProof(new(big.Int).Set(m.proof))
					}
					if m.parent != nil {
						b = b.WithParent(toHash(m.parent))
					}
				}
				b = b.WithValues(values).CreatedOn(created)
				if w != 4 {
					if m.parent != nil {
						b = b.WithParent(toHash(m.parent))
					}
					if m.proof != nil {
						b = b.WithProof(new(big.Int).Set(m.proof))
					}
				}
				got, err := b.Now()
				if err != nil {
					return err
				}
				if w == 5 {
					content, err := adapter.ToContent(got)
					if err != nil {
						return err
					}
					got, err = adapter.ToCommit(content)
					if err != nil {
						return err
					}
				}
				if !bytes.Equal(got.Hash(), want.Hash()) {
					return fmt.Errorf("built in the way %d, the hash is %x instead of %x", w, []byte(got.Hash())[:4], []byte(want.Hash())[:4])
				}
				// nothing is lost or mixed
				if !bytes.Equal(got.Values().Head(), trees[m.tree].Head()) || got.CreatedOn().UnixNano() != m.time || got.HasParent() != (m.parent != nil) ||
					got.HasMine() != (m.proof != nil) {
					return fmt.Errorf("built in the way %d, the parts of the commit are not those given: %s", w, dumpCommit(got))
				}
				if m.parent != nil && !bytes.Equal(*got.Parent(), m.parent) {
					return fmt.Errorf("built in the way %d, the parent is %x", w, []byte(*got.Parent()))
				}
				if m.proof != nil {
					if got.Mine().Proof().Cmp(m.proof) != 0 {
						return fmt.Errorf("built in the way %d, the proof is %v", w, got.Mine().Proof())
					}
					if err := verifyMine(got, kMining); err != nil {
						return fmt.Errorf("built in the way %d: %v", w, err)
					}
				}
				c.Exec()
				c.Step(1)
			}
			return nil
		})
	}

	// what is mandatory
	c.Group("mandatory parts", 0.3)
	for mask := 0; mask < 16; mask++ {
		for _, used := range []bool{false, true} {
			mask, used := mask, used
			c.Do(func() string { return fmt.Sprintf("parts %04b, builder used before: %v", mask, used) }, func() error {
				b := references.NewCommitBuilder(kMining)
				if used {
					_, err := b.Create().WithValues(trees[1]).CreatedOn(time.Unix(7, 7)).WithParent(toHash(hashX)).WithProof(big.NewInt(99)).Now()
					must(err)
					x := b.Create().WithValues(trees[1]).CreatedOn(time.Unix(7, 7)).WithParent(toHash(hashX)).WithProof(big.NewInt(99))
					_, err = x.Now()
					must(err)
					b = x
				}
				b = b.Create()
				if mask&1 > 0 {
					b = b.WithValues(trees[0])
				}
				if mask&2 > 0 {
					b = b.CreatedOn(time.Unix(0, 5))
				}
				if mask&4 > 0 {
					b = b.WithParent(toHash(p))
				}
				if mask&8 > 0 {
					b = b.WithProof(big.NewInt(3))
				}
				got, err := b.Now()
				c.Step(1)
				if mask&3 != 3 {
					if err == nil {
						return fmt.Errorf("a commit without its mandatory parts is built")
					}
					return nil
				}
				if err != nil {
					return err
				}
				if got.HasParent() != (mask&4 > 0) || got.HasMine() != (mask&8 > 0) {
					return fmt.Errorf("the commit has other parts than given")
				}
				return nil
			})
		}
	}

	// scores
	c.Group("scores", 1)
	for from := 0; from < c.B("proofs", 100000, 400000); from += 100 {
		from := from
		c.Do(func() string { return fmt.Sprintf("the scores of the proofs %d to %d", from, from+99) }, func() error {
			for v := from; v < from+100; v++ {
				proof := big.NewInt(int64(v))
				if v == 0 {
					proof = big.NewInt(1 << 50)
				}
				parent := [][]byte{nil, p}[v%2]
				one := mkCommitMining(0, trees[v%3], time.Unix(0, int64(v/7)), parent, proof)
				first := one.Mine().Result()
				for _, mining := range []byte{0, 255, '0', first[0], first[1], first[0] + 1} {
					got := mkCommitMining(mining, trees[v%3], time.Unix(0, int64(v/7)), parent, proof)
					if !bytes.Equal(got.Hash(), one.Hash()) {
						return fmt.Errorf("the hash changes with the mining value")
					}
					if err := verifyMine(got, mining); err != nil {
						return fmt.Errorf("the proof %d, mining value %d: %v", v, mining, err)
					}
					c.State("score", int(got.Mine().Score()))
					c.Exec()
					c.Step(1)
				}
			}
			return nil
		})
	}
}

// pairKey names a pair of commits; the tree and the time are left out when both have the same
func pairKey(a mCommit, b mCommit) string {
	name := func(m mCommit) string {
		parts := strings.Split(strings.Trim(m.name, "{}"), ",")
		out := []string{}
		if a.tree != b.tree {
			out = append(out, parts[0])
		}
		if a.time != b.time {
			out = append(out, parts[1])
		}
		return "{" + strings.Join(append(out, parts[2:]...), ",") + "}"
	}
	return name(a) + "~" + name(b)
}

// verifyMine compares the result and the score with their definition; a value of 64 bytes is its own hash (proof of zero)
func verifyMine(commit references.Commit, mining byte) error {
	m := commit.Mine()
	want := leafHash(append(append([]byte{}, commit.Hash()...), m.Proof().Bytes()...))
	if !bytes.Equal(m.Result(), want) {
		return fmt.Errorf("the result is %x, the hash of the commit and the proof is %x", []byte(m.Result())[:4], want[:4])
	}
	score := uint(0)
	for score < 64 && want[score] == mining {
		score++
	}
	if m.Score() != score {
		return fmt.Errorf("the score of the result %x is %d, expected %d", want[:4], m.Score(), score)
	}
	return nil
}
