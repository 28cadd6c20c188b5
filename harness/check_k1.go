package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)

func init() {
	register("K01", "decode(encode(x)) has the observable parts of x, and encodes to the same bytes", checkK01)
	register("K02", "each decoder returns an instance or an error for all bytes, an error if they are too short, and what it returns can be used", checkK02)
}

// roundTrip verifies a codec with an instance
func roundTrip(c *C, cd codec, ins interface{}) error {
	before := cd.dump(ins)
	b, err := cd.encode(ins)
	if err != nil {
		return fmt.Errorf("the %s cannot be converted to bytes: %v", cd.name, err)
	}
	if after := cd.dump(ins); after != before {
		return fmt.Errorf("the %s changed while it was converted to bytes: %s, then %s", cd.name, clip(before, 600), clip(after, 600))
	}
	kept := append([]byte{}, b...)
	got, err := cd.decode(b)
	if err != nil {
		return fmt.Errorf("the bytes of the %s cannot be converted back: %v", cd.name, err)
	}
	if !bytes.Equal(b, kept) {
		return fmt.Errorf("the bytes of the %s changed while they were converted", cd.name)
	}
	if d := cd.dump(got); d != before {
		return fmt.Errorf("the %s is not the same after a conversion: it was %s, it is %s", cd.name, clip(before, 1500), clip(d, 1500))
	}
	again, err := cd.encode(got)
	if err != nil {
		return fmt.Errorf("the decoded %s cannot be converted to bytes: %v", cd.name, err)
	}
	if !bytes.Equal(again, kept) {
		return fmt.Errorf("the decoded %s is converted to other bytes: %s, then %s", cd.name, brief(kept), brief(again))
	}
	c.State(kept)
	c.Step(4)
	return nil
}

func limitValues() []uint {
	seen := map[uint]bool{}
	out := []uint{}
	add := func(v uint) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for i := uint(0); i < 64; i++ {
		add(1<<i - 1)
		add(1 << i)
		add(1<<i + 1)
	}
	add(math.MaxUint64)
	add(math.MaxUint64 - 1)
	return out
}

func proofs() []*big.Int {
	out := []*big.Int{nil, big.NewInt(0)}
	for n := uint(0); n <= 520; n++ {
		if n > 72 && n%64 > 1 && n%64 < 63 && n < 510 {
			continue
		}
		one := new(big.Int).Lsh(big.NewInt(1), n)
		out = append(out, one, new(big.Int).Sub(one, big.NewInt(1)), new(big.Int).Add(one, big.NewInt(1)))
	}
	for n := 1; n <= 70; n++ {
		out = append(out, new(big.Int).SetBytes(append([]byte{1}, fill(n, n)...)))
	}
	for _, n := range []int{127, 128, 254, 255, 256, 257, 1000, 65535, 65536, 65537} {
		out = append(out, new(big.Int).SetBytes(append([]byte{1}, fill(n, n-1)...)))
	}
	// the bytes that separate the parts
	out = append(out, new(big.Int).SetBytes(append([]byte{1}, hashA...)), new(big.Int).SetBytes([]byte{1, 0, 0, 0, 0, 0, 0, 0, 0}))
	return out
}

func instants() []time.Time {
	out := []time.Time{}
	for _, n := range []int64{0, 1, -1, 999, 1000, 999999999, 1000000000, 1000000001, -999999999, -1000000000, 1670000000123456789, 1 << 31, 1<<31 - 1,
		1 << 32, 1<<53 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 0x0001000000000000, 0x3031323334353637} {
		out = append(out, time.Unix(0, n).UTC())
	}
	for i := uint(0); i < 63; i++ {
		out = append(out, time.Unix(0, 1<<i+int64(i)).UTC())
	}
	out = append(out, time.Unix(0, 1670000000123456789).In(time.FixedZone("x", 5*3600+1800)))
	return out
}

func checkK01(c *C) {
	cs := codecs()
	do := func(name string, ins func() interface{}) {
		c.Do(func() string { return name }, func() error {
			var v interface{}
			if err, _ := try(func() error { v = ins(); return nil }); err != nil {
				return err
			}
			parts := strings.SplitN(name, ":", 2)
			return roundTrip(c, cs[parts[0]], v)
		})
	}

	// hashes
	c.Group("hashes", 0.2)
	for pos := 0; pos < 64; pos++ {
		pos := pos
		c.Do(func() string {
			return fmt.Sprintf("hashes with each value of the byte %d, to and from their string", pos)
		}, func() error {
			for v := 0; v < 256; v++ {
				b := append([]byte{}, hashA...)
				b[pos] = byte(v)
				p, err := hashAdapter.FromBytes(b)
				if err != nil {
					return fmt.Errorf("FromBytes: %v", err)
				}
				if !bytes.Equal(*p, b) || !bytes.Equal(p.Bytes(), b) {
					return fmt.Errorf("the hash of 64 bytes %x is %x", b, []byte(*p))
				}
				back, err := hashAdapter.FromString(p.String())
				if err != nil {
					return fmt.Errorf("FromString(%s): %v", p.String(), err)
				}
				if !bytes.Equal(*back, b) || !back.Compare(*p) || !p.Compare(*back) {
					return fmt.Errorf("the hash %x is %x after a conversion to a string", b, []byte(*back))
				}
				upper, err := hashAdapter.FromString(strings.ToUpper(hex.EncodeToString(b)))
				if err == nil && !bytes.Equal(*upper, b) {
					return fmt.Errorf("the upper case string of the hash %x gives %x", b, []byte(*upper))
				}
				other := append(hash.Hash{}, b...)
				other[(pos*7+v)%64] ^= byte(1 << uint(v%8))
				if other.Compare(*p) || p.Compare(other) {
					return fmt.Errorf("the hashes %x and %x are said to be the same", b, []byte(other))
				}
				if p.String() == other.String() {
					return fmt.Errorf("the hashes %x and %x have the same string", b, []byte(other))
				}
				c.State(b)
				c.Step(6)
				c.Exec()
			}
			return nil
		})
	}

	limits := limitValues()
	some := []uint{0, 1, 2, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64}

	c.Group("pointers", 0.3)
	for _, from := range limits {
		from := from
		c.Do(func() string { return fmt.Sprintf("pointer: from %d, each length", from) }, func() error {
			for _, length := range limits {
				if length == 0 {
					if _, err := references.NewPointerBuilder().Create().From(from).WithLength(0).Now(); err == nil {
						if err := roundTrip(c, cs["pointer"], mkPointer(from, 0)); err != nil {
							return err
						}
					}
					continue
				}
				if err := roundTrip(c, cs["pointer"], mkPointer(from, length)); err != nil {
					return err
				}
				c.Exec()
			}
			return nil
		})
	}

	// contents
	c.Group("content", 0.3)
	datas := [][]byte{}
	for n := 1; n <= c.B("content_bytes_all", 2, 3); n++ {
		sequences(4, n, func(seq []int) bool {
			b := []byte{}
			for _, s := range seq {
				b = append(b, []byte{0, 1, 0x7f, 0xff}[s])
			}
			datas = append(datas, b)
			return true
		})
	}
	for n := 1; n <= c.B("content_length", 600, 1200); n++ {
		datas = append(datas, fill(n, n))
	}
	for _, n := range []int{1023, 1024, 1025, 4095, 4096, 65535, 65536, 1 << 20} {
		datas = append(datas, fill(n, n))
	}
	for _, d := range datas {
		for _, kind := range []uint{0, 1, math.MaxUint64} {
			for hi, h := range [][]byte{hashA, make([]byte, 64), bytes.Repeat([]byte{255}, 64)} {
				if len(d) > 4096 && hi > 0 {
					continue
				}
				d, kind, h := d, kind, h
				do(fmt.Sprintf("content: hash %x, %s, kind %d", h[:4], brief(d), kind), func() interface{} { return mkContent(h, append([]byte{}, d...), kind) })
			}
		}
	}
	for _, kind := range limits {
		kind := kind
		do(fmt.Sprintf("content: kind %d", kind), func() interface{} { return mkContent(hashB, []byte{1, 2}, kind) })
	}

	c.Group("contents", 0.4)
	alphabet := []func() contents.Content{
		func() contents.Content { return mkContent(hashA, []byte("a"), 1) },
		func() contents.Content { return mkContent(hashB, []byte("second data"), 0) },
		func() contents.Content { return mkContent(hashA, []byte("other data of a"), math.MaxUint64) },
		func() contents.Content {
			return mkContent(make([]byte, 64), append([]byte{74, 0, 0, 0, 0, 0, 0, 0}, fill(1, 74)...), 1<<32)
		},
		func() contents.Content { return mkContent(hashC, make([]byte, 9), 8) },
	}
	for n := 1; n <= c.B("contents_list", 5, 6); n++ {
		sequences(len(alphabet), n, func(seq []int) bool {
			do(fmt.Sprintf("contents: %v", seq), func() interface{} {
				list := []contents.Content{}
				for _, s := range seq {
					list = append(list, alphabet[s]())
				}
				return mkContents(list...)
			})
			return !c.Over()
		})
	}
	for _, n := range append(append([]int{}, scaleSizes...), 1000, 65537) {
		n := n
		do(fmt.Sprintf("contents: %d of them", n), func() interface{} {
			list := []contents.Content{}
			for i := 0; i < n; i++ {
				list = append(list, mkContent(sum(fmt.Sprint(i%50)), fill(i, 1+i%7), uint(i)))
			}
			return mkContents(list...)
		})
	}

	// content keys
	c.Group("content key", 0.4)
	for _, kind := range some {
		for _, from := range some {
			for _, length := range some[1:] {
				for hi, h := range [][]byte{hashA, make([]byte, 64), bytes.Repeat([]byte{255}, 64)} {
					kind, from, length, h := kind, from, length, h
					commit := hashB
					if hi == 1 {
						commit = make([]byte, 64)
					}
					do(fmt.Sprintf("content key: hash %x kind %d from %d length %d", h[:4], kind, from, length),
						func() interface{} { return mkKey(h, kind, mkPointer(from, length), commit) })
				}
			}
		}
	}
	c.Group("content keys", 0.4)
	keys := []func() references.ContentKey{
		func() references.ContentKey { return mkKey(hashA, 1, mkPointer(0, 1), hashB) },
		func() references.ContentKey { return mkKey(hashA, 2, mkPointer(1, 5), hashC) },
		func() references.ContentKey { return mkKey(hashB, math.MaxUint64, mkPointer(1<<40, 7), hashB) },
		func() references.ContentKey { return mkKey(make([]byte, 64), 0, mkPointer(6, 1<<62), make([]byte, 64)) },
		func() references.ContentKey { return mkKey(hashC, 1, mkPointer(9, 9), hashC) },
	}
	mkKeysOf := func(seq []int) references.ContentKeys {
		list := []references.ContentKey{}
		for _, s := range seq {
			list = append(list, keys[s]())
		}
		return mkKeys(list...)
	}
	for n := 1; n <= c.B("keys_list", 5, 6); n++ {
		sequences(len(keys), n, func(seq []int) bool {
			do(fmt.Sprintf("content keys: %v", seq), func() interface{} { return mkKeysOf(seq) })
			return !c.Over()
		})
	}
	for _, n := range append(append([]int{}, scaleSizes...), 1000, 65537) {
		n := n
		do(fmt.Sprintf("content keys: %d of them", n), func() interface{} {
			list := []references.ContentKey{}
			for i := 0; i < n; i++ {
				list = append(list, mkKey(sum(fmt.Sprint(i%50)), uint(i%9), mkPointer(uint(i*3), 3), sum(fmt.Sprint(i/10))))
			}
			return mkKeys(list...)
		})
	}

	// commits
	c.Group("commit", 0.4)
	trees := []func() hashtrees.HashTree{}
	for _, n := range []int{1, 2, 3, 5, 8, 9} {
		n := n
		trees = append(trees, func() hashtrees.HashTree {
			blocks := [][]byte{}
			for i := 0; i < n; i++ {
				blocks = append(blocks, sum(fmt.Sprint(i)))
			}
			return mkTree(blocks...)
		})
	}
	trees = append(trees, func() hashtrees.HashTree { return shapesTree(3, 0) }, func() hashtrees.HashTree { return shapesTree(3, 1) })
	parents := [][]byte{nil, hashA, make([]byte, 64), bytes.Repeat([]byte{1}, 64), bytes.Repeat([]byte{255}, 64)}
	ps := proofs()
	for pi, parent := range parents {
		for ti := range trees {
			for qi, proof := range ps {
				if ti > 1 && qi > 40 && !c.thorough() {
					continue
				}
				for ii, t := range instants() {
					if (ti > 0 || qi > 3) && ii > 1 && (!c.thorough() || ti > 2) {
						continue
					}
					parent, ti, proof, t := parent, ti, proof, t
					do(fmt.Sprintf("commit: tree %d, parent %d, proof %s, time %d", ti, pi, clip(fmt.Sprint(proof), 40), t.UnixNano()),
						func() interface{} { return mkCommit(trees[ti](), t, parent, proof) })
				}
			}
		}
	}
	c.Group("commits", 0.4)
	commits := []func() references.Commit{
		func() references.Commit { return mkCommit(trees[0](), time.Unix(0, 1), nil, nil) },
		func() references.Commit { return mkCommit(trees[1](), time.Unix(0, 2), hashA, nil) },
		func() references.Commit { return mkCommit(trees[2](), time.Unix(0, -3), nil, big.NewInt(1<<40)) },
		func() references.Commit { return mkCommit(trees[1](), time.Unix(99, 4), hashB, big.NewInt(0)) },
		func() references.Commit { return mkCommit(trees[3](), time.Unix(99, 4), hashB, big.NewInt(300)) },
	}
	mkCommitsOf := func(seq []int) references.Commits {
		list := []references.Commit{}
		for _, s := range seq {
			list = append(list, commits[s]())
		}
		return mkCommits(list...)
	}
	for n := 1; n <= c.B("commits_list", 5, 6); n++ {
		sequences(len(commits), n, func(seq []int) bool {
			do(fmt.Sprintf("commits: %v", seq), func() interface{} { return mkCommitsOf(seq) })
			return !c.Over()
		})
	}
	for _, n := range append(append([]int{}, scaleSizes...), 1000) {
		n := n
		do(fmt.Sprintf("reference: %d keys, %d commits", n, 301-n), func() interface{} {
			kl, cl := []references.ContentKey{}, []references.Commit{}
			for i := 0; i < n; i++ {
				kl = append(kl, keys[i%5]())
			}
			for i := 0; i < 301-n || i < 1; i++ {
				cl = append(cl, commits[i%5]())
			}
			return mkReference(mkKeys(kl...), mkCommits(cl...))
		})
		do(fmt.Sprintf("commits: %d of them", n), func() interface{} {
			list := []references.Commit{}
			for i := 0; i < n; i++ {
				list = append(list, commits[i%5](), mkCommit(trees[i%3](), time.Unix(int64(i), 5), hashA, nil))
			}
			return mkCommits(list...)
		})
	}
	c.Group("references", 0.4)
	for nk := 1; nk <= c.B("reference_lists", 2, 3); nk++ {
		sequences(len(keys), nk, func(ks []int) bool {
			for nc := 1; nc <= 2; nc++ {
				sequences(len(commits), nc, func(cms []int) bool {
					do(fmt.Sprintf("reference: keys %v commits %v", ks, cms), func() interface{} { return mkReference(mkKeysOf(ks), mkCommitsOf(cms)) })
					return !c.Over()
				})
			}
			return !c.Over()
		})
	}

	// trees
	c.Group("trees of blocks", 0.4)
	for n := 1; n <= c.B("tree_blocks", 140, 400); n++ {
		n := n
		mk := func() hashtrees.HashTree {
			blocks := [][]byte{}
			for i := 0; i < n; i++ {
				blocks = append(blocks, fill(i%13, i%13))
			}
			return mkTree(blocks...)
		}
		do(fmt.Sprintf("hash tree: %d blocks", n), func() interface{} { return mk() })
		do(fmt.Sprintf("leaf: left leaf of the tree of %d blocks", n), func() interface{} { return mk().Parent().Left() })
		do(fmt.Sprintf("parent leaf: tree of %d blocks", n), func() interface{} { return mk().Parent() })
		do(fmt.Sprintf("compact: tree of %d blocks", n), func() interface{} {
			compact, err := hashtrees.NewAdapter().ToCompact(mk())
			must(err)
			return compact
		})
		do(fmt.Sprintf("leaves: tree of %d blocks", n), func() interface{} {
			lv, err := hashtrees.NewLeafAdapter().ParentLeafToLeaves(mk().Parent())
			must(err)
			return lv
		})
	}
	c.Group("trees of any shape", 0.5)
	shapeLeaves := c.B("tree_shape_leaves", 6, 8)
	for n := 1; n <= shapeLeaves; n++ {
		for i, s := range shapes(n) {
			s := s
			do(fmt.Sprintf("leaf: shape %d of %d leaves", i, n), func() interface{} { return s(heads()) })
			if n > 1 {
				do(fmt.Sprintf("hash tree: shape %d of %d leaves", i, n), func() interface{} { return mkCustomTree(hashX, s(heads()).Parent()) })
				do(fmt.Sprintf("parent leaf: shape %d of %d leaves", i, n), func() interface{} { return s(heads()).Parent() })
			}
		}
	}
	c.Group("lists of leaves", 1)
	for _, n := range append(append([]int{}, scaleSizes...), 1000, 65535, 65536, 65537) {
		n := n
		do(fmt.Sprintf("leaves: %d of them", n), func() interface{} {
			list := []hashtrees.Leaf{}
			for i := 0; i < n; i++ {
				list = append(list, mkLeaf(sum(fmt.Sprint(i%50)), nil))
			}
			return mkLeaves(list...)
		})
	}
	var pool []func(next func() []byte) hashtrees.Leaf
	for n := 1; n <= 3; n++ {
		pool = append(pool, shapes(n)...)
	}
	for n := 1; n <= c.B("leaves_list", 6, 7); n++ {
		sequences(len(pool), n, func(seq []int) bool {
			mk := func() hashtrees.Leaves {
				next := heads()
				list := []hashtrees.Leaf{}
				for _, s := range seq {
					list = append(list, pool[s](next))
				}
				if len(list) > 2 {
					list[2] = list[0]
				}
				return mkLeaves(list...)
			}
			do(fmt.Sprintf("leaves: %v", seq), func() interface{} { return mk() })
			do(fmt.Sprintf("compact: %v", seq), func() interface{} { return mkCompact(hashX, mk()) })
			return !c.Over()
		})
	}
}

func shapesTree(n int, index int) hashtrees.HashTree {
	return mkCustomTree(hashX, shapes(n)[index](heads()).Parent())
}

// decodable verifies what a decoder does with any bytes
func decodable(c *C, cd codec, content []byte) error {
	kept := append([]byte{}, content...)
	// no memory follows the bytes
	content = append(make([]byte, 0, len(content)), content...)
	limit := uint64(1<<20) + 200*uint64(len(content))
	before := allocated()
	got, err := cd.decode(content)
	used := allocated() - before
	if err == errNothing {
		return err
	}
	if used > limit {
		return fmt.Errorf("converting %d bytes to a %s allocates %d bytes (%x)", len(content), cd.name, used, clip(string(kept), 300))
	}
	if !bytes.Equal(kept, content) {
		return fmt.Errorf("the bytes changed while they were converted to a %s", cd.name)
	}
	c.Step(1)
	c.Exec()
	// other memory follows them
	room := append(append(make([]byte, 0, len(content)+64), content...), make([]byte, 64)...)
	for i := len(content); i < len(room); i++ {
		room[i] = byte(i * 37)
	}
	roomGot, roomErr := cd.decode(room[:len(content)])
	if (roomErr == nil) != (err == nil) {
		return fmt.Errorf("what follows the bytes in memory matters for the %s: %v, or %v (%x)", cd.name, err, roomErr, clip(string(kept), 300))
	}
	if err != nil {
		c.State(cd.name, "error")
		return nil
	}
	if cd.dump(got) != cd.dump(roomGot) {
		return fmt.Errorf("what follows the bytes in memory is part of the %s (%x)", cd.name, clip(string(kept), 300))
	}
	if cd.short(content) {
		return fmt.Errorf("%d bytes are too short for the %s they announce, but there is no error: %x", len(content), cd.name, clip(string(kept), 600))
	}
	d := cd.dump(got)
	b, err := cd.encode(got)
	if err != nil {
		return fmt.Errorf("the decoded %s cannot be converted to bytes: %v", cd.name, err)
	}
	if cd.dump(got) != d {
		return fmt.Errorf("the decoded %s changed while it was converted to bytes", cd.name)
	}
	c.State(cd.name, b)
	c.Step(2)
	return nil
}

func checkK02(c *C) {
	cs := codecs()
	names := []string{"pointer", "content key", "content keys", "commit", "commits", "reference", "content", "contents", "hash tree", "leaf", "parent leaf", "leaves", "compact"}
	next := heads()
	tree1, tree3 := mkTree([]byte("a")), mkTree([]byte("a"), []byte("b"), []byte("c"))
	key := mkKey(hashA, 1, mkPointer(0, 9), hashB)
	commit := mkCommit(tree1, time.Unix(0, 77), nil, nil)
	commitP := mkCommit(tree1, time.Unix(0, 77), hashC, nil)
	commitM := mkCommit(tree3, time.Unix(0, 77), nil, big.NewInt(1<<33))
	commitPM := mkCommit(tree1, time.Unix(0, 77), hashC, big.NewInt(77))
	bases := map[string][]interface{}{
		"pointer":      {mkPointer(3, 4)},
		"content key":  {key},
		"content keys": {mkKeys(key), mkKeys(key, mkKey(hashC, 0, mkPointer(1<<62, 1<<62), hashB))},
		"commit":       {commit, commitP, commitM, commitPM},
		"commits":      {mkCommits(commit), mkCommits(commitP, commitPM)},
		"reference":    {mkReference(mkKeys(key), mkCommits(commit)), mkReference(mkKeys(key, key), mkCommits(commitP, commit))},
		"content":      {mkContent(hashA, []byte("data"), 2)},
		"contents":     {mkContents(mkContent(hashA, []byte("d"), 2)), mkContents(mkContent(hashA, []byte("data"), 2), mkContent(hashB, fill(1, 20), 0))},
		"hash tree":    {tree1, tree3, shapesTree(4, 0), shapesTree(4, 4)},
		"leaf":         {mkLeaf(next(), nil), tree3.Parent().Left(), shapes(3)[0](next)},
		"parent leaf":  {tree1.Parent(), tree3.Parent()},
		"leaves":       {mkLeaves(mkLeaf(next(), nil)), mkLeaves(mkLeaf(next(), nil), shapes(2)[0](next), mkLeaf(next(), nil))},
		"compact":      {mkCompact(next(), mkLeaves(mkLeaf(next(), nil), mkLeaf(next(), nil)))},
	}
	type base struct {
		cd      codec
		i       int
		content []byte
	}
	all := []base{}
	for _, name := range names {
		for i, ins := range bases[name] {
			b, err := cs[name].encode(ins)
			if err != nil {
				panic(fmt.Sprintf("base %s: %v", name, err))
			}
			all = append(all, base{cs[name], i, b})
		}
	}

	// each decoder reads the bytes of all the others, and constant bytes of each length
	c.Group("bytes of other types, constant bytes", 0.1)
	for _, name := range names {
		cd := cs[name]
		for _, b := range all {
			b := b
			c.Do(func() string {
				return fmt.Sprintf("%s from the bytes of the %s %d, and their truncations", cd.name, b.cd.name, b.i)
			}, func() error {
				for n := 0; n <= len(b.content); n++ {
					if err := decodable(c, cd, b.content[:n:n]); err != nil {
						return err
					}
				}
				for n := 1; n <= 140; n++ {
					if err := decodable(c, cd, append(append([]byte{}, b.content...), fill(n, n)...)); err != nil {
						return fmt.Errorf("with %d bytes more: %v", n, err)
					}
					if err := decodable(c, cd, append(append([]byte{}, b.content...), make([]byte, n)...)); err != nil {
						return fmt.Errorf("with %d zeroes more: %v", n, err)
					}
				}
				return nil
			})
		}
		c.Do(func() string { return fmt.Sprintf("%s from constant bytes", cd.name) }, func() error {
			for n := 0; n <= c.B("constant_length", 1200, 3000); n++ {
				for _, v := range []byte{0, 1, 8, 64, 0x7f, 0x80, 0xff} {
					if err := decodable(c, cd, bytes.Repeat([]byte{v}, n)); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}

	c.Group("short bytes", 0.2)
	for _, name := range names {
		cd := cs[name]
		for n := 0; n <= c.B("short_length", 10, 11); n++ {
			n := n
			c.Do(func() string { return fmt.Sprintf("%s from all the strings of %d bytes", cd.name, n) }, func() (err error) {
				sequences(3, n, func(seq []int) bool {
					b := make([]byte, n)
					for i, s := range seq {
						b[i] = []byte{0, 1, 0xff}[s]
					}
					err = decodable(c, cd, b)
					return err == nil
				})
				return err
			})
		}
	}

	c.Group("lengths", 0.4)
	for _, b := range all {
		for pos := 0; pos+8 <= len(b.content); pos++ {
			b, pos := b, pos
			c.Do(func() string { return fmt.Sprintf("%s %d with lengths at %d", b.cd.name, b.i, pos) }, func() error {
				n := uint64(len(b.content))
				old := u64(b.content[pos:])
				values := []uint64{0, 1, 2, 3, 7, 8, 9, 15, 16, 63, 64, 65, 72, 128, 136, n, n - 1, n + 1, n - 8, n - uint64(pos), n - uint64(pos) - 8,
					n - uint64(pos) - 7, n - uint64(pos) - 9, old - 1, old + 1, old + 8, old - 8, old * 2, old / 2, old + 64, old - 64, 1 << 16, 1 << 20, 1 << 24,
					1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1, 1<<64 - 8, 1<<64 - 7, 1<<64 - 9, 1<<64 - 16,
					1<<64 - 64, -n, -uint64(pos), -uint64(pos) - 8, 1<<63 - 8, 1<<63 - uint64(pos), 1<<61 - 1, 1 << 61, 1 << 60, 1 << 57,
					(1<<64 - 1) / 152, (1<<64-1)/152 + 1, 1<<63/152 + 1}
				for _, v := range values {
					x := append([]byte{}, b.content...)
					for i := 0; i < 8; i++ {
						x[pos+i] = byte(v >> (8 * uint(i)))
					}
					if err := decodable(c, b.cd, x); err != nil {
						return fmt.Errorf("the value %d: %v", v, err)
					}
				}
				return nil
			})
		}
	}

	c.Group("bytes", 0.6)
	for _, b := range all {
		for pos := 0; pos < len(b.content); pos++ {
			b, pos := b, pos
			c.Do(func() string { return fmt.Sprintf("%s %d with each value of the byte %d", b.cd.name, b.i, pos) }, func() error {
				for v := 0; v < 256; v++ {
					if !c.thorough() && v > 9 && v < 246 && v%16 > 1 && v != 0x7f && v != int(b.content[pos])+1 && v != int(b.content[pos])-1 {
						continue
					}
					x := append([]byte{}, b.content...)
					x[pos] = byte(v)
					if err := decodable(c, b.cd, x); err != nil {
						return fmt.Errorf("the value %d: %v", v, err)
					}
				}
				// removed, or inserted bytes
				for _, n := range []int{1, 2, 7, 8, 9, 16, 63, 64, 65, 72} {
					if pos+n <= len(b.content) {
						if err := decodable(c, b.cd, append(append([]byte{}, b.content[:pos]...), b.content[pos+n:]...)); err != nil {
							return fmt.Errorf("%d bytes removed: %v", n, err)
						}
					}
					x := append(append(append([]byte{}, b.content[:pos]...), make([]byte, n)...), b.content[pos:]...)
					if err := decodable(c, b.cd, x); err != nil {
						return fmt.Errorf("%d bytes inserted: %v", n, err)
					}
				}
				return nil
			})
		}
	}

	// strings of hashes
	c.Group("strings", 0.5)
	for n := 0; n <= 140; n++ {
		n := n
		c.Do(func() string { return fmt.Sprintf("hashes from strings of %d characters", n) }, func() error {
			base := hex.EncodeToString(append(append([]byte{}, hashA...), hashB...))[:n]
			for _, ch := range []string{"", "0", "g", "G", "F", " ", "\x00", "\xff", "-", "x", "é", "\n"} {
				for pos := 0; pos <= n; pos++ {
					if pos == n && ch != "" {
						continue
					}
					s := base
					if ch != "" {
						s = base[:pos] + ch + base[pos+1:]
					}
					p, err := hashAdapter.FromString(s)
					_, herr := hex.DecodeString(s)
					if herr != nil && err == nil {
						return fmt.Errorf("FromString(%q) succeeds, it is no hexadecimal string", s)
					}
					if err == nil && (p == nil || len(*p) != hash.Size || len(p.String()) != 2*hash.Size) {
						return fmt.Errorf("FromString(%q) returns no hash", s)
					}
					if err != nil && herr == nil && n == 128 {
						return fmt.Errorf("FromString(%q): %v", s, err)
					}
					c.State(s)
					c.Exec()
				}
			}
			return nil
		})
	}

	// two lengths at once
	c.Group("two lengths", 1)
	pairValues := []uint64{0, 1, 8, 64, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 8, 1<<64 - 1}
	for _, b := range all {
		positions := lengthPositions(b.cd, b.content)
		for _, p := range positions {
			for _, q := range positions {
				if q <= p {
					continue
				}
				b, p, q := b, p, q
				c.Do(func() string { return fmt.Sprintf("%s %d with lengths at %d and %d", b.cd.name, b.i, p, q) }, func() error {
					n := uint64(len(b.content))
					values := append([]uint64{n, n - uint64(p) - 8, n - uint64(q) - 8, u64(b.content[p:]) + 1, u64(b.content[q:]) - 1, u64(b.content[q:])}, pairValues...)
					for _, v := range values {
						for _, w := range values {
							x := append([]byte{}, b.content...)
							for i := 0; i < 8; i++ {
								x[p+i] = byte(v >> (8 * uint(i)))
								x[q+i] = byte(w >> (8 * uint(i)))
							}
							if err := decodable(c, b.cd, x); err != nil {
								return fmt.Errorf("the values %d and %d: %v", v, w, err)
							}
						}
					}
					return nil
				})
			}
		}
	}
}

// lengthPositions finds the 8 bytes that look like a small number
func lengthPositions(cd codec, b []byte) []int {
	out := []int{}
	for i := 0; i+8 <= len(b); i++ {
		if v := u64(b[i:]); v > 0 && v <= uint64(len(b))+64 && bytes.Equal(b[i+2:i+8], make([]byte, 6)) {
			out = append(out, i)
		}
	}
	return out
}
