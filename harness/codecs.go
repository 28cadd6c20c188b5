package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)

// codec is a pair of conversions
type codec struct {
	name   string
	encode func(ins interface{}) ([]byte, error)
	decode func(content []byte) (interface{}, error)
	dump   func(ins interface{}) string // all the observable parts of an instance, uses all of its methods
	short  func(content []byte) bool    // independent: the content is too short for what it announces
}

const kMining = byte('0')

func codecs() map[string]codec {
	out := map[string]codec{}
	add := func(c codec) { out[c.name] = c }
	pointerAdapter := references.NewPointerAdapter()
	keyAdapter := references.NewContentKeyAdapter()
	keysAdapter := references.NewContentKeysAdapter()
	commitAdapter := references.NewCommitAdapter(kMining)
	commitsAdapter := references.NewCommitsAdapter(kMining)
	refAdapter := references.NewAdapter(kMining)
	contentAdapter := contents.NewContentAdapter()
	contentsAdapter := contents.NewAdapter()
	treeAdapter := hashtrees.NewAdapter()
	leafAdapter := hashtrees.NewLeafAdapter()
	leavesAdapter := hashtrees.NewLeavesAdapter()
	compactAdapter := hashtrees.NewCompactAdapter()

	add(codec{"pointer",
		func(i interface{}) ([]byte, error) { return pointerAdapter.ToContent(i.(references.Pointer)) },
		func(b []byte) (interface{}, error) {
			v, err := pointerAdapter.ToPointer(b)
			return some(v, v == nil, err)
		},
		func(i interface{}) string { return dumpPointer(i.(references.Pointer)) },
		func(b []byte) bool { return len(b) < 16 },
	})
	add(codec{"content key",
		func(i interface{}) ([]byte, error) { return keyAdapter.ToContent(i.(references.ContentKey)) },
		func(b []byte) (interface{}, error) {
			v, err := keyAdapter.ToContentKey(b)
			return some(v, v == nil, err)
		},
		func(i interface{}) string { return dumpKey(i.(references.ContentKey)) },
		func(b []byte) bool { return len(b) < 64+8+16+64 },
	})
	add(codec{"content keys",
		func(i interface{}) ([]byte, error) { return keysAdapter.ToContent(i.(references.ContentKeys)) },
		func(b []byte) (interface{}, error) {
			v, err := keysAdapter.ToContentKeys(b)
			return some(v, v == nil, err)
		},
		func(i interface{}) string { return dumpKeys(i.(references.ContentKeys)) },
		shortKeys,
	})
	add(codec{"commit",
		func(i interface{}) ([]byte, error) { return commitAdapter.ToContent(i.(references.Commit)) },
		func(b []byte) (interface{}, error) {
			v, err := commitAdapter.ToCommit(b)
			return some(v, v == nil, err)
		},
		func(i interface{}) string { return dumpCommit(i.(references.Commit)) },
		shortCommit,
	})
	add(codec{"commits",
		func(i interface{}) ([]byte, error) { return commitsAdapter.ToContent(i.(references.Commits)) },
		func(b []byte) (interface{}, error) {
			v, err := commitsAdapter.ToCommits(b)
			return some(v, v == nil, err)
		},
		func(i interface{}) string { return dumpCommits(i.(references.Commits)) },
		func(b []byte) bool { return shortList(b, shortCommit) },
	})
	add(codec{"reference",
		func(i interface{}) ([]byte, error) { return refAdapter.ToContent(i.(references.Reference)) },
		func(b []byte) (interface{}, error) {
			v, err := refAdapter.ToReference(b)
			return some(v, v == nil, err)
		},
		func(i interface{}) string {
			r := i.(references.Reference)
			return "keys: " + dumpKeys(r.ContentKeys()) + " commits: " + dumpCommits(r.Commits())
		},
		shortReference,
	})
	add(codec{"content",
		func(i interface{}) ([]byte, error) { return contentAdapter.ToContent(i.(contents.Content)) },
		func(b []byte) (interface{}, error) {
			v, err := contentAdapter.ToInstance(b)
			return some(v, v == nil, err)
		},
		func(i interface{}) string { return dumpContent(i.(contents.Content)) },
		func(b []byte) bool { return len(b) < 64+8 },
	})
	add(codec{"contents",
		func(i interface{}) ([]byte, error) { return contentsAdapter.ToContent(i.(contents.Contents)) },
		func(b []byte) (interface{}, error) {
			v, err := contentsAdapter.ToInstance(b)
			return some(v, v == nil, err)
		},
		func(i interface{}) string {
			parts := []string{}
			for _, one := range i.(contents.Contents).List() {
				parts = append(parts, dumpContent(one))
			}
			return fmt.Sprintf("%d contents: %s", len(parts), strings.Join(parts, "; "))
		},
		func(b []byte) bool { return shortList(b, func(b []byte) bool { return len(b) < 64+8 }) },
	})
	add(codec{"hash tree",
		func(i interface{}) ([]byte, error) { return treeAdapter.ToContent(i.(hashtrees.HashTree)) },
		func(b []byte) (interface{}, error) {
			v, err := treeAdapter.ToHashTree(b)
			return some(v, v == nil, err)
		},
		func(i interface{}) string { return dumpTree(i.(hashtrees.HashTree)) },
		shortTree,
	})
	add(codec{"leaf",
		func(i interface{}) ([]byte, error) { return leafAdapter.LeafToContent(i.(hashtrees.Leaf)) },
		func(b []byte) (interface{}, error) {
			v, err := leafAdapter.ContentToLeaf(b)
			return some(v, v == nil, err)
		},
		func(i interface{}) string {
			l := i.(hashtrees.Leaf)
			lv, err := leafAdapter.LeafToLeaves(l)
			return dumpLeaf(l) + " " + dumpLeavesErr(lv, err)
		},
		shortLeaf,
	})
	add(codec{"parent leaf",
		func(i interface{}) ([]byte, error) { return leafAdapter.ParentLeafToContent(i.(hashtrees.ParentLeaf)) },
		func(b []byte) (interface{}, error) {
			v, err := leafAdapter.ContentToParentLeaf(b)
			return some(v, v == nil, err)
		},
		func(i interface{}) string {
			p := i.(hashtrees.ParentLeaf)
			lv, err := leafAdapter.ParentLeafToLeaves(p)
			tree, terr := leafAdapter.ParentLeafToHashTree(p)
			s := "no tree"
			if terr == nil {
				s = dumpTree(tree)
			}
			return dumpParent(p) + " " + dumpLeavesErr(lv, err) + " " + s
		},
		shortParent,
	})
	add(codec{"leaves",
		func(i interface{}) ([]byte, error) { return leavesAdapter.ToContent(i.(hashtrees.Leaves)) },
		func(b []byte) (interface{}, error) {
			v, err := leavesAdapter.ToLeaves(b)
			return some(v, v == nil, err)
		},
		func(i interface{}) string {
			l := i.(hashtrees.Leaves)
			tree, err := leavesAdapter.ToHashTree(l)
			s := "no tree"
			if err == nil {
				s = dumpTree(tree)
			}
			return dumpLeaves(l) + " " + s
		},
		shortLeaves,
	})
	add(codec{"compact",
		func(i interface{}) ([]byte, error) { return compactAdapter.ToContent(i.(hashtrees.Compact)) },
		func(b []byte) (interface{}, error) {
			v, err := compactAdapter.ToCompact(b)
			return some(v, v == nil, err)
		},
		func(i interface{}) string {
			v := i.(hashtrees.Compact)
			return fmt.Sprintf("compact %x length %d leaves %s", []byte(v.Head()), v.Length(), dumpLeaves(v.Leaves()))
		},
		func(b []byte) bool { return len(b) < 64 || shortLeaves(b[64:]) },
	})
	return out
}

func some(v interface{}, isNil bool, err error) (interface{}, error) {
	if err != nil {
		return nil, err
	}
	if isNil {
		return nil, errNothing
	}
	return v, nil
}

var errNothing = errors.New("neither an instance nor an error is returned")

// the observable parts

func dumpPointer(p references.Pointer) string { return fmt.Sprintf("(%d, %d)", p.From(), p.Length()) }

func dumpKey(k references.ContentKey) string {
	return fmt.Sprintf("key %x kind %d at %s of %x", []byte(k.Hash()), k.Kind(), dumpPointer(k.Content()), []byte(k.Commit()))
}

func dumpKeys(ks references.ContentKeys) string {
	b := strings.Builder{}
	kinds := []uint{}
	seen := map[uint]bool{}
	for _, k := range ks.List() {
		b.WriteString(dumpKey(k))
		got, err := ks.Fetch(k.Hash())
		if err != nil {
			fmt.Fprintf(&b, " not fetched: %v", err)
		} else {
			b.WriteString(" fetched " + dumpKey(got))
		}
		b.WriteString("\n")
		if !seen[k.Kind()] {
			seen[k.Kind()] = true
			kinds = append(kinds, k.Kind())
		}
	}
	for _, kind := range kinds {
		fmt.Fprintf(&b, " kind %d:", kind)
		for _, k := range ks.ListByKind(kind) {
			fmt.Fprintf(&b, " %x", []byte(k.Hash())[:8])
		}
	}
	fmt.Fprintf(&b, " next %d", ks.Next())
	return b.String()
}

func dumpCommit(c references.Commit) string {
	s := fmt.Sprintf("commit %x at %d and %d ns tree %s", []byte(c.Hash()), c.CreatedOn().Unix(), c.CreatedOn().Nanosecond(), dumpTree(c.Values()))
	if c.HasParent() {
		s += fmt.Sprintf(" parent %x", []byte(*c.Parent()))
	}
	if c.HasMine() {
		m := c.Mine()
		s += fmt.Sprintf(" proof %s result %x score %d", m.Proof().String(), []byte(m.Result()), m.Score())
	}
	return s
}

func dumpCommits(cs references.Commits) string {
	b := strings.Builder{}
	for _, c := range cs.List() {
		b.WriteString(dumpCommit(c))
		got, err := cs.Fetch(c.Hash())
		if err != nil {
			fmt.Fprintf(&b, " not fetched: %v", err)
		} else {
			b.WriteString(" fetched " + dumpCommit(got))
		}
		b.WriteString("\n")
	}
	b.WriteString("latest " + dumpCommit(cs.Latest()))
	return b.String()
}

func dumpContent(c contents.Content) string {
	return fmt.Sprintf("content %x kind %d data %x", []byte(c.Hash()), c.Kind(), c.Data())
}

func dumpLeaf(l hashtrees.Leaf) string {
	s := fmt.Sprintf("%x^%d", []byte(l.Head()), l.Height())
	if l.HasParent() {
		s += dumpParent(l.Parent())
	}
	return s
}

func dumpParent(p hashtrees.ParentLeaf) string {
	return "[" + dumpLeaf(p.Left()) + " " + dumpLeaf(p.Right()) + "]"
}

func dumpTree(t hashtrees.HashTree) string {
	length, err := hashtrees.NewAdapter().ToLength(t)
	s := "?"
	if err == nil {
		s = fmt.Sprintf("%d", *length)
	}
	compact, err := hashtrees.NewAdapter().ToCompact(t)
	if err == nil {
		s += fmt.Sprintf(" compact %x %d", []byte(compact.Head()), compact.Length())
	}
	return fmt.Sprintf("tree %x height %d length %s %s", []byte(t.Head()), t.Height(), s, dumpParent(t.Parent()))
}

func dumpLeaves(l hashtrees.Leaves) string {
	parts := []string{}
	for _, one := range l.Leaves() {
		parts = append(parts, dumpLeaf(one))
	}
	return fmt.Sprintf("%d leaves: %s", len(parts), strings.Join(parts, ", "))
}

func dumpLeavesErr(l hashtrees.Leaves, err error) string {
	if err != nil {
		return "no leaves"
	}
	return dumpLeaves(l)
}

// contents that are too short for what they announce, from the description of the formats

func u64(b []byte) uint64 { return binary.LittleEndian.Uint64(b) }

func shortKeys(b []byte) bool {
	return len(b) < 8 || u64(b) > uint64(len(b)-8)/(64+8+16+64)
}

func shortList(b []byte, item func([]byte) bool) bool {
	for len(b) > 0 {
		if len(b) < 8 || u64(b) > uint64(len(b)-8) {
			return true
		}
		n := int(u64(b))
		if item(b[8 : 8+n]) {
			return true
		}
		b = b[8+n:]
	}
	return false
}

func shortLeaf(b []byte) bool {
	if len(b) < 64 {
		return true
	}
	return len(b) > 64 && shortParent(b[64:])
}

func shortParent(b []byte) bool {
	if len(b) < 8 || u64(b) > uint64(len(b)-8) {
		return true
	}
	n := int(u64(b))
	return shortLeaf(b[8:8+n]) || shortLeaf(b[8+n:])
}

func shortTree(b []byte) bool { return len(b) < 64 || shortParent(b[64:]) }

func shortLeaves(b []byte) bool {
	if len(b) < 8 {
		return true
	}
	count := u64(b)
	if count > uint64(len(b)) {
		return true
	}
	b = b[8:]
	for i := uint64(0); i < count; i++ {
		if len(b) < 8 || u64(b) > uint64(len(b)-8) {
			return true
		}
		n := int(u64(b))
		if shortLeaf(b[8 : 8+n]) {
			return true
		}
		b = b[8+n:]
	}
	return false
}

func shortCommit(b []byte) bool {
	if len(b) < 16 || u64(b[8:]) > uint64(len(b)-16) {
		return true
	}
	n := int(u64(b[8:]))
	if shortTree(b[16 : 16+n]) {
		return true
	}
	b = b[16+n:]
	if len(b) > 0 && b[0] == 0 {
		if len(b) < 9 || u64(b[1:]) > uint64(len(b)-9) {
			return true
		}
		b = b[9+int(u64(b[1:])):]
	}
	return len(b) > 0 && len(b) < 65
}

func shortReference(b []byte) bool {
	if len(b) < 8 || u64(b) > uint64(len(b)-8) {
		return true
	}
	n := int(u64(b))
	if shortKeys(b[8 : 8+n]) {
		return true
	}
	b = b[8+n:]
	if len(b) < 8 || u64(b) > uint64(len(b)-8) {
		return true
	}
	return shortList(b[8:8+int(u64(b))], shortCommit)
}

// constructors

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("a builder refuses a valid instance: %v", err))
	}
}

func mkPointer(from uint, length uint) references.Pointer {
	p, err := references.NewPointerBuilder().Create().From(from).WithLength(length).Now()
	must(err)
	return p
}

func mkKey(h []byte, kind uint, p references.Pointer, commit []byte) references.ContentKey {
	k, err := references.NewContentKeyBuilder().Create().WithHash(toHash(h)).WithKind(kind).WithContent(p).WithCommit(toHash(commit)).Now()
	must(err)
	return k
}

func mkKeys(list ...references.ContentKey) references.ContentKeys {
	k, err := references.NewContentKeysBuilder().Create().WithList(list).Now()
	must(err)
	return k
}

func mkTree(blocks ...[]byte) hashtrees.HashTree {
	t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err)
	return t
}

func mkCommit(tree hashtrees.HashTree, t time.Time, parent []byte, proof *big.Int) references.Commit {
	return mkCommitMining(kMining, tree, t, parent, proof)
}

func mkCommitMining(mining byte, tree hashtrees.HashTree, t time.Time, parent []byte, proof *big.Int) references.Commit {
	b := references.NewCommitBuilder(mining).Create().WithValues(tree).CreatedOn(t)
	if parent != nil {
		b.WithParent(toHash(parent))
	}
	if proof != nil {
		b.WithProof(proof)
	}
	c, err := b.Now()
	must(err)
	return c
}

func mkCommits(list ...references.Commit) references.Commits {
	c, err := references.NewCommitsBuilder().Create().WithList(list).Now()
	must(err)
	return c
}

func mkReference(keys references.ContentKeys, commits references.Commits) references.Reference {
	r, err := references.NewBuilder().Create().WithContentKeys(keys).WithCommits(commits).Now()
	must(err)
	return r
}

func mkContent(h []byte, data []byte, kind uint) contents.Content {
	c, err := contents.NewContentBuilder().Create().WithHash(toHash(h)).WithData(data).WithKind(kind).Now()
	must(err)
	return c
}

func mkContents(list ...contents.Content) contents.Contents {
	c, err := contents.NewBuilder().Create().WithList(list).Now()
	must(err)
	return c
}

func mkLeaf(head []byte, parent hashtrees.ParentLeaf) hashtrees.Leaf {
	b := hashtrees.NewLeafBuilder().Create().WithHead(toHash(head))
	if parent != nil {
		b.WithParent(parent)
	}
	l, err := b.Now()
	must(err)
	return l
}

func mkParent(left hashtrees.Leaf, right hashtrees.Leaf) hashtrees.ParentLeaf {
	p, err := hashtrees.NewParentLeafBuilder().Create().WithLeft(left).WithRight(right).Now()
	must(err)
	return p
}

func mkLeaves(list ...hashtrees.Leaf) hashtrees.Leaves {
	l, err := hashtrees.NewLeavesBuilder().Create().WithList(list).Now()
	must(err)
	return l
}

func mkCompact(head []byte, leaves hashtrees.Leaves) hashtrees.Compact {
	c, err := hashtrees.NewCompactBuilder().Create().WithHead(toHash(head)).WithLeaves(leaves).Now()
	must(err)
	return c
}

func mkCustomTree(head []byte, parent hashtrees.ParentLeaf) hashtrees.HashTree {
	t, err := hashtrees.NewBuilder().Create().WithHead(toHash(head)).WithParent(parent).Now()
	must(err)
	return t
}

// shapes returns all the binary trees with n leaves, as functions that build one
func shapes(n int) []func(next func() []byte) hashtrees.Leaf {
	if n == 1 {
		return []func(next func() []byte) hashtrees.Leaf{func(next func() []byte) hashtrees.Leaf { return mkLeaf(next(), nil) }}
	}
	out := []func(next func() []byte) hashtrees.Leaf{}
	for i := 1; i < n; i++ {
		for _, l := range shapes(i) {
			for _, r := range shapes(n - i) {
				l, r := l, r
				out = append(out, func(next func() []byte) hashtrees.Leaf {
					head := next()
					left := l(next)
					right := r(next)
					return mkLeaf(head, mkParent(left, right))
				})
			}
		}
	}
	return out
}

// heads returns different hashes, one after the other
func heads() func() []byte {
	i := 0
	return func() []byte {
		i++
		return sum(fmt.Sprintf("head %d", i))
	}
}

var hashAdapter = hash.NewAdapter()
