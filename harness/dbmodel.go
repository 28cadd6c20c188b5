package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

// mContent is a content of the model
type mContent struct {
	hash []byte
	data []byte
	kind uint
}

// mDB is the model of a database: its commits, in order
type mDB [][]mContent

func (d mDB) all() []mContent {
	out := []mContent{}
	for _, c := range d {
		out = append(out, c...)
	}
	return out
}

func (d mDB) with(pending []mContent) mDB {
	out := append(mDB{}, d...)
	return append(out, append([]mContent{}, pending...))
}

const dstExt = "destination"
const bckExt = "backup"

func newApp(dir string, chunk uint) applications.Application {
	return files.NewApplication(byte(0), dir, dstExt, bckExt, chunk)
}

var (
	hashA = sum("hash a")
	hashB = sum("hash b")
	hashC = sum("hash c")
	hashX = sum("never written")
)

func sum(s string) []byte {
	h := sha512.Sum512([]byte(s))
	return h[:]
}

// fill returns deterministic data
func fill(seed int, size int) []byte {
	out := make([]byte, size)
	x := uint32(seed)*2654435761 + 12345
	for i := range out {
		x = x*1664525 + 1013904223
		out[i] = byte(x >> 24)
	}
	return out
}

func toHash(b []byte) hash.Hash {
	return hash.Hash(append([]byte{}, b...))
}

// doWrite writes a content, and then changes the memory that was given
func doWrite(app applications.Application, ctx uint, m mContent) error {
	h := toHash(m.hash)
	d := append(make([]byte, 0, len(m.data)+3), m.data...)
	err := app.Write(ctx, h, d, m.kind)
	for i := range d {
		d[i] ^= 0x5a
	}
	for i := range h {
		h[i] ^= 0x5a
	}
	return err
}

// verifyContents verifies that the context shows the contents of the database, and nothing else
func verifyContents(app applications.Application, ctx uint, db mDB, unknown ...[]byte) error {
	all := db.all()
	last := map[string][]byte{}
	order := []string{}
	for _, m := range all {
		if _, ok := last[string(m.hash)]; !ok {
			order = append(order, string(m.hash))
		}
		last[string(m.hash)] = m.data
	}

	// by hash:
	known := []hash.Hash{}
	for _, h := range order {
		known = append(known, toHash([]byte(h)))
		data, err := app.ReadByHash(ctx, toHash([]byte(h)))
		if err != nil {
			return fmt.Errorf("the content %x is committed but ReadByHash returns an error: %v", h[:3], err)
		}
		if !bytes.Equal(data, last[h]) {
			return fmt.Errorf("the content %x: ReadByHash returns %s, %s was committed last", h[:3], brief(data), brief(last[h]))
		}
	}

	for _, u := range append([][]byte{hashX}, unknown...) {
		if _, ok := last[string(u)]; ok {
			continue
		}
		if data, err := app.ReadByHash(ctx, toHash(u)); err == nil {
			return fmt.Errorf("the content %x is not committed but ReadByHash returns %s", u[:3], brief(data))
		}
		if _, err := app.ReadAllByHashes(ctx, append(append([]hash.Hash{}, known...), toHash(u))); err == nil {
			return fmt.Errorf("ReadAllByHashes with an unknown hash (%x) succeeds", u[:3])
		}
	}

	// several at once, with a repetition:
	if len(known) > 0 {
		asked := append(append([]hash.Hash{}, known...), known[0])
		list, err := app.ReadAllByHashes(ctx, asked)
		if err != nil {
			return fmt.Errorf("ReadAllByHashes: %v", err)
		}
		if len(list) != len(asked) {
			return fmt.Errorf("ReadAllByHashes returns %d contents, %d asked", len(list), len(asked))
		}
		for i := range asked {
			if !bytes.Equal(list[i], last[string(asked[i])]) {
				return fmt.Errorf("ReadAllByHashes returns %s at %d, %s was committed last", brief(list[i]), i, brief(last[string(asked[i])]))
			}
		}
	}

	// by kind:
	kinds := map[uint][]mContent{}
	for _, m := range all {
		kinds[m.kind] = append(kinds[m.kind], m)
	}
	total := 0
	for _, m := range all {
		total += len(m.data)
	}
	for _, k := range []uint{0, 1, 2, 255, 256, 257, 1 << 16, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 63, 1<<64 - 1} {
		if _, ok := kinds[k]; !ok {
			kinds[k] = nil
		}
	}
	sorted := []uint{}
	for k := range kinds {
		sorted = append(sorted, k)
	}
	sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })
	spans := [][2]uint{}
	for _, k := range sorted {
		expected := kinds[k]
		keys, err := app.ContentKeysByKind(ctx, k)
		if len(expected) <= 0 {
			if err == nil && len(keys.List()) > 0 {
				return fmt.Errorf("no content of kind %d is committed but ContentKeysByKind lists %d", k, len(keys.List()))
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("ContentKeysByKind(%d): %v", k, err)
		}
		list := keys.List()
		if len(list) != len(expected) {
			return fmt.Errorf("ContentKeysByKind(%d) lists %d contents, %d are committed", k, len(list), len(expected))
		}
		pointers := []references.Pointer{}
		for i, one := range list {
			if !bytes.Equal(one.Hash(), expected[i].hash) {
				return fmt.Errorf("ContentKeysByKind(%d) lists %x at %d, expected %x", k, []byte(one.Hash())[:3], i, expected[i].hash[:3])
			}
			if one.Kind() != k {
				return fmt.Errorf("ContentKeysByKind(%d) lists a content of kind %d", k, one.Kind())
			}
			p := one.Content()
			if p.Length() != uint(len(expected[i].data)) {
				return fmt.Errorf("kind %d, content %d: the length of the pointer is %d, the content has %d bytes", k, i, p.Length(), len(expected[i].data))
			}
			data, err := app.Read(ctx, p)
			if err != nil {
				return fmt.Errorf("kind %d, content %d: Read(pointer): %v", k, i, err)
			}
			if !bytes.Equal(data, expected[i].data) {
				return fmt.Errorf("kind %d, content %d: Read(pointer) returns %s, %s was committed", k, i, brief(data), brief(expected[i].data))
			}
			spans = append(spans, [2]uint{p.From(), p.Length()})
			pointers = append(pointers, p)
		}

		// several pointers, in another order than the one of the list:
		asked := []references.Pointer{pointers[len(pointers)-1]}
		want := [][]byte{expected[len(expected)-1].data}
		for i, p := range pointers {
			asked = append(asked, p)
			want = append(want, expected[i].data)
		}
		datas, err := app.ReadAll(ctx, asked)
		if err != nil {
			return fmt.Errorf("ReadAll: %v", err)
		}
		if len(datas) != len(want) {
			return fmt.Errorf("ReadAll returns %d contents, %d asked", len(datas), len(want))
		}
		for i := range want {
			if !bytes.Equal(datas[i], want[i]) {
				return fmt.Errorf("ReadAll returns %s at %d, %s was committed", brief(datas[i]), i, brief(want[i]))
			}
		}
		bad, err := pointerOf(uint(total), 1)
		if err == nil {
			if _, err := app.ReadAll(ctx, append(append([]references.Pointer{}, pointers...), bad)); err == nil {
				return fmt.Errorf("ReadAll with a pointer outside of the data succeeds")
			}
		}
	}

	// no two contents share their bytes:
	sort.Slice(spans, func(i, j int) bool { return spans[i][0] < spans[j][0] })
	for i := 1; i < len(spans); i++ {
		if spans[i-1][0]+spans[i-1][1] > spans[i][0] {
			return fmt.Errorf("the pointers (%d, %d) and (%d, %d) overlap", spans[i-1][0], spans[i-1][1], spans[i][0], spans[i][1])
		}
	}

	// pointers outside of the data:
	t := uint(total)
	for _, p := range [][2]uint{{t, 1}, {0, t + 1}, {t + 1, 1}, {1 << 63, 1 << 63}, {1<<64 - 1, 1}, {1<<64 - 1, 2}, {0, 1<<64 - 1}, {1, 1<<64 - 1},
		{1<<63 - 1, 1}, {0, 1<<63 - 1}, {1<<64 - 8, 8}, {1<<64 - 8, 9}} {
		bad, err := pointerOf(p[0], p[1])
		if err != nil {
			continue
		}
		if data, err := app.Read(ctx, bad); err == nil {
			return fmt.Errorf("the pointer (%d, %d) is outside of the %d bytes of data but Read returns %s", p[0], p[1], total, brief(data))
		}
	}
	return nil
}

func pointerOf(from uint, length uint) (references.Pointer, error) {
	return references.NewPointerBuilder().Create().From(from).WithLength(length).Now()
}

func brief(b []byte) string {
	if len(b) <= 12 {
		return fmt.Sprintf("%d bytes (%x)", len(b), b)
	}
	h := sha512.Sum512(b)
	return fmt.Sprintf("%d bytes (%x…, sum %x)", len(b), b[:8], h[:4])
}

// chainMemory remembers the commits that were seen
type chainMemory struct {
	commits []commitMemory
}

type commitMemory struct {
	hash    []byte
	parent  []byte
	created int64
	tree    []byte
	ins     references.Commit
}

// merkle computes the levels of the hash tree of leaves
func merkle(leaves [][]byte) [][][]byte {
	level := append([][]byte{}, leaves...)
	size := 2
	for size < len(level) {
		size *= 2
	}
	empty := sha512.Sum512([]byte(""))
	for len(level) < size {
		level = append(level, empty[:])
	}
	out := [][][]byte{level}
	for len(level) > 1 {
		next := [][]byte{}
		for i := 0; i < len(level); i += 2 {
			s := sha512.Sum512(append(append([]byte{}, level[i]...), level[i+1]...))
			next = append(next, s[:])
		}
		out = append(out, next)
		level = next
	}
	return out
}

// verifyChain verifies that the context shows the chain of commits of the database
func verifyChain(app applications.Application, ctx uint, db mDB, mem *chainMemory) error {
	commits, err := app.Commits(ctx)
	if len(db) <= 0 {
		if err == nil && len(commits.List()) > 0 {
			return fmt.Errorf("the database has no commit but Commits returns %d", len(commits.List()))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("Commits: %v", err)
	}
	list := commits.List()
	if len(list) != len(db) {
		return fmt.Errorf("Commits returns %d commits, there was %d successful commits", len(list), len(db))
	}
	latest := commits.Latest()
	if !bytes.Equal(latest.Hash(), list[len(list)-1].Hash()) {
		return fmt.Errorf("the latest commit is not the last one")
	}

	seen := map[string]int{}
	perCommit := map[string][]references.ContentKey{}
	kinds := map[uint]bool{}
	for _, m := range db.all() {
		kinds[m.kind] = true
	}
	for k := range kinds {
		keys, err := app.ContentKeysByKind(ctx, k)
		if err != nil {
			return fmt.Errorf("ContentKeysByKind(%d): %v", k, err)
		}
		for _, one := range keys.List() {
			perCommit[string(one.Commit())] = append(perCommit[string(one.Commit())], one)
		}
	}

	for i, one := range list {
		if j, ok := seen[string(one.Hash())]; ok {
			return fmt.Errorf("the commits %d and %d have the same hash", j, i)
		}
		seen[string(one.Hash())] = i
		if i == 0 {
			if one.HasParent() {
				return fmt.Errorf("the first commit has a parent")
			}
		} else {
			if !one.HasParent() || one.Parent() == nil {
				return fmt.Errorf("the commit %d has no parent", i)
			}
			if !bytes.Equal(*one.Parent(), list[i-1].Hash()) {
				return fmt.Errorf("the parent of the commit %d is not the commit before it", i)
			}
		}
		if one.HasMine() {
			return fmt.Errorf("the commit %d has a proof", i)
		}

		leaves := [][]byte{}
		for _, m := range db[i] {
			leaves = append(leaves, m.hash)
		}
		if err := verifyTree(one.Values(), leaves); err != nil {
			return fmt.Errorf("the tree of the commit %d: %v", i, err)
		}

		// the content keys of this commit
		expected := map[string]int{}
		for _, m := range db[i] {
			expected[fmt.Sprintf("%x/%d/%d", m.hash, m.kind, len(m.data))]++
		}
		for _, k := range perCommit[string(one.Hash())] {
			expected[fmt.Sprintf("%x/%d/%d", []byte(k.Hash()), k.Kind(), k.Content().Length())]--
		}
		for k, n := range expected {
			if n != 0 {
				return fmt.Errorf("the content keys that name the commit %d are not its contents (%s: %d)", i, k[:6], -n)
			}
		}

		// by hash
		got, err := app.CommitByHash(ctx, toHash(one.Hash()))
		if err != nil {
			return fmt.Errorf("CommitByHash (commit %d): %v", i, err)
		}
		if !bytes.Equal(got.Hash(), one.Hash()) || !got.CreatedOn().Equal(one.CreatedOn()) || !bytes.Equal(got.Values().Head(), one.Values().Head()) ||
			got.HasParent() != one.HasParent() {
			return fmt.Errorf("CommitByHash (commit %d) returns another commit", i)
		}

		m := commitMemory{hash: append([]byte{}, one.Hash()...), created: one.CreatedOn().UnixNano(), tree: append([]byte{}, one.Values().Head()...), ins: one}
		if one.HasParent() {
			m.parent = append([]byte{}, *one.Parent()...)
		}
		if mem == nil {
			continue
		}
		if i < len(mem.commits) {
			o := mem.commits[i]
			if !bytes.Equal(o.hash, m.hash) || !bytes.Equal(o.parent, m.parent) || o.created != m.created || !bytes.Equal(o.tree, m.tree) {
				return fmt.Errorf("the commit %d is not the same as before: (hash %x, time %d, tree %x) then (hash %x, time %d, tree %x)", i, o.hash[:4],
					o.created, o.tree[:4], m.hash[:4], m.created, m.tree[:4])
			}
			if !bytes.Equal(o.ins.Hash(), o.hash) || o.ins.CreatedOn().UnixNano() != o.created {
				return fmt.Errorf("the commit instance %d changed", i)
			}
		} else {
			mem.commits = append(mem.commits, m)
		}
	}
	for h := range perCommit {
		if _, ok := seen[h]; !ok {
			return fmt.Errorf("a content key names a commit that does not exist")
		}
	}
	if got, err := app.CommitByHash(ctx, toHash(hashX)); err == nil {
		return fmt.Errorf("CommitByHash of an unknown hash returns %x", []byte(got.Hash())[:4])
	}
	return nil
}

// verifyAll verifies the contents and the chain through a context
func verifyAll(app applications.Application, ctx uint, db mDB) error {
	if err := verifyContents(app, ctx, db); err != nil {
		return err
	}
	return verifyChain(app, ctx, db, nil)
}

// verifyFresh opens the database with a new application and verifies it
func verifyFresh(dir string, name string, chunk uint, db mDB, verify func(app applications.Application, ctx uint, db mDB) error) error {
	app := newApp(dir, chunk)
	pCtx, err := app.Open(name)
	if err != nil {
		return fmt.Errorf("a new application cannot open the database: %v", err)
	}
	ctx := *pCtx
	if err := verify(app, ctx, db); err != nil {
		app.Close(ctx)
		return fmt.Errorf("in a new application: %v", err)
	}
	if err := app.Close(ctx); err != nil {
		return fmt.Errorf("a new application cannot close the database: %v", err)
	}
	return nil
}

func verifyContentsOnly(app applications.Application, ctx uint, db mDB) error {
	return verifyContents(app, ctx, db)
}

func verifyChainOnly(app applications.Application, ctx uint, db mDB) error {
	return verifyChain(app, ctx, db, nil)
}

// dirOf returns the empty directory of the case
func (c *C) dirOf() string {
	d := filepath.Join(c.scratchDir, "db")
	os.RemoveAll(d)
	return d
}

func listDir(dir string) []string {
	entries, err := os.ReadDir(dir)
	if err != nil {
		return nil
	}
	out := []string{}
	for _, e := range entries {
		out = append(out, e.Name())
	}
	return out
}

// sequences calls fn with each sequence of length n over k symbols; fn returns false to stop
func sequences(k int, n int, fn func(seq []int) bool) {
	seq := make([]int, n)
	for {
		if !fn(append([]int{}, seq...)) {
			return
		}
		i := n - 1
		for i >= 0 {
			seq[i]++
			if seq[i] < k {
				break
			}
			seq[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}
