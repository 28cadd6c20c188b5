package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/juju/fslock"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
)

// dbHistory executes histories on a database, next to its model
type dbHistory struct {
	c       *C
	dir     string
	chunk   uint
	app     applications.Application
	ctx     uint
	name    string
	db      mDB
	pending []mContent
	mem     *chainMemory
	ops     []string
	verify  func(app applications.Application, ctx uint, db mDB) error
}

func newHistory(c *C, chunk uint, verify func(app applications.Application, ctx uint, db mDB) error) (*dbHistory, error) {
	h := &dbHistory{c: c, dir: c.dirOf(), chunk: chunk, name: "base", mem: &chainMemory{}, verify: verify}
	h.app = newApp(h.dir, chunk)
	if err := h.app.New(h.name); err != nil {
		return nil, fmt.Errorf("New: %v", err)
	}
	return h, h.open()
}

func (h *dbHistory) open() error {
	p, err := h.app.Open(h.name)
	if err != nil {
		return fmt.Errorf("Open: %v", err)
	}
	h.ctx = *p
	return nil
}

func (h *dbHistory) write(m mContent) error {
	h.c.Step(1)
	if err := doWrite(h.app, h.ctx, m); err != nil {
		return fmt.Errorf("Write: %v", err)
	}
	h.pending = append(h.pending, m)
	return nil
}

func (h *dbHistory) commit() error {
	h.c.Step(1)
	err := h.app.Commit(h.ctx)
	if len(h.pending) <= 0 {
		if err == nil {
			return fmt.Errorf("a commit with nothing pending succeeds")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("Commit: %v", err)
	}
	h.db = h.db.with(h.pending)
	h.pending = nil
	return nil
}

func (h *dbHistory) cancel() error {
	h.c.Step(1)
	if err := h.app.Cancel(h.ctx); err != nil {
		return fmt.Errorf("Cancel: %v", err)
	}
	h.pending = nil
	return nil
}

func (h *dbHistory) closeOpen(newApplication bool) error {
	h.c.Step(2)
	if err := h.app.Close(h.ctx); err != nil {
		return fmt.Errorf("Close: %v", err)
	}
	h.pending = nil
	if newApplication {
		h.app = newApp(h.dir, h.chunk)
	}
	return h.open()
}

func (h *dbHistory) check(fresh bool) error {
	if err := h.verify(h.app, h.ctx, h.db); err != nil {
		return err
	}
	if fresh {
		return verifyFresh(h.dir, h.name, h.chunk, h.db, h.verify)
	}
	return nil
}

// fingerprint of the model
func (h *dbHistory) fingerprint() string {
	sb := strings.Builder{}
	for _, c := range h.db {
		for _, m := range c {
			fmt.Fprintf(&sb, "%x:%d:%d ", m.hash[:2], m.kind, len(m.data))
		}
		sb.WriteString("| ")
	}
	sb.WriteString("pending ")
	for _, m := range h.pending {
		fmt.Fprintf(&sb, "%x:%d:%d ", m.hash[:2], m.kind, len(m.data))
	}
	return sb.String()
}

type symbol struct {
	name string
	run  func(h *dbHistory) error
}

func wsym(name string, m mContent) symbol {
	return symbol{name, func(h *dbHistory) error { return h.write(m) }}
}

var symCommit = symbol{"commit", func(h *dbHistory) error { return h.commit() }}
var symCancel = symbol{"cancel", func(h *dbHistory) error { return h.cancel() }}
var symReopen = symbol{"close+open", func(h *dbHistory) error { return h.closeOpen(false) }}
var symRestart = symbol{"close+open in a new application", func(h *dbHistory) error { return h.closeOpen(true) }}

func names(syms []symbol, seq []int) string {
	out := []string{}
	for _, i := range seq {
		out = append(out, syms[i].name)
	}
	return strings.Join(out, "; ")
}

// historiesOf explores all the sequences of symbols
func historiesOf(c *C, group string, share float64, syms []symbol, depth int, chunk uint, verify func(h *dbHistory) func(app applications.Application, ctx uint, db mDB) error) {
	c.Group(group, share)
	sequences(len(syms), depth, func(seq []int) bool {
		c.Do(func() string { return fmt.Sprintf("chunk size %d: new; open; %s", chunk, names(syms, seq)) }, func() error {
			h, err := newHistory(c, chunk, nil)
			if err != nil {
				return err
			}
			h.verify = verify(h)
			defer func() { h.app.Close(h.ctx) }()
			for i, s := range seq {
				if err := syms[s].run(h); err != nil {
					return fmt.Errorf("after %s: %v", names(syms, seq[:i+1]), err)
				}
				last := i+1 == len(seq)
				c.State(h.fingerprint())
				isCommit := syms[s].name == symCommit.name
				if last || isCommit || strings.HasPrefix(syms[s].name, "close") {
					if err := h.check(last || isCommit); err != nil {
						return fmt.Errorf("after %s: %v", names(syms, seq[:i+1]), err)
					}
				}
			}
			return nil
		})
		return !c.Over()
	})
}

// sharedContents are the histories of contents that share some of their hash, of their bytes and of their kind
func (c *C) sharedContents(share float64, verify func(h *dbHistory) func(app applications.Application, ctx uint, db mDB) error) {
	syms := []symbol{symCommit}
	for i, hs := range [][]byte{hashA, hashB} {
		for j, d := range [][]byte{fill(1, 6), fill(2, 6)} {
			for _, k := range []uint{2, 1} {
				syms = append(syms, wsym(fmt.Sprintf("write the hash %c with the bytes %d, kind %d", 'A'+i, j, k), mContent{hs, d, k}))
			}
		}
	}
	depth := c.B("shared_contents", 4, 6)
	c.Group("contents that share their hash, their bytes or their kind", share)
	for n := 2; n <= depth; n++ {
		sequences(len(syms), n, func(seq []int) bool {
			if seq[n-1] == 0 || seq[0] == 0 {
				return true // the commit that follows is added, the one that precedes has nothing
			}
			c.Do(func() string { return fmt.Sprintf("new; open; %s; commit", names(syms, seq)) }, func() error {
				h, err := newHistory(c, 3, nil)
				if err != nil {
					return err
				}
				h.verify = verify(h)
				defer func() { h.app.Close(h.ctx) }()
				for i, s := range append(append([]int{}, seq...), 0) {
					if err := syms[s].run(h); err != nil {
						return fmt.Errorf("at the step %d: %v", i+1, err)
					}
					if s == 0 {
						if err := h.check(i == n); err != nil {
							return fmt.Errorf("after the step %d: %v", i+1, err)
						}
					}
				}
				c.State(h.fingerprint())
				return nil
			})
			return !c.Over()
		})
	}
}

// refusedCommits are the histories with commits that are refused: the database is locked, or the name of a temporary
// file is the one of a directory. What is pending stays so, and the commit that succeeds at last contains it.
func (c *C) refusedCommits(share float64, verify func(app applications.Application, ctx uint, db mDB) error) {
	c.Group("commits that are refused", share)
	st := stdContents()
	type sym struct {
		name string
		run  func(h *dbHistory, blocked map[string]func() error) error
	}
	attempt := func(h *dbHistory, blocked map[string]func() error) error {
		if len(blocked) == 0 {
			return h.commit()
		}
		err := h.app.Commit(h.ctx)
		if err == nil {
			if len(h.pending) == 0 {
				return fmt.Errorf("a commit with nothing pending succeeds")
			}
			h.db = h.db.with(h.pending)
			h.pending = nil
		}
		return nil
	}
	block := func(what string) sym {
		return sym{"block or unblock " + what, func(h *dbHistory, blocked map[string]func() error) error {
			path := filepath.Join(h.dir, h.name)
			if undo, ok := blocked[what]; ok {
				delete(blocked, what)
				return undo()
			}
			if what == "lock" {
				l := fslock.New(path)
				blocked[what] = l.Unlock
				return l.TryLock()
			}
			path += "." + what
			blocked[what] = func() error { return os.Remove(path) }
			// what a failed commit has left
			if err := os.Remove(path); err != nil && !os.IsNotExist(err) {
				return err
			}
			return os.Mkdir(path, 0755)
		}}
	}
	of := func(f func(h *dbHistory) error) func(h *dbHistory, blocked map[string]func() error) error {
		return func(h *dbHistory, blocked map[string]func() error) error { return f(h) }
	}
	syms := []sym{
		{"write A", of(func(h *dbHistory) error { return h.write(st[0]) })},
		{"write A'", of(func(h *dbHistory) error { return h.write(st[1]) })},
		{"commit", attempt}, block("lock"), block(dstExt), block(bckExt),
		{"cancel", of(func(h *dbHistory) error { return h.cancel() })},
	}
	depth := c.B("refused_commits", 6, 8)
	text := func(seq []int) string {
		out := []string{}
		for _, i := range seq {
			out = append(out, syms[i].name)
		}
		return strings.Join(out, "; ")
	}
	sequences(len(syms), depth, func(seq []int) bool {
		if seq[0] >= 2 && seq[0] != 3 {
			return true
		}
		commits, blocks := false, false
		for _, i := range seq {
			blocks = blocks || (i >= 3 && i <= 5)
			commits = commits || (i == 2 && blocks)
		}
		if !commits {
			return true // the other histories are those of the other groups
		}
		c.Do(func() string { return text(seq) }, func() error {
			h, err := newHistory(c, 5, verify)
			if err != nil {
				return err
			}
			blocked := map[string]func() error{}
			defer func() {
				for _, undo := range blocked {
					undo()
				}
				h.app.Close(h.ctx)
			}()
			for i, s := range seq {
				if err := syms[s].run(h, blocked); err != nil {
					return fmt.Errorf("after %s: %v", text(seq[:i+1]), err)
				}
				if s == 2 {
					if err := h.check(false); err != nil {
						return fmt.Errorf("after %s: %v", text(seq[:i+1]), err)
					}
				}
			}
			for what, undo := range blocked {
				delete(blocked, what)
				if err := undo(); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
			}
			if err := h.write(st[2]); err != nil {
				return err
			}
			if err := h.commit(); err != nil {
				return fmt.Errorf("after %s, unblocked: %v", text(seq), err)
			}
			c.State(h.fingerprint())
			if err := h.check(true); err != nil {
				return fmt.Errorf("after %s, unblocked and committed: %v", text(seq), err)
			}
			return nil
		})
		return !c.Over()
	})
}

// recreated are the histories of a database that is deleted and created again, with contents of the same sizes
func (c *C) recreated(share float64, verify func(h *dbHistory) func(app applications.Application, ctx uint, db mDB) error) {
	put := func(name string, m mContent) symbol {
		return symbol{"write and commit " + name, func(h *dbHistory) error {
			if err := h.write(m); err != nil {
				return err
			}
			return h.commit()
		}}
	}
	again := symbol{"close+delete+new+open", func(h *dbHistory) error {
		h.c.Step(4)
		if err := h.app.Close(h.ctx); err != nil {
			return err
		}
		if err := h.app.Delete(h.name); err != nil {
			return err
		}
		if err := h.app.New(h.name); err != nil {
			return err
		}
		h.db, h.pending, h.mem = nil, nil, &chainMemory{}
		h.verify = verify(h)
		return h.open()
	}}
	// the names begin with close: these are verified
	syms := []symbol{put("A", mContent{hashA, fill(1, 9), 1}), put("A with other bytes", mContent{hashA, fill(2, 9), 1}), put("B", mContent{hashB, fill(3, 9), 1}), again, symReopen, wsym("write C", mContent{hashC, fill(4, 5), 1})}
	historiesOf(c, "databases deleted and created again", share, syms, c.B("recreated", 6, 8), 4, verify)
}

var sizeList = []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049,
	4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 131073}
var kindList = []uint{0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, 1 << 31, 1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}
var chunkList = []uint{0, 1, 2, 3, 7, 8, 9, 16, 63, 64, 65, 100, 1000, 4096, 1 << 20, 1<<63 - 1, 1 << 63, 1<<64 - 1}

func stdContents() []mContent {
	return []mContent{
		{hashA, fill(1, 1), 0},
		{hashA, fill(2, 70), 1},
		{hashB, fill(3, 4097), 1},
		{hashC, fill(4, 5), 256},
	}
}

func checkD01(c *C) {
	conts := func(h *dbHistory) func(app applications.Application, ctx uint, db mDB) error {
		return verifyContentsOnly
	}
	st := stdContents()
	syms := []symbol{
		wsym("write A (1 byte, kind 0)", st[0]),
		wsym("write A' (70 bytes, kind 1)", st[1]),
		wsym("write B (4097 bytes, kind 1)", st[2]),
		symCommit, symCancel, symReopen, symRestart,
	}
	historiesOf(c, "histories", 0.5, syms, c.B("history_depth", 6, 8), 7, conts)

	// longer, with less symbols
	small := []symbol{wsym("write A", st[0]), wsym("write A'", st[1]), symCommit, symRestart}
	historiesOf(c, "long histories", 0.4, small, c.B("long_history_depth", 8, 10), 100, conts)

	// every size, in one commit or two, under each structure
	c.Group("sizes", 0.5)
	nSizes := c.B("sizes", len(sizeList), len(sizeList))
	for i := 0; i < nSizes; i++ {
		for j := 0; j < nSizes; j++ {
			for _, chunk := range []uint{0, 4096, 1000} {
				if !c.thorough() && (i+j)%3 != int(chunk)%3 && i != j {
					continue
				}
				i, j, chunk := i, j, chunk
				c.Do(func() string {
					return fmt.Sprintf("chunk size %d: write A (%d bytes), B (%d bytes); commit; write A (%d bytes); commit; write B (%d bytes); commit", chunk, sizeList[i], sizeList[j], sizeList[j], sizeList[i])
				}, func() error {
					h, err := newHistory(c, chunk, verifyContentsOnly)
					if err != nil {
						return err
					}
					defer func() { h.app.Close(h.ctx) }()
					ka, kb := kindList[i%len(kindList)], kindList[(i+j)%len(kindList)]
					steps := []func() error{
						func() error { return h.write(mContent{hashA, fill(i, sizeList[i]), ka}) },
						func() error { return h.write(mContent{hashB, fill(j+100, sizeList[j]), kb}) },
						h.commit,
						func() error { return h.check(true) },
						func() error { return h.write(mContent{hashA, fill(j+200, sizeList[j]), kb}) },
						h.commit,
						func() error { return h.check(false) },
						func() error { return h.closeOpen(true) },
						func() error { return h.check(false) },
						func() error { return h.write(mContent{hashB, fill(i+300, sizeList[i]), ka}) },
						h.commit,
						func() error { return h.check(true) },
					}
					for _, s := range steps {
						if err := s(); err != nil {
							return err
						}
					}
					c.State(h.fingerprint())
					return nil
				})
			}
		}
	}

	c.meetings(0.2, 800, conts)

	c.sharedContents(0.2, conts)

	c.recreated(0.2, conts)

	c.dbScale(0.4, 300, conts)

	c.nearHashes(0.3, conts)

	// many commits, many contents
	c.Group("amounts", 0.6)
	maxContents, maxCommits := c.B("contents_per_commit", 40, 70), c.B("commits", 40, 70)
	for n := 1; n <= maxContents; n++ {
		for k := 1; k <= maxCommits; k += 1 + k/4 {
			for variant := 0; variant < 3; variant++ {
				n, k, variant := n, k, variant
				c.Do(func() string {
					return fmt.Sprintf("%d commits of %d contents, hashes %s", k, n, []string{"distinct", "repeated", "all equal"}[variant])
				}, func() error {
					h, err := newHistory(c, 64, verifyContentsOnly)
					if err != nil {
						return err
					}
					defer func() { h.app.Close(h.ctx) }()
					for i := 0; i < k; i++ {
						for j := 0; j < n; j++ {
							id := i*n + j
							switch variant {
							case 1:
								id = id % 3
							case 2:
								id = 0
							}
							if err := h.write(mContent{sum(fmt.Sprintf("content %d", id)), fill(i*100+j, 1+(i*7+j*3)%40), kindList[(i+j*5)%len(kindList)]}); err != nil {
								return err
							}
						}
						if err := h.commit(); err != nil {
							return err
						}
						if i%5 == 2 {
							if err := h.closeOpen(i%2 == 0); err != nil {
								return err
							}
						}
						if i < 4 || i+1 == k {
							if err := h.check(i+1 == k); err != nil {
								return fmt.Errorf("after the commit %d: %v", i, err)
							}
						}
					}
					c.State(k, n, variant)
					return nil
				})
			}
		}
	}

	// each kind with each other kind
	c.Group("kinds", 0.9)
	for i := range kindList {
		for j := range kindList {
			i, j := i, j
			c.Do(func() string { return fmt.Sprintf("contents of kinds %d and %d", kindList[i], kindList[j]) }, func() error {
				h, err := newHistory(c, 0, verifyContentsOnly)
				if err != nil {
					return err
				}
				defer func() { h.app.Close(h.ctx) }()
				for _, s := range []func() error{
					func() error { return h.write(mContent{hashA, fill(1, 3), kindList[i]}) },
					func() error { return h.write(mContent{hashB, fill(2, 4), kindList[j]}) },
					func() error { return h.write(mContent{hashA, fill(3, 5), kindList[j]}) },
					h.commit,
					func() error { return h.write(mContent{hashC, fill(4, 6), kindList[i]}) },
					h.commit,
					func() error { return h.check(true) },
				} {
					if err := s(); err != nil {
						return err
					}
				}
				c.State(i, j)
				return nil
			})
		}
	}
}

func checkD04(c *C) {
	chain := func(h *dbHistory) func(app applications.Application, ctx uint, db mDB) error {
		return func(app applications.Application, ctx uint, db mDB) error { return verifyChain(app, ctx, db, h.mem) }
	}
	st := stdContents()
	syms := []symbol{
		wsym("write A (1 byte, kind 0)", st[0]),
		wsym("write A' (70 bytes, kind 1)", st[1]),
		wsym("write B (4097 bytes, kind 1)", st[2]),
		symCommit, symCancel, symReopen, symRestart,
	}
	historiesOf(c, "histories", 0.5, syms, c.B("history_depth", 6, 8), 9, chain)
	small := []symbol{wsym("write A", st[0]), symbol{"write A; commit", func(h *dbHistory) error {
		if err := h.write(st[0]); err != nil {
			return err
		}
		return h.commit()
	}}, symCommit, symRestart}
	historiesOf(c, "long histories", 0.5, small, c.B("long_history_depth", 8, 10), 0, chain)

	c.sharedContents(0.2, chain)

	c.recreated(0.2, chain)

	c.dbScale(0.4, 300, chain)

	c.nearHashes(0.3, chain)

	c.Group("amounts", 0.9)
	maxContents, maxCommits := c.B("contents_per_commit", 40, 70), c.B("commits", 40, 70)
	for n := 1; n <= maxContents; n++ {
		for k := 1; k <= maxCommits; k += 1 + k/3 {
			for variant := 0; variant < 3; variant++ {
				n, k, variant := n, k, variant
				c.Do(func() string {
					return fmt.Sprintf("%d commits of %d contents, hashes %s", k, n, []string{"distinct", "repeated", "all equal"}[variant])
				}, func() error {
					h, err := newHistory(c, 64, nil)
					if err != nil {
						return err
					}
					h.verify = chain(h)
					defer func() { h.app.Close(h.ctx) }()
					for i := 0; i < k; i++ {
						for j := 0; j < n; j++ {
							id := i*n + j
							switch variant {
							case 1:
								id = id % 3
							case 2:
								id = 0
							}
							if err := h.write(mContent{sum(fmt.Sprintf("content %d", id)), fill(i*100+j, 1+(i*7+j*3)%40), uint(j % 2)}); err != nil {
								return err
							}
						}
						if i%4 == 1 {
							// discarded, and written again
							again := h.pending
							if err := h.cancel(); err != nil {
								return err
							}
							for _, m := range again {
								if err := h.write(m); err != nil {
									return err
								}
							}
						}
						if err := h.commit(); err != nil {
							return err
						}
						if i%5 == 2 {
							if err := h.closeOpen(i%2 == 0); err != nil {
								return err
							}
						}
						if i < 4 || i+1 == k {
							if err := h.check(i+1 == k); err != nil {
								return fmt.Errorf("after the commit %d: %v", i, err)
							}
						}
					}
					c.State(k, n, variant)
					return nil
				})
			}
		}
	}
}

// d02World has two databases, with a context on each, and a second application with a context on the first
type d02World struct {
	c     *C
	dir   string
	app   applications.Application
	names [2]string
	ctx   [2]uint
	pend  [2][]mContent
	db    [2]mDB
	// second application
	other        applications.Application
	otherCtx     uint
	otherPend    []mContent
	otherSeen    mDB
	otherStale   bool
	mainStale    bool
	mainSeenDB   mDB
	contentOrder int
}

func (w *d02World) seen(i int) mDB {
	if i == 0 {
		return w.mainSeenDB
	}
	return w.db[1]
}

func (w *d02World) check() error {
	for i := 0; i < 2; i++ {
		if err := verifyContents(w.app, w.ctx[i], w.seen(i), hashA, hashB, hashC); err != nil {
			return fmt.Errorf("context of %s: %v", w.names[i], err)
		}
		if err := verifyPerCommit(w.app, w.ctx[i], w.seen(i)); err != nil {
			return fmt.Errorf("context of %s: %v", w.names[i], err)
		}
		if err := verifyFresh(w.dir, w.names[i], 0, w.db[i], func(app applications.Application, ctx uint, db mDB) error {
			if err := verifyContents(app, ctx, db, hashA, hashB, hashC); err != nil {
				return err
			}
			return verifyPerCommit(app, ctx, db)
		}); err != nil {
			return fmt.Errorf("database %s: %v", w.names[i], err)
		}
	}
	if err := verifyContents(w.other, w.otherCtx, w.otherSeen, hashA, hashB, hashC); err != nil {
		return fmt.Errorf("context of the second application: %v", err)
	}
	return nil
}

// verifyPerCommit verifies the amount of commits, and the contents that each commit added, in order
func verifyPerCommit(app applications.Application, ctx uint, db mDB) error {
	commits, err := app.Commits(ctx)
	if len(db) <= 0 {
		if err == nil && len(commits.List()) > 0 {
			return fmt.Errorf("there is no commit but Commits returns %d", len(commits.List()))
		}
		return nil
	}
	if err != nil {
		return err
	}
	if len(commits.List()) != len(db) {
		return fmt.Errorf("there are %d commits, expected %d", len(commits.List()), len(db))
	}
	for i, one := range commits.List() {
		leaves := [][]byte{}
		for _, m := range db[i] {
			leaves = append(leaves, m.hash)
		}
		if err := verifyTree(one.Values(), leaves); err != nil {
			return fmt.Errorf("the commit %d is not made of the contents that were pending: %v", i, err)
		}
	}
	return nil
}

func checkD02(c *C) {
	type sym struct {
		name string
		run  func(w *d02World) error
	}
	st := stdContents()
	write := func(i int, m mContent) func(w *d02World) error {
		return func(w *d02World) error {
			if err := doWrite(w.app, w.ctx[i], m); err != nil {
				return err
			}
			w.pend[i] = append(w.pend[i], m)
			return nil
		}
	}
	refused := func(w *d02World) error {
		for _, i := range []int{0, 1} {
			long := append(append([]byte{}, hashB...), 1)
			for _, m := range []mContent{{hashA, nil, 0}, {hashA, []byte{}, 0}, {hashA[:63], []byte{1}, 0}, {nil, []byte{1}, 1}, {long, []byte{2}, 0}, {[]byte{}, []byte{1}, 0}} {
				if err := w.app.Write(w.ctx[i], m.hash, m.data, m.kind); err == nil {
					return fmt.Errorf("a Write with a hash of %d bytes and %d bytes of data is accepted", len(m.hash), len(m.data))
				}
			}
		}
		return nil
	}
	commit := func(i int) func(w *d02World) error {
		return func(w *d02World) error {
			err := w.app.Commit(w.ctx[i])
			if len(w.pend[i]) <= 0 {
				if err == nil {
					return fmt.Errorf("a commit with nothing pending succeeds")
				}
				return nil
			}
			if i == 0 && w.mainStale {
				if err == nil {
					return fmt.Errorf("a commit on a context whose database was replaced succeeds")
				}
				return nil
			}
			if err != nil {
				return err
			}
			w.db[i] = w.db[i].with(w.pend[i])
			w.pend[i] = nil
			if i == 0 {
				w.mainSeenDB = w.db[0]
				w.otherStale = true
			}
			return nil
		}
	}
	cancel := func(i int) func(w *d02World) error {
		return func(w *d02World) error {
			w.pend[i] = nil
			return w.app.Cancel(w.ctx[i])
		}
	}
	reopen := func(i int) func(w *d02World) error {
		return func(w *d02World) error {
			old := w.ctx[i]
			if err := w.app.Close(old); err != nil {
				return err
			}
			w.pend[i] = nil
			if err := w.app.Commit(old); err == nil {
				return fmt.Errorf("a commit on a closed context succeeds")
			}
			p, err := w.app.Open(w.names[i])
			if err != nil {
				return err
			}
			w.ctx[i] = *p
			if i == 0 {
				w.mainStale = false
				w.mainSeenDB = w.db[0]
			}
			return nil
		}
	}
	otherWC := func(w *d02World) error {
		m := mContent{hashC, fill(77+len(w.db[0]), 9), 3}
		if err := doWrite(w.other, w.otherCtx, m); err != nil {
			return err
		}
		w.otherPend = append(w.otherPend, m)
		err := w.other.Commit(w.otherCtx)
		if w.otherStale {
			if err == nil {
				return fmt.Errorf("a commit on a context whose database was replaced succeeds (second application)")
			}
			return nil
		}
		if err != nil {
			return err
		}
		w.db[0] = w.db[0].with(w.otherPend)
		w.otherPend = nil
		w.otherSeen = w.db[0]
		w.mainStale = true
		return nil
	}
	otherReopen := func(w *d02World) error {
		if err := w.other.Close(w.otherCtx); err != nil {
			return err
		}
		p, err := w.other.Open(w.names[0])
		if err != nil {
			return err
		}
		w.otherCtx = *p
		w.otherPend = nil
		w.otherSeen = w.db[0]
		w.otherStale = false
		return nil
	}

	explore := func(group string, share float64, syms []sym, depth int) {
		c.Group(group, share)
		sequences(len(syms), depth, func(seq []int) bool {
			text := func(s []int) string {
				out := []string{}
				for _, i := range s {
					out = append(out, syms[i].name)
				}
				return strings.Join(out, "; ")
			}
			c.Do(func() string { return text(seq) }, func() error {
				w := &d02World{c: c, dir: c.dirOf(), names: [2]string{"first", "second"}}
				w.app = newApp(w.dir, 16)
				w.other = newApp(w.dir, 5)
				for i, n := range w.names {
					if err := w.app.New(n); err != nil {
						return err
					}
					p, err := w.app.Open(n)
					if err != nil {
						return err
					}
					w.ctx[i] = *p
				}
				p, err := w.other.Open(w.names[0])
				if err != nil {
					return err
				}
				w.otherCtx = *p
				defer func() {
					w.app.Close(w.ctx[0])
					w.app.Close(w.ctx[1])
					w.other.Close(w.otherCtx)
				}()
				for i, s := range seq {
					c.Step(1)
					if err := syms[s].run(w); err != nil {
						return fmt.Errorf("after %s: %v", text(seq[:i+1]), err)
					}
					c.State(fmt.Sprint(len(w.db[0]), len(w.db[1]), len(w.pend[0]), len(w.pend[1]), w.mainStale, w.otherStale, len(w.otherPend), seq[:i+1]))
					if i+1 == len(seq) || strings.HasPrefix(syms[s].name, "commit") {
						if err := w.check(); err != nil {
							return fmt.Errorf("after %s: %v", text(seq[:i+1]), err)
						}
					}
				}
				return nil
			})
			return !c.Over()
		})
	}

	wA := sym{"write A on 1", write(0, st[0])}
	wA2 := sym{"write A' on 1", write(0, st[1])}
	wB := sym{"write B on 1", write(0, st[2])}
	wA22 := sym{"write A' on 2", write(1, st[1])}
	ref := sym{"refused writes", refused}
	cm1, cm2 := sym{"commit 1", commit(0)}, sym{"commit 2", commit(1)}
	ca1, ca2 := sym{"cancel 1", cancel(0)}, sym{"cancel 2", cancel(1)}
	ro1 := sym{"close+open 1", reopen(0)}
	ot := sym{"second application: write C; commit", otherWC}
	otr := sym{"second application: close+open", otherReopen}

	c.sharedContents(0.2, func(h *dbHistory) func(app applications.Application, ctx uint, db mDB) error {
		return verifyContentsOnly
	})
	c.refusedCommits(0.2, verifyContentsOnly)
	explore("two contexts", 0.45, []sym{wA, wA2, wA22, cm1, cm2, ca1, ca2, ref}, c.B("depth", 6, 7))
	explore("one context", 0.5, []sym{wA, wB, cm1, ca1, ro1, ref}, c.B("depth_one", 7, 8))
	explore("two applications", 0.9, []sym{wA, cm1, ca1, ro1, ot, otr}, c.B("depth_two_applications", 6, 8))
}

// d03

type d03DB struct {
	id   int
	data mDB
}

type d03Ctx struct {
	name string
	db   *d03DB
	seen mDB
	pend []mContent
}

type d03World struct {
	c      *C
	dir    string
	app    applications.Application
	files  map[string]*d03DB
	ctxs   map[uint]*d03Ctx
	order  []uint // identifiers, in the order of Open
	nextID int
	serial int
	probed map[*d03Ctx]bool
}

func checkD03(c *C) {
	type sym struct {
		name string
		run  func(w *d03World) error
	}

	dbNames := []string{"alpha", "beta"}
	mkNew := func(name string) sym {
		return sym{"New(" + name + ")", func(w *d03World) error {
			err := w.app.New(name)
			if _, ok := w.files[name]; ok {
				if err == nil {
					return fmt.Errorf("New(%s) succeeds while it exists", name)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("New(%s): %v", name, err)
			}
			w.nextID++
			w.files[name] = &d03DB{id: w.nextID}
			return nil
		}}
	}
	mkDelete := func(name string) sym {
		return sym{"Delete(" + name + ")", func(w *d03World) error {
			err := w.app.Delete(name)
			if _, ok := w.files[name]; !ok {
				if err == nil {
					return fmt.Errorf("Delete(%s) succeeds while it does not exist", name)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("Delete(%s): %v", name, err)
			}
			delete(w.files, name)
			return nil
		}}
	}
	mkOpen := func(name string) sym {
		return sym{"Open(" + name + ")", func(w *d03World) error {
			p, err := w.app.Open(name)
			already := false
			for _, x := range w.ctxs {
				if x.name == name {
					already = true
				}
			}
			db, ok := w.files[name]
			if already || !ok {
				if err == nil {
					return fmt.Errorf("Open(%s) succeeds (already open: %t, exists: %t)", name, already, ok)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("Open(%s): %v", name, err)
			}
			for _, o := range w.order {
				if o == *p {
					return fmt.Errorf("Open(%s) returns the identifier %d, that another context had", name, *p)
				}
			}
			id := *p
			w.order = append(w.order, id)
			w.ctxs[id] = &d03Ctx{name: name, db: db, seen: db.data}
			return nil
		}}
	}
	// the context on a name that was opened last, or a closed one, or one that never existed
	type target struct {
		name string
		find func(w *d03World) (uint, bool)
	}
	onName := func(name string) target {
		return target{name, func(w *d03World) (uint, bool) {
			for id, x := range w.ctxs {
				if x.name == name {
					return id, true
				}
			}
			return 0, false
		}}
	}
	targets := []target{onName(dbNames[0]), onName(dbNames[1])}
	mkWrite := func(t target) sym {
		return sym{"write+commit on " + t.name, func(w *d03World) error {
			id, ok := t.find(w)
			if !ok {
				return nil
			}
			x := w.ctxs[id]
			w.serial++
			m := mContent{sum(fmt.Sprintf("serial %d", w.serial)), fill(w.serial, 3+w.serial), uint(w.serial % 2)}
			if err := doWrite(w.app, id, m); err != nil {
				return fmt.Errorf("Write on %s: %v", t.name, err)
			}
			x.pend = append(x.pend, m)
			err := w.app.Commit(id)
			cur, exists := w.files[x.name]
			if !exists || cur != x.db {
				if err == nil {
					return fmt.Errorf("the context of %s was opened on a database that was deleted since, but its commit succeeds", t.name)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("Commit on %s: %v", t.name, err)
			}
			x.db.data = x.db.data.with(x.pend)
			x.pend = nil
			x.seen = x.db.data
			return nil
		}}
	}
	mkPend := func(t target) sym {
		return sym{"write on " + t.name, func(w *d03World) error {
			id, ok := t.find(w)
			if !ok {
				return nil
			}
			w.serial++
			m := mContent{sum(fmt.Sprintf("serial %d", w.serial)), fill(w.serial, 2+w.serial), 0}
			if err := doWrite(w.app, id, m); err != nil {
				return err
			}
			w.ctxs[id].pend = append(w.ctxs[id].pend, m)
			return nil
		}}
	}
	mkCancel := func(t target) sym {
		return sym{"cancel on " + t.name, func(w *d03World) error {
			id, ok := t.find(w)
			if !ok {
				return nil
			}
			w.ctxs[id].pend = nil
			return w.app.Cancel(id)
		}}
	}
	mkClose := func(t target) sym {
		return sym{"close " + t.name, func(w *d03World) error {
			id, ok := t.find(w)
			if !ok {
				return nil
			}
			if err := w.app.Close(id); err != nil {
				return fmt.Errorf("Close of %s: %v", t.name, err)
			}
			delete(w.ctxs, id)
			return nil
		}}
	}
	dead := sym{"operations on closed and unknown identifiers", func(w *d03World) error { return w.dead() }}

	run := func(syms []sym, seq []int, withDir bool) error {
		w := &d03World{c: c, dir: c.dirOf(), files: map[string]*d03DB{}, ctxs: map[uint]*d03Ctx{}}
		if withDir {
			os.MkdirAll(filepath.Join(w.dir, "folder"), 0755)
		}
		w.app = newApp(w.dir, 16)
		defer func() {
			for id := range w.ctxs {
				w.app.Close(id)
			}
		}()
		for i, s := range seq {
			c.Step(1)
			if err := syms[s].run(w); err != nil {
				return err
			}
			if err := w.check(dbNames, withDir, i+1 == len(seq)); err != nil {
				return fmt.Errorf("after the operation %d (%s): %v", i, syms[s].name, err)
			}
			c.State(w.fingerprint())
		}
		return w.dead()
	}
	explore := func(group string, share float64, syms []sym, depth int, withDir bool, prefix []int) {
		c.Group(group, share)
		sequences(len(syms), depth, func(seq []int) bool {
			seq = append(append([]int{}, prefix...), seq...)
			c.Do(func() string {
				out := []string{}
				for _, i := range seq {
					out = append(out, syms[i].name)
				}
				return strings.Join(out, "; ")
			}, func() error { return run(syms, seq, withDir) })
			return !c.Over()
		})
	}

	// names
	reserved := []string{"alpha." + dstExt, "alpha." + bckExt, "." + dstExt, "x." + bckExt + "." + dstExt}
	plain := []string{"alpha", dstExt, bckExt, "alpha" + dstExt, "alpha." + dstExt + "x", "alpha.x", ".hidden", "alpha." + bckExt + ".x", "with space", "é"}
	c.Group("names", 0.2)
	for _, withDir := range []bool{false, true} {
		for _, n := range reserved {
			n, withDir := n, withDir
			c.Do(func() string { return "New of the reserved name " + n }, func() error {
				w := &d03World{c: c, dir: c.dirOf(), files: map[string]*d03DB{}, ctxs: map[uint]*d03Ctx{}}
				if withDir {
					os.MkdirAll(w.dir, 0755)
				}
				w.app = newApp(w.dir, 16)
				before := strings.Join(listDir(w.dir), ",")
				if err := w.app.New(n); err == nil {
					return fmt.Errorf("New(%s) succeeds, its extension is reserved", n)
				}
				if after := strings.Join(listDir(w.dir), ","); after != before {
					return fmt.Errorf("New(%s) is an error but the directory changed from (%s) to (%s)", n, before, after)
				}
				if ok, err := w.app.Exists(n); err != nil || ok {
					return fmt.Errorf("Exists(%s) = %t, %v", n, ok, err)
				}
				return nil
			})
		}
	}
	both := [][2]string{}
	for _, n := range plain {
		for _, m := range plain {
			if n != m {
				both = append(both, [2]string{n, m})
			}
		}
	}
	for _, pair := range nearNames() {
		if !strings.ContainsAny(pair[0]+pair[1], "/\x00") && len(pair[0]) < 200 && len(pair[1]) < 200 {
			both = append(both, pair, [2]string{pair[1], pair[0]})
		}
	}
	for _, pair := range both {
		n, m := pair[0], pair[1]
		syms := []sym{mkNew(n), mkNew(m), mkOpen(n), mkOpen(m), mkWrite(onName(n)), mkWrite(onName(m)), mkClose(onName(n)), mkDelete(n)}
		c.Do(func() string { return fmt.Sprintf("databases named %q and %q", n, m) }, func() error {
			w := &d03World{c: c, dir: c.dirOf(), files: map[string]*d03DB{}, ctxs: map[uint]*d03Ctx{}}
			w.app = newApp(w.dir, 16)
			defer func() {
				for id := range w.ctxs {
					w.app.Close(id)
				}
			}()
			for _, i := range []int{0, 1, 2, 3, 4, 5, 4, 6, 7, 5, 0, 2, 4, 5} {
				if err := syms[i].run(w); err != nil {
					return fmt.Errorf("%s: %v", syms[i].name, err)
				}
				if err := w.check([]string{n, m}, false, true); err != nil {
					return fmt.Errorf("after %s: %v", syms[i].name, err)
				}
			}
			return nil
		})
	}

	// a directory is no database
	c.Do(func() string { return "a directory in the directory of the databases" }, func() error {
		w := &d03World{c: c, dir: c.dirOf(), files: map[string]*d03DB{}, ctxs: map[uint]*d03Ctx{}}
		os.MkdirAll(filepath.Join(w.dir, "folder"), 0755)
		w.app = newApp(w.dir, 16)
		if ok, err := w.app.Exists("folder"); err != nil || ok {
			return fmt.Errorf("Exists of a directory = %t, %v", ok, err)
		}
		if err := w.app.New("folder"); err == nil {
			return fmt.Errorf("New of a directory succeeds")
		}
		if _, err := w.app.Open("folder"); err == nil {
			return fmt.Errorf("Open of a directory succeeds")
		}
		if err := w.app.Delete("folder"); err == nil {
			return fmt.Errorf("Delete of a directory succeeds")
		}
		if fi, err := os.Stat(filepath.Join(w.dir, "folder")); err != nil || !fi.IsDir() {
			return fmt.Errorf("the directory is gone")
		}
		return nil
	})

	c.scaleContexts(0.2, 300)

	a, b := targets[0], targets[1]
	explore("databases", 0.35, []sym{mkNew("alpha"), mkNew("beta"), mkDelete("alpha"), mkOpen("alpha"), mkOpen("beta"), mkWrite(a), mkWrite(b), mkClose(a), dead},
		c.B("depth_databases", 6, 7), false, nil)
	explore("contexts", 0.6, []sym{mkNew("alpha"), mkNew("beta"), mkOpen("alpha"), mkOpen("beta"), mkWrite(a), mkPend(a), mkWrite(b), mkPend(b), mkCancel(a), mkClose(a), mkClose(b)},
		c.B("depth_contexts", 5, 6), false, []int{0, 1, 2, 3})
	explore("one database", 0.7, []sym{mkNew("alpha"), mkDelete("alpha"), mkOpen("alpha"), mkWrite(a), mkPend(a), mkClose(a)}, c.B("depth_one", 7, 9), false, nil)

	// many contexts: identifiers are never used twice
	c.Group("identifiers", 0.9)
	n := c.B("contexts", 5, 6)
	sequences(2*n, c.B("identifier_depth", 5, 6), func(seq []int) bool {
		c.Do(func() string { return fmt.Sprintf("open (even) or close (odd) the databases: %v", seq) }, func() error {
			w := &d03World{c: c, dir: c.dirOf(), files: map[string]*d03DB{}, ctxs: map[uint]*d03Ctx{}}
			w.app = newApp(w.dir, 16)
			defer func() {
				for id := range w.ctxs {
					w.app.Close(id)
				}
			}()
			all := []string{}
			for i := 0; i < n; i++ {
				all = append(all, fmt.Sprintf("db%d", i))
				if err := mkNew(all[i]).run(w); err != nil {
					return err
				}
			}
			for _, s := range seq {
				c.Step(1)
				t := onName(all[s/2])
				one := mkOpen(all[s/2])
				if s%2 == 1 {
					one = mkClose(t)
				}
				if err := one.run(w); err != nil {
					return err
				}
			}
			for i := range all {
				if err := mkWrite(onName(all[i])).run(w); err != nil {
					return err
				}
			}
			return w.check(all, false, true)
		})
		return !c.Over()
	})
}

func (w *d03World) fingerprint() string {
	out := ""
	for _, n := range []string{"alpha", "beta"} {
		if d, ok := w.files[n]; ok {
			out += fmt.Sprintf("%s:%d ", n, len(d.data))
		}
		for _, x := range w.ctxs {
			if x.name == n {
				same := w.files[n] == x.db
				out += fmt.Sprintf("ctx(%d,%d,%t) ", len(x.seen), len(x.pend), same)
			}
		}
	}
	return out
}

// dead calls each operation on identifiers that are not open
func (w *d03World) dead() error {
	ids := []uint{1000, 1<<64 - 1}
	for _, o := range w.order {
		if _, ok := w.ctxs[o]; !ok {
			ids = append(ids, o)
		}
	}
	if len(w.order) == 0 {
		ids = append(ids, 0, 1)
	}
	p, err := pointerOf(0, 1)
	if err != nil {
		return err
	}
	for _, id := range ids {
		errs := map[string]error{}
		errs["Write"] = w.app.Write(id, toHash(hashA), []byte{1}, 0)
		errs["Commit"] = w.app.Commit(id)
		errs["Cancel"] = w.app.Cancel(id)
		errs["Close"] = w.app.Close(id)
		_, errs["Read"] = w.app.Read(id, p)
		_, errs["ReadByHash"] = w.app.ReadByHash(id, toHash(hashA))
		_, errs["Commits"] = w.app.Commits(id)
		_, errs["CommitByHash"] = w.app.CommitByHash(id, toHash(hashA))
		_, errs["ContentKeysByKind"] = w.app.ContentKeysByKind(id, 0)
		_, errs["ReadAll"] = w.app.ReadAll(id, append(append([]pointerT{}, p), p))
		_, errs["ReadAllByHashes"] = w.app.ReadAllByHashes(id, hashesOf(hashA))
		for k, e := range errs {
			if e == nil {
				return fmt.Errorf("%s on the identifier %d, that is not open, succeeds", k, id)
			}
		}
	}
	return nil
}

func (w *d03World) check(all []string, withDir bool, full bool) error {
	for _, n := range all {
		_, ok := w.files[n]
		got, err := w.app.Exists(n)
		if err != nil {
			return fmt.Errorf("Exists(%s): %v", n, err)
		}
		if got != ok {
			return fmt.Errorf("Exists(%s) = %t, expected %t", n, got, ok)
		}
	}
	if ok, err := w.app.Exists("never created"); err != nil || ok {
		return fmt.Errorf("Exists of a name never created = %t, %v", ok, err)
	}
	if !full {
		return nil
	}
	for id, x := range w.ctxs {
		if err := verifyContents(w.app, id, x.seen); err != nil {
			return fmt.Errorf("context %d on %s: %v", id, x.name, err)
		}
	}
	for n, d := range w.files {
		if err := verifyFresh(w.dir, n, 0, d.data, verifyContentsOnly); err != nil {
			return fmt.Errorf("database %s: %v", n, err)
		}
	}
	for _, n := range listDir(w.dir) {
		if _, ok := w.files[n]; ok || strings.HasSuffix(n, "."+dstExt) || strings.HasSuffix(n, "."+bckExt) || (withDir && n == "folder") {
			continue
		}
		return fmt.Errorf("the file %s appeared", n)
	}
	return nil
}

// d08

func checkD08(c *C) {
	st := []mContent{{hashA, fill(1, 1), 0}, {hashA, fill(2, 70), 1}, {hashB, fill(3, 700), 1}, {hashC, fill(4, 64), 256}}
	full := func(h *dbHistory) func(app applications.Application, ctx uint, db mDB) error {
		return func(app applications.Application, ctx uint, db mDB) error {
			if err := verifyContents(app, ctx, db); err != nil {
				return err
			}
			return verifyChain(app, ctx, db, h.mem)
		}
	}
	syms := []symbol{
		wsym("write A (1 byte)", st[0]), wsym("write A' (70 bytes)", st[1]), wsym("write B (700 bytes)", st[2]), symCommit, symCancel, symRestart,
	}
	for i, chunk := range chunkList {
		historiesOf(c, fmt.Sprintf("histories with the chunk size %d", chunk), 0.5/float64(len(chunkList)-i), syms, c.B("history_depth", 4, 5), chunk, full)
	}

	// every chunk size around the sizes of the reference and of the data, read with every other
	c.Group("cross", 0.6)
	maxSize := c.B("data_size", 130, 1200)
	shapes := [][]int{{1}, {64}, {1, 1}, {3, 130}, {100, 1, 28}}
	for si := range shapes {
		// contents per commit
		for commits := 1; commits <= 3; commits++ {
			si, commits := si, commits
			build := func(chunk uint) (*dbHistory, error) {
				h, err := newHistory(c, chunk, nil)
				if err != nil {
					return nil, err
				}
				h.verify = full(h)
				for k := 0; k < commits; k++ {
					for j, s := range shapes[si] {
						if err := h.write(mContent{sum(fmt.Sprintf("%d", j+k)), fill(k*10+j, s), uint(j)}); err != nil {
							return nil, err
						}
					}
					if err := h.commit(); err != nil {
						return nil, err
					}
				}
				return h, nil
			}
			// length of the reference and of the data, measured on the file
			var refLen, dataLen int
			h, err := build(0)
			if err == nil {
				b, _ := os.ReadFile(filepath.Join(h.dir, h.name))
				if len(b) > 8 {
					refLen = int(b[0]) | int(b[1])<<8 | int(b[2])<<16
					dataLen = len(b) - 8 - refLen
				}
				h.app.Close(h.ctx)
			}
			chunks := []uint{0}
			seen := map[uint]bool{0: true}
			add := func(v int) {
				if v > 0 && !seen[uint(v)] {
					seen[uint(v)] = true
					chunks = append(chunks, uint(v))
				}
			}
			for _, base := range []int{refLen, dataLen, refLen + 8, refLen + dataLen + 8} {
				for d := 1; d <= 9; d++ {
					add(base / d)
					add(base/d + 1)
					add(base/d - 1)
				}
				add(base * 2)
			}
			for v := 1; v <= maxSize; v += 1 + v/16 {
				add(v)
			}
			for ci := range chunks {
				ci := ci
				c.Do(func() string {
					return fmt.Sprintf("%d commits of contents of sizes %v with the chunk size %d (reference of %d bytes, data of %d bytes), read with each other", commits, shapes[si], chunks[ci], refLen, dataLen)
				}, func() error {
					h, err := build(chunks[ci])
					if err != nil {
						return err
					}
					defer h.app.Close(h.ctx)
					if err := h.check(true); err != nil {
						return err
					}
					for _, other := range chunks {
						c.Step(1)
						if err := verifyFresh(h.dir, h.name, other, h.db, h.verify); err != nil {
							return fmt.Errorf("read with the chunk size %d: %v", other, err)
						}
					}
					c.State(si, commits, ci)
					return nil
				})
			}
		}
	}

	// same data sizes around multiples of the chunk size, on a second commit
	c.Group("data sizes", 0.9)
	chunkOf := []uint{1, 2, 3, 8, 16, 64, 100}
	limit := c.B("multiples", 4, 12)
	for _, chunk := range chunkOf {
		for mult := 0; mult <= limit; mult++ {
			for d := -1; d <= 1; d++ {
				size := int(chunk)*mult + d
				if size <= 0 {
					continue
				}
				chunk, size := chunk, size
				c.Do(func() string { return fmt.Sprintf("chunk size %d, data of %d bytes, then another commit", chunk, size) }, func() error {
					h, err := newHistory(c, chunk, nil)
					if err != nil {
						return err
					}
					h.verify = full(h)
					defer func() { h.app.Close(h.ctx) }()
					for i := 0; i < 3; i++ {
						if err := h.write(mContent{sum(fmt.Sprint(i)), fill(size+i, size), uint(i)}); err != nil {
							return err
						}
						if err := h.commit(); err != nil {
							return err
						}
						if err := h.check(true); err != nil {
							return err
						}
					}
					for _, other := range []uint{0, 1, 7, uint(size), uint(size + 1)} {
						if err := verifyFresh(h.dir, h.name, other, h.db, h.verify); err != nil {
							return fmt.Errorf("read with the chunk size %d: %v", other, err)
						}
					}
					c.State(int(chunk), size)
					return nil
				})
			}
		}
	}

	// errors are the same whatever the chunk size
	c.Group("refused files", 0.95)
	var base []byte
	if h, err := newHistory(c, 0, nil); err == nil {
		h.write(st[1])
		h.commit()
		base, _ = os.ReadFile(filepath.Join(h.dir, h.name))
		h.app.Close(h.ctx)
	}
	for cut := 0; cut <= len(base); cut++ {
		cut := cut
		c.Do(func() string {
			return fmt.Sprintf("a database cut at %d bytes of %d, opened with each chunk size", cut, len(base))
		}, func() error {
			dir := c.dirOf()
			os.MkdirAll(dir, 0755)
			var first string
			for i, chunk := range append([]uint{uint(len(base)), uint(cut), 13}, chunkList...) {
				os.WriteFile(filepath.Join(dir, "base"), base[:cut], 0644)
				app := newApp(dir, chunk)
				out := outcomeOf(app, "base")
				if i == 0 {
					first = out
				} else if out != first {
					return fmt.Errorf("with the chunk size %d: %s; with the chunk size %d: %s", len(base), first, chunk, out)
				}
			}
			c.State(first)
			return nil
		})
	}
}

// outcomeOf opens a database and tells what is seen
func outcomeOf(app applications.Application, name string) string {
	p, err := app.Open(name)
	if err != nil {
		return "Open: error"
	}
	defer app.Close(*p)
	out := bytes.Buffer{}
	if commits, err := app.Commits(*p); err == nil {
		for _, one := range commits.List() {
			fmt.Fprintf(&out, "commit %x ", []byte(one.Hash())[:4])
		}
	}
	for _, k := range []uint{0, 1, 256} {
		keys, err := app.ContentKeysByKind(*p, k)
		if err != nil {
			continue
		}
		for _, one := range keys.List() {
			data, err := app.Read(*p, one.Content())
			fmt.Fprintf(&out, "content %x %t %s ", []byte(one.Hash())[:4], err == nil, brief(data))
		}
	}
	return out.String()
}

func init() {
	register("D01", "all histories (sequences of operations) up to a depth over contents with equal and different hashes, sizes and kinds; all pairs of sizes; all amounts of contents and commits", checkD01)
	register("D02", "all sequences of writes, refused writes, commits, cancels, re-opens over two databases and two applications", checkD02)
	register("D03", "all sequences of create, delete, open, write, commit, close over two names, dead identifiers, reserved and close names", checkD03)
	register("D04", "all histories up to a depth; all amounts of contents and commits", checkD04)
	register("D08", "all histories under each chunk size; each chunk size around the sizes of the reference and the data, read with each other", checkD08)
}
