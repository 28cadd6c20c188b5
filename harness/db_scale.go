package main

import (
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/libs/databases/applications"
)

// The scale families of the databases: each dimension of a history is grown alone

func numbered(i int, size int, kind uint) mContent {
	return mContent{sum(fmt.Sprintf("numbered %d", i)), fill(i, size), kind}
}

type scaleHistory struct {
	name string
	max  int
	run  func(h *dbHistory, n int) error
}

func (h *dbHistory) all(list ...func() error) error {
	for _, f := range list {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

func (h *dbHistory) writes(from int, n int, mk func(i int) mContent) error {
	for i := from; i < from+n; i++ {
		if err := h.write(mk(i)); err != nil {
			return err
		}
	}
	return nil
}

func (h *dbHistory) commits(n int, mk func(i int) mContent) error {
	for i := 0; i < n; i++ {
		if err := h.write(mk(i)); err != nil {
			return err
		}
		if err := h.commit(); err != nil {
			return fmt.Errorf("the commit %d: %v", i, err)
		}
	}
	return nil
}

func scaleHistories() []scaleHistory {
	small := func(i int) mContent { return numbered(i, 1+i%11, uint(i%3)) }
	same := func(i int) mContent { return mContent{hashA, fill(i, 1+i%7), uint(i % 2)} }
	full := func(h *dbHistory) error { return h.check(true) }
	return []scaleHistory{
		{"contents in one commit", 300, func(h *dbHistory, n int) error {
			return h.all(func() error { return h.writes(0, n, small) }, h.commit, func() error { return full(h) },
				func() error { return h.write(numbered(n, 3, 1)) }, h.commit, func() error { return h.write(mContent{sum("numbered 0"), fill(7, 9), 0}) }, h.commit, func() error { return full(h) })
		}},
		{"contents of one hash in one commit", 300, func(h *dbHistory, n int) error {
			return h.all(func() error { return h.writes(0, n, same) }, h.commit, func() error { return full(h) }, func() error { return h.write(same(n)) }, h.commit, func() error { return full(h) })
		}},
		{"commits", 300, func(h *dbHistory, n int) error {
			return h.all(func() error { return h.commits(n, small) }, func() error { return full(h) }, func() error { return h.closeOpen(true) },
				func() error { return h.write(mContent{sum("numbered 0"), fill(7, 9), 0}) }, h.commit, func() error { return full(h) })
		}},
		{"commits of one hash", 300, func(h *dbHistory, n int) error {
			return h.all(func() error { return h.commits(n, same) }, func() error { return full(h) })
		}},
		{"commits after each of which the database is opened again", 129, func(h *dbHistory, n int) error {
			for i := 0; i < n; i++ {
				if err := h.all(func() error { return h.writes(3*i, 3, small) }, h.commit, func() error { return h.closeOpen(i%2 == 0) }); err != nil {
					return fmt.Errorf("the commit %d: %v", i, err)
				}
			}
			return full(h)
		}},
		{"discarded contents, then a commit", 300, func(h *dbHistory, n int) error {
			return h.all(func() error { return h.write(same(0)) }, h.commit, func() error { return h.writes(0, n, small) }, h.cancel, h.commit, func() error { return full(h) },
				func() error { return h.writes(n, 2, small) }, h.commit, func() error { return full(h) })
		}},
		{"cancels", 300, func(h *dbHistory, n int) error {
			for i := 0; i < n; i++ {
				if err := h.all(func() error { return h.writes(i, 1+i%3, small) }, h.cancel); err != nil {
					return err
				}
			}
			return h.all(func() error { return h.writes(n, 2, small) }, h.commit, func() error { return full(h) })
		}},
		{"kinds", 300, func(h *dbHistory, n int) error {
			return h.all(func() error { return h.writes(0, n, func(i int) mContent { return numbered(i, 2, uint(i)) }) }, h.commit,
				func() error { return h.writes(n, n, func(i int) mContent { return numbered(i, 3, uint(2*n-1-i)) }) }, h.commit, func() error { return full(h) })
		}},
		{"reads between the writes", 130, func(h *dbHistory, n int) error {
			for i := 0; i < n; i++ {
				if err := h.write(small(i)); err != nil {
					return err
				}
				if err := h.check(false); err != nil {
					return fmt.Errorf("after the write %d, that is not committed: %v", i, err)
				}
				if i%8 == 7 {
					if err := h.commit(); err != nil {
						return err
					}
				}
			}
			return full(h)
		}},
		{"contents of 4096 bytes", 257, func(h *dbHistory, n int) error {
			return h.all(func() error {
				return h.writes(0, n, func(i int) mContent { return numbered(i, 4096, uint(i%2)) })
			}, h.commit, func() error { return full(h) }, func() error { return h.write(numbered(n, 4095, 1)) }, h.commit, func() error { return full(h) })
		}},
		{"commits of a content of 65537 bytes", 33, func(h *dbHistory, n int) error {
			return h.all(func() error {
				return h.commits(n, func(i int) mContent { return numbered(i%5, 65537-i, uint(i%2)) })
			}, func() error { return full(h) })
		}},
		{"contents that grow, then shrink", 130, func(h *dbHistory, n int) error {
			for i := 0; i < n; i++ {
				size := 1 + i*i
				if i > n/2 {
					size = 1 + (n-i)*(n-i)
				}
				if err := h.write(mContent{sum(fmt.Sprintf("grow %d", i%7)), fill(i, size), uint(i % 4)}); err != nil {
					return err
				}
				if i%3 == 2 || i+1 == n {
					if err := h.commit(); err != nil {
						return err
					}
				}
			}
			return full(h)
		}},
	}
}

func (c *C) dbScale(share float64, max int, verify func(h *dbHistory) func(app applications.Application, ctx uint, db mDB) error) {
	c.Group("sizes of the histories", share)
	if c.thorough() {
		max *= 3
	}
	hs := scaleHistories()
	for _, n := range append(append([]int{}, scaleSizes...), scaleMore...) {
		for _, s := range hs {
			limit := s.max
			if c.thorough() {
				limit *= 3
			}
			if n > limit || n > max {
				continue
			}
			for _, chunk := range []uint{0, 100, 4096} {
				if n > 20 && chunk == 4096 && !c.thorough() {
					continue
				}
				n, s, chunk := n, s, chunk
				c.Do(func() string { return fmt.Sprintf("chunk size %d: %d %s", chunk, n, s.name) }, func() error {
					h, err := newHistory(c, chunk, nil)
					if err != nil {
						return err
					}
					h.verify = verify(h)
					defer func() { h.app.Close(h.ctx) }()
					if err := s.run(h, n); err != nil {
						return err
					}
					c.State(h.fingerprint())
					return nil
				})
			}
		}
	}
}

// scaleContexts grows the amounts of databases and of contexts
func (c *C) scaleContexts(share float64, max int) {
	c.Group("amounts of databases and of contexts", share)
	world := func() *d03World {
		w := &d03World{c: c, dir: c.dirOf(), files: map[string]*d03DB{}, ctxs: map[uint]*d03Ctx{}}
		w.app = newApp(w.dir, 16)
		return w
	}
	for _, n := range scaleSizes {
		if n > max {
			continue
		}
		n := n
		name := func(i int) string { return fmt.Sprintf("db%d", i) }
		c.Do(func() string { return fmt.Sprintf("%d databases, a context on each", n) }, func() error {
			w := world()
			defer func() {
				for id := range w.ctxs {
					w.app.Close(id)
				}
			}()
			all := []string{}
			put := func(id uint, x *d03Ctx, k int) error {
				m := numbered(k, 1+k%9, uint(k%2))
				if err := doWrite(w.app, id, m); err != nil {
					return err
				}
				x.pend = append(x.pend, m)
				return nil
			}
			commit := func(id uint, x *d03Ctx) error {
				if err := w.app.Commit(id); err != nil {
					return err
				}
				x.db.data = x.db.data.with(x.pend)
				x.pend, x.seen = nil, x.db.data
				return nil
			}
			open := func(nm string) error {
				p, err := w.app.Open(nm)
				if err != nil {
					return fmt.Errorf("Open(%s): %v", nm, err)
				}
				for _, o := range w.order {
					if o == *p {
						return fmt.Errorf("Open(%s) returns the identifier %d, that another context had", nm, *p)
					}
				}
				w.order = append(w.order, *p)
				w.ctxs[*p] = &d03Ctx{name: nm, db: w.files[nm], seen: w.files[nm].data}
				return nil
			}
			for i := 0; i < n; i++ {
				all = append(all, name(i))
				if err := w.app.New(name(i)); err != nil {
					return err
				}
				if err := w.app.New(name(i)); err == nil {
					return fmt.Errorf("New(%s) succeeds twice", name(i))
				}
				w.files[name(i)] = &d03DB{id: i}
			}
			for i := 0; i < n; i++ {
				if err := open(name(i)); err != nil {
					return err
				}
			}
			for k, id := range w.order {
				if err := put(id, w.ctxs[id], k); err != nil {
					return err
				}
			}
			for i := range w.order {
				id := w.order[n-1-i]
				if i%4 == 3 {
					w.ctxs[id].pend = nil
					if err := w.app.Cancel(id); err != nil {
						return err
					}
					continue
				}
				if err := commit(id, w.ctxs[id]); err != nil {
					return fmt.Errorf("Commit on the context %d: %v", id, err)
				}
			}
			if err := w.check(all, false, true); err != nil {
				return err
			}
			// every second one is closed, and opened again
			first := append([]uint{}, w.order...)
			for i := 0; i < n; i += 2 {
				if _, err := w.app.Open(name(i)); err == nil {
					return fmt.Errorf("Open(%s) succeeds twice", name(i))
				}
				if err := put(first[i], w.ctxs[first[i]], 1000+i); err != nil {
					return err
				}
				if err := w.app.Close(first[i]); err != nil {
					return err
				}
				delete(w.ctxs, first[i])
			}
			for i := 0; i < n; i += 2 {
				if err := open(name(i)); err != nil {
					return err
				}
			}
			for k, id := range w.order {
				if x, ok := w.ctxs[id]; ok {
					if err := put(id, x, 2000+k); err != nil {
						return err
					}
					if err := commit(id, x); err != nil {
						return fmt.Errorf("Commit on the context %d: %v", id, err)
					}
				}
			}
			// some are deleted, after they are closed
			for i, id := range w.order {
				x, ok := w.ctxs[id]
				if !ok || i%3 != 0 {
					continue
				}
				if err := w.app.Close(id); err != nil {
					return err
				}
				delete(w.ctxs, id)
				if err := w.app.Delete(x.name); err != nil {
					return err
				}
				delete(w.files, x.name)
			}
			c.State(n, len(w.files))
			if err := w.check(all, false, true); err != nil {
				return err
			}
			return w.dead()
		})
		c.Do(func() string {
			return fmt.Sprintf("a database opened and closed %d times, with a context on another that remains", n)
		}, func() error {
			w := world()
			defer func() {
				for id := range w.ctxs {
					w.app.Close(id)
				}
			}()
			for i := 0; i < 2; i++ {
				if err := w.app.New(name(i)); err != nil {
					return err
				}
				w.files[name(i)] = &d03DB{id: i}
			}
			keep, err := w.app.Open(name(1))
			if err != nil {
				return err
			}
			w.order, w.ctxs[*keep] = append(w.order, *keep), &d03Ctx{name: name(1), db: w.files[name(1)]}
			pend := mContent{hashA, fill(1, 5), 0}
			if err := doWrite(w.app, *keep, pend); err != nil {
				return err
			}
			for i := 0; i < n; i++ {
				p, err := w.app.Open(name(0))
				if err != nil {
					return err
				}
				for _, o := range w.order {
					if o == *p {
						return fmt.Errorf("the opening %d returns the identifier %d, that another context had", i, *p)
					}
				}
				w.order = append(w.order, *p)
				if i%3 == 0 {
					m := numbered(i, 4, 1)
					if err := doWrite(w.app, *p, m); err != nil {
						return err
					}
					if err := w.app.Commit(*p); err != nil {
						return err
					}
					w.files[name(0)].data = w.files[name(0)].data.with([]mContent{m})
				}
				if err := w.app.Close(*p); err != nil {
					return err
				}
			}
			if err := w.app.Commit(*keep); err != nil {
				return err
			}
			w.files[name(1)].data = w.files[name(1)].data.with([]mContent{pend})
			w.ctxs[*keep].seen = w.files[name(1)].data
			if err := w.check([]string{name(0), name(1)}, false, true); err != nil {
				return err
			}
			return w.dead()
		})
		c.Do(func() string { return fmt.Sprintf("a database made and deleted %d times", n) }, func() error {
			w := world()
			for i := 0; i < n; i++ {
				if err := w.app.New("alpha"); err != nil {
					return err
				}
				w.files["alpha"] = &d03DB{id: i}
				p, err := w.app.Open("alpha")
				if err != nil {
					return err
				}
				m := numbered(i, 4, 1)
				if err := doWrite(w.app, *p, m); err != nil {
					return err
				}
				if err := w.app.Commit(*p); err != nil {
					return err
				}
				w.files["alpha"].data = mDB{{m}}
				w.order = append(w.order, *p)
				if err := w.app.Close(*p); err != nil {
					return err
				}
				if i%7 == 0 || i+1 == n {
					if err := w.check([]string{"alpha"}, false, true); err != nil {
						return err
					}
				}
				if err := w.app.Delete("alpha"); err != nil {
					return err
				}
				delete(w.files, "alpha")
			}
			return w.check([]string{"alpha"}, false, true)
		})
		// long names
		if n > 200 {
			continue
		}
		c.Do(func() string { return fmt.Sprintf("names of %d bytes", n) }, func() error {
			w := world()
			a, b := rep("n", n), rep("n", n)+"n"
			for i, nm := range []string{a, b} {
				if err := w.app.New(nm); err != nil {
					return err
				}
				w.files[nm] = &d03DB{id: i}
				p, err := w.app.Open(nm)
				if err != nil {
					return err
				}
				m := numbered(i, 5, 0)
				if err := doWrite(w.app, *p, m); err != nil {
					return err
				}
				if err := w.app.Commit(*p); err != nil {
					return err
				}
				w.files[nm].data = mDB{{m}}
				if err := w.app.Close(*p); err != nil {
					return err
				}
			}
			if err := w.check([]string{a, b}, false, true); err != nil {
				return err
			}
			if err := w.app.Delete(a); err != nil {
				return err
			}
			delete(w.files, a)
			return w.check([]string{a, b}, false, true)
		})
	}
	os.RemoveAll(c.dirOf())
}

// meetings grows the data byte by byte, so that its length meets the lengths of the reference, of the file, and of
// what was added: a coincidence of two of them changes nothing
func (c *C) meetings(share float64, limit int, verify func(h *dbHistory) func(app applications.Application, ctx uint, db mDB) error) {
	c.Group("meetings", share)
	limit = c.B("meetings", limit, 4*limit)
	for n := 1; n <= limit; n++ {
		for _, kind := range []string{"one content", "two contents", "the same length again"} {
			n, kind := n, kind
			c.Do(func() string { return fmt.Sprintf("data of %d bytes (%s), then commits", n, kind) }, func() error {
				h, err := newHistory(c, 0, nil)
				if err != nil {
					return err
				}
				h.verify = verify(h)
				defer func() { h.app.Close(h.ctx) }()
				first := func() error { return h.write(mContent{hashA, fill(n, n), 1}) }
				if kind == "two contents" && n > 1 {
					first = func() error {
						return h.all(func() error { return h.write(mContent{hashA, fill(n, n/2), 1}) }, func() error { return h.write(mContent{hashC, fill(n+1, n-n/2), 2}) })
					}
				}
				second := 3
				if kind == "the same length again" {
					second = n
				}
				if err := h.all(first, h.commit, func() error { return h.write(mContent{hashB, fill(n+2, second), 0}) }, h.commit,
					func() error { return h.check(true) },
					func() error { return h.write(mContent{hashA, fill(n+3, 2), 1}) }, h.commit, func() error { return h.check(true) }); err != nil {
					return err
				}
				c.State("meetings", n, kind)
				return nil
			})
		}
	}
}
