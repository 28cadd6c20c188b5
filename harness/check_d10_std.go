package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"

	"github.com/steve-care-software/rodkina/libs/databases/applications"
)

// heldFiles returns the files, under the directory, that this process has open
func heldFiles(dir string) []string {
	entries, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	out := []string{}
	for _, e := range entries {
		p, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(p, dir+"/") {
			out = append(out, p[len(dir)+1:])
		}
	}
	sort.Strings(out)
	return out
}

// isLocked tells if a lock is held on a file
func isLocked(path string) (bool, error) {
	fd, err := syscall.Open(path, syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return false, err
	}
	defer syscall.Close(fd)
	err = syscallFlock(fd, syscall.LOCK_EX|syscall.LOCK_NB)
	if err == syscall.EWOULDBLOCK {
		return true, nil
	}
	return false, err
}

// d10World follows what the operations may keep
type d10World struct {
	dir    string
	app    applications.Application
	dbs    map[string]bool
	open   map[string]uint // the contexts that are open, by database
	others int             // contexts that another application has open
	temps  map[string]bool // temporary files that failed commits could leave
	held   bool            // a lock is held by the harness
}

func newD10World(c *C, chunk uint) *d10World {
	dir := c.dirOf()
	c.d10Count++
	w := &d10World{dir: filepath.Join(dir, fmt.Sprintf("w%d", c.d10Count)), dbs: map[string]bool{}, open: map[string]uint{}, temps: map[string]bool{}}
	w.app = newApp(w.dir, chunk)
	return w
}

func (w *d10World) mayFail(name string) {
	w.temps[name+"."+dstExt] = true
	w.temps[name+"."+bckExt] = true
}

func (w *d10World) new(name string) error {
	err := w.app.New(name)
	if err == nil {
		w.dbs[name] = true
	}
	return err
}

func (w *d10World) openDB(name string) error {
	p, err := w.app.Open(name)
	if err == nil {
		w.open[name] = *p
	}
	return err
}

func (w *d10World) write(name string, size int) error {
	return doWrite(w.app, w.ctx(name), mContent{hashA, fill(7, size), 1})
}

func (w *d10World) ctx(name string) uint {
	if id, ok := w.open[name]; ok {
		return id
	}
	return 999999
}

func (w *d10World) commit(name string) error {
	err := w.app.Commit(w.ctx(name))
	if err == nil {
		delete(w.temps, name+"."+dstExt)
		delete(w.temps, name+"."+bckExt)
	}
	return err
}

func (w *d10World) close(name string) error {
	err := w.app.Close(w.ctx(name))
	delete(w.open, name)
	return err
}

func (w *d10World) delete(name string) error {
	err := w.app.Delete(name)
	if err == nil {
		delete(w.dbs, name)
	}
	return err
}

func (w *d10World) reads(name string) error {
	id := w.ctx(name)
	_, err := w.app.ReadByHash(id, toHash(hashA))
	w.app.ReadByHash(id, toHash(hashX))
	w.app.ReadAllByHashes(id, hashesOf(hashA, hashA, hashX))
	keys, kErr := w.app.ContentKeysByKind(id, 1)
	if kErr == nil {
		for _, one := range keys.List() {
			w.app.Read(id, one.Content())
		}
	}
	p, _ := pointerOf(5, 1<<40)
	w.app.Read(id, p)
	w.app.Commits(id)
	return err
}

// check verifies what is kept
func (w *d10World) check() error {
	held := heldFiles(w.dir)
	if len(held) > len(w.open)+w.others {
		return fmt.Errorf("%d contexts are open, but %d files: %s", len(w.open)+w.others, len(held), strings.Join(held, ", "))
	}
	present := map[string]bool{}
	for _, name := range listDir(w.dir) {
		present[name] = true
		if !w.dbs[name] && !w.temps[name] {
			return fmt.Errorf("the file %s is in the directory, and is not a database", name)
		}
	}
	for name := range w.dbs {
		if !present[name] {
			return fmt.Errorf("the database %s is not in the directory", name)
		}
		if w.held {
			continue
		}
		locked, err := isLocked(filepath.Join(w.dir, name))
		if err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		if locked {
			return fmt.Errorf("the database %s is still locked", name)
		}
	}
	return nil
}

// end closes all, commits once more everywhere, and verifies that nothing is left
func (w *d10World) end() error {
	names := []string{}
	for name := range w.open {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		w.close(name)
		if err := w.check(); err != nil {
			return fmt.Errorf("after closing %s: %v", name, err)
		}
	}
	all := []string{}
	for name := range w.dbs {
		all = append(all, name)
	}
	sort.Strings(all)
	for _, name := range all {
		if w.openDB(name) != nil {
			continue // damaged
		}
		if err := w.write(name, 9); err != nil {
			return err
		}
		if err := w.commit(name); err != nil {
			return fmt.Errorf("the last commit on %s: %v", name, err)
		}
		if err := w.check(); err != nil {
			return fmt.Errorf("after the last commit on %s: %v", name, err)
		}
		if err := w.close(name); err != nil {
			return err
		}
	}
	return w.check()
}

type d10Sym struct {
	name string
	run  func(w *d10World) error
}

func checkD10(c *C) {
	one, two := "alpha", "beta"
	op := func(text string, f func(w *d10World) error) d10Sym { return d10Sym{text, f} }
	syms := []d10Sym{
		op("New(alpha)", func(w *d10World) error { return w.new(one) }),
		op("Open(alpha)", func(w *d10World) error { return w.openDB(one) }),
		op("write+commit(alpha)", func(w *d10World) error { w.write(one, 30); return w.commit(one) }),
		op("Close(alpha)", func(w *d10World) error { return w.close(one) }),
		op("Delete(alpha)", func(w *d10World) error { return w.delete(one) }),
		op("reads(alpha)", func(w *d10World) error { return w.reads(one) }),
		op("commit(alpha) by another application", func(w *d10World) error {
			other := newApp(w.dir, 0)
			p, err := other.Open(one)
			if err != nil {
				return nil
			}
			doWrite(other, *p, mContent{hashB, fill(3, 10), 1})
			if err := other.Commit(*p); err != nil {
				return nil
			}
			return other.Close(*p)
		}),
	}
	more := []d10Sym{
		op("New(alpha)+Open(alpha)", func(w *d10World) error { w.new(one); return w.openDB(one) }),
		op("New(beta)+Open(beta)", func(w *d10World) error { w.new(two); return w.openDB(two) }),
		op("write+commit(alpha)", func(w *d10World) error { w.write(one, 30); return w.commit(one) }),
		op("write+commit(beta)", func(w *d10World) error { w.write(two, 200); return w.commit(two) }),
		op("commit of nothing, unknown contexts, refused writes", func(w *d10World) error {
			w.app.Commit(w.ctx(one))
			w.app.Commit(777777)
			w.app.Close(777777)
			w.app.Cancel(w.ctx(two))
			w.app.Open("nothing")
			w.app.Delete("nothing")
			w.app.New("x." + dstExt)
			w.app.Exists("nothing")
			w.app.Exists(one)
			return nil
		}),
		op("commit(alpha), which is locked", func(w *d10World) error {
			fd, err := syscall.Open(filepath.Join(w.dir, one), syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
			if err != nil {
				return nil
			}
			defer syscall.Close(fd)
			if err := syscallFlock(fd, syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
				return nil
			}
			if _, ok := w.open[one]; !ok {
				return nil
			}
			w.write(one, 11)
			w.mayFail(one)
			w.commit(one)
			return nil
		}),
		op("Open of a damaged database", func(w *d10World) error {
			os.MkdirAll(w.dir, 0755)
			for i, content := range [][]byte{{1}, {9, 0, 0, 0, 0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3}, append([]byte{20, 0, 0, 0, 0, 0, 0, 0}, make([]byte, 40)...)} {
				name := fmt.Sprintf("damaged%d", i)
				os.WriteFile(filepath.Join(w.dir, name), content, 0644)
				w.dbs[name] = true
				w.openDB(name)
			}
			return nil
		}),
		op("Delete(alpha)+New(alpha)", func(w *d10World) error { w.delete(one); return w.new(one) }),
		op("Close(alpha)", func(w *d10World) error { return w.close(one) }),
		op("reads", func(w *d10World) error { w.reads(one); return w.reads(two) }),
	}
	histories := func(group string, share float64, syms []d10Sym, depth int, chunk uint) {
		c.Group(group, share)
		for n := 1; n <= depth; n++ {
			sequences(len(syms), n, func(seq []int) bool {
				c.Do(func() string {
					out := []string{}
					for _, s := range seq {
						out = append(out, syms[s].name)
					}
					return fmt.Sprintf("chunk size %d: %s; close all, and commit again everywhere", chunk, strings.Join(out, "; "))
				}, func() error {
					defer noGC()()
					w := newD10World(c, chunk)
					for i, s := range seq {
						c.Step(1)
						syms[s].run(w)
						if err := w.check(); err != nil {
							return fmt.Errorf("after the operation %d (%s): %v", i, syms[s].name, err)
						}
					}
					c.State(len(w.open), fmt.Sprint(w.dbs), fmt.Sprint(listDir(w.dir)))
					return w.end()
				})
				if c.res.Cases%64 == 0 {
					runtime.GC()
				}
				return !c.Over()
			})
		}
	}
	histories("one database", 0.3, syms, c.B("one_depth", 5, 6), 0)
	histories("two databases, refusals", 0.4, more, c.B("two_depth", 4, 5), 16)

	// an operation that fails at any of its file operations
	type faulted struct {
		name    string
		prepare []d10Sym
		run     func(w *d10World) error
	}
	base := []d10Sym{more[0], more[1]}
	committed := append(append([]d10Sym{}, base...), more[2], more[3])
	all := []faulted{
		{"New", nil, func(w *d10World) error { return w.new(one) }},
		{"New next to others", committed, func(w *d10World) error { return w.new("gamma") }},
		{"Open of a new database", []d10Sym{syms[0]}, func(w *d10World) error { return w.openDB(one) }},
		{"Open", append(append([]d10Sym{}, committed...), syms[3]), func(w *d10World) error { return w.openDB(one) }},
		{"first commit", base, func(w *d10World) error { w.write(one, 40); return w.commit(one) }},
		{"second commit", committed, func(w *d10World) error { w.write(one, 40); return w.commit(one) }},
		{"third commit", append(append([]d10Sym{}, committed...), more[2]), func(w *d10World) error {
			w.write(one, 40)
			w.write(one, 70)
			return w.commit(one)
		}},
		{"commit after one that was refused", append(append([]d10Sym{}, committed...), more[5]), func(w *d10World) error { w.write(one, 40); return w.commit(one) }},
		{"commit of a database that was replaced", append(append([]d10Sym{}, committed...), syms[6]), func(w *d10World) error { w.write(one, 40); return w.commit(one) }},
		{"reads", committed, func(w *d10World) error { w.reads(one); return w.reads(two) }},
		{"Close", committed, func(w *d10World) error { return w.close(one) }},
		{"Cancel, Exists", committed, func(w *d10World) error { w.app.Cancel(w.ctx(one)); _, err := w.app.Exists(one); return err }},
		{"Delete", committed, func(w *d10World) error { return w.delete(two) }},
	}
	after := []d10Sym{
		op("nothing", func(w *d10World) error { return nil }),
		op("the same again", nil),
		op("commit", func(w *d10World) error { w.write(one, 5); return w.commit(one) }),
		op("close, open and commit", func(w *d10World) error { w.close(one); w.openDB(one); w.write(one, 5); return w.commit(one) }),
		op("delete, create, open and commit", func(w *d10World) error {
			w.close(one)
			w.delete(one)
			w.new(one)
			w.openDB(one)
			w.write(one, 5)
			return w.commit(one)
		}),
	}
	c.Group("failures", 0.6)
	for _, chunk := range []uint{0, 32} {
		for _, one := range all {
			for _, then := range after {
				chunk, one, then := chunk, one, then
				c.Do(func() string {
					return fmt.Sprintf("chunk size %d: a failure at each file operation of: %s; then %s", chunk, one.name, then.name)
				}, func() error { return c.d10Faults(chunk, one.prepare, one.run, then) })
				runtime.GC()
			}
		}
	}

	// the reference of a database cut anywhere, altered anywhere
	c.Group("damaged databases", 0.6)
	w := newD10World(c, 0)
	for _, s := range committed {
		s.run(w)
	}
	w.write(one, 7)
	w.commit(one)
	w.close(one)
	w.close(two)
	content, err := os.ReadFile(filepath.Join(w.dir, one))
	if err != nil {
		panic(err)
	}
	ref := int(binary.LittleEndian.Uint64(content)) + 8
	damaged := func(text string, content []byte, chunk uint) {
		c.Do(func() string { return text }, func() error {
			defer noGC()()
			w := newD10World(c, chunk)
			os.MkdirAll(w.dir, 0755)
			if err := os.WriteFile(filepath.Join(w.dir, one), content, 0644); err != nil {
				return err
			}
			w.dbs[one] = true
			w.mayFail(one)
			for i := 0; i < 3; i++ {
				c.Step(5)
				w.openDB(one)
				if err := w.check(); err != nil {
					return fmt.Errorf("after Open: %v", err)
				}
				w.reads(one)
				if err := w.check(); err != nil {
					return fmt.Errorf("after reads: %v", err)
				}
				w.write(one, 3)
				w.commit(one)
				if err := w.check(); err != nil {
					return fmt.Errorf("after a commit: %v", err)
				}
				w.close(one)
				if err := w.check(); err != nil {
					return fmt.Errorf("after Close: %v", err)
				}
			}
			return nil
		})
	}
	step := 1
	if !c.thorough() {
		step = 3
	}
	for cut := 0; cut <= ref && !c.Over(); cut++ {
		damaged(fmt.Sprintf("a database cut at its byte %d", cut), content[:cut], uint(cut%3*16))
	}
	for at := 0; at < ref && !c.Over(); at += step {
		for _, v := range []byte{0, 1, 0xff} {
			altered := append([]byte{}, content...)
			altered[at] ^= v
			if v == 0 {
				altered[at] = 0
			}
			damaged(fmt.Sprintf("a database with its byte %d changed to %d", at, altered[at]), altered, uint(at%3*16))
		}
	}

	// nothing adds up
	c.Group("repetitions", 0.5)
	times := c.B("repetitions", 40, 120)
	for i, s := range append(append([]d10Sym{}, syms...), more...) {
		i, s := i, s
		c.Do(func() string { return fmt.Sprintf("the operation %s (%d), %d times", s.name, i, times) }, func() error {
			defer noGC()()
			w := newD10World(c, 64)
			for _, p := range committed {
				p.run(w)
			}
			for k := 0; k < times; k++ {
				c.Step(1)
				s.run(w)
				if err := w.check(); err != nil {
					return fmt.Errorf("after %d times: %v", k+1, err)
				}
			}
			return w.end()
		})
	}
}

func (c *C) d10Faults(chunk uint, prepare []d10Sym, run func(w *d10World) error, then d10Sym) error {
	defer noGC()()
	world := func() *d10World {
		w := newD10World(c, chunk)
		for _, s := range prepare {
			s.run(w)
		}
		return w
	}
	ops := []opRec{}
	w := world()
	f := newFsx(w.dir)
	f.decide = recorder(&ops, true)
	f.on()
	run(w)
	f.off()
	if err := w.check(); err != nil {
		return fmt.Errorf("without a failure: %v", err)
	}
	if err := w.end(); err != nil {
		return fmt.Errorf("without a failure: %v", err)
	}
	for _, p := range faultPlans(ops) {
		c.Step(2)
		w := world()
		f := newFsx(w.dir)
		f.decide = p.decide
		before := map[string]bool{}
		for _, name := range listDir(w.dir) {
			before[name] = true
		}
		w.mayFail("alpha")
		f.on()
		err := run(w)
		f.off()
		// a creation or a deletion that failed may have been done
		for _, name := range []string{"alpha", "beta", "gamma"} {
			exists, _ := w.app.Exists(name)
			if err == nil {
				if exists != w.dbs[name] {
					return fmt.Errorf("%v: the operation succeeds, but Exists(%s) returns %t", p, name, exists)
				}
				continue
			}
			if exists {
				w.dbs[name] = true
			} else {
				delete(w.dbs, name)
			}
		}
		w.mayFail("alpha")
		if e := w.check(); e != nil {
			return fmt.Errorf("%v (it returned: %v): %v", p, err, e)
		}
		if then.run != nil {
			then.run(w)
		} else {
			run(w)
		}
		if e := w.check(); e != nil {
			return fmt.Errorf("%v (it returned: %v), then %s: %v", p, err, then.name, e)
		}
		if e := w.end(); e != nil {
			return fmt.Errorf("%v (it returned: %v), then %s: %v", p, err, then.name, e)
		}
		c.Exec()
		c.State(p.String(), err == nil)
	}
	return nil
}

func init() {
	register("D10", "each history of operations up to a depth (refused, locked, replaced and damaged databases included), each failure at each file operation of each operation with what follows; after each operation: the files that the process has open, the locks, and the files of the directory", checkD10)
}
