package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"syscall"

	"github.com/steve-care-software/rodkina/libs/databases/applications"
)

// crashPlan stops the world at a mutating operation
type crashPlan struct {
	at   int // mutating operation before which the world stops
	torn int // bytes of the write that reach the file, -1 when it does not begin
}

func (p crashPlan) String() string {
	if p.torn >= 0 {
		return fmt.Sprintf("crash in the mutating operation %d, after %d bytes", p.at, p.torn)
	}
	return fmt.Sprintf("crash before the mutating operation %d", p.at)
}

func (p crashPlan) decide(f *fsx, c *syscall.VerifCall, path string, mutating bool) {
	if f.dead {
		if c.Name == "Close" {
			c.Run()
			return
		}
		c.N, c.Err = -1, syscall.EIO
		return
	}
	if mutating && f.mutates == p.at {
		f.dead = true
		if p.torn > 0 && (c.Name == "write" || c.Name == "pwrite") {
			c.Buf = c.Buf[:p.torn]
			c.Run()
		}
		c.N, c.Err = -1, syscall.EIO
		return
	}
	c.Run()
}

// opRec is a mutating operation that was recorded
type opRec struct {
	name string
	size int
	text string
	// last is true when it closes a file that was written from its beginning
	last bool
}

// recorder executes and records the operations
func recorder(out *[]opRec, all bool) func(f *fsx, c *syscall.VerifCall, path string, mutating bool) {
	return func(f *fsx, c *syscall.VerifCall, path string, mutating bool) {
		if mutating || all {
			*out = append(*out, opRec{c.Name, len(c.Buf), f.text(c, path), c.Name == "Close" && f.flags[c.Fd]&syscall.O_TRUNC != 0})
		}
		c.Run()
	}
}

func tornSizes(n int, deep bool) []int {
	out := []int{}
	add := func(v int) {
		if v <= 0 || v >= n {
			return
		}
		for _, o := range out {
			if o == v {
				return
			}
		}
		out = append(out, v)
	}
	add(1)
	add(n / 2)
	add(n - 1)
	add(4)
	add(8)
	if deep {
		step := 1
		if n > 48 {
			step = n / 24
		}
		for v := step; v < n; v += step {
			add(v)
		}
		for v := 512; v < n && len(out) < 80; v += 512 {
			add(v)
		}
	}
	return out
}

func crashPlans(ops []opRec, deep bool) []crashPlan {
	out := []crashPlan{}
	for i, o := range ops {
		out = append(out, crashPlan{i, -1})
		if o.name == "write" || o.name == "pwrite" {
			for _, t := range tornSizes(o.size, deep) {
				out = append(out, crashPlan{i, t})
			}
		}
	}
	return out
}

// faultWorld is a history that can be executed again and again
type faultWorld struct {
	*dbHistory
}

type finalOp struct {
	name string
	// run executes the operation, and says if the database has a new state when it is done
	run func(h *dbHistory) error
	// after is the state of the database after it
	after func(h *dbHistory) mDB
	// gone tells that the database does not exist after it, fresh that it did not exist before
	gone, fresh bool
}

func crashFinals() []finalOp {
	same := func(h *dbHistory) mDB { return h.db }
	return []finalOp{
		{name: "commit", run: func(h *dbHistory) error { return h.app.Commit(h.ctx) }, after: func(h *dbHistory) mDB {
			if len(h.pending) <= 0 {
				return h.db
			}
			return h.db.with(h.pending)
		}},
		{name: "cancel", run: func(h *dbHistory) error { return h.app.Cancel(h.ctx) }, after: same},
		{name: "close", run: func(h *dbHistory) error { return h.app.Close(h.ctx) }, after: same},
		{name: "write", run: func(h *dbHistory) error { return doWrite(h.app, h.ctx, mContent{hashC, fill(50, 90), 5}) }, after: same},
		{name: "new", run: func(h *dbHistory) error { return h.app.New("other") }, after: same},
		{name: "open", run: func(h *dbHistory) error { _, err := newApp(h.dir, h.chunk).Open(h.name); return err }, after: same},
		{name: "delete", run: func(h *dbHistory) error { return h.app.Delete(h.name) }, after: same, gone: true},
	}
}

// runSeq executes a history, ignoring what is verified elsewhere
func runSeq(c *C, chunk uint, syms []symbol, seq []int) (*dbHistory, error) {
	h, err := newHistory(c, chunk, nil)
	if err != nil {
		return nil, err
	}
	for _, s := range seq {
		if err := syms[s].run(h); err != nil {
			return h, err
		}
	}
	return h, nil
}

// stateOf tells which of the two states the database is in
func stateOf(dir string, name string, chunk uint, old mDB, new mDB) (int, error) {
	errOld := verifyFresh(dir, name, chunk, old, verifyAll)
	if errOld == nil {
		return 0, nil
	}
	errNew := verifyFresh(dir, name, chunk, new, verifyAll)
	if errNew == nil {
		return 1, nil
	}
	return -1, fmt.Errorf("the database is neither in its old state (%v) nor in its new state (%v)", errOld, errNew)
}

// cycle uses the database normally with a new application
func cycle(dir string, name string, chunk uint, db mDB, tag int) (mDB, error) {
	app := newApp(dir, chunk)
	p, err := app.Open(name)
	if err != nil {
		return nil, fmt.Errorf("it cannot be opened: %v", err)
	}
	defer app.Close(*p)
	m := mContent{sum(fmt.Sprintf("after the crash %d", tag)), fill(900+tag, 33+tag), 9}
	if err := doWrite(app, *p, m); err != nil {
		return nil, fmt.Errorf("it cannot be written: %v", err)
	}
	if err := app.Commit(*p); err != nil {
		return nil, fmt.Errorf("it cannot be committed: %v", err)
	}
	db = db.with([]mContent{m})
	if err := verifyAll(app, *p, db); err != nil {
		return nil, fmt.Errorf("after another commit: %v", err)
	}
	return db, verifyFresh(dir, name, chunk, db, verifyAll)
}

func checkD05(c *C) {
	st := []mContent{{hashA, fill(1, 1), 0}, {hashA, fill(2, 70), 1}, {hashB, fill(3, 4097), 1}, {hashC, fill(4, 40000), 256}}
	syms := []symbol{
		wsym("write A (1 byte)", st[0]), wsym("write A' (70 bytes)", st[1]), wsym("write B (4097 bytes)", st[2]), symCommit, symRestart,
	}
	explore := func(group string, share float64, syms []symbol, depth int, finals []finalOp, chunk uint, second bool) {
		c.Group(group, share)
		for n := 0; n <= depth; n++ {
			sequences(len(syms), n, func(seq []int) bool {
				for _, fin := range finals {
					fin := fin
					if n > 0 && fin.name != "commit" && (n == depth && depth > 2) {
						continue
					}
					if fin.name == "commit" && (n == 0 || syms[seq[n-1]].name == symCommit.name || syms[seq[n-1]].name == symRestart.name) {
						continue // nothing is pending
					}
					c.Do(func() string { return fmt.Sprintf("chunk size %d: %s; crash in %s", chunk, names(syms, seq), fin.name) }, func() error {
						defer noGC()()
						return crashAll(c, chunk, syms, seq, fin, second)
					})
					if c.res.Cases%64 == 0 {
						runtime.GC()
					}
				}
				return !c.Over()
			})
		}
	}
	explore("histories", 0.5, syms, c.B("history_depth", 4, 5), crashFinals(), 100, false)
	explore("second crash", 0.6, syms[1:4], c.B("second_crash_depth", 4, 5), crashFinals()[:1], 0, true)
	big := []symbol{wsym("write C (40000 bytes)", st[3]), wsym("write A' (70 bytes)", st[1]), symCommit}
	for _, chunk := range []uint{1000, 1 << 20} {
		explore(fmt.Sprintf("big, chunk size %d", chunk), 0.5, big, c.B("big_depth", 5, 6), crashFinals()[:1], chunk, false)
	}

	// creation of the first database, with its directory
	c.Group("creation", 0.9)
	for _, depth := range []string{"", "a", "a/b"} {
		depth := depth
		c.Do(func() string { return "crash in the creation of the first database, in the directory " + depth }, func() error {
			defer noGC()()
			ops := []opRec{}
			setup := func() (string, *fsx) {
				dir := c.dirOf()
				f := newFsx(dir)
				return dir + "/" + depth, f
			}
			dir, f := setup()
			f.decide = recorder(&ops, false)
			f.on()
			err := newApp(dir, 0).New("base")
			f.closeAll()
			if err != nil {
				return err
			}
			for _, p := range append(crashPlans(ops, true), crashPlan{len(ops), -1}) {
				c.Step(1)
				dir, f := setup()
				f.decide = p.decide
				f.on()
				err := newApp(dir, 0).New("base")
				dead := f.dead
				f.closeAll()
				if !dead && err != nil {
					return err
				}
				app := newApp(dir, 0)
				ok, e := app.Exists("base")
				if e != nil {
					return fmt.Errorf("%v: Exists: %v", p, e)
				}
				if err == nil && !ok {
					return fmt.Errorf("%v: New returned success but the database does not exist", p)
				}
				if !ok {
					if err := app.New("base"); err != nil {
						return fmt.Errorf("%v: New: %v", p, err)
					}
				}
				if err := verifyFresh(dir, "base", 0, nil, verifyAll); err != nil {
					return fmt.Errorf("%v: %v", p, err)
				}
				if _, err := cycle(dir, "base", 0, nil, 1); err != nil {
					return fmt.Errorf("%v: %v", p, err)
				}
				c.State(p.String(), depth)
			}
			return nil
		})
	}
}

// crashAll executes a history for each crash point of its last operation
func crashAll(c *C, chunk uint, syms []symbol, seq []int, fin finalOp, second bool) error {
	ops := []opRec{}
	h, err := runSeq(c, chunk, syms, seq)
	if err != nil {
		return err
	}
	f := newFsx(h.dir)
	f.decide = recorder(&ops, false)
	f.on()
	err = fin.run(h)
	f.off()
	h.app.Close(h.ctx)
	f.closeAll()
	if err != nil {
		return fmt.Errorf("%s: %v", fin.name, err)
	}

	for _, p := range append(crashPlans(ops, c.thorough()), crashPlan{len(ops), -1}) {
		if err := crashOne(c, chunk, syms, seq, fin, p, second); err != nil {
			return fmt.Errorf("%v (operations: %s): %v", p, textOps(ops), err)
		}
		c.Exec()
	}
	return nil
}

func textOps(ops []opRec) string {
	out := []string{}
	for i, o := range ops {
		out = append(out, fmt.Sprintf("%d %s", i, o.text))
	}
	return strings.Join(out, ", ")
}

func crashOne(c *C, chunk uint, syms []symbol, seq []int, fin finalOp, p crashPlan, second bool) error {
	run := func() (*dbHistory, mDB, error, error) {
		c.Step(1)
		h, err := runSeq(c, chunk, syms, seq)
		if err != nil {
			return nil, nil, nil, err
		}
		after := fin.after(h)
		f := newFsx(h.dir)
		f.decide = p.decide
		f.on()
		opErr := fin.run(h)
		dead := f.dead
		f.off()
		// what the process had open is closed by the system
		h.app.Close(h.ctx)
		f.closeAll()
		if !dead && opErr != nil {
			return nil, nil, nil, fmt.Errorf("%s: %v", fin.name, opErr)
		}
		return h, after, opErr, nil
	}

	recovered := func(h *dbHistory, after mDB, opErr error) (mDB, bool, error) {
		app := newApp(h.dir, chunk)
		ok, err := app.Exists(h.name)
		if err != nil {
			return nil, false, fmt.Errorf("Exists: %v", err)
		}
		if fin.gone {
			if opErr == nil && ok {
				return nil, false, fmt.Errorf("it was deleted but exists")
			}
			if !ok {
				return nil, false, nil
			}
		}
		if !ok {
			return nil, false, fmt.Errorf("the database is gone")
		}
		which, err := stateOf(h.dir, h.name, chunk, h.db, after)
		if err != nil {
			return nil, false, err
		}
		if opErr == nil && which == 0 && len(after) != len(h.db) {
			return nil, false, fmt.Errorf("%s returned success but the database is in its old state", fin.name)
		}
		c.State(fin.name, len(h.db), which, p.String(), strings.Join(listDir(h.dir), ","))
		if which == 1 {
			return after, true, nil
		}
		return h.db, true, nil
	}

	h, after, opErr, err := run()
	if err != nil {
		return err
	}
	if fin.name == "new" {
		app := newApp(h.dir, chunk)
		ok, err := app.Exists("other")
		if err != nil {
			return err
		}
		if !ok && opErr == nil {
			return fmt.Errorf("New returned success but the database does not exist")
		}
		if !ok {
			if err := app.New("other"); err != nil {
				return fmt.Errorf("New after the crash: %v", err)
			}
		}
		if err := verifyFresh(h.dir, "other", chunk, nil, verifyAll); err != nil {
			return err
		}
	}
	db, exists, err := recovered(h, after, opErr)
	if err != nil {
		return err
	}
	if !exists {
		app := newApp(h.dir, chunk)
		if err := app.New(h.name); err != nil {
			return fmt.Errorf("New after the crash: %v", err)
		}
		db = nil
	}

	if !second {
		db, err := cycle(h.dir, h.name, chunk, db, 1)
		if err != nil {
			return fmt.Errorf("after the crash: %v", err)
		}
		if _, err := cycle(h.dir, h.name, chunk, db, 2); err != nil {
			return fmt.Errorf("after the crash, second cycle: %v", err)
		}
		// temporary files that are left never prevent from creating it again
		app := newApp(h.dir, chunk)
		if err := app.Delete(h.name); err != nil {
			return fmt.Errorf("Delete after the crash: %v", err)
		}
		if err := app.New(h.name); err != nil {
			return fmt.Errorf("New after the crash: %v", err)
		}
		_, err = cycle(h.dir, h.name, chunk, nil, 3)
		return err
	}

	// a second crash, in the first commit after the first one
	next := func(q crashPlan, ops *[]opRec) error {
		h, after, opErr, err := run()
		if err != nil {
			return err
		}
		db, exists, err := recovered(h, after, opErr)
		if err != nil || !exists {
			return err
		}
		app := newApp(h.dir, chunk)
		pCtx, err := app.Open(h.name)
		if err != nil {
			return err
		}
		m := mContent{sum("second"), fill(901, 40), 9}
		if err := doWrite(app, *pCtx, m); err != nil {
			return err
		}
		f := newFsx(h.dir)
		if ops != nil {
			f.decide = recorder(ops, false)
		} else {
			f.decide = q.decide
		}
		f.on()
		cErr := app.Commit(*pCtx)
		dead := f.dead
		f.off()
		app.Close(*pCtx)
		f.closeAll()
		if cErr != nil && !dead {
			return fmt.Errorf("Commit after the crash: %v", cErr)
		}
		newDB := db.with([]mContent{m})
		which, err := stateOf(h.dir, h.name, chunk, db, newDB)
		if err != nil {
			return err
		}
		if cErr == nil && which == 0 {
			return fmt.Errorf("the commit after the crash returned success but is not there")
		}
		if which == 1 {
			db = newDB
		}
		_, err = cycle(h.dir, h.name, chunk, db, 1)
		return err
	}
	ops := []opRec{}
	if err := next(crashPlan{}, &ops); err != nil {
		return err
	}
	for _, q := range crashPlans(ops, false) {
		if err := next(q, nil); err != nil {
			return fmt.Errorf("then, after the re-start, %v: %v", q, err)
		}
	}
	return nil
}

// faultPlan makes operations fail
type faultPlan struct {
	at         int // operation that fails, among all the operations on the directory
	kind       string
	persistent bool
	state      int
}

func (p *faultPlan) String() string {
	s := "once"
	if p.persistent {
		s = "from then on"
	}
	return fmt.Sprintf("%s at the operation %d, %s", p.kind, p.at, s)
}

func (p *faultPlan) decide(f *fsx, c *syscall.VerifCall, path string, mutating bool) {
	hit := f.count == p.at || (p.persistent && f.count > p.at)
	fail := func(e syscall.Errno) {
		if c.Name == "Close" {
			c.Run() // the descriptor is released, even if it fails
			c.Err = e
			return
		}
		c.N, c.Err = -1, e
	}
	isWrite := c.Name == "write" || c.Name == "pwrite"
	isRead := c.Name == "read" || c.Name == "pread"
	if p.state == 1 && isWrite && strings.HasPrefix(p.kind, "short") {
		// the disk is full since the short write
		fail(syscall.ENOSPC)
		p.state = 2
		if p.persistent {
			p.state = 1
		}
		return
	}
	if !hit {
		c.Run()
		return
	}
	switch p.kind {
	case "EIO":
		fail(syscall.EIO)
	case "ENOSPC":
		if isWrite || mutating {
			fail(syscall.ENOSPC)
			return
		}
		c.Run()
	case "EIO, that loses what was written":
		// the writes that were delayed fail when the file is closed
		if c.Name == "Close" && f.flags[c.Fd]&syscall.O_TRUNC != 0 {
			syscall.RawSyscall(syscall.SYS_FTRUNCATE, uintptr(c.Fd), 0, 0)
			fail(syscall.EIO)
			return
		}
		c.Run()
	case "EMFILE":
		if c.Name == "openat" {
			fail(syscall.EMFILE)
			return
		}
		c.Run()
	case "EINTR":
		if p.state == 0 {
			p.state = 1
			if c.Name == "Close" {
				c.Run()
				c.Err = syscall.EINTR
				return
			}
			c.N, c.Err = -1, syscall.EINTR
			return
		}
		c.Run()
	case "short write then ENOSPC":
		if isWrite && len(c.Buf) > 1 && p.state == 0 {
			c.Buf = c.Buf[:len(c.Buf)/2]
			c.Run()
			p.state = 1
			return
		}
		c.Run()
	case "partial":
		if (isWrite || isRead) && len(c.Buf) > 1 {
			c.Buf = c.Buf[:(len(c.Buf)+1)/2]
		}
		c.Run()
	default:
		c.Run()
	}
}

func faultPlans(ops []opRec) []*faultPlan {
	out := []*faultPlan{}
	for i, o := range ops {
		isWrite := o.name == "write" || o.name == "pwrite"
		isRead := o.name == "read" || o.name == "pread"
		out = append(out, &faultPlan{at: i, kind: "EIO"}, &faultPlan{at: i, kind: "EIO", persistent: true})
		if isWrite || o.name == "openat" || o.name == "Renameat" || o.name == "Mkdirat" || o.name == "linkat" || o.name == "Fallocate" || o.name == "Ftruncate" {
			out = append(out, &faultPlan{at: i, kind: "ENOSPC"}, &faultPlan{at: i, kind: "ENOSPC", persistent: true})
		}
		if o.last {
			out = append(out, &faultPlan{at: i, kind: "EIO, that loses what was written"})
		}
		if o.name == "openat" {
			out = append(out, &faultPlan{at: i, kind: "EMFILE", persistent: true}, &faultPlan{at: i, kind: "EMFILE"})
		}
		if isWrite && o.size > 1 {
			out = append(out, &faultPlan{at: i, kind: "short write then ENOSPC"}, &faultPlan{at: i, kind: "short write then ENOSPC", persistent: true})
		}
		if (isWrite || isRead) && o.size > 1 {
			out = append(out, &faultPlan{at: i, kind: "partial"}, &faultPlan{at: i, kind: "partial", persistent: true})
		}
		if isRead || isWrite || o.name == "openat" || o.name == "Flock" {
			out = append(out, &faultPlan{at: i, kind: "EINTR"})
		}
	}
	return out
}

// faultCase executes a history, an operation with a fault, and what follows
type faultCase struct {
	name string
	// prepare returns what executes the operation, and what verifies its outcome once the fault is gone
	run func(h *dbHistory) (opErr error, verify func(legal bool) error)
}

var continuations = []string{"commit again", "write; commit again", "cancel; write; commit", "close; open; write; commit"}

func commitCase(cont int) faultCase {
	return faultCase{"commit, then " + continuations[cont], func(h *dbHistory) (error, func(legal bool) error) {
		err := h.app.Commit(h.ctx)
		return err, func(legal bool) error {
			if err != nil && legal {
				return fmt.Errorf("the commit fails (%v) while nothing did", err)
			}
			if err == nil {
				h.db = h.db.with(h.pending)
				h.pending = nil
			}
			if e := verifyAll(h.app, h.ctx, h.db); e != nil {
				return fmt.Errorf("the commit returned (%v): %v", err, e)
			}
			if e := verifyFresh(h.dir, h.name, h.chunk, h.db, verifyAll); e != nil {
				return fmt.Errorf("the commit returned (%v): %v", err, e)
			}
			return continueWith(h, cont)
		}
	}}
}

func continueWith(h *dbHistory, cont int) error {
	m := mContent{sum("continuation"), fill(321, 55), 2}
	var steps []func() error
	w := func() error { return h.write(m) }
	switch cont {
	case 0:
		steps = []func() error{h.commit}
	case 1:
		steps = []func() error{w, h.commit}
	case 2:
		steps = []func() error{h.cancel, w, h.commit}
	case 3:
		steps = []func() error{func() error { return h.closeOpen(false) }, w, h.commit}
	}
	for _, s := range steps {
		if err := s(); err != nil {
			return fmt.Errorf("once the fault is gone, %s: %v", continuations[cont], err)
		}
	}
	if err := verifyAll(h.app, h.ctx, h.db); err != nil {
		return fmt.Errorf("once the fault is gone, after %s: %v", continuations[cont], err)
	}
	if err := verifyFresh(h.dir, h.name, h.chunk, h.db, verifyAll); err != nil {
		return fmt.Errorf("once the fault is gone, after %s: %v", continuations[cont], err)
	}
	// and everything works as before
	if err := h.write(mContent{hashA, fill(322, 11), 1}); err != nil {
		return err
	}
	if err := h.commit(); err != nil {
		return fmt.Errorf("once the fault is gone, second commit after %s: %v", continuations[cont], err)
	}
	return verifyFresh(h.dir, h.name, h.chunk, h.db, verifyAll)
}

func otherFaultCases() []faultCase {
	return []faultCase{
		{"new", func(h *dbHistory) (error, func(legal bool) error) {
			err := h.app.New("other")
			return err, func(legal bool) error {
				if err != nil {
					if legal {
						return fmt.Errorf("New fails (%v) while nothing did", err)
					}
					if e := h.app.New("other"); e != nil {
						return fmt.Errorf("New failed (%v) and cannot be repeated: %v", err, e)
					}
				}
				if ok, e := h.app.Exists("other"); e != nil || !ok {
					return fmt.Errorf("New succeeded but Exists returns %t, %v", ok, e)
				}
				if e := verifyFresh(h.dir, "other", h.chunk, nil, verifyAll); e != nil {
					return e
				}
				if _, e := cycle(h.dir, "other", h.chunk, nil, 1); e != nil {
					return e
				}
				return untouched(h)
			}
		}},
		{"open", func(h *dbHistory) (error, func(legal bool) error) {
			app := newApp(h.dir, h.chunk)
			p, err := app.Open(h.name)
			return err, func(legal bool) error {
				if err != nil {
					if legal {
						return fmt.Errorf("Open fails (%v) while nothing did", err)
					}
					var e error
					p, e = app.Open(h.name)
					if e != nil {
						return fmt.Errorf("Open failed (%v) and cannot be repeated: %v", err, e)
					}
				}
				defer app.Close(*p)
				if e := verifyAll(app, *p, h.db); e != nil {
					return fmt.Errorf("Open returned (%v): %v", err, e)
				}
				if e := doWrite(app, *p, mContent{hashC, []byte{1, 2}, 4}); e != nil {
					return e
				}
				if e := app.Commit(*p); e != nil {
					return fmt.Errorf("Commit after Open: %v", e)
				}
				db := h.db.with([]mContent{{hashC, []byte{1, 2}, 4}})
				if e := verifyAll(app, *p, db); e != nil {
					return fmt.Errorf("Open returned (%v), after a commit: %v", err, e)
				}
				return verifyFresh(h.dir, h.name, h.chunk, db, verifyAll)
			}
		}},
		{"write", func(h *dbHistory) (error, func(legal bool) error) {
			m := mContent{hashC, fill(8, 12), 3}
			err := doWrite(h.app, h.ctx, m)
			return err, func(legal bool) error {
				if err == nil {
					h.pending = append(h.pending, m)
				}
				return continueWith(h, 1)
			}
		}},
		{"cancel", func(h *dbHistory) (error, func(legal bool) error) {
			err := h.app.Cancel(h.ctx)
			return err, func(legal bool) error {
				if err == nil {
					h.pending = nil
				}
				return continueWith(h, 1)
			}
		}},
		{"close", func(h *dbHistory) (error, func(legal bool) error) {
			err := h.app.Close(h.ctx)
			return err, func(legal bool) error {
				if err != nil && legal {
					return fmt.Errorf("Close fails (%v) while nothing did", err)
				}
				if err != nil {
					h.app.Close(h.ctx)
				}
				h.pending = nil
				if e := h.open(); e != nil {
					return fmt.Errorf("Close returned (%v): %v", err, e)
				}
				if e := verifyAll(h.app, h.ctx, h.db); e != nil {
					return e
				}
				return continueWith(h, 1)
			}
		}},
		{"reads", func(h *dbHistory) (error, func(legal bool) error) {
			// every read is either an error or right
			last := map[string][]byte{}
			hashes := [][]byte{}
			for _, m := range h.db.all() {
				last[string(m.hash)] = m.data
				hashes = append(hashes, m.hash)
			}
			var wrong error
			any := error(nil)
			for _, x := range hashes {
				data, err := h.app.ReadByHash(h.ctx, toHash(x))
				if err != nil {
					any = err
				} else if string(data) != string(last[string(x)]) {
					wrong = fmt.Errorf("ReadByHash returns %s, not %s", brief(data), brief(last[string(x)]))
				}
			}
			datas, err := h.app.ReadAllByHashes(h.ctx, hashesOf(hashes...))
			if err != nil {
				any = err
			} else {
				for i, x := range hashes {
					if len(datas) != len(hashes) || string(datas[i]) != string(last[string(x)]) {
						wrong = fmt.Errorf("ReadAllByHashes returns something else than the contents")
						break
					}
				}
			}
			for _, k := range []uint{0, 1, 256} {
				expected := []mContent{}
				for _, m := range h.db.all() {
					if m.kind == k {
						expected = append(expected, m)
					}
				}
				keys, err := h.app.ContentKeysByKind(h.ctx, k)
				if err != nil {
					if len(expected) > 0 {
						any = err
					}
					continue
				}
				ps := []pointerT{}
				for i, one := range keys.List() {
					ps = append(ps, one.Content())
					data, err := h.app.Read(h.ctx, one.Content())
					if err != nil {
						any = err
					} else if i >= len(expected) || string(data) != string(expected[i].data) {
						wrong = fmt.Errorf("Read returns %s", brief(data))
					}
				}
				datas, err := h.app.ReadAll(h.ctx, ps)
				if err != nil {
					any = err
				} else {
					for i := range expected {
						if len(datas) != len(expected) || string(datas[i]) != string(expected[i].data) {
							wrong = fmt.Errorf("ReadAll returns something else than the contents")
							break
						}
					}
				}
			}
			return any, func(legal bool) error {
				if wrong != nil {
					return wrong
				}
				if legal && any != nil {
					return fmt.Errorf("a read fails (%v) while nothing did", any)
				}
				if e := verifyAll(h.app, h.ctx, h.db); e != nil {
					return fmt.Errorf("once the fault is gone: %v", e)
				}
				return nil
			}
		}},
		{"exists", func(h *dbHistory) (error, func(legal bool) error) {
			ok, err := h.app.Exists(h.name)
			no, errNo := h.app.Exists("nothing")
			return err, func(legal bool) error {
				if err == nil && !ok {
					return fmt.Errorf("Exists returns false for a database that exists")
				}
				if errNo == nil && no {
					return fmt.Errorf("Exists returns true for a database that does not exist")
				}
				if legal && (err != nil || errNo != nil) {
					return fmt.Errorf("Exists fails while nothing did")
				}
				return untouched(h)
			}
		}},
		{"delete", func(h *dbHistory) (error, func(legal bool) error) {
			err := h.app.Delete(h.name)
			return err, func(legal bool) error {
				ok, e := h.app.Exists(h.name)
				if e != nil {
					return e
				}
				if err == nil && ok {
					return fmt.Errorf("Delete succeeds but the database exists")
				}
				if err == nil {
					return nil
				}
				if legal {
					return fmt.Errorf("Delete fails (%v) while nothing did", err)
				}
				if ok {
					if e := untouched(h); e != nil {
						return e
					}
					if e := h.app.Delete(h.name); e != nil {
						return fmt.Errorf("Delete failed (%v) and cannot be repeated: %v", err, e)
					}
				}
				return nil
			}
		}},
	}
}

func untouched(h *dbHistory) error {
	if err := verifyAll(h.app, h.ctx, h.db); err != nil {
		return err
	}
	return verifyFresh(h.dir, h.name, h.chunk, h.db, verifyAll)
}

func checkD06(c *C) {
	st := []mContent{{hashA, fill(1, 1), 0}, {hashA, fill(2, 70), 1}, {hashB, fill(3, 4097), 1}, {hashC, fill(4, 70000), 256}}
	syms := []symbol{
		wsym("write A (1 byte)", st[0]), wsym("write A' (70 bytes)", st[1]), wsym("write B (4097 bytes)", st[2]), symCommit, symRestart,
	}
	explore := func(group string, share float64, syms []symbol, depth int, cases []faultCase, chunk uint, onlyCommit bool) {
		c.Group(group, share)
		for n := 0; n <= depth; n++ {
			sequences(len(syms), n, func(seq []int) bool {
				for _, fc := range cases {
					fc := fc
					if strings.HasPrefix(fc.name, "commit") && (n == 0 || syms[seq[n-1]].name == symCommit.name || strings.HasPrefix(syms[seq[n-1]].name, "close")) {
						continue
					}
					c.Do(func() string { return fmt.Sprintf("chunk size %d: %s; fault in %s", chunk, names(syms, seq), fc.name) }, func() error {
						defer noGC()()
						return faultAll(c, chunk, syms, seq, fc)
					})
					if c.res.Cases%32 == 0 {
						runtime.GC()
					}
				}
				return !c.Over()
			})
		}
	}
	commits := []faultCase{}
	for i := range continuations {
		commits = append(commits, commitCase(i))
	}
	explore("operations", 0.5, syms[1:], c.B("operation_depth", 3, 4), otherFaultCases(), 64, false)
	explore("everything at once", 0.6, syms[:4], c.B("depth_chunk_zero", 3, 4), append(commits[:1], otherFaultCases()...), 0, true)

	// the first database, with its directory
	c.Group("creation", 0.6)
	for _, sub := range []string{"", "/a", "/a/b"} {
		sub := sub
		c.Do(func() string { return "fault in the creation of the first database, in the directory " + sub }, func() error {
			defer noGC()()
			ops := []opRec{}
			root := c.dirOf()
			f := newFsx(root)
			f.decide = recorder(&ops, true)
			f.on()
			err := newApp(root+sub, 0).New("base")
			f.closeAll()
			if err != nil {
				return err
			}
			for _, p := range faultPlans(ops) {
				c.Step(1)
				root := c.dirOf()
				f := newFsx(root)
				f.decide = p.decide
				app := newApp(root+sub, 0)
				f.on()
				err := app.New("base")
				f.off()
				if err != nil {
					if p.kind == "partial" {
						return fmt.Errorf("%v: New: %v", p, err)
					}
					if e := app.New("base"); e != nil {
						return fmt.Errorf("%v: New failed (%v) and cannot be repeated: %v", p, err, e)
					}
				}
				if e := verifyFresh(root+sub, "base", 0, nil, verifyAll); e != nil {
					return fmt.Errorf("%v: %v", p, e)
				}
				f.closeAll()
				c.State(p.String(), sub)
			}
			return nil
		})
	}

	// every sequence of operations after a commit that fails
	c.Group("what follows", 0.5)
	m1, m2 := mContent{hashC, fill(331, 70), 1}, mContent{hashA, fill(332, 9), 0}
	follow := []symbol{
		wsym("write C", m1), symCommit, symCancel, symReopen,
		{"commit on another database", func(h *dbHistory) error {
			p, err := h.app.Open("second")
			if err != nil {
				return fmt.Errorf("Open of another database: %v", err)
			}
			if err := doWrite(h.app, *p, m1); err != nil {
				return err
			}
			if err := h.app.Commit(*p); err != nil {
				return fmt.Errorf("Commit on another database: %v", err)
			}
			if err := verifyAll(h.app, *p, mDB{{m1}}); err != nil {
				return fmt.Errorf("another database: %v", err)
			}
			if err := h.app.Close(*p); err != nil {
				return err
			}
			return h.app.Delete("second")
		}},
		wsym("write A", m2),
	}
	for _, before := range [][]symbol{{syms[1]}, {syms[1], symCommit, syms[2]}, {syms[1], symCommit, syms[2], syms[1]}} {
		before := before
		for n := 1; n <= c.B("operations_after_a_fault", 3, 4); n++ {
			sequences(len(follow), n, func(seq []int) bool {
				c.Do(func() string {
					all := []int{}
					for i := range before {
						all = append(all, i)
					}
					return fmt.Sprintf("%s; fault in commit; then %s; commit", names(before, all), names(follow, seq))
				}, func() error {
					defer noGC()()
					return faultThen(c, before, follow, seq)
				})
				if c.res.Cases%32 == 0 {
					runtime.GC()
				}
				return !c.Over()
			})
		}
	}

	// two faults: one in the commit, another in the commit that is repeated
	c.Group("two faults", 0.9)
	depth := c.B("two_faults_depth", 2, 3)
	for n := 1; n <= depth; n++ {
		sub := []symbol{syms[1], syms[2], symCommit}
		sequences(len(sub), n, func(seq []int) bool {
			if sub[seq[n-1]].name == symCommit.name {
				return true
			}
			for part := 0; part < 16; part++ {
				part := part
				c.Do(func() string {
					return fmt.Sprintf("%s; fault in commit; fault in commit; commit (part %d of the faults)", names(sub, seq), part)
				}, func() error {
					defer noGC()()
					return twoFaults(c, 100, sub, seq, part)
				})
				runtime.GC()
			}
			return !c.Over()
		})
	}

	explore("commits", 0.5, syms[1:], c.B("commit_depth", 4, 5), commits, 100, true)
	big := []symbol{wsym("write C (70000 bytes)", st[3]), wsym("write A (1 byte)", st[0]), symCommit}
	explore("big", 1, big, c.B("big_commit_depth", 4, 5), commits[:2], 30000, true)
}

func faultAll(c *C, chunk uint, syms []symbol, seq []int, fc faultCase) error {
	ops := []opRec{}
	h, err := runSeq(c, chunk, syms, seq)
	if err != nil {
		return err
	}
	f := newFsx(h.dir)
	f.decide = recorder(&ops, true)
	f.on()
	_, verify := fc.run(h)
	f.off()
	err = verify(true)
	h.app.Close(h.ctx)
	f.closeAll()
	if err != nil {
		return fmt.Errorf("without a fault: %v", err)
	}
	for _, p := range faultPlans(ops) {
		c.Step(1)
		h, err := runSeq(c, chunk, syms, seq)
		if err != nil {
			return err
		}
		f := newFsx(h.dir)
		f.decide = p.decide
		f.on()
		opErr, verify := fc.run(h)
		f.off()
		err = verify(p.kind == "partial")
		h.app.Close(h.ctx)
		f.closeAll()
		if err != nil {
			return fmt.Errorf("%v (operations: %s): %v", p, textOps(ops), err)
		}
		c.Exec()
		c.State(fc.name, p.String(), opErr == nil, len(h.db))
	}
	return nil
}

// faultThen makes each operation of a commit fail, then executes other operations
func faultThen(c *C, before []symbol, follow []symbol, seq []int) error {
	all := []int{}
	for i := range before {
		all = append(all, i)
	}
	for at := -1; ; at++ {
		c.Step(1)
		h, err := runSeq(c, 100, before, all)
		if err != nil {
			return err
		}
		if err := h.app.New("second"); err != nil {
			return err
		}
		p := &faultPlan{at: at, kind: "EIO"}
		f := newFsx(h.dir)
		f.decide = p.decide
		f.on()
		opErr := h.app.Commit(h.ctx)
		f.off()
		amount := f.count
		if opErr == nil {
			h.db = h.db.with(h.pending)
			h.pending = nil
		}
		err = func() error {
			if at < 0 && opErr != nil {
				return opErr
			}
			for _, i := range seq {
				if follow[i].name == "commit on another database" {
					if ok, err := h.app.Exists("second"); err != nil || !ok {
						continue
					}
				}
				if err := follow[i].run(h); err != nil {
					return err
				}
			}
			if err := h.commit(); err != nil {
				return err
			}
			return untouched(h)
		}()
		h.app.Close(h.ctx)
		f.closeAll()
		if err != nil {
			return fmt.Errorf("the commit, where the operation %d failed, returned (%v); then %s; commit: %v", at, opErr, names(follow, seq), err)
		}
		c.Exec()
		c.State(at, opErr == nil, len(h.db))
		if at >= amount {
			return nil
		}
	}
}

func twoFaults(c *C, chunk uint, syms []symbol, seq []int, part int) error {
	first := []opRec{}
	h, err := runSeq(c, chunk, syms, seq)
	if err != nil {
		return err
	}
	f := newFsx(h.dir)
	f.decide = recorder(&first, true)
	f.on()
	h.app.Commit(h.ctx)
	f.off()
	h.app.Close(h.ctx)
	f.closeAll()
	plans := func(ops []opRec) []*faultPlan {
		out := []*faultPlan{}
		for _, p := range faultPlans(ops) {
			if p.kind == "EIO" || (p.kind == "short write then ENOSPC" && p.persistent) {
				out = append(out, p)
			}
		}
		return out
	}
	for i := range plans(first) {
		if i%16 != part {
			continue
		}
		for j := range plans(first) {
			p, q := plans(first)[i], plans(first)[j]
			c.Step(2)
			h, err := runSeq(c, chunk, syms, seq)
			if err != nil {
				return err
			}
			f := newFsx(h.dir)
			f.decide = p.decide
			f.on()
			err1 := h.app.Commit(h.ctx)
			f.off()
			if err1 == nil {
				h.db = h.db.with(h.pending)
				h.pending = nil
				h.write(mContent{hashA, fill(66, 20), 1})
			}
			f.count = 0
			f.decide = q.decide
			f.on()
			err2 := h.app.Commit(h.ctx)
			f.off()
			if err2 == nil {
				h.db = h.db.with(h.pending)
				h.pending = nil
			}
			err = func() error {
				if e := untouched(h); e != nil {
					return e
				}
				return continueWith(h, 0)
			}()
			h.app.Close(h.ctx)
			f.closeAll()
			if err != nil {
				return fmt.Errorf("%v (%v), then %v (%v) (operations: %s): %v", p, err1, q, err2, textOps(first), err)
			}
			c.Exec()
			c.State(p.String(), q.String(), err1 == nil, err2 == nil)
		}
	}
	return nil
}

var _ = os.Getpid
var _ applications.Application

func init() {
	register("D05", "each crash point (before each mutating file operation and in the middle of each write) of the last operation of each history up to a depth; also each second crash in the next commit", checkD05)
	register("D06", "each failure (EIO, a failing close that loses what was written, ENOSPC, EMFILE, EINTR, short write then disk full, legal partial transfers), once or persistent, at each file operation of the last operation of each history, with each continuation; also pairs of faults", checkD06)
}
