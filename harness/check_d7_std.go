package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strings"
	"syscall"

	"github.com/steve-care-software/rodkina/libs/databases/applications"
)

// d07Run is one execution of applications on the same databases
type d07Run struct {
	s     *sched
	dir   string
	f     *fsx
	clock int
	acks  []d07Ack
	reads []d07Read
	news  map[string][]error
	flock map[int]bool
	base  mDB
	apps  []applications.Application
}

type d07Ack struct {
	thread  int
	begin   int
	end     int
	content []mContent
	err     error
}

type d07Read struct {
	thread    int
	openBegin int
	end       int
	seen      [][]mContent
	err       error
}

func (r *d07Run) tick() int {
	r.clock++
	return r.clock
}

// decide makes a scheduling point of each file operation
func (r *d07Run) decide(f *fsx, c *syscall.VerifCall, path string, mutating bool) {
	switch c.Name {
	case "Seek", "Fchmod":
		c.Run()
		return
	case "Close":
		if !r.flock[c.Fd] {
			c.Run()
			return
		}
	}
	label := ""
	if r.s.keepLog {
		label = f.text(c, path)
	}
	r.s.point(label)
	if c.Name == "Flock" && c.Flags&syscall.LOCK_NB == 0 && c.Flags&(syscall.LOCK_EX|syscall.LOCK_SH) != 0 {
		// a lock that waits
		for {
			err := syscallFlock(c.Fd, c.Flags|syscall.LOCK_NB)
			if err != syscall.EWOULDBLOCK || r.s.overrun || r.s.deadlock {
				c.Err = err
				break
			}
			r.s.block("wait " + label)
		}
		if c.Err == nil {
			r.flock[c.Fd] = true
		}
		return
	}
	if c.Name == "Close" {
		delete(r.flock, c.Fd)
		c.Run()
		r.s.unblockAll()
		return
	}
	c.Run()
	if c.Name == "Flock" {
		if c.Err == nil && c.Flags&syscall.LOCK_UN == 0 {
			r.flock[c.Fd] = true
		}
		r.s.unblockAll()
	}
}

func syscallFlock(fd int, how int) error {
	_, _, e := syscall.Syscall(syscall.SYS_FLOCK, uintptr(fd), uintptr(how), 0)
	if e != 0 {
		return e
	}
	return nil
}

// threads

func (r *d07Run) writer(t int, chunk uint, commits int, retry bool) func() error {
	return func() error {
		app := newApp(r.dir, chunk)
		for k := 0; k < commits; k++ {
			p, err := app.Open("base")
			if err != nil {
				return fmt.Errorf("writer %d: Open: %v", t, err)
			}
			if err := r.commit(app, *p, t, k); err != nil && retry {
				if err := app.Close(*p); err != nil {
					return fmt.Errorf("writer %d: Close: %v", t, err)
				}
				p, err = app.Open("base")
				if err != nil {
					return fmt.Errorf("writer %d: Open: %v", t, err)
				}
				r.commit(app, *p, t, k+100)
			}
			if err := app.Close(*p); err != nil {
				return fmt.Errorf("writer %d: Close: %v", t, err)
			}
		}
		return nil
	}
}

// persistentWriter keeps its context between commits
func (r *d07Run) persistentWriter(t int, chunk uint, commits int) func() error {
	return func() error {
		app := newApp(r.dir, chunk)
		p, err := app.Open("base")
		if err != nil {
			return fmt.Errorf("writer %d: Open: %v", t, err)
		}
		for k := 0; k < commits; k++ {
			before := len(r.acks)
			err := r.commit(app, *p, t, k)
			_ = before
			if err == nil {
				// what was committed can be read through the context
				last := r.ackOf(t)
				for _, m := range last.content {
					data, err := app.ReadByHash(*p, toHash(m.hash))
					if err != nil || !bytes.Equal(data, m.data) {
						return fmt.Errorf("writer %d: the commit %d succeeded but ReadByHash returns %s, %v", t, k, brief(data), err)
					}
				}
			} else {
				app.Cancel(*p)
			}
		}
		return app.Close(*p)
	}
}

func (r *d07Run) ackOf(t int) d07Ack {
	for i := len(r.acks) - 1; i >= 0; i-- {
		if r.acks[i].thread == t {
			return r.acks[i]
		}
	}
	return d07Ack{}
}

func (r *d07Run) commit(app applications.Application, ctx uint, t int, k int) error {
	list := []mContent{
		{sum(fmt.Sprintf("writer %d commit %d", t, k)), fill(t*10+k, 60+t), uint(t)},
		{hashA, fill(t*10+k+1000, 30+k), 7},
	}
	for _, m := range list {
		if err := doWrite(app, ctx, m); err != nil {
			return err
		}
	}
	begin := r.tick()
	err := app.Commit(ctx)
	r.acks = append(r.acks, d07Ack{t, begin, r.tick(), list, err})
	return err
}

func (r *d07Run) reader(t int, chunk uint, times int) func() error {
	return func() error {
		app := newApp(r.dir, chunk)
		for i := 0; i < times; i++ {
			begin := r.tick()
			p, err := app.Open("base")
			if err != nil {
				return fmt.Errorf("reader %d: Open: %v", t, err)
			}
			seen, err := readAllOf(app, *p)
			r.reads = append(r.reads, d07Read{t, begin, r.tick(), seen, err})
			if err != nil {
				return fmt.Errorf("reader %d: %v", t, err)
			}
			if err := app.Close(*p); err != nil {
				return fmt.Errorf("reader %d: Close: %v", t, err)
			}
		}
		return nil
	}
}

// readAllOf reads every commit with its contents, through a context
func readAllOf(app applications.Application, ctx uint) ([][]mContent, error) {
	commits, err := app.Commits(ctx)
	if err != nil {
		return nil, nil
	}
	out := [][]mContent{}
	index := map[string]int{}
	for i, one := range commits.List() {
		index[string(one.Hash())] = i
		out = append(out, nil)
		if one.HasParent() != (i > 0) {
			return nil, fmt.Errorf("the parent of the commit %d is wrong", i)
		}
		if i > 0 && !bytes.Equal(*one.Parent(), commits.List()[i-1].Hash()) {
			return nil, fmt.Errorf("the parent of the commit %d is not the one before", i)
		}
	}
	for _, k := range []uint{0, 1, 2, 3, 7, 9} {
		keys, err := app.ContentKeysByKind(ctx, k)
		if err != nil {
			continue
		}
		for _, one := range keys.List() {
			data, err := app.Read(ctx, one.Content())
			if err != nil {
				return nil, fmt.Errorf("Read: %v", err)
			}
			i, ok := index[string(one.Commit())]
			if !ok {
				return nil, fmt.Errorf("a content names an unknown commit")
			}
			out[i] = append(out[i], mContent{one.Hash(), data, k})
		}
	}
	return out, nil
}

func (r *d07Run) creator(t int, use bool) func() error {
	return func() error {
		app := newApp(r.dir, 0)
		err := app.New("base")
		r.news["base"] = append(r.news["base"], err)
		if !use {
			return nil
		}
		p, err := app.Open("base")
		if err != nil {
			// the database is created by the one that succeeded, maybe after this
			return nil
		}
		r.commit(app, *p, t, 0)
		return app.Close(*p)
	}
}

func matchCommit(a []mContent, b []mContent) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		found := false
		for _, y := range b {
			if bytes.Equal(x.hash, y.hash) && bytes.Equal(x.data, y.data) && x.kind == y.kind {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// verify compares the end with what was acknowledged
func (r *d07Run) verify(exists bool) error {
	for i, t := range r.s.threads {
		if t.err != nil {
			return fmt.Errorf("application %d: %v", i, t.err)
		}
	}
	if r.s.deadlock {
		return fmt.Errorf("the applications wait for each other for ever")
	}
	for n, errs := range r.news {
		ok := 0
		for _, e := range errs {
			if e == nil {
				ok++
			}
		}
		if ok != 1 {
			return fmt.Errorf("%d of the %d concurrent creations of %s succeeded", ok, len(errs), n)
		}
	}
	app := newApp(r.dir, 0)
	p, err := app.Open("base")
	if err != nil {
		return fmt.Errorf("at the end, the database cannot be opened: %v", err)
	}
	defer app.Close(*p)
	final, err := readAllOf(app, *p)
	if err != nil {
		return fmt.Errorf("at the end: %v", err)
	}
	if len(final) < len(r.base) {
		return fmt.Errorf("at the end, there are %d commits, there were %d at the beginning", len(final), len(r.base))
	}
	for i := range r.base {
		if !matchCommit(final[i], r.base[i]) {
			return fmt.Errorf("the commit %d, from before, changed", i)
		}
	}
	position := map[int]int{} // of the acknowledged commits
	used := map[int]bool{}
	for ai, a := range r.acks {
		found := -1
		for i := len(r.base); i < len(final); i++ {
			if !used[i] && matchCommit(final[i], a.content) {
				found = i
			}
		}
		if a.err == nil && found < 0 {
			return fmt.Errorf("the commit of the application %d returned success but it is not in the database (%d commits)", a.thread, len(final))
		}
		if a.err != nil && found >= 0 {
			return fmt.Errorf("the commit of the application %d returned an error (%v) but it is in the database", a.thread, a.err)
		}
		if found >= 0 {
			used[found] = true
			position[ai] = found
		}
	}
	for i := len(r.base); i < len(final); i++ {
		if !used[i] {
			return fmt.Errorf("the commit %d of the database, of %d contents, is the one of no application", i, len(final[i]))
		}
	}
	for ai, a := range r.acks {
		for bi, b := range r.acks {
			if a.err == nil && b.err == nil && a.end < b.begin && position[ai] > position[bi] {
				return fmt.Errorf("a commit that was acknowledged before another began is after it")
			}
		}
	}
	for _, rd := range r.reads {
		if len(rd.seen) > len(final) {
			return fmt.Errorf("the reader %d saw %d commits, there are %d", rd.thread, len(rd.seen), len(final))
		}
		for i := range rd.seen {
			if !matchCommit(rd.seen[i], final[i]) {
				return fmt.Errorf("the reader %d saw a commit %d that is not the one of the database", rd.thread, i)
			}
		}
		for ai, a := range r.acks {
			if a.err == nil && a.end < rd.openBegin && position[ai] >= len(rd.seen) {
				return fmt.Errorf("the reader %d opened after a commit was acknowledged, but did not see it", rd.thread)
			}
			if a.err == nil && a.begin > rd.end && position[ai] < len(rd.seen) {
				return fmt.Errorf("the reader %d saw a commit that had not begun", rd.thread)
			}
		}
	}
	return nil
}

type d07Scenario struct {
	name    string
	commits int // before
	exists  bool
	threads func(r *d07Run) []func() error
}

func d07Scenarios() []d07Scenario {
	return []d07Scenario{
		{"two writers, new database", 0, true, func(r *d07Run) []func() error {
			return []func() error{r.writer(1, 0, 1, false), r.writer(2, 0, 1, false)}
		}},
		{"two writers, one commit before", 1, true, func(r *d07Run) []func() error {
			return []func() error{r.writer(1, 50, 1, false), r.writer(2, 0, 1, false)}
		}},
		{"two writers that try again", 1, true, func(r *d07Run) []func() error {
			return []func() error{r.writer(1, 0, 1, true), r.writer(2, 0, 1, true)}
		}},
		{"a writer of two commits and a reader", 1, true, func(r *d07Run) []func() error {
			return []func() error{r.persistentWriter(1, 0, 2), r.reader(2, 100, 1)}
		}},
		{"a writer and a reader, new database", 0, true, func(r *d07Run) []func() error {
			return []func() error{r.writer(1, 0, 2, false), r.reader(2, 64, 2)}
		}},
		{"two writers of two commits on the same contexts", 1, true, func(r *d07Run) []func() error {
			return []func() error{r.persistentWriter(1, 0, 2), r.persistentWriter(2, 0, 2)}
		}},
		{"two creations, in a directory that does not exist", 0, false, func(r *d07Run) []func() error {
			return []func() error{r.creator(1, false), r.creator(2, false)}
		}},
		{"two creations with a commit", 0, false, func(r *d07Run) []func() error {
			return []func() error{r.creator(1, true), r.creator(2, true)}
		}},
	}
}

func d07Three() []d07Scenario {
	return []d07Scenario{
		{"three writers", 1, true, func(r *d07Run) []func() error {
			return []func() error{r.writer(1, 0, 1, false), r.writer(2, 0, 1, false), r.writer(3, 0, 1, false)}
		}},
		{"two writers and a reader", 1, true, func(r *d07Run) []func() error {
			return []func() error{r.writer(1, 0, 1, true), r.writer(2, 0, 1, false), r.reader(3, 80, 1)}
		}},
		{"three creations", 0, false, func(r *d07Run) []func() error {
			return []func() error{r.creator(1, true), r.creator(2, false), r.creator(3, false)}
		}},
	}
}

func (c *C) d07Execute(sc d07Scenario, prefix []int, keepLog bool) ([]choicePoint, error) {
	r := &d07Run{dir: c.dirOf(), news: map[string][]error{}, flock: map[int]bool{}}
	if sc.exists {
		os.MkdirAll(r.dir, 0755)
		app := newApp(r.dir, 0)
		if err := app.New("base"); err != nil {
			return nil, err
		}
		p, err := app.Open("base")
		if err != nil {
			return nil, err
		}
		for i := 0; i < sc.commits; i++ {
			list := []mContent{{sum(fmt.Sprintf("before %d", i)), fill(i, 100), 0}}
			for _, m := range list {
				doWrite(app, *p, m)
			}
			if err := app.Commit(*p); err != nil {
				return nil, err
			}
			r.base = append(r.base, list)
		}
		if err := app.Close(*p); err != nil {
			return nil, err
		}
	}
	s := newSched(prefix, 5000)
	s.keepLog = keepLog
	r.s = s
	for _, b := range sc.threads(r) {
		s.add(b)
	}
	f := newFsx(r.dir)
	r.f = f
	f.decide = r.decide
	f.on()
	s.run()
	f.off()
	err := r.verify(sc.exists)
	f.closeAll()
	c.Step(s.steps)
	c.d07Count++
	if c.d07Count%200 == 0 {
		runtime.GC()
	}
	if err == nil {
		c.Exec()
		oks := ""
		for _, a := range r.acks {
			oks += fmt.Sprintf("%d:%t ", a.thread, a.err == nil)
		}
		for _, rd := range r.reads {
			oks += fmt.Sprintf("r%d ", len(rd.seen))
		}
		c.State(sc.name, oks, s.preempts, prefix)
	}
	if err != nil && !keepLog {
		// again, with its log
		_, err2 := c.d07Execute(sc, prefix, true)
		if err2 != nil {
			err = err2
		}
		return s.trace, err
	}
	if err != nil {
		err = fmt.Errorf("%s: %v\nschedule (application:operation): %s", choicesText(prefix), err, strings.Join(s.log, " "))
	}
	return s.trace, err
}

func checkD07(c *C) {
	old := noGC()
	defer old()
	explore := func(group string, share float64, list []d07Scenario, threads int, preempt int) {
		c.Group(group, share)
		for _, sc := range list {
			sc := sc
			exploreSharded(c, sc.name, 2000, threads-1, preempt, func(prefix []int) ([]choicePoint, error) {
				return c.d07Execute(sc, prefix, false)
			})
		}
	}
	explore("2 applications, 2 preemptions", 0.4, d07Scenarios(), 2, 2)
	explore("3 applications, 1 preemption", 0.5, d07Three(), 3, 1)
	p2 := c.B("preemptions_2_applications", 3, 4)
	explore(fmt.Sprintf("2 applications, %d preemptions", p2), 0.6, d07Scenarios()[:4], 2, p2)
	p3 := c.B("preemptions_3_applications", 2, 3)
	explore(fmt.Sprintf("3 applications, %d preemptions", p3), 0.9, d07Three(), 3, p3)
}

func init() {
	register("D07", "every schedule of the file operations of 2 and 3 applications up to a bound of preemptions", checkD07)
}
