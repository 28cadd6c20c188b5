package main

import (
	"fmt"
	"strings"
)

// sched runs threads one at a time: the running one gives the control at its scheduling points
type sched struct {
	threads  []*sthread
	cur      int
	prefix   []int
	trace    []choicePoint
	steps    int
	maxSteps int
	preempts int
	done     chan struct{}
	log      []string
	keepLog  bool
	deadlock bool
	overrun  bool
}

type sthread struct {
	id      int
	wake    chan struct{}
	ended   bool
	blocked bool
	err     error
	body    func() error
}

type choicePoint struct {
	options    int  // amount of choices
	preempting bool // choosing another than the first preempts the running thread
}

func newSched(prefix []int, maxSteps int) *sched {
	return &sched{prefix: prefix, maxSteps: maxSteps, done: make(chan struct{})}
}

func (s *sched) add(body func() error) {
	s.threads = append(s.threads, &sthread{id: len(s.threads), wake: make(chan struct{}, 1), body: body})
}

// choose picks an option
func (s *sched) choose(options int, preempting bool) int {
	if options <= 1 {
		return 0
	}
	i := len(s.trace)
	s.trace = append(s.trace, choicePoint{options, preempting})
	v := 0
	if i < len(s.prefix) {
		v = s.prefix[i]
		if v >= options {
			v = 0
		}
	}
	if v > 0 && preempting {
		s.preempts++
	}
	return v
}

// enabled lists the threads that can run, the current one first
func (s *sched) enabled() []int {
	out := []int{}
	if s.cur >= 0 && !s.threads[s.cur].ended && !s.threads[s.cur].blocked {
		out = append(out, s.cur)
	}
	for i, t := range s.threads {
		if i != s.cur && !t.ended && !t.blocked {
			out = append(out, i)
		}
	}
	return out
}

// point is a scheduling point of the running thread
func (s *sched) point(label string) {
	me := s.cur
	s.steps++
	if s.keepLog {
		s.log = append(s.log, fmt.Sprintf("%d:%s", me, label))
	}
	if s.steps > s.maxSteps {
		s.overrun = true
		return // no more switch, every thread runs to its end
	}
	opts := s.enabled()
	if len(opts) == 0 {
		// every thread waits
		s.deadlock = true
		for _, t := range s.threads {
			t.blocked = false
		}
		return
	}
	next := opts[s.choose(len(opts), opts[0] == me)]
	if next == me {
		return
	}
	s.cur = next
	s.threads[next].wake <- struct{}{}
	<-s.threads[me].wake
}

// block makes the running thread wait until another one progresses
func (s *sched) block(label string) {
	s.threads[s.cur].blocked = true
	s.point(label)
}

func (s *sched) unblockAll() {
	for _, t := range s.threads {
		t.blocked = false
	}
}

func (s *sched) run() {
	for _, t := range s.threads {
		t := t
		go func() {
			<-t.wake
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.err = fmt.Errorf("panic: %v\n%s", r, shortStack())
					}
				}()
				t.err = t.body()
			}()
			t.ended = true
			s.unblockAll()
			opts := s.enabled()
			if len(opts) == 0 {
				close(s.done)
				return
			}
			v := 0
			if !s.overrun {
				v = s.choose(len(opts), false)
			}
			s.cur = opts[v]
			s.threads[s.cur].wake <- struct{}{}
		}()
	}
	s.cur = -1
	opts := s.enabled()
	s.cur = opts[s.choose(len(opts), false)]
	s.threads[s.cur].wake <- struct{}{}
	<-s.done
}

func choicesText(choices []int) string {
	out := []string{}
	for i, v := range choices {
		if v > 0 {
			out = append(out, fmt.Sprintf("choice %d at the point %d", v, i))
		}
	}
	if len(out) == 0 {
		return "no preemption"
	}
	return strings.Join(out, ", ")
}

// exploreFrom explores every schedule that begins by the prefix, with a bound on preemptions.
// run executes one schedule and returns the choice points it met
func exploreFrom(prefix []int, used int, maxPreempt int, over func() bool, run func(prefix []int) ([]choicePoint, error)) error {
	trace, err := run(prefix)
	if err != nil {
		return err
	}
	for i := len(prefix); i < len(trace); i++ {
		cost := 0
		if trace[i].preempting {
			cost = 1
		}
		if used+cost > maxPreempt {
			continue
		}
		for v := 1; v < trace[i].options; v++ {
			if over() {
				return nil
			}
			next := make([]int, i+1)
			copy(next, prefix)
			next[i] = v
			if err := exploreFrom(next, used+cost, maxPreempt, over, run); err != nil {
				return err
			}
		}
	}
	return nil
}

// exploreSharded splits the exploration in cases: one per first deviation that costs a preemption
func exploreSharded(c *C, name string, maxPoints int, maxOptions int, maxPreempt int, run func(prefix []int) ([]choicePoint, error)) {
	over := func() bool { return c.Over() }
	var split func(prefix []int)
	split = func(prefix []int) {
		// the points of the schedule
		c.Do(func() string { return name + ": " + choicesText(prefix) }, func() error {
			_, err := run(prefix)
			return err
		})
		if c.Over() {
			return
		}
		trace, err := run(prefix)
		if err != nil {
			// reported by the case above, by the shard that executes it
			return
		}
		for i := len(prefix); i < len(trace) && i < maxPoints; i++ {
			for v := 1; v <= maxOptions && v < trace[i].options; v++ {
				next := make([]int, i+1)
				copy(next, prefix)
				next[i] = v
				if !trace[i].preempting {
					split(next)
					continue
				}
				if maxPreempt < 1 {
					continue
				}
				c.Do(func() string {
					return fmt.Sprintf("%s: %s, up to %d preemptions", name, choicesText(next), maxPreempt)
				}, func() error {
					return exploreFrom(next, 1, maxPreempt, over, run)
				})
				if c.Over() {
					return
				}
			}
		}
	}
	split(nil)
}
