package main

import (
	"fmt"
	"sort"
	"strings"

	ast_applications "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	interpreters "github.com/steve-care-software/rodkina/libs/interpreters/applications"
	query_applications "github.com/steve-care-software/rodkina/libs/queries/applications"
	"github.com/steve-care-software/rodkina/libs/zzpoint"
)

func init() {
	register("A10", "every interleaving, up to a bound on preemptions, of two and three calls on shared parser, query and interpreter applications, at each function of the libraries and each statement of the applications; every call made from inside another one at each of its points; and every sequence of calls: each call compared with what it returns alone", checkA10)
}

// a10Apps are the applications that the calls share
type a10Apps struct {
	parser  ast_applications.Application
	queries query_applications.Application
	interp  interpreters.Application
}

func newA10Apps() *a10Apps {
	return &a10Apps{ast_applications.NewApplication(), query_applications.NewApplication(), interpreters.NewApplication(progNames)}
}

// a10Call is a call of an application: prepare makes what is given to it, and is not part of the call
type a10Call struct {
	name    string
	prepare func() func(a *a10Apps) string
}

// run prepares the call and makes it
func (k *a10Call) run(a *a10Apps) string {
	var call func(a *a10Apps) string
	muted(func() { call = k.prepare() })
	return call(a)
}

// a10Muted is whether the points are ignored: the harness reads a result, or prepares a call
var a10Muted bool

func muted(f func()) {
	before := a10Muted
	a10Muted = true
	f()
	a10Muted = before
}

func setPoints(f func()) {
	if f == nil {
		zzpoint.F = nil
		return
	}
	zzpoint.F = func() {
		if !a10Muted {
			f()
		}
	}
}

func quietString(t trees.Tree) (out string) {
	muted(func() { out = realString(t) })
	return
}

func ready(run func(a *a10Apps) string) func() func(a *a10Apps) string {
	return func() func(a *a10Apps) string { return run }
}

func placesText(m map[string]map[uint]map[uint]string) string {
	out := []string{}
	for t, ls := range m {
		for l, es := range ls {
			for e, n := range es {
				out = append(out, fmt.Sprintf("%s.%d.%d=%s", t, l, e, n))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func errText(err error) string {
	if err != nil {
		return "an error"
	}
	return "no error"
}

func callParse(g *gGram, in string) *a10Call {
	return &a10Call{fmt.Sprintf("parse %q by {%s}", in, g.text), ready(func(a *a10Apps) string {
		data := []byte(in)
		t, err := a.parser.Execute(g.real, data)
		if err != nil || t == nil {
			return errText(err)
		}
		return quietString(t) + fmt.Sprintf(" %q %q %q", t.Bytes(true), t.Bytes(false), data)
	})}
}

func callCoverages(g *gGram) *a10Call {
	return &a10Call{fmt.Sprintf("coverages of {%s}", g.text), ready(func(a *a10Apps) string {
		cov, err := a.parser.Coverages(g.real)
		if err != nil || cov == nil {
			return errText(err)
		}
		out := []string{}
		for _, o := range cov.List() {
			for _, e := range o.Executions().List() {
				r := e.Result()
				text := "error"
				if r.IsTree() {
					text = quietString(r.Tree())
				}
				out = append(out, o.Token().Name()+"="+text)
			}
		}
		covered, err := a.parser.Covered(cov)
		return strings.Join(out, " ") + " | " + placesText(covered) + " | " + errText(err)
	})}
}

func callUncovered(g *gGram) *a10Call {
	return &a10Call{fmt.Sprintf("uncovered of {%s}", g.text), ready(func(a *a10Apps) string {
		m, err := a.parser.Uncovered(g.real)
		return placesText(m) + " | " + errText(err)
	})}
}

func callCompose(g *gGram) *a10Call {
	return &a10Call{fmt.Sprintf("compose of {%s}", g.text), ready(func(a *a10Apps) string {
		b, err := a.parser.Compose(g.root.real)
		return fmt.Sprintf("%q %s", b, errText(err))
	})}
}

// callProgram compiles and executes a list of instructions, twice
func callProgram(list []*pIns, inputs int) *a10Call {
	ins := mkList(list)
	return &a10Call{fmt.Sprintf("compile and execute {%s}", progText(list)), func() func(a *a10Apps) string {
		r := &progRig{calls: &progCalls{}, hook: zzpoint.P}
		mods := r.modules()
		return func(a *a10Apps) string {
			prog, err := a.interp.Compile(mods, ins)
			if err != nil {
				return errText(err)
			}
			out, err := a.interp.Execute(progInputs(inputs), prog)
			return renderVal(out) + " " + strings.Join(r.calls.log, " ") + " " + errText(err)
		}
	}}
}

func (q *qSpec) copy() *qSpec {
	o := *q
	o.rig, o.real = nil, nil
	return &o
}

func callQuery(q *qSpec, g *gGram, in string) *a10Call {
	t, err := theParser.Execute(g.real, []byte(in))
	mustOK(err)
	return &a10Call{fmt.Sprintf("query %s on %s", q, realString(t)), func() func(a *a10Apps) string {
		r := &qRig{ids: map[trees.Content]string{}, hook: zzpoint.P}
		real := q.build(r)
		r.number(t, "")
		return func(a *a10Apps) string {
			v, valid, rem, err := a.queries.Execute(real, t)
			return fmt.Sprintf("%v %v %q %s %v", v, valid, rem, errText(err), r.log)
		}
	}}
}

// alone is what a call returns on its own applications
func (k *a10Call) alone() string {
	setPoints(nil)
	return k.run(newA10Apps())
}

// interleave executes a schedule of the calls on shared applications
func (c *C) interleave(calls []*a10Call, want []string, prefix []int) ([]choicePoint, error) {
	apps := newA10Apps()
	s := newSched(prefix, 200000)
	got := make([]string, len(calls))
	for i := range calls {
		i := i
		s.add(func() error {
			got[i] = calls[i].run(apps)
			return nil
		})
	}
	setPoints(func() { s.point("") })
	s.run()
	setPoints(nil)
	c.Step(s.steps)
	c.Exec()
	for i, k := range calls {
		if s.threads[i].err != nil {
			return nil, fmt.Errorf("%s: %s: %w", choicesText(prefix), k.name, s.threads[i].err)
		}
		if got[i] != want[i] {
			return nil, fmt.Errorf("%s: %s returned %s, alone it returns %s", choicesText(prefix), k.name, got[i], want[i])
		}
	}
	// nothing is left
	for i, k := range calls {
		if again := k.run(apps); again != want[i] {
			return nil, fmt.Errorf("%s: %s returned %s after the schedule, alone it returns %s", choicesText(prefix), k.name, again, want[i])
		}
	}
	c.State(fmt.Sprint(prefix), strings.Join(got, "|"))
	return s.trace, nil
}

// reenter makes each call from inside each other one, at each of its points
func (c *C) reenter(outer *a10Call, inner *a10Call, apps *a10Apps) error {
	wantOuter, wantInner := outer.alone(), inner.alone()
	points := 0
	setPoints(func() { points++ })
	outer.run(newA10Apps())
	setPoints(nil)
	for k := 1; k <= points; k++ {
		apps := newA10Apps()
		n := 0
		var in string
		var hook func()
		hook = func() {
			n++
			if n != k {
				return
			}
			setPoints(nil)
			in = inner.run(apps)
			setPoints(hook)
		}
		setPoints(hook)
		out := outer.run(apps)
		setPoints(nil)
		c.Step(1)
		c.Exec()
		if out != wantOuter {
			return fmt.Errorf("%s, with %s called at its point %d of %d, returned %s, alone it returns %s", outer.name, inner.name, k, points, out, wantOuter)
		}
		if in != wantInner && in != "" {
			return fmt.Errorf("%s, called at the point %d of %d of %s, returned %s, alone it returns %s", inner.name, k, points, outer.name, in, wantInner)
		}
	}
	c.State(wantOuter, wantInner)
	return nil
}

func (c *C) a10Calls() (parses []*a10Call, programsList []*a10Call, queriesList []*a10Call) {
	g := func(text string) *gGram { return newGram(text, nil) }
	nest := g("R: a T* | b ; T: b a? ; +T: ba ; -T: c ; #S ; S: _")
	self := g("R: a @R? b | T ; T: b T2 ; T2: c")
	every := g("R: !E x a? ; !E: X / Y ; X: x ; Y: e ; +X: x ; -X: a")
	ext := newGram("R: a %X T ; T: c ; #S ; S: _ ; +T: c", map[string]*gGram{"X": g("R: b T? ; T: 'a2 ; +T: aa ; #S ; S: c")})
	conds := g("R: a b* ; #S<P>N ; S: _ | c ; P: a ; N: b")
	comp := g("R: 'ab2 'ba3")
	parses = []*a10Call{
		callParse(nest, "a ba b"), callParse(nest, "b"), callParse(nest, "c"), callParse(self, "aabb"), callParse(self, "abcb"), callParse(every, "aexax"), callParse(every, "axe"),
		callParse(ext, "abaac"), callParse(ext, "ab c"), callParse(conds, "a cb b"), callCoverages(nest), callCoverages(ext), callUncovered(every), callUncovered(nest), callCompose(comp),
	}
	mk := func(list ...*pIns) []*pIns { return list }
	for _, l := range [][]*pIns{
		mk(iMod("m", 0), iApp("a", "m"), iIn("x"), iOut("o"), iAttach("x", "a", 0), iExec("o", "a"), iAttach("o", "a", 1), iRun("a")),
		mk(iMod("m", 1), iApp("a", "m"), iIn("y"), iIn("x"), iOut("o"), iVar("o", "x"), iConst("v", "c"), iAttach("v", "a", 0), iRun("a"), iVar("o", "y")),
		mk(iIn("x"), iOut("o"), iSub("o", iIn("y"), iOut("o"), iVar("o", "y"), iConst("o", "k")), iVar("o", "x")),
		mk(iMod("m", 3), iApp("a", "m"), iOut("o"), iConst("o", "c"), iExec("o", "a")),
		mk(iMod("m", 0), iOut("o"), iVar("o", "x")),
	} {
		programsList = append(programsList, callProgram(l, 2))
	}
	leaf := func(tok, el string, idx int, ct int, in byte, fn byte) *qSpec {
		return &qSpec{tok: tok, rev: qNoReverse, el: el, idx: idx, content: ct, in: in, fn: fn}
	}
	deep := &qSpec{tok: "R", rev: qNoReverse, el: "T", content: -1, fetch: []*qFetch{{q: leaf("T", "b", 0, -1, 'm', 'n')}, {q: leaf("T", "a", 0, 0, 's', '1')}}, fn: 'n'}
	queriesList = []*a10Call{
		callQuery(leaf("R", "a", 0, -1, 'm', 'n'), nest, "a ba b"), callQuery(deep, nest, "a ba b"), callQuery(deep, nest, "b"),
		callQuery(&qSpec{tok: "R", rev: qNoReverse, el: "R", content: -1, fetch: []*qFetch{{rec: "R"}, {q: leaf("R", "a", 0, -1, 'm', 'n')}}, fn: 'n'}, self, "aaabcbbb"),
		callQuery(&qSpec{tok: "R", rev: qNoReverse, el: "R", content: -1, fetch: []*qFetch{{q: leaf("R", "R", 0, -1, 'M', 'n')}, {rec: "R"}}, fn: 'I'}, self, "aaabcbbb"),
		callQuery(leaf("T", "a", 0, -1, 'm', 'n'), nest, "a ba"),
		callQuery(&qSpec{tok: "R", rev: qNoReverse, el: "R", content: -1, fetch: []*qFetch{{rec: "R"}, {q: leaf("R", "a", 0, -1, 'm', 'n')}}, fn: 'n'}, g("R: a @R | b"), "aab"),
	}
	return
}

func checkA10(c *C) {
	parses, progs, qs := c.a10Calls()
	points := 0
	setPoints(func() { points++ })
	parses[0].run(newA10Apps())
	setPoints(nil)
	if c.verbose {
		for _, l := range [][]*a10Call{parses, progs, qs} {
			for _, k := range l {
				n := 0
				setPoints(func() { n++ })
				k.run(newA10Apps())
				setPoints(nil)
				fmt.Println(n, "points:", k.name, "->", k.alone())
			}
		}
	}
	if points < 50 {
		fatal("the libraries are not instrumented")
	}
	quiet := func(calls []*a10Call) []string {
		out := []string{}
		for _, k := range calls {
			out = append(out, k.alone())
		}
		return out
	}
	explore := func(calls []*a10Call, preempt int) {
		names := []string{}
		for _, k := range calls {
			names = append(names, k.name)
		}
		want := quiet(calls)
		exploreSharded(c, strings.Join(names, " || "), 1<<30, len(calls)-1, preempt, func(prefix []int) ([]choicePoint, error) {
			return c.interleave(calls, want, prefix)
		})
	}

	c.Group("calls in sequences", 0.2)
	all := append(append(append([]*a10Call{}, parses...), progs...), qs...)
	for i := range all {
		i := i
		c.Do(func() string { return "each pair of calls after " + all[i].name }, func() error {
			for j := range all {
				for k := range all {
					apps := newA10Apps()
					for _, x := range []*a10Call{all[i], all[j], all[k]} {
						if got, want := x.run(apps), x.alone(); got != want {
							return fmt.Errorf("%s, after %s and %s, returned %s, alone it returns %s", x.name, all[i].name, all[j].name, got, want)
						}
					}
					c.Exec()
				}
			}
			return nil
		})
	}

	c.Group("calls inside calls", 0.3)
	for _, family := range [][]*a10Call{qs, progs, {parses[0], progs[0], qs[1]}, parses} {
		for _, o := range family {
			for _, i := range family {
				o, i := o, i
				c.Do(func() string { return i.name + " inside " + o.name }, func() error { return c.reenter(o, i, nil) })
			}
		}
	}

	c.Group("two calls, several preemptions", 0.6)
	preempt := c.B("preemptions", 2, 3)
	pairs := [][]*a10Call{{qs[5], qs[2]}, {qs[0], qs[5]}, {qs[0], qs[2]}, {progs[4], progs[4]}, {parses[14], parses[14]}, {qs[6], qs[5]}, {progs[4], progs[3]}, {qs[1], qs[5]}, {parses[2], parses[14]}, {parses[2], parses[2]}, {qs[6], qs[0]}, {progs[4], progs[0]}}
	if c.thorough() {
		pairs = append(pairs, []*a10Call{parses[1], parses[2]}, []*a10Call{progs[0], progs[1]}, []*a10Call{progs[3], progs[2]})
	}
	for _, p := range pairs {
		explore(p, preempt)
	}
	if c.thorough() {
		c.Group("two longer calls, two preemptions", 0.7)
		for _, family := range [][]*a10Call{parses, progs, qs} {
			for i := range family {
				for j := i; j < len(family); j++ {
					explore([]*a10Call{family[i], family[j]}, 2)
				}
			}
		}
	}

	c.Group("three calls", 1)
	preempt = c.B("three-preemptions", 1, 2)
	triples := [][]*a10Call{{parses[14], parses[2], parses[1]}, {progs[4], progs[3], progs[0]}, {qs[5], qs[0], qs[2]}, {parses[14], progs[4], qs[5]}}
	for _, p := range triples {
		explore(p, preempt)
	}
}
