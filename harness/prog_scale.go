package main

import "fmt"

// The scale families of the interpreter: each dimension of a program is grown alone

type scaleProg struct {
	name    string
	list    []*pIns
	amounts []int
}

func nm(p string, i int) string { return fmt.Sprintf("%s%d", p, i) }

func flat(lists ...[]*pIns) []*pIns {
	out := []*pIns{}
	for _, l := range lists {
		out = append(out, l...)
	}
	return out
}

func each(n int, fn func(i int) []*pIns) []*pIns {
	out := []*pIns{}
	for i := 0; i < n; i++ {
		out = append(out, fn(i)...)
	}
	return out
}

func ins(l ...*pIns) []*pIns { return l }

// scaleValues are the programs of n assignments, parameters and sub-programs
func scaleValues(n int) []scaleProg {
	some := []int{0, 1, n - 1, n, n + 1}
	if n < 2 {
		some = []int{0, n, n + 1}
	}
	base := ins(iMod("m", 0), iApp("a", "m"))
	inputs := each(n, func(i int) []*pIns { return ins(iIn(nm("x", i))) })
	outputs := each(n, func(i int) []*pIns { return ins(iOut(nm("o", i))) })
	out := []scaleProg{
		{"inputs copied to one output, in order", flat(base, inputs, ins(iOut("o")), each(n, func(i int) []*pIns { return ins(iVar("o", nm("x", i))) })), some},
		{"inputs copied to one output, backwards", flat(inputs, ins(iOut("o")), each(n, func(i int) []*pIns { return ins(iVar("o", nm("x", n-1-i))) })), some},
		{"one input copied to outputs", flat(ins(iIn("x")), outputs, each(n, func(i int) []*pIns { return ins(iVar(nm("o", n-1-i), "x")) })), []int{0, 1}},
		{"inputs and outputs alternate", flat(each(n, func(i int) []*pIns { return ins(iOut(nm("o", i)), iIn(nm("x", i))) }), each(n, func(i int) []*pIns { return ins(iVar(nm("o", i), nm("x", n-1-i))) })), some},
		{"constants to outputs", flat(outputs, each(n, func(i int) []*pIns { return ins(iConst(nm("o", i), nm("c", i))) })), []int{0}},
		{"constants to one output", flat(ins(iOut("o")), each(n, func(i int) []*pIns { return ins(iConst("o", nm("c", i))) })), []int{0}},
		{"constants to variables, then attached", flat(base, each(n, func(i int) []*pIns { return ins(iConst(nm("v", i), nm("c", i))) }), each(n, func(i int) []*pIns { return ins(iAttach(nm("v", i), "a", uint(i))) }), ins(iOut("o"), iExec("o", "a"))), []int{0}},
		{"one variable assigned again", flat(base, each(n, func(i int) []*pIns { return ins(iConst("v", nm("c", i))) }), ins(iAttach("v", "a", 0), iOut("o"), iExec("o", "a"))), []int{0}},
		{"a long constant", flat(ins(iOut("o"), iConst("o", rep("ab", n))), base, ins(iConst("v", rep("\x00\xff", n)), iAttach("v", "a", 0), iExec("o", "a"))), []int{0}},
		{"long names", flat(ins(iMod(rep("m", n), 0), iApp(rep("a", n), rep("m", n)), iIn(rep("x", n)), iIn(rep("x", n+1)), iOut(rep("o", n)), iAttach(rep("x", n+1), rep("a", n), 0), iExec(rep("o", n), rep("a", n)), iVar(rep("o", n), rep("x", n)))), []int{1, 2}},
		{"a name too long is unknown", ins(iIn(rep("x", n)), iOut("o"), iVar("o", rep("x", n+1))), []int{1}},
		{"sub-programs, one after another", flat(ins(iOut("o")), each(n, func(i int) []*pIns { return ins(iSub("o", iOut("p"), iConst("p", nm("c", i)))) })), []int{0}},
		{"a sub-program of assignments", ins(iOut("o"), iSub("o", flat(inputs, outputs, each(n, func(i int) []*pIns { return ins(iVar(nm("o", n-1-i), nm("x", i))) }))...)), some},
		{"a declaration, then again", flat(inputs, ins(iIn(nm("x", n-1)), iOut("o"), iConst("o", "c"))), []int{0}},
		{"outputs, then one again", flat(outputs, ins(iConst("v", "c"), iOut("o0"))), []int{0}},
	}
	if n <= 100 {
		deep := ins(iOut("o"), iIn("x"), iIn("y"), iConst("o", "deep"), iVar("o", "y"))
		silent := ins(iMod("m", 1), iApp("a", "m"), iRun("a"))
		bad := ins(iOut("o"), iVar("o", "x"))
		for i := 0; i < n; i++ {
			deep = ins(iOut("o"), iIn("y"), iVar("o", "y"), iSub("o", deep...), iConst("o", nm("c", i)))
			silent = ins(iOut("o"), iSub("o", silent...))
			bad = ins(iOut("o"), iIn("x"), iSub("o", bad...))
		}
		out = append(out, scaleProg{"nested sub-programs", deep, []int{0, 1, 2}}, scaleProg{"nested sub-programs, that execute", silent, []int{0}},
			scaleProg{"nested sub-programs, with a fault inside", bad, []int{1}}, scaleProg{"nested sub-programs, with a fault after", flat(deep, ins(iVar("o", "z"))), []int{1}})
	}
	return out
}

// scaleCalls are the programs of n modules, applications, attachments and executions
func scaleCalls(n int) []scaleProg {
	base := ins(iMod("m", 0), iMod("n", 1), iApp("a", "m"), iApp("b", "n"), iIn("x"), iIn("y"), iOut("o"))
	run := ins(iRun("a"), iExec("o", "a"))
	apps := each(n, func(i int) []*pIns { return ins(iApp(nm("app", i), []string{"m", "n"}[i%2])) })
	mods := each(n, func(i int) []*pIns { return ins(iMod(nm("mod", i), uint(1000+i))) })
	consts := each(n, func(i int) []*pIns { return ins(iConst(nm("v", i), nm("c", i))) })
	some := []int{1, 2}
	return []scaleProg{
		{"attachments of one input to targets", flat(base, each(n, func(i int) []*pIns { return ins(iAttach("x", "a", uint(i))) }), run), some},
		{"attachments to targets, backwards", flat(base, each(n, func(i int) []*pIns { return ins(iAttach([]string{"y", "x"}[i%2], "a", uint(n-1-i))) }), run), some},
		{"attachments to one target", flat(base, consts, each(n, func(i int) []*pIns { return ins(iAttach(nm("v", i), "a", 0)) }), run), some},
		{"executions between the attachments", flat(base, consts, each(n, func(i int) []*pIns { return ins(iAttach(nm("v", i), "a", uint(i%5)), iRun("a")) })), some},
		{"executions", flat(base, ins(iAttach("x", "a", 0)), each(n, func(i int) []*pIns { return ins(iRun("a"), iExec("o", "b")) })), some},
		{"executions of which the last reads an input that is missing", flat(base, each(n, func(i int) []*pIns { return ins(iRun("a")) }), ins(iAttach("y", "a", 0), iRun("a"))), some},
		{"applications, executed in order", flat(base, apps, each(n, func(i int) []*pIns { return ins(iAttach("x", nm("app", i), uint(i))) }), each(n, func(i int) []*pIns { return ins(iRun(nm("app", i))) })), some},
		{"applications, executed backwards", flat(base, apps, consts, each(n, func(i int) []*pIns { return ins(iAttach(nm("v", i), nm("app", i), 0)) }), each(n, func(i int) []*pIns { return ins(iExec("o", nm("app", n-1-i))) })), some},
		{"applications, then one again", flat(base, apps, ins(iRun("a"), iApp("app0", "n"))), some},
		{"modules, each by an application", flat(mods, each(n, func(i int) []*pIns { return ins(iApp(nm("app", i), nm("mod", n-1-i))) }), ins(iOut("o")), each(n, func(i int) []*pIns { return ins(iExec("o", nm("app", i))) })), []int{0}},
		{"modules, then one again", flat(mods, base, ins(iRun("a"), iMod("mod0", 0))), some},
		{"modules of an index that follows the last", flat(mods, ins(iMod("z", uint(1000+scaleModules+n)))), some},
		{"a chain of executions", flat(base, ins(iExec("v", "a"), iAttach("v", "b", 0)), each(n, func(i int) []*pIns {
			return ins(iApp(nm("app", i), "m"), iAttach("v", nm("app", i), uint(i%3)), iExec("v", nm("app", i)))
		}), ins(iAttach("v", "a", 1)), run), []int{0}},
		{"attachments of parameters that become variables", flat(base, each(n, func(i int) []*pIns {
			return ins(iIn(nm("x", i)), iAttach(nm("x", i), "a", uint(2*i)), iConst(nm("x", i), nm("c", i)), iAttach(nm("x", i), "a", uint(2*i+1)))
		}), run), []int{n + 2, n + 1}},
		{"targets far from each other", flat(base, ins(iAttach("x", "a", uint(n)), iAttach("y", "a", uint(1)<<uint(n%64)), iAttach("x", "a", ^uint(0)), iAttach("y", "a", ^uint(0)-uint(n))), run), some},
		{"sub-programs that execute", flat(base, each(n, func(i int) []*pIns {
			return ins(iSub("v", iMod("m", uint(i%2)), iApp("a", "m"), iIn("x"), iOut("o"), iAttach("x", "a", uint(i)), iExec("o", "a")), iAttach("v", "a", uint(i)))
		}), run), some},
	}
}

func (c *C) scalePrograms(name string, share float64, max int, fam func(n int) []scaleProg) {
	c.Group(name, share)
	sizes := scaleSizes
	if c.thorough() {
		sizes = append(append([]int{}, sizes...), scaleMore...)
		max *= 3
	}
	for _, n := range sizes {
		if n > max {
			continue
		}
		n := n
		for k := range fam(n) {
			k := k
			c.Do(func() string { return fmt.Sprintf("%s, of size %d", fam(n)[k].name, n) }, func() error {
				p := fam(n)[k]
				return newProgRig().check(c, p.list, p.amounts)
			})
		}
	}
}

// extremes are the indexes of modules which are at the limits of the integers
var extremeModules = []uint{16, 255, 256, 257, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, ^uint(0)}

const scaleModules = 1100

func (c *C) extremePrograms() {
	c.Group("modules whose index is almost that of another", 0.3)
	for _, k := range []uint{0, 1, 2, 3, 1000, 1001} {
		for bit := 0; bit < 64; bit++ {
			n := k ^ 1<<uint(bit)
			c.Do(func() string { return fmt.Sprintf("the module %d", n) }, func() error {
				r := newProgRig()
				for _, p := range [][]*pIns{
					ins(iMod("m", n)), ins(iMod("m", k), iMod("n", n), iApp("a", "m"), iApp("b", "n"), iRun("a"), iRun("b")),
					ins(iMod("m", n), iApp("a", "m"), iOut("o"), iExec("o", "a")), ins(iOut("o"), iSub("o", iMod("m", n), iApp("a", "m"), iOut("o"), iExec("o", "a"))),
				} {
					if err := r.check(c, p, []int{0}); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}

	c.Group("modules and targets at the limits of the integers", 0.9)
	list := []uint{}
	for _, n := range extremeModules {
		list = append(list, n-1, n, n+1)
	}
	for _, n := range list {
		n := n
		for _, to := range list {
			to := to
			c.Do(func() string { return fmt.Sprintf("the module %d, an attachment to %d", n, to) }, func() error {
				r := newProgRig()
				if err := r.check(c, ins(iMod("m", n), iApp("a", "m"), iIn("x"), iAttach("x", "a", to), iOut("o"), iExec("o", "a")), []int{1}); err != nil {
					return err
				}
				return r.check(c, ins(iMod("m", 0), iApp("a", "m"), iIn("x"), iAttach("x", "a", n), iConst("v", "c"), iAttach("v", "a", to), iOut("o"), iExec("o", "a")), []int{1, 0})
			})
		}
	}
}
