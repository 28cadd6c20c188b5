package main

import "fmt"

func init() {
	register("I01", "every list of instructions of the families (assignments of constants, inputs, executions and sub-programs, all orders of parameters) compiled and executed on the real interpreter with too few, enough and too many inputs, three times, and its values compared with a reference evaluator that reads the source", checkI01)
	register("I02", "every list of up to a length of an alphabet of instructions that use, misuse, repeat and forget the declarations, in a list and in its sub-programs, given to the real compiler and compared with reference rules; what compiles is executed", checkI02)
	register("I03", "every order of attachments, assignments and executions of applications that share modules, executed on the real interpreter with recording modules, and the sequence of calls, with what each receives, compared with a reference evaluator", checkI03)
}

func prologue() []*pIns {
	return []*pIns{iMod("m", 0), iMod("n", 1), iApp("a", "m"), iApp("b", "n"), iIn("x"), iOut("o"), iIn("y"), iOut("p")}
}

func checkI01(c *C) {
	c.Group("assignments of each kind of value, after the declarations", 0.4)
	alphabet := []*pIns{
		iConst("o", "c"), iVar("o", "x"), iVar("o", "y"), iExec("o", "a"), iExec("p", "b"), iConst("v", ""), iVar("p", "x"),
		iAttach("x", "a", 0), iAttach("v", "a", 0), iAttach("o", "b", 1), iConst("x", "k"),
		iSub("o", iIn("y"), iOut("q"), iVar("q", "y")),
		iSub("v", iMod("m", 1), iApp("a", "m"), iOut("o"), iExec("o", "a"), iConst("o", "s")),
	}
	c.programs(prologue(), alphabet, c.B("assignments", 5, 6), 2, []int{0, 1, 2, 3})

	c.scalePrograms("sizes of the programs", 0.3, 300, scaleValues)
	c.nearPrograms(0.2)

	c.Group("every order of inputs and outputs, each input copied to each output", 0.3)
	max := c.B("parameters", 8, 11)
	for n := 1; n <= max; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			n, mask := n, mask
			c.Do(func() string { return fmt.Sprintf("%d parameters, kinds %b", n, mask) }, func() error {
				r := newProgRig()
				list := []*pIns{iMod("m", 0), iApp("a", "m")}
				ins, outs := []string{}, []string{}
				for i := 0; i < n; i++ {
					name := fmt.Sprintf("p%d", i)
					if mask>>i&1 == 0 {
						list = append(list, iIn(name))
						ins = append(ins, name)
					} else {
						list = append(list, iOut(name))
						outs = append(outs, name)
					}
					// used as soon as it is declared
					for _, o := range outs {
						for _, in := range ins {
							list = append(list, iVar(o, in))
						}
					}
				}
				for i, in := range ins {
					list = append(list, iAttach(in, "a", uint(i)))
				}
				list = append(list, iRun("a"))
				for i := len(outs) - 1; i >= 0; i-- {
					for _, in := range ins {
						list = append(list, iVar(outs[i], in))
					}
					list = append(list, iExec(outs[i], "a"))
				}
				amounts := []int{0, len(ins), len(ins) + 2}
				if len(ins) > 1 {
					amounts = append(amounts, len(ins)-1)
				}
				return r.check(c, list, amounts)
			})
		}
	}

	c.Group("constants of every byte", 0.3)
	for _, k := range constantsOfBytes() {
		k := k
		c.Do(func() string { return fmt.Sprintf("programs with the constant %q", k) }, func() error {
			r := newProgRig()
			full := append(prologue(), iConst("o", k), iConst("v", k), iConst("v2", "d"), iConst("v3", k+k), iAttach("v", "a", 0), iAttach("v3", "a", 1), iAttach("v", "b", 2), iExec("p", "a"), iVar("o", "y"), iConst("p", k),
				iSub("o", iMod("m", 0), iApp("a", "m"), iOut("q"), iConst("q", k), iConst("w", k), iAttach("w", "a", 0), iExec("q", "a"), iConst("q", "e")), iRun("b"))
			for n := 9; n <= len(full); n++ {
				if err := r.check(c, full[:n], []int{2}); err != nil {
					return err
				}
			}
			for _, one := range full[8:] {
				if err := r.check(c, append(prologue(), iConst("v", k), one, iAttach("v", "a", 0), iAttach("v", "b", 1), one, iExec("p", "b")), []int{2}); err != nil {
					return err
				}
			}
			return r.check(c, []*pIns{iOut("o"), iConst("o", k), iConst("p", k)}, []int{0})
		})
	}

	c.Group("modules that return nothing or fail", 0.3)
	alphabet = []*pIns{iExec("o", "a"), iExec("v", "b"), iRun("a"), iRun("b"), iExec("p", "d"), iAttach("v", "d", 1), iRun("d"), iConst("o", "c"), iSub("o", iMod("m", 3), iApp("a", "m"), iRun("a")), iVar("o", "y"), iExec("v", "a"), iAttach("o", "d", 0)}
	start := []*pIns{iMod("m", 2), iMod("n", 3), iMod("k", 0), iApp("a", "m"), iApp("b", "n"), iApp("d", "k"), iOut("o"), iOut("p"), iIn("x"), iIn("y")}
	c.programs(start, alphabet, c.B("failures", 5, 7), 2, []int{1, 2})

	c.Group("sub-programs inside sub-programs", 0.5)
	inner := []*pIns{iIn("x"), iIn("y"), iOut("o"), iVar("o", "x"), iVar("o", "y"), iConst("o", "c")}
	depth := c.B("inner", 5, 7)
	var rec func(list []*pIns)
	rec = func(list []*pIns) {
		if len(list) > 0 {
			l := list
			c.Do(func() string { return "the sub-program " + progText(l) }, func() error {
				r := newProgRig()
				for _, p := range [][]*pIns{
					{iOut("r"), iSub("r", l...)},
					{iIn("a"), iOut("r"), iVar("r", "a"), iSub("r", l...), iVar("r", "a")},
					{iOut("r"), iIn("b"), iSub("r", iOut("s"), iSub("s", l...), iSub("s", l...), iConst("s", "d")), iVar("r", "b")},
					append(append([]*pIns{}, l...), iSub("o", l...), iVar("o", "y")),
				} {
					if err := r.check(c, p, []int{0, 1, 2}); err != nil {
						return err
					}
				}
				return nil
			})
		}
		if len(list) >= depth || c.Over() {
			return
		}
		for _, i := range inner {
			rec(append(append([]*pIns{}, list...), i))
		}
	}
	rec(nil)
}

func checkI02(c *C) {
	c.Group("every list, from the first instruction", 0.6)
	alphabet := []*pIns{
		iMod("m", 0), iMod("n", 0), iMod("m", 1), iMod("z", 9), iMod("a", 1),
		iApp("a", "m"), iApp("b", "n"), iApp("a", "n"), iApp("m", "a"),
		iIn("x"), iOut("o"), iOut("x"), iIn("o"), iIn("a"),
		iVar("o", "x"), iVar("v", "o"), iVar("v", "v"), iConst("v", "c"), iConst("o", "c"), iExec("v", "a"), iExec("o", "m"),
		iAttach("x", "a", 0), iAttach("v", "a", 1), iAttach("o", "a", 0), iAttach("a", "a", 0), iAttach("x", "m", 0), iRun("a"), iRun("m"),
		iSub("v", iConst("v", "c")), iSub("v", iVar("v", "x")), iSub("o", iRun("a")), iSub("v", iIn("x"), iVar("w", "x")), iSub("v", iMod("m", 0)), iSub("v", iAttach("v", "a", 0)),
	}
	c.programs(nil, alphabet, c.B("instructions", 6, 7), 2, []int{1})

	c.extremePrograms()
	c.nearPrograms(0.2)
	c.scalePrograms("sizes of the programs", 0.2, 129, scaleValues)
	c.scalePrograms("sizes of the calls", 0.2, 129, scaleCalls)

	c.Group("after the declarations", 0.6)
	alphabet = []*pIns{
		iMod("m", 0), iMod("q", 0), iApp("a", "n"), iApp("d", "m"), iApp("d", "d"), iIn("x"), iOut("p"), iIn("q"), iOut("x"), iIn("a"),
		iVar("v", "x"), iVar("o", "p"), iVar("o", "v"), iVar("v", "q"), iVar("v", "a"), iConst("v", "c"), iConst("x", "c"), iExec("v", "d"), iExec("p", "b"), iExec("v", "x"),
		iAttach("o", "a", 0), iAttach("v", "b", 1), iAttach("x", "d", 0), iAttach("q", "a", 1), iAttach("m", "a", 1), iRun("d"), iRun("n"),
	}
	c.programs(prologue(), alphabet, c.B("more", 5, 6), 2, []int{2})

	c.Group("every sub-program, in a list that declares and in one that does not", 0.7)
	inner := []*pIns{
		iMod("m", 1), iMod("z", 9), iApp("a", "m"), iIn("x"), iOut("x"), iOut("o"), iVar("o", "x"), iConst("v", "c"), iExec("o", "a"),
		iAttach("x", "a", 0), iAttach("v", "a", 0), iAttach("o", "a", 0), iRun("a"), iSub("v", iConst("o", "c")), iSub("v", iRun("a")),
	}
	depth := c.B("inner", 5, 6)
	var grow func(r *progRig, l []*pIns) error
	grow = func(r *progRig, l []*pIns) error {
		if len(l) > 0 {
			for _, p := range [][]*pIns{
				{iSub("w", l...)},
				append(prologue(), iConst("v", "d"), iSub("o", l...), iRun("a"), iSub("o", l...)),
				append(prologue(), iSub("o", iSub("o", l...), iConst("o", "e")), iAttach("o", "a", 3), iRun("a")),
			} {
				if err := r.check(c, p, []int{1}); err != nil {
					return err
				}
			}
		}
		s := newScope()
		for _, i := range l {
			if !s.declare(i) {
				return nil
			}
		}
		if len(l) >= depth {
			return nil
		}
		for _, i := range inner {
			if err := grow(r, append(append([]*pIns{}, l...), i)); err != nil {
				return err
			}
		}
		return nil
	}
	for _, first := range inner {
		for _, second := range inner {
			first, second := first, second
			c.Do(func() string {
				return fmt.Sprintf("sub-programs that begin with %s; %s, up to %d instructions", first, second, depth)
			}, func() error {
				r := newProgRig()
				s := newScope()
				if first == inner[0] {
					if err := r.check(c, []*pIns{iSub("w", second)}, []int{1}); err != nil {
						return err
					}
				}
				if !s.declare(first) {
					return r.check(c, []*pIns{iSub("w", first, second)}, []int{1})
				}
				return grow(r, []*pIns{first, second})
			})
		}
	}
}

func checkI03(c *C) {
	c.Group("attachments and executions of two applications of one module", 0.4)
	start := []*pIns{iMod("m", 0), iApp("a", "m"), iApp("b", "m"), iIn("x"), iIn("y"), iOut("o")}
	alphabet := []*pIns{
		iAttach("x", "a", 0), iAttach("y", "a", 0), iAttach("y", "a", 1), iAttach("v", "a", 0), iAttach("v", "b", 0), iAttach("o", "b", 1), iAttach("x", "b", 0),
		iRun("a"), iRun("b"), iExec("v", "a"), iExec("o", "b"), iConst("v", "c"), iVar("v", "y"), iConst("x", "k"),
	}
	c.programs(start, alphabet, c.B("calls", 5, 6), 2, []int{2, 1})

	c.scalePrograms("sizes of the calls", 0.3, 300, scaleCalls)
	c.extremePrograms()
	c.nearPrograms(0.2)

	c.Group("long histories of attachments to one application", 0.4)
	start = []*pIns{iMod("m", 0), iApp("a", "m"), iIn("x"), iConst("v", "c")}
	alphabet = []*pIns{iAttach("x", "a", 0), iAttach("v", "a", 0), iAttach("v", "a", 1), iRun("a")}
	c.programs(start, alphabet, c.B("attachments", 8, 10), 3, []int{1})

	c.Group("executions whose results are attached to each other", 0.4)
	start = []*pIns{iMod("m", 0), iMod("n", 1), iApp("a", "m"), iApp("b", "n"), iApp("d", "m"), iOut("o")}
	alphabet = []*pIns{iExec("v", "a"), iExec("w", "b"), iExec("o", "d"), iAttach("v", "b", 0), iAttach("w", "d", 0), iAttach("v", "d", 1), iAttach("o", "a", 0), iRun("d"), iConst("w", "c")}
	c.programs(start, alphabet, c.B("chains", 6, 7), 2, []int{0})

	c.Group("attached values of modules that return nothing", 0.3)
	start = []*pIns{iMod("m", 2), iMod("n", 1), iMod("f", 3), iApp("a", "m"), iApp("b", "n"), iApp("d", "f"), iOut("o")}
	alphabet = []*pIns{
		iExec("v", "a"), iExec("o", "a"), iExec("w", "b"), iAttach("v", "b", 0), iAttach("o", "b", 1), iAttach("w", "a", 0), iAttach("v", "d", 0),
		iRun("b"), iRun("d"), iSub("v", iOut("r")), iSub("w", iMod("m", 2), iApp("a", "m"), iOut("r"), iExec("r", "a")),
	}
	c.programs(start, alphabet, c.B("nothing", 5, 6), 2, []int{0})

	c.Group("assignments to the names of the inputs", 0.4)
	start = []*pIns{iMod("m", 0), iApp("a", "m"), iApp("b", "m"), iIn("x"), iIn("y"), iOut("o")}
	alphabet = []*pIns{
		iVar("x", "y"), iVar("y", "x"), iVar("x", "x"), iConst("x", "c"), iExec("y", "b"), iSub("x", iOut("o"), iConst("o", "d")),
		iAttach("x", "a", 0), iAttach("y", "a", 1), iAttach("x", "b", 0), iRun("a"), iVar("o", "x"),
	}
	c.programs(start, alphabet, c.B("assigned-inputs", 5, 6), 2, []int{2})

	c.Group("sub-programs whose executions are attached", 0.5)
	start = []*pIns{iMod("m", 0), iApp("a", "m"), iApp("b", "m"), iIn("x"), iOut("o")}
	alphabet = []*pIns{
		iSub("v", iMod("n", 1), iApp("a", "n"), iOut("o"), iExec("o", "a")),
		iSub("o", iMod("n", 1), iApp("b", "n"), iIn("x"), iOut("r"), iAttach("x", "b", 0), iExec("r", "b"), iAttach("r", "b", 0), iExec("r", "b")),
		iAttach("v", "a", 0), iAttach("o", "b", 1), iAttach("x", "b", 0), iRun("a"), iRun("b"), iExec("o", "a"),
	}
	c.programs(start, alphabet, c.B("subs", 5, 7), 2, []int{1, 0})
}

// constantsOfBytes returns each content of one byte, and those of two and three of some bytes
func constantsOfBytes() []string {
	out := []string{}
	for b := 0; b < 256; b++ {
		out = append(out, string([]byte{byte(b)}))
	}
	some := []byte{0, 1, ' ', '\n', 'a', 0x7f, 0x80, 0xff}
	for _, a := range some {
		for _, b := range some {
			out = append(out, string([]byte{a, b}))
			for _, d := range some {
				out = append(out, string([]byte{a, b, d}))
			}
		}
	}
	return out
}
