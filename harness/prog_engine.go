package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	interpreters "github.com/steve-care-software/rodkina/libs/interpreters/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	instructions_application "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/attachments"
	instructions_module "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/modules"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/parameters"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
)

// pIns is an instruction, of the harness. The real one is built once, so that a list which
// contains it twice contains the same instance twice
type pIns struct {
	kind   byte // module, application, parameter (in, out), assignment (variable, constant, execution, sub), attachment, run
	a, b   string
	n      uint
	sub    []*pIns
	subIns instructions.Instructions
	real   instructions.Instruction
}

const (
	pModule = 'm'
	pApp    = 'a'
	pIn     = '>'
	pOut    = '<'
	pVar    = '='
	pConst  = '"'
	pExec   = '!'
	pSub    = '{'
	pAttach = '@'
	pRun    = 'x'
)

func (i *pIns) String() string {
	switch i.kind {
	case pModule:
		return fmt.Sprintf("module %s = %d", i.a, i.n)
	case pApp:
		return fmt.Sprintf("app %s of %s", i.a, i.b)
	case pIn:
		return "in " + i.a
	case pOut:
		return "out " + i.a
	case pVar:
		return i.a + " = " + i.b
	case pConst:
		return fmt.Sprintf("%s = %q", i.a, i.b)
	case pExec:
		return fmt.Sprintf("%s = run %s", i.a, i.b)
	case pSub:
		return fmt.Sprintf("%s = {%s}", i.a, progText(i.sub))
	case pAttach:
		return fmt.Sprintf("attach %s to %s at %d", i.a, i.b, i.n)
	}
	return "run " + i.a
}

func progText(list []*pIns) string {
	out := []string{}
	for _, i := range list {
		out = append(out, i.String())
	}
	return strings.Join(out, "; ")
}

// the names are declared in lower case and used in upper case: the application of the checks
// converts the names to lower case, so that a name that is not converted is noticed
func declName(s string) []byte { return []byte(strings.ToLower(s)) }
func useName(s string) []byte  { return []byte(strings.ToUpper(s)) }

func progNames(name []byte) string { return strings.ToLower(string(name)) }

func mkIns(kind byte, a string, b string, n uint, sub []*pIns) *pIns {
	i := &pIns{kind: kind, a: a, b: b, n: n, sub: sub}
	bu := instructions.NewInstructionBuilder().Create()
	vb := instructions.NewValueBuilder().Create()
	switch kind {
	case pModule:
		m, err := instructions_module.NewBuilder().Create().WithIndex(n).WithName(declName(a)).Now()
		mustOK(err)
		bu.WithModule(m)
	case pApp:
		m, err := instructions_application.NewBuilder().Create().WithName(declName(a)).WithModule(useName(b)).Now()
		mustOK(err)
		bu.WithApplication(m)
	case pIn, pOut:
		pb := parameters.NewBuilder().Create().WithName(declName(a))
		if kind == pIn {
			pb.IsInput()
		}
		p, err := pb.Now()
		mustOK(err)
		bu.WithParameter(p)
	case pAttach:
		v, err := attachments.NewVariableBuilder().Create().WithCurrent(useName(a)).WithTarget(n).Now()
		mustOK(err)
		at, err := attachments.NewBuilder().Create().WithVariable(v).WithApplication(useName(b)).Now()
		mustOK(err)
		bu.WithAttachment(at)
	case pRun:
		bu.WithExecution(useName(a))
	default:
		switch kind {
		case pVar:
			vb.WithVariable(useName(b))
		case pConst:
			vb.WithConstant([]byte(b))
		case pExec:
			vb.WithExecution(useName(b))
		case pSub:
			i.subIns = mkList(sub)
			vb.WithInstructions(i.subIns)
		}
		v, err := vb.Now()
		mustOK(err)
		as, err := instructions.NewAssignmentBuilder().Create().WithVariable(useName(a)).WithValue(v).Now()
		mustOK(err)
		bu.WithAssignment(as)
	}
	r, err := bu.Now()
	mustOK(err)
	i.real = r
	return i
}

func mkList(list []*pIns) instructions.Instructions {
	reals := []instructions.Instruction{}
	for _, i := range list {
		reals = append(reals, i.real)
	}
	ins, err := instructions.NewBuilder().Create().WithList(reals).Now()
	mustOK(err)
	return ins
}

func iMod(name string, n uint) *pIns          { return mkIns(pModule, name, "", n, nil) }
func iApp(name, mod string) *pIns             { return mkIns(pApp, name, mod, 0, nil) }
func iIn(name string) *pIns                   { return mkIns(pIn, name, "", 0, nil) }
func iOut(name string) *pIns                  { return mkIns(pOut, name, "", 0, nil) }
func iVar(name, from string) *pIns            { return mkIns(pVar, name, from, 0, nil) }
func iConst(name, v string) *pIns             { return mkIns(pConst, name, v, 0, nil) }
func iExec(name, app string) *pIns            { return mkIns(pExec, name, app, 0, nil) }
func iSub(name string, sub ...*pIns) *pIns    { return mkIns(pSub, name, "", 0, sub) }
func iAttach(name, app string, to uint) *pIns { return mkIns(pAttach, name, app, to, nil) }
func iRun(app string) *pIns                   { return mkIns(pRun, app, "", 0, nil) }

// refScope is what is declared by the instructions of a list
type refScope struct {
	mods   map[string]uint
	apps   map[string]*refApp
	params map[string]int // position among the inputs, -1 when it is an output
	inputs int
	vals   map[string]bool
	vars   map[string]interface{}
	code   bool
}

type refApp struct {
	mod uint
	att []refAtt
}

type refAtt struct {
	target uint
	input  int // or -1
	value  interface{}
}

func newScope() *refScope {
	return &refScope{mods: map[string]uint{}, apps: map[string]*refApp{}, params: map[string]int{}, vals: map[string]bool{}, vars: map[string]interface{}{}}
}

const progModules = 4 // the indexes that exist: 0, 1, 2 (returns nil) and 3 (fails)

// knownModule tells if the index is one of a module: those of the families, or of the scale families
func knownModule(n uint) bool {
	if n < progModules || (n >= 1000 && n < 1000+scaleModules) {
		return true
	}
	for _, e := range extremeModules {
		if n == e {
			return true
		}
	}
	return false
}

// declare tells if the instruction is well formed after those that were declared in the scope
func (s *refScope) declare(i *pIns) bool {
	switch i.kind {
	case pModule:
		if _, ok := s.mods[i.a]; ok || !knownModule(i.n) {
			return false
		}
		s.mods[i.a] = i.n
	case pApp:
		_, known := s.mods[i.b]
		_, taken := s.apps[i.a]
		if !known || taken {
			return false
		}
		s.apps[i.a] = &refApp{mod: s.mods[i.b]}
	case pIn, pOut:
		if _, ok := s.params[i.a]; ok {
			return false
		}
		if i.kind == pOut {
			s.params[i.a] = -1
			break
		}
		s.params[i.a] = s.inputs
		s.inputs++
	case pVar:
		if p, ok := s.params[i.b]; !ok || p < 0 {
			return false
		}
	case pExec:
		if _, ok := s.apps[i.b]; !ok {
			return false
		}
	case pSub:
		if !wellFormed(i.sub) {
			return false
		}
	case pAttach:
		p, isParam := s.params[i.a]
		if !s.vals[i.a] && (!isParam || p < 0) {
			return false
		}
		if _, ok := s.apps[i.b]; !ok {
			return false
		}
	case pRun:
		if _, ok := s.apps[i.a]; !ok {
			return false
		}
		s.code = true
	}
	switch i.kind {
	case pVar, pConst, pExec, pSub:
		s.vals[i.a] = true
		s.code = true
	}
	return true
}

func wellFormed(list []*pIns) bool {
	s := newScope()
	for _, i := range list {
		if !s.declare(i) {
			return false
		}
	}
	return s.code
}

// progCalls records the calls of the modules
type progCalls struct {
	log []string
}

type progResult struct{ text string }

func renderVal(v interface{}) string {
	switch t := v.(type) {
	case nil:
		return "nil"
	case []byte:
		return fmt.Sprintf("%q", string(t))
	case *progResult:
		return t.text
	case []interface{}:
		out := []string{}
		for _, e := range t {
			out = append(out, renderVal(e))
		}
		return "[" + strings.Join(out, " ") + "]"
	}
	return fmt.Sprintf("%T:%v", v, v)
}

func renderParams(p map[uint]interface{}) string {
	keys := []int{}
	for k := range p {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	out := []string{}
	for _, k := range keys {
		out = append(out, fmt.Sprintf("%d:%s", k, renderVal(p[uint(k)])))
	}
	return strings.Join(out, " ")
}

var errModule = errors.New("the module fails")

// call is what the modules do: what they return tells how they were called, and when
func (l *progCalls) call(mod uint, p map[uint]interface{}) (interface{}, error) {
	text := fmt.Sprintf("m%d(%s)", mod, renderParams(p))
	l.log = append(l.log, text)
	switch mod {
	case 2:
		return nil, nil
	case 3:
		return &progResult{"failed"}, errModule
	}
	return &progResult{fmt.Sprintf("call%d:%s", len(l.log), text)}, nil
}

var errMissing = errors.New("missing input")
var errUnclear = errors.New("unclear")

// refRun executes a list of instructions as it is read
func refRun(list []*pIns, inputs []interface{}, calls *progCalls) ([]interface{}, error) {
	s := newScope()
	out := []interface{}{}
	run := func(a *refApp) (interface{}, error) {
		p := map[uint]interface{}{}
		missing := map[uint]bool{}
		for _, at := range a.att {
			delete(missing, at.target)
			if at.input < 0 {
				p[at.target] = at.value
				continue
			}
			if at.input >= len(inputs) {
				missing[at.target] = true
				continue
			}
			p[at.target] = inputs[at.input]
		}
		if len(missing) > 0 {
			return nil, errMissing
		}
		for _, at := range a.att {
			if at.input >= len(inputs) {
				return nil, errUnclear // a missing input, that another value replaces
			}
		}
		return calls.call(a.mod, p)
	}
	for _, i := range list {
		if i.kind == pAttach {
			at := refAtt{target: i.n, input: -1}
			if s.vals[i.a] {
				at.value = s.vars[i.a]
			} else {
				at.input = s.params[i.a]
			}
			s.apps[i.b].att = append(s.apps[i.b].att, at)
		}
		if !s.declare(i) {
			panic("harness: a list that is not well formed is executed")
		}
		var v interface{}
		var err error
		switch i.kind {
		case pVar:
			if s.params[i.b] >= len(inputs) {
				return nil, errMissing
			}
			v = inputs[s.params[i.b]]
		case pConst:
			v = []byte(i.b)
		case pExec:
			v, err = run(s.apps[i.b])
		case pSub:
			sub, e := refRun(i.sub, inputs, calls)
			v, err = sub, e
		case pRun:
			_, err = run(s.apps[i.a])
			if err != nil {
				return nil, err
			}
			continue
		default:
			continue
		}
		if err != nil {
			return nil, err
		}
		s.vars[i.a] = v
		if p, ok := s.params[i.a]; ok && p < 0 {
			out = append(out, v)
		}
	}
	return out, nil
}

// progRig is an application of the interpreter, with its modules
type progRig struct {
	app   interpreters.Application
	mods  modules.Modules
	calls *progCalls
	hook  func()
}

func newProgRig() *progRig {
	r := &progRig{app: interpreters.NewApplication(progNames), calls: &progCalls{}}
	r.mods = r.modules()
	return r
}

func (r *progRig) modules() modules.Modules {
	list := []modules.Module{}
	indexes := append([]uint{0, 1, 2, 3}, extremeModules...)
	for n := uint(1000); n < 1000+scaleModules; n++ {
		indexes = append(indexes, n)
	}
	for _, n := range indexes {
		n := n
		m, err := modules.NewModuleBuilder().Create().WithIndex(n).WithFunc(func(p map[uint]interface{}) (interface{}, error) {
			if r.hook != nil {
				r.hook()
			}
			v, err := r.calls.call(n, p)
			// a module owns what it was given
			for k := range p {
				delete(p, k)
			}
			p[0] = &progResult{"left by a module"}
			p[7] = &progResult{"left by a module"}
			return v, err
		}).Now()
		mustOK(err)
		list = append(list, m)
	}
	// the order of the modules has no meaning
	list[0], list[2] = list[2], list[0]
	mods, err := modules.NewBuilder().Create().WithList(list).Now()
	mustOK(err)
	return mods
}

func progInputs(n int) []interface{} {
	out := []interface{}{}
	for i := 0; i < n; i++ {
		if i == 2 {
			out = append(out, nil)
			continue
		}
		out = append(out, &progResult{fmt.Sprintf("in%d", i)})
	}
	return out
}

// check compiles the list, and executes it when it is well formed, with each amount of inputs
func (r *progRig) check(c *C, list []*pIns, amounts []int) error {
	ins := mkList(list)
	want := wellFormed(list)
	r.calls.log = nil
	prog, err := r.app.Compile(r.mods, ins)
	c.Step(len(list))
	c.Exec()
	if (err == nil) != want {
		return fmt.Errorf("program %q: well formed: %v, but the compilation returned the error %v", progText(list), want, err)
	}
	if len(r.calls.log) > 0 {
		return fmt.Errorf("program %q: the compilation called a module: %v", progText(list), r.calls.log)
	}
	if err != nil {
		if prog != nil {
			return fmt.Errorf("program %q: a program was returned with the error %v", progText(list), err)
		}
		return nil
	}
	if c.id == "I02" {
		if got, want := progShape(prog), refProgShape(list); got != want {
			return fmt.Errorf("program %q: compiled as %s, instead of %s", progText(list), got, want)
		}
	}
	for _, n := range amounts {
		inputs := progInputs(n)
		ref := &progCalls{}
		wantOut, wantErr := refRun(list, inputs, ref)
		if wantErr == errUnclear {
			continue
		}
		// the same program, three times: nothing remains of an execution
		for times := 0; times < 3; times++ {
			r.calls.log = nil
			p := prog
			if times == 2 {
				if p, err = r.app.Compile(r.mods, ins); err != nil {
					return fmt.Errorf("program %q: cannot be compiled twice: %s", progText(list), err)
				}
			}
			got, err := r.app.Execute(inputs, p)
			where := fmt.Sprintf("program %q, %d inputs, execution %d", progText(list), n, times+1)
			if strings.Join(r.calls.log, " ") != strings.Join(ref.log, " ") {
				return fmt.Errorf("%s: the modules were called as %v, instead of %v", where, r.calls.log, ref.log)
			}
			if (err != nil) != (wantErr != nil) {
				return fmt.Errorf("%s: the error is %v, instead of %v", where, err, wantErr)
			}
			if err != nil {
				if got != nil {
					return fmt.Errorf("%s: values were returned with the error %s", where, err)
				}
				continue
			}
			if renderVal(got) != renderVal(wantOut) {
				return fmt.Errorf("%s: returned %s, instead of %s", where, renderVal(got), renderVal(wantOut))
			}
			c.State(renderVal(got), strings.Join(r.calls.log, " "))
			for i := range inputs {
				if renderVal(inputs[i]) != renderVal(progInputs(n)[i]) {
					return fmt.Errorf("%s: the input %d became %s", where, i, renderVal(inputs[i]))
				}
			}
		}
	}
	return nil
}

// progShape is what a compiled program holds: its instructions, in order, and the positions of its outputs
func progShape(prog programs.Program) string {
	app := func(a programs.Application) string {
		att := map[uint]string{}
		if a.HasAttachments() {
			for _, at := range a.Attachments().List() {
				att[at.Local()] = "a value"
				if v := at.Value(); v.IsInput() {
					att[at.Local()] = fmt.Sprintf("the input %d", *v.Input())
				}
			}
		}
		return fmt.Sprintf("app %d of module %d %v", a.Index(), a.Module().Index(), att)
	}
	out := []string{}
	for _, i := range prog.Instructions().List() {
		if i.IsExecution() {
			out = append(out, "run "+app(i.Execution()))
			continue
		}
		v := i.Value()
		switch {
		case v.IsInput():
			out = append(out, fmt.Sprintf("input %d", *v.Input()))
		case v.IsConstant():
			out = append(out, fmt.Sprintf("%q", v.Constant()))
		case v.IsExecution():
			out = append(out, "value of "+app(v.Execution()))
		case v.IsProgram():
			out = append(out, progShape(v.Program()))
		}
	}
	outputs := []uint{}
	if prog.HasOutputs() {
		outputs = append(outputs, prog.Outputs()...)
	}
	return fmt.Sprintf("{%s; outputs %v}", strings.Join(out, "; "), outputs)
}

// refProgShape is what the list must be compiled as
func refProgShape(list []*pIns) string {
	type refPlace struct {
		number int
		att    map[uint]string // the last one of each target
	}
	s := newScope()
	places := map[string]*refPlace{}
	inputOf := map[string]int{} // the assigned variables that are an input
	out := []string{}
	outputs := []uint{}
	app := func(name string) string {
		return fmt.Sprintf("app %d of module %d %v", places[name].number, s.apps[name].mod, places[name].att)
	}
	for _, i := range list {
		if i.kind == pAttach {
			places[i.b].att[i.n] = "a value"
			if !s.vals[i.a] {
				places[i.b].att[i.n] = fmt.Sprintf("the input %d", s.params[i.a])
			} else if n, ok := inputOf[i.a]; ok {
				places[i.b].att[i.n] = fmt.Sprintf("the input %d", n)
			}
		}
		if !s.declare(i) {
			panic("harness: a list that is not well formed has no shape")
		}
		switch i.kind {
		case pApp:
			places[i.a] = &refPlace{number: len(places), att: map[uint]string{}}
			continue
		case pRun:
			out = append(out, "run "+app(i.a))
			continue
		case pVar:
			out = append(out, fmt.Sprintf("input %d", s.params[i.b]))
		case pConst:
			out = append(out, fmt.Sprintf("%q", i.b))
		case pExec:
			out = append(out, "value of "+app(i.b))
		case pSub:
			out = append(out, refProgShape(i.sub))
		default:
			continue
		}
		delete(inputOf, i.a)
		if i.kind == pVar {
			inputOf[i.a] = s.params[i.b]
		}
		if p, ok := s.params[i.a]; ok && p < 0 {
			outputs = append(outputs, uint(len(out)-1))
		}
	}
	return fmt.Sprintf("{%s; outputs %v}", strings.Join(out, "; "), outputs)
}

// grow checks every list that begins by the prefix: an ill-formed list is not continued
func (r *progRig) grow(c *C, list []*pIns, fixed int, alphabet []*pIns, max int, amounts []int) error {
	if c.Over() {
		return nil
	}
	if len(list) > 0 {
		if err := r.check(c, list, amounts); err != nil {
			return err
		}
	}
	s := newScope()
	for _, i := range list {
		if !s.declare(i) {
			return nil
		}
	}
	if len(list)-fixed >= max {
		return nil
	}
	for _, i := range alphabet {
		if err := r.grow(c, append(append([]*pIns{}, list...), i), fixed, alphabet, max, amounts); err != nil {
			return err
		}
	}
	return nil
}

// programs checks every list made of the prologue then of up to max instructions of the alphabet:
// one case per list of split instructions
func (c *C) programs(prologue []*pIns, alphabet []*pIns, max int, split int, amounts []int) {
	var rec func(list []*pIns, depth int)
	rec = func(list []*pIns, depth int) {
		if c.Over() {
			return
		}
		l := append([]*pIns{}, list...)
		deeper := depth < split && depth < max
		c.Do(func() string {
			return fmt.Sprintf("program %q, and the lists of up to %d instructions that begin with it", progText(l), len(prologue)+max)
		}, func() error {
			r := newProgRig()
			if deeper {
				if len(l) == 0 {
					return nil
				}
				return r.check(c, l, amounts)
			}
			return r.grow(c, l, len(prologue), alphabet, max, amounts)
		})
		if !deeper {
			return
		}
		s := newScope()
		for _, i := range l {
			if !s.declare(i) {
				return
			}
		}
		for _, i := range alphabet {
			rec(append(append([]*pIns{}, l...), i), depth+1)
		}
	}
	rec(prologue, 0)
}
