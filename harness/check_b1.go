package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/coverages"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	ins_applications "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/attachments"
	ins_modules "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/modules"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/parameters"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
)

func init() {
	register("B01", "every builder of the domain with every assignment of its parts (not given, given as nothing, two values or more), in several orders, each given once or several times: an instance is built exactly when it is complete", checkB01)
	register("B02", "every builder of the domain with every complete assignment of its parts: what the accessors, the flags and the lookups of the instance return, compared with what was given", checkB02)
	register("B03", "every sequence of operations (each part with each value, now, create) on a builder and on those it creates, up to a depth: each builder compared with a model of its own parts, and each instance built on the way compared with what it was", checkB03)
}

// bSpec is a builder. Its parts are written as Method(kind): ! mandatory, ? optional, | an alternative (one of them is
// mandatory), f a flag (no argument). What follows is the path of the accessor, when it is not the name of the part
type bSpec struct {
	name  string
	new   interface{}
	parts string
	extra func(ins reflect.Value, given func(part string) (reflect.Value, bool)) error // more about the instance
	any   bool                                                                         // it is not specified what happens without an optional part
}

type bPart struct {
	name   string // WithX
	kind   byte
	path   []string // of the accessor
	flag   []string // of HasX or IsX
	values []bValue
}

type bValue struct {
	v      reflect.Value
	absent bool
}

type bRow struct {
	*bSpec
	parts   []*bPart
	samples []reflect.Value
}

type bLookup = func(ins reflect.Value, given func(part string) (reflect.Value, bool)) error

func getName(want func(given func(part string) (reflect.Value, bool)) string) bLookup {
	return func(ins reflect.Value, given func(part string) (reflect.Value, bool)) error {
		if got := ins.MethodByName("Name").Call(nil)[0].String(); got != want(given) {
			return fmt.Errorf("its name is %q, instead of %q", got, want(given))
		}
		return nil
	}
}

// nameOf is the name of the parts that were given
func nameOf(parts ...string) bLookup {
	return func(ins reflect.Value, given func(part string) (reflect.Value, bool)) error {
		got := ins.MethodByName("Name").Call(nil)[0].String()
		names := []string{}
		for _, p := range parts {
			v, ok := given(p)
			if !ok {
				continue
			}
			n := ""
			if v.Kind() == reflect.String {
				n = v.String()
			} else {
				n = v.MethodByName("Name").Call(nil)[0].String()
			}
			if n == got {
				return nil
			}
			names = append(names, n)
		}
		return fmt.Errorf("its name is %q, instead of %v", got, names)
	}
}

func bSpecs() []*bSpec {
	return []*bSpec{
		{name: "value", new: values.NewBuilder, parts: "WithName! WithNumber!"},
		{name: "cardinality", new: cardinalities.NewBuilder, parts: "WithMin! WithMax?"},
		{name: "compose element", new: grammars.NewComposeElementBuilder, parts: "WithValue! WithOccurences+"},
		{name: "compose", new: grammars.NewComposeBuilder, parts: "WithName! WithList!"},
		{name: "suite", new: grammars.NewSuiteBuilder, parts: "WithValid|Content/IsValid WithInvalid|Content", extra: func(ins reflect.Value, given func(part string) (reflect.Value, bool)) error {
			s := ins.Interface().(grammars.Suite)
			v, ok := given("WithValid")
			if s.IsValid() && (!ok || v.Interface() != s.Content()) {
				return fmt.Errorf("it is valid, and its content is not the valid one given")
			}
			v, ok = given("WithInvalid")
			if !s.IsValid() && (!ok || v.Interface() != s.Content()) {
				return fmt.Errorf("it is invalid, and its content is not the invalid one given")
			}
			return nil
		}},
		{name: "suites", new: grammars.NewSuitesBuilder, parts: "WithList!"},
		{name: "element", new: grammars.NewElementBuilder, parts: "WithCardinality! WithValue|Content.Value WithExternal|Content.External WithInstance|Content.Instance WithRecursive|Content.Recursive", extra: nameOf("WithValue", "WithExternal", "WithInstance", "WithRecursive")},
		{name: "container", new: grammars.NewContainerBuilder, parts: "WithElement| WithCompose|", extra: nameOf("WithElement", "WithCompose")},
		{name: "line", new: grammars.NewLineBuilder, parts: "WithContainers!"},
		{name: "block", new: grammars.NewBlockBuilder, parts: "WithLines!"},
		{name: "token", new: grammars.NewTokenBuilder, parts: "WithName! WithBlock! WithSuites?"},
		{name: "tokens", new: grammars.NewTokensBuilder, parts: "WithList!"},
		{name: "everything", new: grammars.NewEverythingBuilder, parts: "WithName! WithException! WithEscape?"},
		{name: "instance", new: grammars.NewInstanceBuilder, parts: "WithToken| WithEverything|", extra: nameOf("WithToken", "WithEverything")},
		{name: "channel condition", new: grammars.NewChannelConditionBuilder, parts: "WithPrevious? WithNext?", any: true},
		{name: "channel", new: grammars.NewChannelBuilder, parts: "WithToken! WithCondition?"},
		{name: "channels", new: grammars.NewChannelsBuilder, parts: "WithList!"},
		{name: "grammar", new: grammars.NewBuilder, parts: "WithRoot! WithChannels?"},
		{name: "external", new: grammars.NewExternalBuilder, parts: "WithName! WithGrammar!"},
		{name: "element", new: grammars.NewElementBuilder, parts: "WithCardinality! WithValue|Content.Value WithExternal|Content.External WithInstance|Content.Instance WithRecursive|Content.Recursive", extra: nameOf("WithValue", "WithExternal", "WithInstance", "WithRecursive")},

		{name: "tree value", new: trees.NewValueBuilder, parts: "WithContent! WithPrefix?"},
		{name: "tree content", new: trees.NewContentBuilder, parts: "WithValue| WithTree|"},
		{name: "tree contents", new: trees.NewContentsBuilder, parts: "WithList!"},
		{name: "tree element", new: trees.NewElementBuilder, parts: "WithContents! WithGrammar?", extra: func(ins reflect.Value, given func(part string) (reflect.Value, bool)) error {
			e := ins.Interface().(trees.Element)
			if e.Amount() != uint(len(e.Contents().List())) {
				return fmt.Errorf("its amount is %d, it has %d contents", e.Amount(), len(e.Contents().List()))
			}
			return nil
		}},
		{name: "tree elements", new: trees.NewElementsBuilder, parts: "WithList!", extra: func(ins reflect.Value, given func(part string) (reflect.Value, bool)) error {
			es := ins.Interface().(trees.Elements)
			for _, e := range es.List() {
				if !e.HasGrammar() {
					continue
				}
				got, err := es.Fetch(e.Grammar().Name())
				if err != nil || got.Grammar().Name() != e.Grammar().Name() {
					return fmt.Errorf("its element %s is fetched as %v, %v", e.Grammar().Name(), got, err)
				}
			}
			if got, err := es.Fetch("no such element"); err == nil {
				return fmt.Errorf("an unknown element is fetched as %v", got)
			}
			return nil
		}},
		{name: "tree line", new: trees.NewLineBuilder, parts: "WithIndex! WithGrammar! WithElements? IsReversef"},
		{name: "tree block", new: trees.NewBlockBuilder, parts: "WithLines!", extra: func(ins reflect.Value, given func(part string) (reflect.Value, bool)) error {
			b := ins.Interface().(trees.Block)
			var want trees.Line
			for _, l := range b.Lines() {
				if l.IsSuccessful() {
					want = l
					break
				}
			}
			if b.HasSuccessful() != (want != nil) || (want != nil && b.Successful() != want) {
				return fmt.Errorf("its successful line is %v, instead of %v", b.Successful(), want)
			}
			return nil
		}},
		{name: "tree", new: trees.NewTreeBuilder, parts: "WithGrammar! WithBlock! WithSuffix? WithRemaining?"},
		{name: "trees", new: trees.NewBuilder, parts: "WithList!"},
		{name: "tree", new: trees.NewTreeBuilder, parts: "WithGrammar! WithBlock! WithSuffix? WithRemaining?"},
		{name: "tree value", new: trees.NewValueBuilder, parts: "WithContent! WithPrefix?"},
		{name: "tree content", new: trees.NewContentBuilder, parts: "WithValue| WithTree|"},

		{name: "coverage result", new: coverages.NewResultBuilder, parts: "WithTree| WithError|"},
		{name: "coverage execution", new: coverages.NewExecutionBuilder, parts: "WithExpectation! WithResult!"},
		{name: "coverage executions", new: coverages.NewExecutionsBuilder, parts: "WithList!"},
		{name: "coverage", new: coverages.NewCoverageBuilder, parts: "WithToken! WithExecutions!"},
		{name: "coverages", new: coverages.NewBuilder, parts: "WithList!"},

		{name: "leaf", new: hashtrees.NewLeafBuilder, parts: "WithHead! WithParent?"},
		{name: "parent leaf", new: hashtrees.NewParentLeafBuilder, parts: "WithLeft! WithRight!"},
		{name: "leaf", new: hashtrees.NewLeafBuilder, parts: "WithHead! WithParent?"},
		{name: "leaves", new: hashtrees.NewLeavesBuilder, parts: "WithList!Leaves"},
		{name: "compact", new: hashtrees.NewCompactBuilder, parts: "WithHead! WithLeaves!"},

		{name: "content", new: contents.NewContentBuilder, parts: "WithHash! WithKind! WithData!"},
		{name: "contents", new: contents.NewBuilder, parts: "WithList!"},
		{name: "pointer", new: references.NewPointerBuilder, parts: "From! WithLength+"},
		{name: "content key", new: references.NewContentKeyBuilder, parts: "WithHash! WithKind! WithContent! WithCommit!"},
		{name: "content keys", new: references.NewContentKeysBuilder, parts: "WithList!", extra: func(ins reflect.Value, given func(part string) (reflect.Value, bool)) error {
			ks := ins.Interface().(references.ContentKeys)
			kinds := map[uint][]references.ContentKey{}
			for _, k := range ks.List() {
				kinds[k.Kind()] = append(kinds[k.Kind()], k)
				got, err := ks.Fetch(k.Hash())
				if err != nil || !got.Hash().Compare(k.Hash()) {
					return fmt.Errorf("its key %x is fetched as %v, %v", []byte(k.Hash())[:3], got, err)
				}
			}
			for kind := uint(0); kind < 9; kind++ {
				got := ks.ListByKind(kind)
				if len(got) != len(kinds[kind]) {
					return fmt.Errorf("it lists %d keys of the kind %d, instead of %d", len(got), kind, len(kinds[kind]))
				}
				for i, k := range kinds[kind] {
					if got[i] != k {
						return fmt.Errorf("its key %d of the kind %d is another one", i, kind)
					}
				}
			}
			if got, err := ks.Fetch(bHash(99)); err == nil {
				return fmt.Errorf("an unknown key is fetched as %v", got)
			}
			return nil
		}},
		{name: "commit", new: func() references.CommitBuilder { return references.NewCommitBuilder(kMining) }, parts: "WithValues! CreatedOn! WithParent? WithProof?Mine.Proof/HasMine"},
		{name: "commits", new: references.NewCommitsBuilder, parts: "WithList!", extra: func(ins reflect.Value, given func(part string) (reflect.Value, bool)) error {
			cs := ins.Interface().(references.Commits)
			list := cs.List()
			for _, one := range list {
				got, err := cs.Fetch(one.Hash())
				if err != nil || !got.Hash().Compare(one.Hash()) {
					return fmt.Errorf("its commit %x is fetched as %v, %v", []byte(one.Hash())[:3], got, err)
				}
			}
			if cs.Latest() != list[len(list)-1] {
				return fmt.Errorf("its latest commit is not the last one")
			}
			if got, err := cs.Fetch(bHash(99)); err == nil {
				return fmt.Errorf("an unknown commit is fetched as %v", got)
			}
			return nil
		}},
		{name: "reference", new: references.NewBuilder, parts: "WithContentKeys! WithCommits!"},

		{name: "instruction module", new: ins_modules.NewBuilder, parts: "WithIndex! WithName!"},
		{name: "instruction application", new: ins_applications.NewBuilder, parts: "WithModule! WithName!"},
		{name: "instruction parameter", new: parameters.NewBuilder, parts: "WithName! IsInputf"},
		{name: "instruction variable", new: attachments.NewVariableBuilder, parts: "WithCurrent! WithTarget!"},
		{name: "instruction attachment", new: attachments.NewBuilder, parts: "WithVariable! WithApplication!"},
		{name: "instruction value", new: instructions.NewValueBuilder, parts: "WithVariable| WithConstant| WithInstructions| WithExecution|"},
		{name: "instruction assignment", new: instructions.NewAssignmentBuilder, parts: "WithVariable! WithValue!"},
		{name: "instruction", new: instructions.NewInstructionBuilder, parts: "WithModule| WithApplication| WithParameter| WithAssignment| WithAttachment| WithExecution|"},
		{name: "instructions", new: instructions.NewBuilder, parts: "WithList! WithRemaining?"},
		{name: "instruction value", new: instructions.NewValueBuilder, parts: "WithVariable| WithConstant| WithInstructions| WithExecution|"},

		{name: "module", new: modules.NewModuleBuilder, parts: "WithIndex! WithFunc!"},
		{name: "modules", new: modules.NewBuilder, parts: "WithList!", extra: func(ins reflect.Value, given func(part string) (reflect.Value, bool)) error {
			ms := ins.Interface().(modules.Modules)
			for _, m := range ms.List() {
				got, err := ms.Fetch(m.Index())
				if err != nil || got.Index() != m.Index() {
					return fmt.Errorf("its module %d is fetched as %v, %v", m.Index(), got, err)
				}
			}
			if got, err := ms.Fetch(99); err == nil {
				return fmt.Errorf("an unknown module is fetched as %v", got)
			}
			return nil
		}},
		{name: "value of a program", new: programs.NewValueBuilder, parts: "WithInput| WithConstant| WithExecution| WithProgram|"},
		{name: "attachment", new: programs.NewAttachmentBuilder, parts: "WithValue! WithLocal!"},
		{name: "attachments", new: programs.NewAttachmentsBuilder, parts: "WithList!"},
		{name: "application", new: programs.NewApplicationBuilder, parts: "WithIndex! WithModule! WithAttachments?"},
		{name: "instruction of a program", new: programs.NewInstructionBuilder, parts: "WithValue| WithExecution|"},
		{name: "instructions of a program", new: programs.NewInstructionsBuilder, parts: "WithList!"},
		{name: "program", new: programs.NewBuilder, parts: "WithInstructions! WithOutputs?"},
		{name: "value of a program", new: programs.NewValueBuilder, parts: "WithInput| WithConstant| WithExecution| WithProgram|"},

		{name: "query element", new: queries.NewElementBuilder, parts: "WithName! WithIndex!"},
		{name: "query token", new: queries.NewTokenBuilder, parts: "WithName! WithReverseName! WithElement! WithContent?"},
		{name: "query content function", new: queries.NewContentFnBuilder, parts: "WithSingle| WithMulti|"},
		{name: "query function", new: queries.NewQueryFnBuilder, parts: "WithSingle| WithMulti|"},
		{name: "query fetcher", new: queries.NewFetcherBuilder, parts: "WithRecursive| WithQuery|"},
		{name: "query fetchers", new: queries.NewFetchersBuilder, parts: "WithList!"},
		{name: "query inside", new: queries.NewInsideBuilder, parts: "WithFn| WithFetchers|"},
		{name: "query", new: queries.NewBuilder, parts: "WithToken! WithInside! WithFn!"},
		{name: "query fetcher", new: queries.NewFetcherBuilder, parts: "WithRecursive| WithQuery|"},
	}
}

func bHash(n byte) hash.Hash {
	h := make([]byte, hash.Size)
	for i := range h {
		h[i] = n + byte(i)*n
	}
	return hash.Hash(h)
}

// bPool gives the values of the parts: those of the basic types, and the instances that are built on the way
type bPool struct {
	samples map[reflect.Type][]reflect.Value
}

func newBPool() *bPool {
	p := &bPool{map[reflect.Type][]reflect.Value{}}
	for _, v := range []interface{}{"n", "other", uint(0), uint(1), uint(7), byte(0), byte(7), bHash(1), bHash(2), big.NewInt(0), big.NewInt(1 << 40), time.Unix(5, 7).UTC(), time.Unix(1<<40, 0).UTC(),
		[]byte("b"), []byte("bytes"), []uint{0}, []uint{3, 1}} {
		p.add(reflect.ValueOf(v))
	}
	for _, tree := range [][][]byte{{{1}, {2}}, {{3}}} {
		t, err := hashtrees.NewBuilder().Create().WithBlocks(tree).Now()
		mustOK(err)
		p.addAs(reflect.TypeOf((*hashtrees.HashTree)(nil)).Elem(), reflect.ValueOf(t))
	}
	for i := 0; i < 2; i++ {
		i := i
		p.add(reflect.ValueOf(modules.ExecuteFn(func(input map[uint]interface{}) (interface{}, error) { return i, nil })))
		p.add(reflect.ValueOf(queries.MultiContentFn(func(contents []trees.Content) ([]interface{}, error) { return []interface{}{i}, nil })))
		p.add(reflect.ValueOf(queries.SingleContentFn(func(content trees.Content) ([]interface{}, error) { return []interface{}{i}, nil })))
		p.add(reflect.ValueOf(queries.MultiQueryFn(func(instances []interface{}) (interface{}, bool, error) { return i, true, nil })))
		p.add(reflect.ValueOf(queries.SingleQueryFn(func(instance interface{}) (interface{}, bool, error) { return i, true, nil })))
	}
	return p
}

func (p *bPool) add(v reflect.Value) { p.addAs(v.Type(), v) }

func (p *bPool) addAs(t reflect.Type, v reflect.Value) { p.samples[t] = append(p.samples[t], v) }

// values are the values given to a part of a type
func (p *bPool) values(t reflect.Type, kind byte) []bValue {
	out := []bValue{}
	for _, v := range p.samples[t] {
		out = append(out, bValue{v, kind == '+' && v.IsZero()})
	}
	switch t.Kind() {
	case reflect.Slice:
		if t == reflect.TypeOf(hash.Hash{}) {
			break
		}
		out = append(out, bValue{reflect.Zero(t), true})
		if el := p.samples[t.Elem()]; t.Elem().Kind() == reflect.Interface && len(el) > 0 {
			out = append(out, bValue{reflect.MakeSlice(t, 0, 4), true})
			for _, k := range []int{1, 2, len(el), 40} {
				l := reflect.MakeSlice(t, 0, k+1)
				for i := 0; i < k; i++ {
					l = reflect.Append(l, el[(k-1-i)%len(el)])
				}
				out = append(out, bValue{l, false})
			}
		}
	case reflect.Interface, reflect.Ptr, reflect.Func:
		out = append(out, bValue{reflect.Zero(t), true})
	case reflect.String:
		out = append(out, bValue{reflect.Zero(t), true})
	}
	return out
}

// bRows are the builders, with the values that their parts are given. Each one gives two instances to those that follow
func bRows() []*bRow {
	rows, _ := bRowsPool()
	return rows
}

func bRowsPool() ([]*bRow, *bPool) {
	pool := newBPool()
	out := []*bRow{}
	index := map[string]int{}
	for _, s := range bSpecs() {
		r := &bRow{bSpec: s}
		b := r.builder()
		for _, text := range strings.Fields(s.parts) {
			i := strings.IndexAny(text, "!?|+")
			if strings.HasSuffix(text, "f") && i < 0 {
				i = len(text) - 1
			}
			name := strings.TrimPrefix(text[:i], "With")
			p := &bPart{name: text[:i], kind: text[i]}
			path, flag := name, ""
			if rest := text[i+1:]; rest != "" {
				path = rest
				if j := strings.IndexByte(rest, '/'); j >= 0 {
					path, flag = rest[:j], rest[j+1:]
				}
			}
			p.path = strings.Split(path, ".")
			last := p.path[len(p.path)-1]
			switch {
			case p.kind == 'f':
				p.flag = p.path
				p.path = nil
			case flag != "":
				p.flag = []string{flag}
			case p.kind == '?':
				p.flag = append(append([]string{}, p.path[:len(p.path)-1]...), "Has"+last)
			case p.kind == '|' && path != "Content":
				p.flag = append(append([]string{}, p.path[:len(p.path)-1]...), "Is"+last)
			}
			m := b.MethodByName(p.name)
			if !m.IsValid() {
				fatal("the builder of %s has no method %s", s.name, p.name)
			}
			if p.kind == 'f' {
				p.values = []bValue{{}}
			} else {
				p.values = pool.values(m.Type().In(0), p.kind)
			}
			r.parts = append(r.parts, p)
		}
		// two instances, or three when a part of more than two values is mandatory
		t := b.MethodByName("Now").Type().Out(0)
		for k := 0; k < 3; k++ {
			for alt := 0; alt < len(r.parts); alt++ {
				a := make([]int, len(r.parts))
				used := false
				for i, p := range r.parts {
					a[i] = -1
					switch p.kind {
					case '!', '+':
						a[i] = nthPresent(p, k)
					case '|':
						if i >= alt && !used && nthPresent(p, k) >= 0 {
							used = true
							a[i] = nthPresent(p, k)
						}
					case '?', 'f':
						if k >= 1 {
							a[i] = nthPresent(p, k-1)
						}
					}
				}
				if alt > 0 && (r.parts[alt].kind != '|' || !used) {
					continue
				}
				b := r.builder()
				for i := range a {
					if a[i] >= 0 {
						b = r.give(b, i, a[i])
					}
				}
				ins, err := now(b)
				if err == nil && !ins.IsNil() {
					pool.addAs(t, ins)
				}
			}
		}
		if at, ok := index[s.name]; ok {
			out[at] = r // again, with the values that were not known
		} else {
			index[s.name] = len(out)
			out = append(out, r)
		}
	}
	return out, pool
}

func nthPresent(p *bPart, k int) int {
	list := []int{}
	for i, v := range p.values {
		if !v.absent {
			list = append(list, i)
		}
	}
	if len(list) == 0 {
		return -1
	}
	return list[k%len(list)]
}

func (r *bRow) builder() reflect.Value { return reflect.ValueOf(r.new).Call(nil)[0] }

func (r *bRow) give(b reflect.Value, part int, value int) reflect.Value {
	p := r.parts[part]
	if p.kind == 'f' {
		return b.MethodByName(p.name).Call(nil)[0]
	}
	return b.MethodByName(p.name).Call([]reflect.Value{p.values[value].v})[0]
}

func now(b reflect.Value) (reflect.Value, error) {
	out := b.MethodByName("Now").Call(nil)
	if !out[1].IsNil() {
		return out[0], out[1].Interface().(error)
	}
	return out[0], nil
}

// bState is the value given last to each part, or -1
type bState []int

func (r *bRow) empty() bState {
	out := make(bState, len(r.parts))
	for i := range out {
		out[i] = -1
	}
	return out
}

// set gives a value to a part. What is given as nothing is not given
func (r *bRow) has(s bState, i int) bool {
	return s[i] >= 0 && !r.parts[i].values[s[i]].absent
}

func (r *bRow) given(s bState) func(part string) (reflect.Value, bool) {
	return func(part string) (reflect.Value, bool) {
		for i, p := range r.parts {
			if p.name == part && r.has(s, i) {
				return p.values[s[i]].v, true
			}
		}
		return reflect.Value{}, false
	}
}

func (r *bRow) String(s bState) string {
	out := []string{}
	for i, p := range r.parts {
		if s[i] < 0 {
			continue
		}
		if p.kind == 'f' {
			out = append(out, p.name)
			continue
		}
		text := fmt.Sprintf("the value %d", s[i])
		if v := p.values[s[i]]; v.absent {
			text = "nothing"
		} else if v.v.Kind() != reflect.Interface && v.v.Kind() != reflect.Func && v.v.Kind() != reflect.Ptr {
			text = fmt.Sprintf("%d: %.40v", s[i], v.v)
		}
		out = append(out, p.name+"("+text+")")
	}
	if len(out) == 0 {
		return "nothing given"
	}
	return strings.Join(out, " ")
}

// complete is whether an instance is built: 1, 0 or -1 when it is not specified
func (r *bRow) complete(s bState) int {
	alternatives, one := false, false
	optional := false
	for i, p := range r.parts {
		switch p.kind {
		case '!', '+':
			if !r.has(s, i) {
				return 0
			}
		case '|':
			alternatives = true
			one = one || r.has(s, i)
		case '?':
			optional = optional || r.has(s, i)
		}
	}
	if alternatives && !one {
		return 0
	}
	if r.any && !optional {
		return -1
	}
	return 1
}

// walk follows a path of accessors
func walk(v reflect.Value, path []string) (reflect.Value, error) {
	for _, name := range path {
		if v.Kind() == reflect.Interface && v.IsNil() {
			return v, fmt.Errorf("there is nothing to get %s from", name)
		}
		m := v.MethodByName(name)
		if !m.IsValid() {
			fatal("no accessor %s", name)
		}
		v = m.Call(nil)[0]
	}
	return v, nil
}

// sameValue is whether an accessor returned what was given
func sameValue(got reflect.Value, want reflect.Value) bool {
	if got.Kind() == reflect.Ptr && got.Type() != want.Type() {
		if got.IsNil() {
			return false
		}
		got = got.Elem()
	}
	if got.Kind() == reflect.Interface && want.Kind() != reflect.Interface {
		got = got.Elem()
	}
	switch want.Kind() {
	case reflect.Func:
		return !got.IsNil() && got.Pointer() == want.Pointer()
	case reflect.Slice:
		if got.Len() != want.Len() {
			return false
		}
		for i := 0; i < want.Len(); i++ {
			if got.Index(i).Interface() != want.Index(i).Interface() {
				return false
			}
		}
		return true
	case reflect.Interface:
		return got.Interface() == want.Interface()
	}
	if t, ok := want.Interface().(time.Time); ok {
		return t.Equal(got.Interface().(time.Time))
	}
	return reflect.DeepEqual(got.Interface(), want.Interface())
}

// holds compares an instance with what was given
func (r *bRow) holds(ins reflect.Value, s bState) error {
	flags := 0
	alternatives := 0
	for i, p := range r.parts {
		has := r.has(s, i)
		if p.kind == 'f' {
			v, err := walk(ins, p.flag)
			if err != nil || v.Bool() != has {
				return fmt.Errorf("%s is %v, %v", p.flag[0], v, err)
			}
			continue
		}
		if p.flag != nil {
			v, err := walk(ins, p.flag)
			if err != nil {
				return fmt.Errorf("%s: %w", strings.Join(p.flag, "."), err)
			}
			if p.kind == '?' && v.Bool() != has {
				return fmt.Errorf("%s is %v", strings.Join(p.flag, "."), v)
			}
			if p.kind == '|' {
				alternatives++
				if v.Bool() {
					flags++
					if !has {
						return fmt.Errorf("%s is true", strings.Join(p.flag, "."))
					}
				} else {
					continue // another one was given
				}
			}
		}
		if !has || (p.kind == '|' && p.flag == nil) {
			continue
		}
		v, err := walk(ins, p.path)
		if err != nil {
			return fmt.Errorf("%s: %w", strings.Join(p.path, "."), err)
		}
		if p.flag != nil && p.flag[len(p.flag)-1] == "IsValid" {
			continue // compared below
		}
		if !sameValue(v, p.values[s[i]].v) {
			return fmt.Errorf("%s is %.80v, which is not what was given", strings.Join(p.path, "."), v)
		}
	}
	if alternatives > 1 && flags != 1 {
		return fmt.Errorf("it is %d of its alternatives", flags)
	}
	if r.extra != nil {
		return r.extra(ins, r.given(s))
	}
	return nil
}

// built compares the outcome of a builder with the parts given to it: whether it is built, and what it holds
func (r *bRow) built(b reflect.Value, s bState, whether bool, what bool) (reflect.Value, error) {
	ins, err := now(b)
	want := r.complete(s)
	if err != nil {
		if whether && want == 1 {
			return ins, fmt.Errorf("the builder of %s, %s: it is complete, and the error is %s", r.name, r.String(s), err)
		}
		if whether && !ins.IsNil() {
			return ins, fmt.Errorf("the builder of %s, %s: an instance is returned with the error %s", r.name, r.String(s), err)
		}
		return reflect.Value{}, nil
	}
	if ins.IsNil() {
		if whether {
			return ins, fmt.Errorf("the builder of %s, %s: there is no instance and no error", r.name, r.String(s))
		}
		return reflect.Value{}, nil
	}
	if whether && want == 0 {
		return ins, fmt.Errorf("the builder of %s, %s: it is not complete, and an instance is built", r.name, r.String(s))
	}
	if what && want == 1 {
		if err := r.holds(ins, s); err != nil {
			return ins, fmt.Errorf("the %s built with %s: %w", r.name, r.String(s), err)
		}
	}
	if want != 1 {
		return reflect.Value{}, nil
	}
	return ins, nil
}

// assignments are every value (or none) of every part
func (r *bRow) assignments(fn func(s bState) error) error {
	s := r.empty()
	for {
		if err := fn(s); err != nil {
			return err
		}
		i := 0
		for ; i < len(s); i++ {
			s[i]++
			if s[i] < len(r.parts[i].values) {
				break
			}
			s[i] = -1
		}
		if i == len(s) {
			return nil
		}
	}
}

func (c *C) eachAssignment(whether bool, what bool) {
	for _, r := range bRows() {
		r := r
		for _, p := range r.parts {
			present := 0
			for _, v := range p.values {
				if !v.absent {
					present++
				}
			}
			if c.verbose {
				fmt.Printf("%s.%s: %d values, %d given\n", r.name, p.name, len(p.values), present)
			}
		}
		orders := ordersOf(len(r.parts))
		if max := c.B("orders", 24, 720); len(orders) > max {
			orders = orders[:max]
		}
		for mode := 0; mode < len(orders)+2; mode++ {
			mode := mode
			order := orders[mode%len(orders)]
			before := mode - len(orders)
			c.Do(func() string {
				text := fmt.Sprintf("in the order %v", order)
				if before >= 0 {
					text = []string{"after other values", "after nothing"}[before]
				}
				return fmt.Sprintf("the builder of %s, every assignment of its parts, %s", r.name, text)
			}, func() error {
				return r.assignments(func(s bState) error {
					b := r.builder()
					for _, i := range order {
						if s[i] < 0 {
							continue
						}
						if before >= 0 && r.parts[i].kind != 'f' {
							// what was given before does not count
							for j, v := range r.parts[i].values {
								if v.absent == (before == 1) && j != s[i] {
									b = r.give(b, i, j)
								}
							}
						}
						b = r.give(b, i, s[i])
					}
					c.Step(1)
					c.Exec()
					ins, err := r.built(b, s, whether, what)
					c.State(r.name, fmt.Sprint(s), ins.IsValid())
					return err
				})
			})
		}
	}
}

// ordersOf are the orders of n things
func ordersOf(n int) [][]int {
	out := [][]int{{}}
	for k := 0; k < n; k++ {
		next := [][]int{}
		for _, o := range out {
			for at := len(o); at >= 0; at-- {
				p := append(append(append([]int{}, o[:at]...), k), o[at:]...)
				next = append(next, p)
			}
		}
		out = next
	}
	return out
}

func checkB01(c *C) {
	checkHashTreeBuilder(c, true, false)
	c.eachValue(true, false)
	c.Group("every assignment of the parts", 1)
	c.eachAssignment(true, false)
}

func checkB02(c *C) {
	checkHashTreeBuilder(c, false, true)
	c.eachValue(false, true)
	c.lookups()
	c.successfulLines(0.4)
	c.Group("every assignment of the parts", 1)
	c.eachAssignment(false, true)
}

// bOp is an operation on a builder: give a value to a part, or now (part -1), or create another one (part -2) and go on
// with it, or go back to the first one (part -3)
type bOp struct {
	part, value int
}

func (r *bRow) ops() []bOp {
	out := []bOp{{-1, 0}, {-2, 0}, {-3, 0}}
	for i, p := range r.parts {
		present, absent := 0, 0
		for j, v := range p.values {
			if (v.absent && absent > 0) || (!v.absent && present >= 2) {
				continue
			}
			if v.absent {
				absent++
			} else {
				present++
			}
			out = append(out, bOp{i, j})
		}
	}
	return out
}

func (r *bRow) opText(o bOp) string {
	switch o.part {
	case -1:
		return "now"
	case -2:
		return "create"
	case -3:
		return "back to the first builder"
	}
	s := r.empty()
	s[o.part] = o.value
	return r.String(s)
}

type bBuilt struct {
	ins reflect.Value
	s   bState
}

// sequence executes the operations and compares every builder, and every instance built on the way
func (r *bRow) sequence(ops []bOp) (string, error) {
	builders := []reflect.Value{r.builder()}
	states := []bState{r.empty()}
	cur := 0
	done := []bBuilt{}
	check := func(k int) error {
		ins, err := r.built(builders[k], states[k], true, true)
		if err == nil && ins.IsValid() {
			done = append(done, bBuilt{ins, append(bState{}, states[k]...)})
		}
		return err
	}
	for _, o := range ops {
		switch o.part {
		case -1:
			if err := check(cur); err != nil {
				return "", err
			}
		case -2:
			builders = append(builders, builders[cur].MethodByName("Create").Call(nil)[0])
			states = append(states, r.empty())
			cur = len(builders) - 1
		case -3:
			cur = 0
		default:
			// the builder itself is changed: what the method returns is used or not
			b := r.give(builders[cur], o.part, o.value)
			if o.value%2 == 0 {
				builders[cur] = b
			}
			states[cur][o.part] = o.value
		}
	}
	for k := range builders {
		if err := check(k); err != nil {
			if len(builders) > 1 {
				return "", fmt.Errorf("builder %d of %d: %w", k+1, len(builders), err)
			}
			return "", err
		}
	}
	for _, d := range done {
		if err := r.holds(d.ins, d.s); err != nil {
			return "", fmt.Errorf("the %s that was built with %s, afterwards: %w", r.name, r.String(d.s), err)
		}
	}
	return fmt.Sprint(states, cur), nil
}

func checkB03(c *C) {
	depth := c.B("operations", 5, 7)
	limit := c.B("sequences-per-builder", 60000, 3000000)
	checkHashTreeBuilder(c, true, true)
	c.Group("sequences of operations", 1)
	for _, r := range bRows() {
		r := r
		ops := r.ops()
		d, total := 0, 1
		for d < depth && total*len(ops) <= limit {
			total *= len(ops)
			d++
		}
		if d < 3 {
			d = 3
		}
		for first := range ops {
			first := first
			c.Do(func() string {
				return fmt.Sprintf("the builder of %s: %s, then every sequence of %d operations among %d", r.name, r.opText(ops[first]), d-1, len(ops))
			}, func() error {
				seq := make([]bOp, d)
				at := make([]int, d)
				seq[0] = ops[first]
				for {
					for i := 1; i < d; i++ {
						seq[i] = ops[at[i]]
					}
					c.Step(d)
					c.Exec()
					state, err := r.sequence(seq)
					if err != nil {
						texts := []string{}
						for _, o := range seq {
							texts = append(texts, r.opText(o))
						}
						return fmt.Errorf("%s: %w", strings.Join(texts, "; "), err)
					}
					c.State(r.name, state)
					i := d - 1
					for ; i >= 1; i-- {
						at[i]++
						if at[i] < len(ops) {
							break
						}
						at[i] = 0
					}
					if i < 1 || c.Over() {
						return nil
					}
				}
			})
		}
	}
}
