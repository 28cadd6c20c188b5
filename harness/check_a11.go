package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/steve-care-software/rodkina/instances/grammars/components"
	instance_grammars "github.com/steve-care-software/rodkina/instances/grammars/grammars"
	instance_tokens "github.com/steve-care-software/rodkina/instances/grammars/tokens"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)

func init() {
	register("A11", "the shipped grammar and tokens run by the real parser on every document of the families (documented forms, each with one part removed, repeated, replaced, inserted or moved, every separator at every place, all sequences of parts up to a length, all bytes), compared with an independent recognizer of the documented forms", checkA11)
}

// sNode is a part of a document that was recognized
type sNode struct {
	name string
	text string
}

// sDoc recognizes the documented forms on a text without its channels
type sDoc struct {
	in    string
	pos   int
	nodes []sNode
}

type sRule func(d *sDoc) bool

func sLit(text string) sRule {
	return func(d *sDoc) bool {
		if strings.HasPrefix(d.in[d.pos:], text) {
			d.pos += len(text)
			return true
		}
		return false
	}
}

func sClass(is func(c byte) bool) sRule {
	return func(d *sDoc) bool {
		if d.pos < len(d.in) && is(d.in[d.pos]) {
			d.pos++
			return true
		}
		return false
	}
}

func sSeq(rules ...sRule) sRule {
	return func(d *sDoc) bool {
		pos, n := d.pos, len(d.nodes)
		for _, r := range rules {
			if !r(d) {
				d.pos, d.nodes = pos, d.nodes[:n]
				return false
			}
		}
		return true
	}
}

func sAlt(rules ...sRule) sRule {
	return func(d *sDoc) bool {
		for _, r := range rules {
			if r(d) {
				return true
			}
		}
		return false
	}
}

func sRep(min int, max int, r sRule) sRule {
	return func(d *sDoc) bool {
		pos, nodes := d.pos, len(d.nodes)
		n := 0
		for (max < 0 || n < max) && r(d) {
			n++
		}
		if n < min {
			d.pos, d.nodes = pos, d.nodes[:nodes]
			return false
		}
		return true
	}
}

var sRules = map[string]sRule{}

func sNamed(name string, r sRule) sRule {
	out := func(d *sDoc) bool {
		pos, i := d.pos, len(d.nodes)
		d.nodes = append(d.nodes, sNode{name: name})
		if !r(d) {
			d.pos, d.nodes = pos, d.nodes[:i]
			return false
		}
		d.nodes[i].text = d.in[pos:d.pos]
		return true
	}
	sRules[name] = out
	return out
}

func isLower(c byte) bool  { return c >= 'a' && c <= 'z' }
func isUpper(c byte) bool  { return c >= 'A' && c <= 'Z' }
func isLetter(c byte) bool { return isLower(c) || isUpper(c) }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }
func isHex(c byte) bool {
	return isDigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')
}

func init() {
	num := sRep(1, -1, sClass(isDigit))
	variable := sNamed("variableName", sSeq(sClass(isLower), sRep(0, -1, sClass(isLetter))))
	hex := sNamed("sha512Hex", sRep(128, 128, sClass(isHex)))
	one := func(s string) sRule { return sLit(s) }
	cardinality := sNamed("cardinality", sAlt(one("?"), one("+"), one("*"), sSeq(one("["), num, one("]")), sSeq(one("["), num, one(","), sRep(0, 1, num), one("]"))))
	element := sNamed("element", sSeq(variable, sRep(0, -1, cardinality)))
	line := sNamed("line", sRep(1, -1, element))
	delimLine := sNamed("delimiterThenLine", sSeq(one("|"), line))
	block := sNamed("block", sSeq(line, sRep(0, -1, delimLine)))
	delimSuite := sNamed("delimiterThenSuiteElement", sSeq(one("&"), variable))
	suiteBlock := sNamed("suiteBlock", sSeq(one(":"), variable, sRep(0, -1, delimSuite), one(";")))
	valid := sNamed("suiteValid", sSeq(one("valid"), suiteBlock))
	invalid := sNamed("suiteInvalid", sSeq(one("invalid"), suiteBlock))
	suite := sNamed("suite", sSeq(one("---"), sAlt(sSeq(valid, sRep(0, 1, invalid)), invalid)))
	amount := sNamed("composeWithAmount", sSeq(one("|"), num))
	compose := sNamed("compose", sSeq(variable, sRep(0, -1, amount)))
	with := sNamed("everythingWithEscape", sSeq(one("#"), variable, one("!"), variable))
	without := sNamed("everythingWithoutEscape", sSeq(one("#"), variable))
	everything := sNamed("everything", sAlt(with, without))
	value := sNamed("valueAssignment", sSeq(variable, one(":"), num, one(";")))
	assign := func(name string, r sRule) sRule {
		return sNamed(name, sSeq(variable, one(":"), r, suite, one(";")))
	}
	instruction := sNamed("instruction", sAlt(value, assign("composeAssignment", compose), assign("everythingAssignment", everything), assign("tokenAssignment", block), assign("externalTokenAssignment", hex)))
	inside := sNamed("channelPreviousNextInside", sAlt(sSeq(variable, one(":"), variable), sSeq(one(":"), variable), variable))
	prevNext := sNamed("channelPreviousNext", sSeq(one("["), inside, one("]")))
	channel := sNamed("channel", sSeq(one("-"), variable, sRep(0, 1, prevNext), one(";")))
	root := sNamed("root", sSeq(one("@"), variable, one(";")))
	sNamed("grammar", sSeq(root, sRep(0, -1, channel), sRep(1, -1, instruction)))
}

// withoutSpaces removes what the channels of the shipped grammar skip
func withoutSpaces(in string) string {
	out := []byte{}
	for i := 0; i < len(in); i++ {
		if strings.IndexByte(" \t\r\n", in[i]) >= 0 {
			continue
		}
		if strings.HasPrefix(in[i:], "//") {
			if end := strings.IndexAny(in[i+2:], "\r\n"); end > 0 {
				i += 2 + end
				continue
			} else if end < 0 && i+2 < len(in) {
				break
			}
		}
		out = append(out, in[i])
	}
	return string(out)
}

// recognize returns the parts of the document, if it has exactly the form of the name
func recognize(name string, in string) ([]sNode, bool) {
	d := &sDoc{in: withoutSpaces(in)}
	if !sRules[name](d) || d.pos != len(d.in) {
		return nil, false
	}
	return d.nodes, true
}

func treeNodes(t trees.Tree, out []sNode) []sNode {
	name := t.Grammar().Name()
	if _, ok := sRules[name]; ok {
		out = append(out, sNode{name, string(t.Bytes(false))})
	}
	for _, e := range t.Block().Successful().Elements().List() {
		for _, ct := range e.Contents().List() {
			if ct.IsTree() {
				out = treeNodes(ct.Tree(), out)
			}
		}
	}
	return out
}

// complete parses a text, and returns the tree if all of the text was parsed
func complete(g grammars.Grammar, in string) trees.Tree {
	tree, err := theParser.Execute(g, []byte(in))
	if err != nil || tree == nil || !tree.Block().HasSuccessful() || tree.HasRemaining() {
		return nil
	}
	return tree
}

func (c *C) shipped(name string, g grammars.Grammar, in string) error {
	c.Exec()
	nodes, ok := recognize(name, in)
	tree := complete(g, in)
	if ok != (tree != nil) {
		if ok {
			return fmt.Errorf("the token %s does not parse %q completely", name, in)
		}
		return fmt.Errorf("the token %s parses %q completely", name, in)
	}
	c.State(name, ok, withoutSpaces(in))
	if !ok {
		return nil
	}
	if all := string(tree.Bytes(true)); all != in {
		return fmt.Errorf("the tree of %q has the bytes %q", in, all)
	}
	got := treeNodes(tree, nil)
	for i := 0; i < len(nodes) || i < len(got); i++ {
		if i >= len(got) || i >= len(nodes) || nodes[i] != got[i] {
			e, r := sNode{"nothing", ""}, sNode{"nothing", ""}
			if i < len(nodes) {
				e = nodes[i]
			}
			if i < len(got) {
				r = got[i]
			}
			return fmt.Errorf("%q, parsed by %s: the part %d is a %s %q instead of a %s %q", in, name, i, r.name, r.text, e.name, e.text)
		}
	}
	return nil
}

// shippedTokens returns the tokens of the shipped grammar by name
func shippedTokens() map[string]grammars.Grammar {
	out := map[string]grammars.Grammar{}
	whole := instance_grammars.NewGrammar().Grammar()
	var walk func(t grammars.Token)
	walk = func(t grammars.Token) {
		if _, ok := out[t.Name()]; ok {
			return
		}
		g, err := grammars.NewBuilder().Create().WithRoot(t).WithChannels(whole.Channels()).Now()
		mustOK(err)
		out[t.Name()] = g
		for _, l := range t.Block().Lines() {
			for _, ct := range l.Containers() {
				if ct.IsElement() && ct.Element().Content().IsInstance() && ct.Element().Content().Instance().IsToken() {
					walk(ct.Element().Content().Instance().Token())
				}
			}
		}
	}
	walk(whole.Root())
	out[whole.Root().Name()] = whole
	return out
}

// sHex returns a hash that begins and ends with the text
func sHex(head string, tail string) string {
	fill := strings.Repeat("0123456789abcdefABCDEF", 6)
	return head + fill[:128-len(head)-len(tail)] + tail
}

var hexDigit, hexLetter, hexLower = sHex("0f", "9"), sHex("cF1", "d"), strings.Repeat("abcdef", 22)[:128]

// the parts are separated by a ~
var suiteForms = []string{
	"---~valid~:~a~;", "---~invalid~:~aB~;", "---~valid~:~a~&~bC~;~invalid~:~a~;", "---~valid~:~valid~;~invalid~:~invalid~&~a~&~b~;",
}

var forms = map[string][]string{
	"variableName":              {"a", "aV~ar", "z~Z", "valid"},
	"sha512Hex":                 {hexDigit, hexLetter, hexLower},
	"cardinality":               {"*", "+", "?", "[~2~]", "[~2~34~]", "[~0~,~]", "[~0~,~234~]", "[~12~,~3~]"},
	"element":                   {"a", "aB~*", "a~+", "a~?", "a~[~2~]", "a~[~1~,~]", "a~[~0~,~23~]", "a~*~+"},
	"line":                      {"a", "a~*~b", "a~+~b~?~cD~[~2~]~e~[~0~,~]~f~[~1~,~23~]"},
	"block":                     {"a", "a~|~b~*", "a~b~|~c~*~d~|~e~[~2~,~]"},
	"delimiterThenLine":         {"|~a", "|~a~*~b"},
	"delimiterThenSuiteElement": {"&~a", "&~aB"},
	"suiteBlock":                {":~a~;", ":~a~&~b~;", ":~a~&~b~&~cD~;"},
	"suiteValid":                {"valid~:~a~;", "valid~:~a~&~b~;"},
	"suiteInvalid":              {"invalid~:~a~;", "invalid~:~a~&~b~;"},
	"suite":                     suiteForms,
	"composeWithAmount":         {"|~4", "|~2~34"},
	"compose":                   {"a", "aB~|~4", "a~|~2~34"},
	"everything":                {"#~a", "#~a~!~bC"},
	"everythingWithEscape":      {"#~a~!~bC"},
	"everythingWithoutEscape":   {"#~a"},
	"root":                      {"@~a~;", "@~aB~;"},
	"channelPreviousNextInside": {"a", ":~b", "a~:~b"},
	"channelPreviousNext":       {"[~a~]", "[~:~b~]", "[~a~:~b~]"},
	"channel":                   {"-~a~;", "-~a~[~b~]~;", "-~a~[~:~c~]~;", "-~a~[~b~:~c~]~;"},
	"valueAssignment":           {"a~:~1~;", "aB~:~2~55~;"},
}

func assignments(contents []string, suites []string) []string {
	out := []string{}
	for _, x := range contents {
		for _, s := range suites {
			out = append(out, "a~:~"+x+"~"+s+"~;")
		}
	}
	return out
}

func init() {
	forms["composeAssignment"] = assignments(forms["compose"], suiteForms)
	forms["everythingAssignment"] = assignments(forms["everything"], suiteForms)
	forms["tokenAssignment"] = assignments(append(append([]string{}, forms["element"]...), forms["block"]...), suiteForms)
	forms["externalTokenAssignment"] = assignments(forms["sha512Hex"], suiteForms)
	for _, n := range []string{"value", "compose", "everything", "token", "externalToken"} {
		forms["instruction"] = append(forms["instruction"], forms[n+"Assignment"]...)
	}
}

// documents returns whole grammars
func documents(thorough bool) []string {
	out := []string{}
	add := func(parts ...string) { out = append(out, strings.Join(parts, "~")) }
	root := "@~a~;"
	v, s := "v~:~12~;", "---~valid~:~a~;"
	ins := []string{v, "c~:~d~|~2~" + s + "~;", "e~:~#~f~!~g~" + s + "~;", "t~:~u~*~w~|~x~[~1~,~2~]~" + s + "~;", "h~:~" + hexLetter + "~" + s + "~;", "i~:~" + hexDigit + "~" + s + "~;"}
	for i, x := range forms["instruction"] {
		if thorough || i%10 == 0 {
			add(root, x)
		}
	}
	for _, x := range forms["channel"] {
		add(root, x, v)
		for _, y := range forms["channel"] {
			add(root, x, y, v)
			if thorough {
				for _, z := range ins {
					add(root, x, y, z)
				}
			}
		}
	}
	for _, x := range ins {
		for _, y := range ins {
			add(root, x, y)
			if !thorough {
				continue
			}
			for _, z := range ins {
				add(root, "-~k~;", x, y, z)
			}
		}
	}
	add(append([]string{root, "-~k~;", "-~l~[~m~]~;"}, ins...)...)
	return out
}

var separators = []string{"", " ", "\t", "\n", "\r", "\r\n", " \t\n ", "//c\n", " //c\n", "// a: b; \"#\n", " // x\r\n\t", "//a\n//b\n", "///\n", "//\n", "//c\r"}

// sizedForms repeat a part: the separator replaces each ~
var sizedForms = []struct{ name, head, part, tail string }{
	{"variableName", "a", "b", ""},
	{"variableName", "a", "Zz", "B"},
	{"cardinality", "[~", "7", "~]"},
	{"cardinality", "[~1~,~", "9", "~]"},
	{"cardinality", "[~", "1", "~,~]"},
	{"element", "a~", "*", ""},
	{"element", "a~", "[2]", "?"},
	{"line", "", "a?", ""},
	{"line", "a~b~", "c[1,]", "d"},
	{"block", "a~", "|b", ""},
	{"block", "a~b+~", "|c*d", "|~e"},
	{"suiteBlock", ":~a~", "&b", ";"},
	{"suite", "---~valid~:~a~", "&b", ";"},
	{"suite", "---~invalid~:~a~", "&b", ";"},
	{"suite", "---~valid~:~a~;~invalid~:~a~", "&b", "&~c~;"},
	{"suite", "---~valid~:~a~", "&b", "&~c~;~invalid~:~a~;"},
	{"compose", "a~|~", "1", ""},
	{"compose", "a~", "|4", ""},
	{"everything", "#~a", "b", ""},
	{"everything", "#~a~!~c", "b", ""},
	{"valueAssignment", "a~:~", "1", "~;"},
	{"tokenAssignment", "a~:~b~", "|c", "---~valid~:~d~;~;"},
	{"tokenAssignment", "a~:~b~", "c", "---~valid~:~d~;~;"},
	{"composeAssignment", "a~:~b~", "|3", "---~invalid~:~d~;~;"},
	{"channel", "-~a", "b", "~[~c~:~d~]~;"},
	{"channel", "-~a~[~c", "b", "~]~;"},
	{"grammar", "@~a~;~", "-b;", "c~:~1~;"},
	{"grammar", "@~a~;~", "-b[c:d];", "c~:~1~;"},
	{"grammar", "@~a~;~-~b~;~", "c:1;", ""},
	{"grammar", "@~a~;~", "c:d---valid:e;;", ""},
	{"grammar", "@~a~;~", "c:#d!e---valid:e;;", "f~:~1~;"},
}

func checkA11(c *C) {
	var gs map[string]grammars.Grammar
	get := func(name string) grammars.Grammar {
		if gs == nil {
			gs = shippedTokens()
		}
		if gs[name] == nil {
			panic(fmt.Errorf("the grammar has no token %s", name))
		}
		return gs[name]
	}
	names := []string{}
	for _, n := range strings.Fields("variableName sha512Hex cardinality element line block delimiterThenLine delimiterThenSuiteElement suiteBlock suiteValid suiteInvalid suite composeWithAmount compose everything everythingWithEscape everythingWithoutEscape root channelPreviousNextInside channelPreviousNext channel valueAssignment composeAssignment everythingAssignment tokenAssignment externalTokenAssignment instruction") {
		names = append(names, n)
	}
	form := func(name string, f string, what string, variants func(parts []string, fn func(in string) error) error) {
		c.Do(func() string { return fmt.Sprintf("%s: %s of %q", name, what, f) }, func() error {
			return variants(strings.Split(f, "~"), func(in string) error { return c.shipped(name, get(name), in) })
		})
	}
	each := func(fn func(name string, f string, light bool)) {
		for _, n := range names {
			for i, f := range forms[n] {
				big := strings.HasSuffix(n, "Assignment") || n == "instruction"
				if big && !c.thorough() && i%5 != 0 {
					continue
				}
				fn(n, f, big || len(f) > 128)
			}
		}
		for _, f := range documents(c.thorough()) {
			fn("grammar", f, true)
		}
	}

	c.Group("tokens on bytes", 0.2)
	c.bytesA11()

	c.Group("own suites", 0.2)
	c.Do(func() string { return "the suites of the shipped grammar" }, func() error { return ownSuites(instance_grammars.NewGrammar().Grammar()) })
	for i, t := range shippedSet() {
		t := t
		c.Do(func() string { return fmt.Sprintf("the suites of the shipped token %d", i) }, func() error {
			g, err := grammars.NewBuilder().Create().WithRoot(t).WithChannels(components.NewComponent().Channel().Channels()).Now()
			mustOK(err)
			return ownSuites(g)
		})
	}

	c.Group("forms of the documentation", 0.3)
	for _, f := range []string{
		"wordActually: letterA letterC letterT letterU letterA letterL|2 letterY|1;", "w: a b;", "w: a;", "w: a|2;", "w: a|2 b;",
	} {
		f := f
		c.Do(func() string { return fmt.Sprintf("the documented compose %q", f) }, func() error {
			if complete(get("instruction"), f) == nil {
				return keyed("compose:"+strings.ReplaceAll(f, " ", "~"), "the documented compose %q is not parsed completely as an instruction", f)
			}
			return nil
		})
	}
	for _, f := range []string{"a", "aVariable", "variable"} {
		c.Do(func() string { return fmt.Sprintf("the documented variable %q", f) }, func() error { return c.shipped("variableName", get("variableName"), f) })
	}
	for i := 0; i < 256; i++ {
		c.Do(func() string { return fmt.Sprintf("the value %d", i) }, func() error {
			return c.shipped("instruction", get("instruction"), fmt.Sprintf("myVariable: %d;", i))
		})
	}

	c.Group("documented forms with separators", 0.5)
	each(func(n string, f string, light bool) {
		form(n, f, "the separators", func(parts []string, fn func(in string) error) error {
			for _, s := range separators {
				if err := fn(s + strings.Join(parts, s) + s); err != nil {
					return err
				}
				if light && !c.thorough() && s != " //c\n" {
					continue
				}
				for i := 0; i <= len(parts); i++ {
					if err := fn(strings.Join(parts[:i], "") + s + strings.Join(parts[i:], "")); err != nil {
						return err
					}
				}
			}
			return nil
		})
	})

	c.Group("sizes", 0.35)
	sizes := []int{}
	for _, n := range scaleSizes {
		if n <= c.B("size", 65, 300) {
			sizes = append(sizes, n)
		}
	}
	for _, n := range sizes {
		n := n
		for _, f := range sizedForms {
			f := f
			c.Do(func() string { return fmt.Sprintf("%s: %s, %d times %s, %s", f.name, f.head, n, f.part, f.tail) }, func() error {
				seps := []string{"", " ", "//c\r\n"}
				if n > 17 && !c.thorough() {
					seps = seps[:1]
				}
				for _, sep := range seps {
					in := f.head + strings.Repeat(f.part+sep, n) + f.tail
					if err := c.shipped(f.name, get(f.name), strings.ReplaceAll(in, "~", sep)); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}

	c.Group("comments", 0.3)
	for _, n := range sizes {
		n := n
		c.Do(func() string { return fmt.Sprintf("comments of %d bytes, and %d comments", n, n) }, func() error {
			for _, sep := range []string{"//" + strings.Repeat("c", n) + "\n", strings.Repeat("//c\r", n), strings.Repeat(" ", n), strings.Repeat("\t\r\n", n)} {
				for _, f := range []string{"@~a~;~b~:~1~;", "@~a~;~-~k~[~l~:~m~]~;~b~:~1~;"} {
					if err := c.shipped("grammar", get("grammar"), strings.ReplaceAll("~"+f+"~", "~", sep)); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	for b := 0; b < 256; b++ {
		b := b
		c.Do(func() string { return fmt.Sprintf("comments with the byte %d", b) }, func() error {
			x := string([]byte{byte(b)})
			for _, sep := range []string{"//" + x + "c\n", "//c" + x + "\r", " //" + x + "\r\n", "//c" + x + "d" + x + "\n", x} {
				for _, f := range []string{"@~a~;", "a~:~1~;"} {
					name := map[byte]string{'@': "root", 'a': "valueAssignment"}[f[0]]
					if err := c.shipped(name, get(name), strings.ReplaceAll(f, "~", sep)); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}

	c.Group("one part changed", 0.8)
	others := strings.Fields("; : | & # ! [ ] , * + ? - --- @ a B 1 valid invalid / // é { ~")
	some := strings.Fields("; : | a 1 valid ---")
	each(func(n string, f string, light bool) {
		form(n, f, "one change", func(parts []string, fn func(in string) error) error {
			sep := " "
			list := others
			if light && !c.thorough() {
				list = some
			}
			for i := range parts {
				before, after := parts[:i], parts[i+1:]
				variants := [][]string{nil, {parts[i], parts[i]}}
				if len(parts[i]) > 1 {
					variants = append(variants, []string{parts[i][1:]}, []string{parts[i][:len(parts[i])-1]}, []string{strings.ToUpper(parts[i])}, []string{parts[i] + parts[i][:1]})
				}
				if i+1 < len(parts) {
					variants = append(variants, []string{parts[i+1], parts[i], parts[i+1]})
				}
				for _, o := range list {
					variants = append(variants, []string{o})
					if !light || c.thorough() {
						variants = append(variants, []string{o, parts[i]})
					}
					if i == len(parts)-1 {
						variants = append(variants, []string{parts[i], o})
					}
				}
				if len(f) > 128 && n != "sha512Hex" && !c.thorough() {
					variants = variants[:2]
				}
				for _, v := range variants {
					all := append(append(append([]string{}, before...), v...), after...)
					if err := fn(strings.Join(all, sep)); err != nil {
						return err
					}
				}
				if i+1 < len(parts) {
					all := append(append(append([]string{}, before...), parts[i+1], parts[i]), parts[i+2:]...)
					if err := fn(strings.Join(all, sep)); err != nil {
						return err
					}
				}
			}
			return nil
		})
	})

	c.Group("all sequences of parts", 1)
	for _, s := range []struct {
		name  string
		parts string
		n     int
	}{
		{"variableName", "a zB C 1 _", c.B("variable-parts", 5, 6)},
		{"cardinality", "[ ] , 1 23 * + a", c.B("cardinality-parts", 4, 6)},
		{"element", "a Bc [ ] , 4 ?", c.B("element-parts", 4, 6)},
		{"block", "a bC | * [1] ;", c.B("block-parts", 4, 7)},
		{"suite", "--- valid invalid :a; ; & b", c.B("suite-parts", 5, 7)},
		{"suiteBlock", ": a & ; B", c.B("suite-block-parts", 5, 8)},
		{"compose", "a | 1 23 C", c.B("compose-parts", 5, 7)},
		{"everything", "# a ! B", c.B("everything-parts", 6, 8)},
		{"root", "@ a ; B", c.B("root-parts", 6, 8)},
		{"channelPreviousNext", "[ ] : a B", c.B("condition-parts", 5, 7)},
		{"channel", "- a ; [ ] :", c.B("channel-parts", 5, 7)},
		{"valueAssignment", "a : 1 ; B", c.B("value-parts", 6, 7)},
		{"instruction", "a : 1 ; #b!c |2 ---valid:a;", c.B("instruction-parts", 4, 6)},
		{"grammar", "@a; -b; c:1; d:e---invalid:f; ;", c.B("grammar-parts", 5, 6)},
	} {
		s := s
		parts := strings.Fields(s.parts)
		for _, first := range parts {
			for _, second := range parts {
				first, second := first, second
				c.Do(func() string { return fmt.Sprintf("%s: the sequences that begin with %q %q", s.name, first, second) }, func() error {
					var rec func(seq []string) error
					rec = func(seq []string) error {
						if err := c.shipped(s.name, get(s.name), strings.Join(seq, " ")); err != nil {
							return err
						}
						if len(seq) >= s.n {
							return nil
						}
						for _, p := range parts {
							if err := rec(append(append([]string{}, seq...), p)); err != nil {
								return err
							}
						}
						return nil
					}
					return rec([]string{first, second})
				})
			}
		}
		for _, first := range append([]string{""}, parts...) {
			c.Do(func() string { return fmt.Sprintf("%s: only %q", s.name, first) }, func() error { return c.shipped(s.name, get(s.name), first) })
		}
	}

}

// ownSuites checks the outcome of the suites of a grammar
func ownSuites(g grammars.Grammar) error {
	cov, err := theParser.Coverages(g)
	if err != nil {
		return err
	}
	for _, one := range cov.List() {
		suites := one.Token().Suites().List()
		list := one.Executions().List()
		if len(list) != len(suites) {
			return fmt.Errorf("%d executions of the %d suites of the token %s", len(list), len(suites), one.Token().Name())
		}
		for _, e := range list {
			if e.Expectation().IsValid() != e.Result().IsTree() {
				compose := e.Expectation().Content()
				text := []byte{}
				for _, x := range compose.List() {
					text = append(text, bytes.Repeat([]byte{x.Value().Number()}, int(x.Occurences()))...)
				}
				return fmt.Errorf("the suite %q of the token %s is valid: %t, but it is parsed: %t", text, one.Token().Name(), e.Expectation().IsValid(), e.Result().IsTree())
			}
		}
	}
	return nil
}

func shippedSet() []grammars.Token {
	t := instance_tokens.NewToken()
	return []grammars.Token{t.VariableName(), t.Sha512Hex(), t.AnyHexCharacter(), t.AnyLetter(), t.AnyByte(), t.AnyNumber(), t.AToFUpperCaseLetters(), t.AToFLowerCaseLetters(), t.UpperCaseLetters(), t.LowerCaseLetters()}
}

// bytesA11 compares the tokens with the texts that they name, without channels
func (c *C) bytesA11() {
	bare := func(t grammars.Token) grammars.Grammar {
		g, err := grammars.NewBuilder().Create().WithRoot(t).Now()
		mustOK(err)
		return g
	}
	// eat returns the bytes that a token takes at the beginning of a text
	check := func(what string, g grammars.Grammar, in []byte, expected int) error {
		c.Exec()
		tree, err := theParser.Execute(g, in)
		n := -1
		if err == nil && tree != nil && tree.Block().HasSuccessful() {
			got := tree.Bytes(true)
			if !bytes.HasPrefix(in, got) || !bytes.Equal(in[len(got):], tree.Remaining()) {
				return fmt.Errorf("%s on %q: the bytes are %q and the remaining %q", what, in, got, tree.Remaining())
			}
			n = len(got)
		}
		if n != expected {
			return fmt.Errorf("%s on %q: takes %d bytes instead of %d", what, in, n, expected)
		}
		c.State(what, n)
		return nil
	}
	set := shippedSet()
	classes := []struct {
		name string
		i    int
		is   func(b byte) bool
	}{
		{"AnyHexCharacter", 2, isHex}, {"AnyLetter", 3, isLetter}, {"AnyByte", 4, func(byte) bool { return true }}, {"AnyNumber", 5, isDigit},
		{"AToFUpperCaseLetters", 6, func(b byte) bool { return b >= 'A' && b <= 'F' }}, {"AToFLowerCaseLetters", 7, func(b byte) bool { return b >= 'a' && b <= 'f' }},
		{"UpperCaseLetters", 8, isUpper}, {"LowerCaseLetters", 9, isLower},
	}
	for _, k := range classes {
		k := k
		c.Do(func() string { return k.name + " on all bytes" }, func() error {
			g := bare(set[k.i])
			for b := 0; b < 256; b++ {
				e := -1
				if k.is(byte(b)) {
					e = 1
				}
				for _, in := range [][]byte{{byte(b)}, {byte(b), byte(b)}, {byte(b), 'a'}, {byte(b), 0}, {byte(b), 255}} {
					if err := check(k.name, g, in, e); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	c.Do(func() string { return "VariableName" }, func() error {
		g := bare(set[0])
		for _, prefix := range []string{"", "a", "z", "aA", "mZ", "aaaa", "bCdEfG"} {
			for b := 0; b < 256; b++ {
				for _, suffix := range []string{"", "a", "Z", "1", " "} {
					in := prefix + string([]byte{byte(b)}) + suffix
					e := -1
					if isLower(in[0]) {
						for e = 1; e < len(in) && isLetter(in[e]); e++ {
						}
					}
					if err := check("VariableName", g, []byte(in), e); err != nil {
						return err
					}
				}
			}
		}
		return nil
	})
	for pos := 0; pos < 128; pos++ {
		if !c.thorough() && pos > 2 && pos < 125 && pos%9 != 0 {
			continue
		}
		pos := pos
		c.Do(func() string { return fmt.Sprintf("Sha512Hex with any byte at %d", pos) }, func() error {
			g := bare(set[1])
			for b := 0; b < 256; b++ {
				in := []byte(hexLetter)
				in[pos] = byte(b)
				e := -1
				if isHex(byte(b)) {
					e = 128
				}
				if err := check("Sha512Hex", g, in, e); err != nil {
					return err
				}
			}
			return nil
		})
	}
	c.Do(func() string { return "Sha512Hex of other lengths" }, func() error {
		g := bare(set[1])
		for n := 0; n <= 140; n++ {
			e := 128
			if n < 128 {
				e = -1
			}
			if err := check("Sha512Hex", g, []byte(strings.Repeat(hexDigit, 2)[:n]), e); err != nil {
				return err
			}
		}
		return nil
	})
	texts := []string{"a", "ab", "aba", "//", "---", "\x00", "a\x00", "é", "aé", "é世", "世a", "\n\r", "0123456789", "zyx"}
	for _, text := range texts {
		text := text
		c.Do(func() string { return fmt.Sprintf("AllCharacters, AnyCharacter and AnyElement of %q", text) }, func() error {
			comp := components.NewComponent()
			all, any := bare(comp.Token().AllCharacters("all", text)), bare(comp.Token().AnyCharacter("any", text))
			els := []grammars.Element{}
			for i := 0; i < len(text); i++ {
				els = append(els, comp.Element().FromValue(text[i]))
			}
			anyEl := bare(comp.Token().AnyElement("element", els, nil))
			for _, g := range []grammars.Grammar{all, any} {
				if err := ownSuites(g); err != nil {
					return err
				}
			}
			inputs := []string{"", text, text + text, text + "x", "x" + text, text[1:], text[:len(text)-1]}
			for i := range text {
				inputs = append(inputs, text[i:], text[:i], text[:i]+"x"+text[i:])
			}
			for b := 0; b < 256; b++ {
				x := string([]byte{byte(b)})
				inputs = append(inputs, x, text+x, x+text, text[:len(text)-1]+x)
			}
			for _, in := range inputs {
				e := -1
				if strings.HasPrefix(in, text) {
					e = len(text)
				}
				if err := check("AllCharacters", all, []byte(in), e); err != nil {
					return err
				}
				e = -1
				for _, r := range text {
					if strings.HasPrefix(in, string(r)) {
						e = len(string(r))
					}
				}
				if err := check("AnyCharacter", any, []byte(in), e); err != nil {
					return err
				}
				e = -1
				if in != "" && strings.IndexByte(text, in[0]) >= 0 {
					e = 1
				}
				if err := check("AnyElement", anyEl, []byte(in), e); err != nil {
					return err
				}
			}
			return nil
		})
	}
}
