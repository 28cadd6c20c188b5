package main

import (
	"fmt"
	"strings"
)

// The scale families of the queries: each dimension of a query or of its tree is grown alone

type scaleQuery struct {
	text    string
	inputs  []string
	queries []*qSpec
}

func qLeaf(tok, el string, idx, content int, in byte, fn byte) *qSpec {
	return &qSpec{tok: tok, rev: qNoReverse, el: el, idx: idx, content: content, in: in, fn: fn}
}

func qNode(tok, el string, idx, content int, fn byte, fetch ...*qFetch) *qSpec {
	return &qSpec{tok: tok, rev: qNoReverse, el: el, idx: idx, content: content, fetch: fetch, fn: fn}
}

func qRec(name string) *qFetch { return &qFetch{rec: name} }

func qQuery(q *qSpec) *qFetch { return &qFetch{q: q} }

func scaleQueries(n int) []scaleQuery {
	at := []int{0, 1, n / 2, n - 1, n, n + 1}
	out := []scaleQuery{}

	qs := []*qSpec{}
	for _, i := range append(at, -1) {
		if i < -1 {
			continue
		}
		for _, k := range []string{"s1", "mn", "Mn", "S1", "mi"} {
			qs = append(qs, qLeaf("R", "a", 0, i, k[0], k[1]))
		}
	}
	out = append(out, scaleQuery{"R: a* b?", []string{rep("a", n), rep("a", n) + "b", rep("a", n-1)}, qs})

	qs = []*qSpec{}
	for _, i := range at {
		for _, k := range []string{"s1", "mn"} {
			qs = append(qs, qLeaf("R", "a", i, -1, k[0], k[1]), qLeaf("R", "b", i, 0, k[0], k[1]))
		}
	}
	out = append(out, scaleQuery{"R: " + strings.TrimSpace(rep("a b ", n)), []string{rep("ab", n)}, qs})
	out = append(out, scaleQuery{"R: " + strings.TrimSpace(rep("a ", n)) + " b a", []string{rep("a", n) + "ba"}, qs})

	qs = []*qSpec{}
	for _, i := range at {
		leaf := qLeaf("T", "b", 0, -1, 'm', 'n')
		qs = append(qs, qNode("R", "T", 0, i, 'n', qQuery(leaf)), qNode("R", "T", 0, i, '1', qQuery(qLeaf("T", "a", 0, 0, 's', '1'))), qNode("R", "U", i, -1, 'n', qQuery(qLeaf("U", "c", 0, -1, 'm', 'n'))))
	}
	qs = append(qs, qNode("R", "T", 0, -1, 'n', qQuery(qLeaf("T", "b", 0, -1, 'm', 'n'))), qNode("R", "T", 0, -1, '1', qQuery(qLeaf("T", "b", 0, -1, 'm', 'n'))), qNode("R", "T", 0, -1, 'n', qQuery(qLeaf("T", "b", 0, -1, 's', '1'))),
		qNode("R", "T", 0, -1, 'n', qQuery(qLeaf("T", "a", 0, -1, 'm', 'i')), qQuery(qLeaf("T", "b", 0, -1, 'm', 'n'))))
	out = append(out, scaleQuery{"R: T* " + strings.TrimSpace(rep("U ", n)) + " ; T: a b? ; U: c", []string{rep("a", n) + rep("c", n), rep("ab", n) + rep("c", n), rep("a", n-1) + "ab" + rep("c", n), rep("c", n)}, qs})

	// many fetchers on one content
	fs, all := []*qFetch{}, []*qFetch{}
	for i := 0; i < n; i++ {
		fs = append(fs, qQuery(qLeaf("T", "a", 0, -1, "mMsS"[i%4], "nIn1"[i%4])))
		all = append(all, qQuery(qLeaf("T", []string{"a", "b"}[i%2], 0, -1, 'm', 'n')))
	}
	out = append(out, scaleQuery{"R: T{1,3} ; T: a b?", []string{"a", "abaab"}, []*qSpec{qNode("R", "T", 0, -1, 'n', fs...), qNode("R", "T", 0, -1, 'n', all...), qNode("R", "T", 0, 1, '1', append(append([]*qFetch{}, all...), qRec("R"))...)}})

	// recursions
	rec := func(fs ...*qFetch) *qSpec { return qNode("R", "R", 0, -1, 'n', fs...) }
	bottom := func() *qFetch { return qQuery(qLeaf("R", "b", 0, -1, 'm', 'n')) }
	out = append(out, scaleQuery{"R: a @R c? | b", []string{rep("a", n) + "b", rep("a", n) + "b" + rep("c", n), rep("a", n-1) + "b", "b"}, []*qSpec{
		rec(bottom(), qRec("R")), rec(qRec("R"), bottom()), rec(qRec("R"), qQuery(qLeaf("R", "a", 0, -1, 'm', 'n'))), rec(qRec("R")), rec(qQuery(rec(qRec("R"), bottom()))),
	}})
	// queries written in queries
	deep := qLeaf("R", "b", 0, -1, 'm', 'n')
	long := qLeaf("R", "a", 0, -1, 's', '1')
	again := rec(qRec("R"), bottom())
	for i := 0; i < n; i++ {
		deep = rec(qQuery(deep))
		long = qNode("R", "R", 0, 0, "nN1"[i%3], qQuery(long))
		if i < 20 {
			again = rec(qQuery(again), qQuery(qLeaf("R", "a", 0, -1, 'm', 'n')))
		}
	}
	out = append(out, scaleQuery{"R: a @R | b", []string{rep("a", n) + "b", rep("a", n-1) + "b", rep("a", n+1) + "b", "b"}, []*qSpec{deep, long, again}})

	// as many tokens
	if n <= 130 {
		text := "R: T0 ; " + seqf(n, " ; ", func(i int) string { return fmt.Sprintf("T%d: a T%d", i, i+1) }) + fmt.Sprintf(" ; T%d: b @R | @T0 | @T%d | c", n, n/2)
		mk := func(last *qFetch, first string) *qSpec {
			q := qNode(nm("T", n), first, 0, -1, 'n', last)
			for i := n - 1; i >= 0; i-- {
				q = qNode(nm("T", i), nm("T", i+1), 0, -1, 'n', qQuery(q))
			}
			return qNode("R", "T0", 0, -1, 'n', qQuery(q))
		}
		out = append(out, scaleQuery{text, []string{rep("a", n) + "c", rep("a", n) + "b" + rep("a", n) + "c", rep("a", 2*n) + "c"}, []*qSpec{
			mk(qQuery(qLeaf("R", "T0", 0, -1, 'm', 'n')), "R"), mk(qRec("R"), "R"), mk(qRec("T0"), "T0"), mk(qRec(nm("T", n/2)), nm("T", n/2)), mk(qRec(nm("T", n-1)), "T0"), mk(qRec("Z"), "T0"),
		}})
	}
	name := rep("N", n)
	out = append(out, scaleQuery{"R: " + name + " " + name + "M? ; " + name + ": a ; " + name + "M: b", []string{"a", "ab"}, []*qSpec{
		qNode("R", name, 0, -1, 'n', qQuery(qLeaf(name, "a", 0, -1, 'm', 'n'))), qNode("R", name+"M", 0, -1, 'n', qQuery(qLeaf(name+"M", "b", 0, -1, 'm', 'n'))),
		qLeaf("R", name+"N", 0, -1, 's', 'n'), qLeaf("R", name, 1, -1, 'm', 'n'), qLeaf("R", name, 0, -1, 'm', 'n'), qNode("R", name, 0, -1, 'n', qQuery(qLeaf(name+"M", "a", 0, -1, 'm', 'n'))),
	}})
	return out
}

func (c *C) scaleQueries(name string, share float64, max int, inject bool) {
	c.Group(name, share)
	if c.thorough() {
		max *= 2
	}
	for _, n := range append(append([]int{}, scaleSizes...), scaleMore...) {
		if n > max {
			continue
		}
		for _, s := range scaleQueries(n) {
			g := &qGram{text: s.text}
			for _, in := range s.inputs {
				g.inputs = append(g.inputs, []byte(in))
			}
			qs := s.queries
			c.queriesOf(g, inject, func(fn func(q *qSpec)) {
				for _, q := range qs {
					fn(q)
				}
			})
		}
	}
}
