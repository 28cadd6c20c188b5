package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
)

// wideValues are many more values of the basic types, and lists of many amounts
func wideValues() *bPool {
	out := &bPool{map[reflect.Type][]reflect.Value{}}
	for _, n := range nearNames() {
		out.add(reflect.ValueOf(n[0]))
		out.add(reflect.ValueOf(n[1]))
	}
	for _, n := range []string{" ", "0", "\n", "\x00", "é", "\xff", strings.Repeat("n", 300), strings.Repeat("n", 70000)} {
		out.add(reflect.ValueOf(n))
	}
	for n := uint(0); n < 66; n++ {
		out.add(reflect.ValueOf(n))
	}
	for k := uint(7); k <= 64; k++ {
		top := uint(1) << (k % 64)
		if k < 64 {
			out.add(reflect.ValueOf(top))
			out.add(reflect.ValueOf(top + 1))
		} else {
			top = 0
		}
		out.add(reflect.ValueOf(top - 1))
	}
	for n := 0; n < 256; n++ {
		out.add(reflect.ValueOf(byte(n)))
		out.add(reflect.ValueOf([]byte{byte(n)}))
		out.add(reflect.ValueOf([]byte{byte(n), byte(n)}))
	}
	for _, n := range []int{2, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 65536} {
		out.add(reflect.ValueOf(fill(n, n)))
		out.add(reflect.ValueOf(make([]byte, n)))
	}
	for i := 0; i < hash.Size; i++ {
		h := make([]byte, hash.Size)
		out.add(reflect.ValueOf(hash.Hash(append([]byte{}, h...))))
		h[i] = 1
		out.add(reflect.ValueOf(hash.Hash(h)))
	}
	for k := uint(0); k < 530; k++ {
		n := big.NewInt(1)
		out.add(reflect.ValueOf(n.Lsh(n, k)))
		m := big.NewInt(1)
		m.Lsh(m, k)
		out.add(reflect.ValueOf(m.Sub(m, big.NewInt(1))))
	}
	for _, t := range []time.Time{time.Unix(0, 1), time.Unix(1, 0), time.Unix(1, 999999999), time.Unix(1<<31, 1), time.Unix(1<<32, 0), time.Date(2262, 1, 1, 1, 1, 1, 1, time.UTC),
		time.Date(2020, 2, 29, 23, 59, 59, 5, time.FixedZone("a zone", 3600)), time.Unix(5, 7)} {
		out.add(reflect.ValueOf(t))
	}
	for _, n := range []int{3, 8, 9, 255, 256, 257, 1000} {
		l := []uint{}
		for i := 0; i < n; i++ {
			l = append(l, uint((i*7)%n))
		}
		out.add(reflect.ValueOf(l))
	}
	return out
}

// wideLists are lists of the instances that are known, in several amounts and orders
func wideLists(p *bPool, t reflect.Type) []reflect.Value {
	out := []reflect.Value{}
	el := p.samples[t.Elem()]
	if len(el) == 0 {
		return out
	}
	for _, n := range append(append([]int{}, scaleSizes...), 1025) {
		for _, step := range []int{0, 1, 2} {
			l := reflect.MakeSlice(t, 0, n+1)
			for i := 0; i < n; i++ {
				k := 0
				switch step {
				case 1:
					k = i
				case 2:
					k = n - 1 - i
				}
				l = reflect.Append(l, el[k%len(el)])
			}
			out = append(out, l)
		}
	}
	return out
}

// eachValue gives many more values to each part, one part at a time
func (c *C) eachValue(whether bool, what bool) {
	c.Group("many values of each part", 0.5)
	wide := wideValues()
	rows, pool := bRowsPool()
	for _, r := range rows {
		for at := range r.parts {
			if r.parts[at].kind == 'f' {
				continue
			}
			r, at := r, at
			t := reflect.Type(nil)
			for _, v := range r.parts[at].values {
				t = v.v.Type()
			}
			if t == nil {
				continue
			}
			values := wide.samples[t]
			if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Interface {
				values = wideLists(pool, t)
			}
			if len(values) == 0 {
				continue
			}
			c.Do(func() string {
				return fmt.Sprintf("the builder of %s: %s with %d more values", r.name, r.parts[at].name, len(values))
			}, func() error {
				known := r.parts[at].values
				defer func() {
					r.parts[at].values = known
				}()
				for _, v := range values {
					r.parts[at].values = append(append([]bValue{}, known...), bValue{v, r.parts[at].kind == '+' && v.IsZero()})
					for k := 0; k < 3; k++ {
						s := r.empty()
						for i, p := range r.parts {
							if i == at {
								s[i] = len(known)
								continue
							}
							switch p.kind {
							case '!', '+':
								s[i] = nthPresent(p, k)
							case '?', 'f':
								if k > 0 {
									s[i] = nthPresent(p, k-1)
								}
							case '|':
								if k == 2 || r.parts[at].kind != '|' {
									s[i] = nthPresent(p, k)
								}
							}
						}
						b := r.builder()
						for i := range s {
							if s[i] >= 0 {
								b = r.give(b, i, s[i])
							}
						}
						c.Step(1)
						c.Exec()
						ins, err := r.built(b, s, whether, what)
						if err != nil {
							return err
						}
						c.State(r.name, "wide", at, ins.IsValid())
					}
				}
				return nil
			})
		}
	}
}

// lookups searches lists whose elements are almost equal: the numbers and the hashes differ by one bit, the names are near
func (c *C) lookups() {
	c.Group("lookups among elements that are almost equal", 0.3)
	numbers := func(k uint) []uint { return []uint{5, 5 ^ (1 << k), 0, 1 << k, ^uint(0), ^uint(0) ^ (1 << k)} }
	for k := uint(0); k < 64; k++ {
		k := k
		c.Do(func() string { return fmt.Sprintf("the modules whose indexes differ by the bit %d", k) }, func() error {
			list := []modules.Module{}
			for i, n := range numbers(k) {
				i := i
				m, err := modules.NewModuleBuilder().Create().WithIndex(n).WithFunc(func(input map[uint]interface{}) (interface{}, error) { return i, nil }).Now()
				if err != nil {
					return err
				}
				list = append(list, m)
			}
			for n := 1; n <= len(list); n++ {
				all, err := modules.NewBuilder().Create().WithList(list[:n]).Now()
				if err != nil {
					return err
				}
				first := map[uint]int{}
				for i, m := range list[:n] {
					if _, ok := first[m.Index()]; !ok {
						first[m.Index()] = i
					}
				}
				for i, x := range numbers(k) {
					c.Step(1)
					got, err := all.Fetch(x)
					at, ok := first[x]
					if ok != (err == nil) {
						return fmt.Errorf("%d modules, fetching the index %d: %v, it is in the list: %t", n, x, err, ok)
					}
					// of modules of the same index, any
					if ok && got.Index() != x {
						return fmt.Errorf("%d modules, fetching the index %d returns the index %d (%d, %d)", n, x, got.Index(), i, at)
					}
				}
				c.State("modules", k, n)
			}
			return nil
		})
		c.Do(func() string { return fmt.Sprintf("the content keys whose kinds differ by the bit %d", k) }, func() error {
			list := []references.ContentKey{}
			pointer, err := references.NewPointerBuilder().Create().From(0).WithLength(1).Now()
			if err != nil {
				return err
			}
			hashes := []hash.Hash{}
			base := sum("lookups")
			for i, n := range numbers(k) {
				h := toHash(flipped(base, int(k), byte(1<<uint(i))))
				hashes = append(hashes, h)
				key, err := references.NewContentKeyBuilder().Create().WithHash(h).WithKind(n).WithContent(pointer).WithCommit(toHash(base)).Now()
				if err != nil {
					return err
				}
				list = append(list, key)
			}
			for n := 1; n <= len(list); n++ {
				all, err := references.NewContentKeysBuilder().Create().WithList(list[:n]).Now()
				if err != nil {
					return err
				}
				for i, x := range numbers(k) {
					c.Step(2)
					want := []references.ContentKey{}
					for _, key := range list[:n] {
						if key.Kind() == x {
							want = append(want, key)
						}
					}
					got := all.ListByKind(x)
					if len(got) != len(want) {
						return fmt.Errorf("%d keys: %d are of the kind %d, and %d are listed", n, len(want), x, len(got))
					}
					for j := range want {
						if got[j] != want[j] {
							return fmt.Errorf("%d keys: the key %d of the kind %d is another one", n, j, x)
						}
					}
					key, err := all.Fetch(hashes[i])
					if (err == nil) != (i < n) || (err == nil && key != list[i]) {
						return fmt.Errorf("%d keys: fetching the hash of the key %d returns %v, %v", n, i, key, err)
					}
				}
				c.State("keys", k, n)
			}
			return nil
		})
		c.Do(func() string { return fmt.Sprintf("the commits made of hashes that differ in the byte %d", k) }, func() error {
			list := []references.Commit{}
			base := sum("lookups")
			for i := 0; i < 8; i++ {
				tree, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{flipped(base, int(k), byte(1<<uint(i)))}).Now()
				if err != nil {
					return err
				}
				one, err := references.NewCommitBuilder(kMining).Create().WithValues(tree).CreatedOn(time.Unix(7, 7)).Now()
				if err != nil {
					return err
				}
				list = append(list, one)
			}
			for n := 1; n <= len(list); n++ {
				all, err := references.NewCommitsBuilder().Create().WithList(list[:n]).Now()
				if err != nil {
					return err
				}
				if all.Latest() != list[n-1] {
					return fmt.Errorf("%d commits: the latest is not the last one", n)
				}
				for i := range list {
					c.Step(1)
					got, err := all.Fetch(list[i].Hash())
					if (err == nil) != (i < n) || (err == nil && got != list[i]) {
						return fmt.Errorf("%d commits: fetching the hash of the commit %d returns %v, %v", n, i, got, err)
					}
					for _, mask := range []byte{1, 0x80} {
						if got, err := all.Fetch(toHash(flipped(list[i].Hash(), int(k), mask))); err == nil {
							return fmt.Errorf("%d commits: fetching a hash that is almost that of the commit %d returns %v", n, i, got)
						}
					}
				}
				c.State("commits", k, n)
			}
			return nil
		})
	}
}
