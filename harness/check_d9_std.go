package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"strings"
	"syscall"
)

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// allocated returns the bytes allocated since the beginning
func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

type damagedBase struct {
	name string
	data []byte
	ref  int // length of the reference
	db   mDB
}

func damagedBases(c *C) ([]damagedBase, error) {
	shapes := []struct {
		name string
		db   mDB
	}{
		{"one commit of one content", mDB{{{hashA, fill(1, 20), 1}}}},
		{"two commits", mDB{{{hashA, fill(1, 9), 1}, {hashB, fill(2, 30), 0}, {hashC, fill(3, 1), 256}}, {{hashA, fill(4, 12), 1}}}},
		{"three commits", mDB{{{hashA, fill(1, 5), 0}}, {{hashB, fill(2, 6), 0}, {hashC, fill(2, 7), 0}}, {{hashA, fill(4, 8), 3}}}},
	}
	out := []damagedBase{}
	for _, s := range shapes {
		dir := c.dirOf()
		app := newApp(dir, 0)
		if err := app.New("base"); err != nil {
			return nil, err
		}
		p, err := app.Open("base")
		if err != nil {
			return nil, err
		}
		for _, commit := range s.db {
			for _, m := range commit {
				if err := doWrite(app, *p, m); err != nil {
					return nil, err
				}
			}
			if err := app.Commit(*p); err != nil {
				return nil, err
			}
		}
		if err := app.Close(*p); err != nil {
			return nil, err
		}
		data, err := os.ReadFile(filepath.Join(dir, "base"))
		if err != nil {
			return nil, err
		}
		// the commits contain the time: two lengths, one is enough
		b := damagedBase{s.name, data, 0, s.db}
		if len(data) >= 8 {
			b.ref = int(binary.LittleEndian.Uint64(data))
		}
		out = append(out, b)
	}
	return out, nil
}

// damaged opens a damaged file and uses all of it
func (c *C) damaged(content []byte, chunk uint, mustRefuse bool, original *damagedBase) error {
	dir := filepath.Join(c.scratchDir, "dmg")
	os.MkdirAll(dir, 0755)
	for _, n := range listDir(dir) {
		os.Remove(filepath.Join(dir, n))
	}
	path := filepath.Join(dir, "base")
	if err := os.WriteFile(path, content, 0644); err != nil {
		return err
	}
	f := newFsx(dir)
	app := newApp(dir, chunk)
	limit := uint64(4<<20) + 400*uint64(len(content))
	c.Step(1)
	c.Exec()

	begin := allocated()
	f.on()
	p, err := app.Open("base")
	f.off()
	if used := allocated() - begin; used > limit {
		return fmt.Errorf("Open allocates %d bytes for a file of %d bytes", used, len(content))
	}
	if err != nil {
		open := len(f.fds)
		names := fmt.Sprint(f.fds)
		f.closeAll()
		if open > 0 {
			return fmt.Errorf("Open returns an error (%v) but leaves files open: %s", err, names)
		}
		now, e := os.ReadFile(path)
		if e != nil || !bytes.Equal(now, content) {
			return fmt.Errorf("Open returns an error (%v) but the file changed", err)
		}
		if l := listDir(dir); len(l) != 1 {
			return fmt.Errorf("Open returns an error (%v) but files appeared: %v", err, l)
		}
		// nothing stays open in the application either
		if _, e := app.Open("base"); e == nil || strings.Contains(e.Error(), "already an open context") {
			return fmt.Errorf("Open returns an error (%v), then (%v)", err, e)
		}
		c.State("refused")
		return nil
	}
	defer f.closeAll()
	defer app.Close(*p)
	if mustRefuse {
		return fmt.Errorf("a file that is cut inside its reference is opened")
	}

	ctx := *p
	begin = allocated()
	amount := 0
	if commits, err := app.Commits(ctx); err == nil {
		for i, one := range commits.List() {
			if i > 2000 {
				return fmt.Errorf("more commits than the file can have")
			}
			amount++
			one.CreatedOn()
			one.Values().Height()
			if one.HasParent() {
				one.Parent().String()
			}
			if one.HasMine() {
				one.Mine().Proof()
				one.Mine().Score()
			}
			app.CommitByHash(ctx, one.Hash())
		}
		commits.Latest()
	}
	kinds := []uint{0, 1, 3, 256}
	reads := 0
	for _, k := range kinds {
		keys, err := app.ContentKeysByKind(ctx, k)
		if err != nil {
			continue
		}
		list := []pointerT{}
		for _, one := range keys.List() {
			reads++
			data, err := app.Read(ctx, one.Content())
			if err == nil && uint(len(data)) != one.Content().Length() {
				return fmt.Errorf("Read returns %d bytes, the pointer has %d", len(data), one.Content().Length())
			}
			app.ReadByHash(ctx, one.Hash())
			list = append(list, one.Content())
		}
		app.ReadAll(ctx, list)
	}
	app.ReadAllByHashes(ctx, hashesOf(hashA, hashB, hashC))
	app.CommitByHash(ctx, toHash(hashX))
	for _, q := range [][2]uint{{0, 1}, {0, 1 << 40}, {1 << 63, 1 << 63}, {1<<64 - 1, 1<<64 - 1}} {
		if pt, err := pointerOf(q[0], q[1]); err == nil {
			app.Read(ctx, pt)
		}
	}
	app.Commit(ctx)
	app.Cancel(ctx)
	if err := app.Write(ctx, toHash(hashX), []byte{1, 2, 3}, 1); err != nil {
		return fmt.Errorf("Write returns an error: %v", err)
	}
	commitErr := app.Commit(ctx)
	if commitErr == nil {
		// what was committed after is there
		if data, err := app.ReadByHash(ctx, toHash(hashX)); err == nil && !bytes.Equal(data, []byte{1, 2, 3}) {
			c.State("committed, other bytes")
		}
	} else {
		app.Cancel(ctx)
	}
	if used := allocated() - begin; used > 4*limit+uint64(reads)*uint64(len(content))*8 {
		return fmt.Errorf("the operations allocate %d bytes for a file of %d bytes", used, len(content))
	}
	app.Close(ctx)
	// and it can be opened again, or refused again
	if p, err := app.Open("base"); err == nil {
		app.Commits(*p)
		app.Close(*p)
	}
	c.State("opened", amount, reads, commitErr == nil)
	return nil
}

func checkD09(c *C) {
	bases, err := damagedBases(c)
	if err != nil {
		c.Do(func() string { return "the databases to damage" }, func() error { return err })
		return
	}
	chunks := []uint{0, 1, 100}

	c.Group("truncations", 0.4)
	for bi := range bases {
		b := bases[bi]
		for cut := 0; cut <= len(b.data); cut++ {
			cut := cut
			c.Do(func() string {
				return fmt.Sprintf("%s: cut at %d bytes of %d (reference of %d)", b.name, cut, len(b.data), b.ref)
			}, func() error {
				defer noGC()()
				if cut%100 == 0 {
					runtime.GC()
				}
				for _, chunk := range chunks {
					if err := c.damaged(b.data[:cut], chunk, cut > 0 && cut < 8+b.ref, &b); err != nil {
						return fmt.Errorf("chunk size %d: %v", chunk, err)
					}
				}
				if cut > 0 && cut < len(b.data) {
					return nil
				}
				// an empty file is a new database, the whole file is the one of before
				db := b.db
				if cut == 0 {
					db = nil
				}
				dir := filepath.Join(c.scratchDir, "dmg")
				os.WriteFile(filepath.Join(dir, "base"), b.data[:cut], 0644)
				return verifyFresh(dir, "base", 3, db, verifyAll)
			})
		}
		// cut, then filled with zeros, or with what is after (the end of the file lost in the middle)
		for cut := 0; cut < len(b.data); cut += 1 + c.B("hole_step", 1, 0) {
			cut := cut
			c.Do(func() string {
				return fmt.Sprintf("%s: zeros from the byte %d; a missing part at %d", b.name, cut, cut)
			}, func() error {
				zeros := append(append([]byte{}, b.data[:cut]...), make([]byte, len(b.data)-cut)...)
				if err := c.damaged(zeros, 0, false, &b); err != nil {
					return fmt.Errorf("zeros: %v", err)
				}
				for _, miss := range []int{1, 8, 64} {
					if cut+miss > len(b.data) {
						continue
					}
					hole := append(append([]byte{}, b.data[:cut]...), b.data[cut+miss:]...)
					if err := c.damaged(hole, 0, false, &b); err != nil {
						return fmt.Errorf("%d bytes missing: %v", miss, err)
					}
					ins := append(append([]byte{}, b.data[:cut]...), make([]byte, miss)...)
					ins = append(ins, b.data[cut:]...)
					if err := c.damaged(ins, 0, false, &b); err != nil {
						return fmt.Errorf("%d bytes inserted: %v", miss, err)
					}
				}
				return nil
			})
		}
	}

	c.Group("extensions", 0.2)
	for bi := range bases {
		b := bases[bi]
		for n := 1; n <= 300; n += 1 + n/10 {
			n := n
			c.Do(func() string { return fmt.Sprintf("%s: extended by %d bytes", b.name, n) }, func() error {
				for _, fillByte := range []byte{0, 0xff} {
					for _, chunk := range chunks {
						if err := c.damaged(append(append([]byte{}, b.data...), bytes.Repeat([]byte{fillByte}, n)...), chunk, false, &b); err != nil {
							return err
						}
					}
				}
				// what was committed is unaffected
				dir := filepath.Join(c.scratchDir, "dmg")
				os.WriteFile(filepath.Join(dir, "base"), append(append([]byte{}, b.data...), make([]byte, n)...), 0644)
				app := newApp(dir, 0)
				p, err := app.Open("base")
				if err != nil {
					return nil
				}
				defer app.Close(*p)
				return verifyChain(app, *p, b.db, nil)
			})
		}
	}

	c.Group("fields", 0.6)
	boundary := []uint64{0, 1, 2, 7, 8, 63, 64, 65, 127, 128, 1 << 16, 1 << 20, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 40, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1, 1<<64 - 8, 1<<64 - 64, 1<<64 - 136, 1<<64 - 200}
	for bi := range bases {
		b := bases[bi]
		for off := 0; off+8 <= 8+b.ref; off++ {
			off := off
			c.Do(func() string { return fmt.Sprintf("%s: each boundary value in the 8 bytes at %d", b.name, off) }, func() error {
				defer noGC()()
				if off%100 == 0 {
					runtime.GC()
				}
				orig := binary.LittleEndian.Uint64(b.data[off:])
				values := append([]uint64{orig + 1, orig - 1, orig * 2, orig / 2, orig + 8, orig - 8, orig ^ (1 << 63), uint64(len(b.data)), uint64(len(b.data) - 8), uint64(b.ref)}, boundary...)
				for _, order := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
					for _, v := range values {
						d := append([]byte{}, b.data...)
						order.PutUint64(d[off:], v)
						if err := c.damaged(d, 0, false, &b); err != nil {
							return fmt.Errorf("the value %d: %v", v, err)
						}
					}
				}
				return nil
			})
		}
	}

	c.Group("bytes", 0.9)
	for bi := range bases {
		b := bases[bi]
		n := c.B("byte_values", 30, 256)
		for off := 0; off < len(b.data); off++ {
			off := off
			c.Do(func() string { return fmt.Sprintf("%s: the byte %d changed", b.name, off) }, func() error {
				defer noGC()()
				if off%100 == 0 {
					runtime.GC()
				}
				old := b.data[off]
				values := []byte{}
				if n == 256 {
					for v := 0; v < 256; v++ {
						values = append(values, byte(v))
					}
				} else {
					values = []byte{0, 1, 0x7f, 0x80, 0xff, old + 1, old - 1, old ^ 1, old ^ 0x80, ^old}
				}
				for _, v := range values {
					if v == old {
						continue
					}
					d := append([]byte{}, b.data...)
					d[off] = v
					if err := c.damaged(d, 0, false, &b); err != nil {
						return fmt.Errorf("the value %d: %v", v, err)
					}
				}
				return nil
			})
		}
	}

	// files that never were a database: each length field with each short content
	c.Group("short files", 0.9)
	for n := 0; n <= 400; n += 1 + n/30 {
		n := n
		c.Do(func() string { return fmt.Sprintf("files of a length field and %d bytes", n) }, func() error {
			for _, l := range append([]uint64{uint64(n), uint64(n) - 1, uint64(n) + 1, uint64(n) + 8}, boundary...) {
				for _, fillByte := range []byte{0, 1, 0xff, 'a'} {
					d := make([]byte, 8)
					binary.LittleEndian.PutUint64(d, l)
					d = append(d, bytes.Repeat([]byte{fillByte}, n)...)
					for _, chunk := range []uint{0, 7} {
						if err := c.damaged(d, chunk, false, nil); err != nil {
							return fmt.Errorf("the length %d, bytes %d, chunk size %d: %v", l, fillByte, chunk, err)
						}
					}
				}
			}
			return nil
		})
	}
}

var _ = syscall.Getpid

func init() {
	register("D09", "every truncation, extension, hole, byte change, and each boundary value in each 8 bytes of the reference, of databases of 1 to 3 commits; then every operation", checkD09)
}
