package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// check is what decides one property
type check struct {
	id   string
	rule string
	run  func(c *C)
}

var checks = map[string]*check{}

func register(id string, rule string, run func(c *C)) {
	checks[id] = &check{id: id, rule: rule, run: run}
}

// errSkip is returned by a case that was not executed (outside of the bound), it is not counted
var errSkip = errors.New("skip")

// violation of a property
type violation struct {
	Property string `json:"property"`
	Ordinal  int64  `json:"ordinal"`
	Tier     string `json:"tier"`
	Key      string `json:"key"`
	Case     string `json:"case"`
	Error    string `json:"error"`
}

// keyedError is an error which names the finding it is
type keyedError struct {
	key string
	err error
}

func (e *keyedError) Error() string { return e.err.Error() }

func keyed(key string, format string, args ...interface{}) error {
	return &keyedError{key: key, err: fmt.Errorf(format, args...)}
}

type result struct {
	Cases        int64            `json:"cases"`
	Traces       int64            `json:"traces"`
	Transitions  int64            `json:"transitions"`
	Samples      []string         `json:"samples"`
	Violations   []violation      `json:"violations"`
	Cut          bool             `json:"cut"`
	Groups       map[string]int64 `json:"groups"`
	GroupNS      map[string]int64 `json:"group_ns"`
	Unreproduced []violation      `json:"unreproduced"`
	Known        map[string]bool  `json:"known"`
	Bounds       map[string]int   `json:"bounds"`
}

// C is the context of a shard of a check
type C struct {
	id         string
	tier       string
	shard, n   int64
	only       int64
	ordinal    int64
	deadline   time.Time
	budget     time.Duration
	groupEnd   time.Time
	cut        bool
	groupCut   bool
	group      string
	res        result
	states     map[uint64]struct{}
	known      map[string]bool
	current    *int64 // shared with the parent
	beat       int64  // start of the current case, for the watchdog
	desc       func() string
	verbose    bool
	stop       bool
	maxViols   int
	scratchDir string
	caseLimit  time.Duration
	d07Count   int
	d10Count   int
	caseExecs  int64
}

func (c *C) thorough() bool { return c.tier == "thorough" }

// B returns the bound of the tier
func (c *C) B(name string, quick int, thorough int) int {
	v := quick
	if c.thorough() {
		v = thorough
	}
	c.res.Bounds[name] = v
	return v
}

// Group begins a part of the enumeration, with a share of the time that is left
func (c *C) Group(name string, share float64) {
	c.group = name
	c.groupCut = false
	left := time.Until(c.deadline)
	c.groupEnd = time.Now().Add(time.Duration(float64(left) * share))
}

// Over tells if the enumeration of the group should stop
func (c *C) Over() bool {
	return c.stop || c.groupCut || c.cut
}

// State records a state, or an outcome, that was reached
func (c *C) State(parts ...interface{}) {
	if len(c.states) > 1500000 {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(c.group))
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		case int:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(v))
			h.Write(b[:])
		default:
			fmt.Fprintf(h, "%v", p)
		}
		h.Write([]byte{0xfe, 0x01})
	}
	c.states[h.Sum64()] = struct{}{}
}

// Step counts transitions
func (c *C) Step(n int) { c.res.Transitions += int64(n) }

// Exec counts a complete execution that was compared with the model, in a case that has several
func (c *C) Exec() { c.caseExecs++ }

// Do executes a case, if it belongs to this shard
func (c *C) Do(desc func() string, body func() error) {
	ord := c.ordinal
	c.ordinal++
	if c.stop {
		return
	}
	if c.only >= 0 {
		if ord != c.only {
			return
		}
	} else {
		if ord%c.n != c.shard {
			return
		}
		if c.cut || c.groupCut {
			return
		}
		if c.res.Cases&15 == 0 || c.caseLimit > time.Minute {
			now := time.Now()
			if now.After(c.deadline) {
				c.cut, c.res.Cut = true, true
				return
			}
			if now.After(c.groupEnd) {
				c.groupCut, c.res.Cut = true, true
				return
			}
		}
	}

	if c.verbose {
		fmt.Printf("case %d: %s\n", ord, desc())
	}
	atomic.StoreInt64(c.current, ord+1)
	c.desc = desc
	c.caseExecs = 0
	began := time.Now()
	err := c.protected(body)
	atomic.StoreInt64(&c.beat, 0)
	if c.res.GroupNS == nil {
		c.res.GroupNS = map[string]int64{}
	}
	c.res.GroupNS[c.group] += int64(time.Since(began))
	if err == errSkip {
		return
	}
	c.res.Cases++
	c.res.Groups[c.group]++
	if err == nil {
		if c.caseExecs > 0 {
			c.res.Traces += c.caseExecs
		} else {
			c.res.Traces++
		}
		if len(c.res.Samples) < 4 && (c.res.Cases == 1 || c.res.Cases == 100 || c.res.Cases == 1000 || c.res.Cases == 10000) {
			c.res.Samples = append(c.res.Samples, clip(c.group+": "+desc(), 700))
		}
		return
	}

	v := violation{Property: c.id, Ordinal: ord, Tier: c.tier, Case: clip(c.group+": "+desc(), 20000), Error: clip(err.Error(), 8000)}
	var ke *keyedError
	if errors.As(err, &ke) {
		v.Key = ke.key
	}
	if v.Key != "" && c.known[v.Key] {
		c.res.Known[v.Key] = true
		c.res.Traces++
		return
	}

	// executes it again before it is reported
	again := 0
	for i := 0; i < 30 && again == 0; i++ {
		if e := c.protected(body); e != nil && e != errSkip {
			again++
		}
	}
	atomic.StoreInt64(&c.beat, 0)
	if again == 0 {
		c.res.Unreproduced = append(c.res.Unreproduced, v)
		if len(c.res.Unreproduced) > 20 {
			c.stop = true
		}
		return
	}
	c.res.Violations = append(c.res.Violations, v)
	if len(c.res.Violations) >= c.maxViols {
		c.stop = true
	}
}

func (c *C) protected(body func() error) (err error) {
	atomic.StoreInt64(&c.beat, time.Now().UnixNano())
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, shortStack())
		}
		fsxRelease()
	}()
	return body()
}

// prepared runs the enumeration: when the code refuses, or panics on, the valid objects that the cases are made of, no
// case can be executed, and the property does not hold on any of them
func (c *C) prepared(run func(c *C)) {
	defer func() {
		if r := recover(); r != nil {
			c.res.Cases++
			c.res.Violations = append(c.res.Violations, violation{Property: c.id, Ordinal: c.ordinal, Tier: c.tier,
				Case:  clip(c.group+": preparation of the cases (valid objects, built with the public builders)", 20000),
				Error: clip(fmt.Sprintf("panic: %v\n%s", r, shortStack()), 8000)})
		}
		fsxRelease()
	}()
	run(c)
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "rodkina/libs") || strings.Contains(l, "rodkina/instances") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// try calls f and turns a panic in an error
func try(f func() error) (err error, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, shortStack())
			panicked = true
		}
	}()
	return f(), false
}

func (c *C) watchdog(viol string) {
	for {
		time.Sleep(500 * time.Millisecond)
		b := atomic.LoadInt64(&c.beat)
		if b == 0 {
			continue
		}
		if time.Since(time.Unix(0, b)) > c.caseLimit {
			os.WriteFile(viol, []byte("hang"), 0644)
			if c.verbose {
				fmt.Printf("the case does not terminate (%v)\n", c.caseLimit)
				buf := make([]byte, 1<<16)
				fmt.Printf("%s\n", buf[:runtime.Stack(buf, true)])
			}
			os.Exit(7)
		}
	}
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", args...)
	os.Exit(3)
}

func newC(id string, tier string, verif string) *C {
	c := &C{id: id, tier: tier, n: 1, only: -1, states: map[uint64]struct{}{}, known: map[string]bool{}, maxViols: 2,
		caseLimit: 90 * time.Second}
	if f, err := strconv.ParseFloat(os.Getenv("VERIF_CASE"), 64); err == nil && f > 0 {
		c.caseLimit = time.Duration(f * float64(time.Second))
	}
	c.res.Groups = map[string]int64{}
	c.res.Known = map[string]bool{}
	c.res.Bounds = map[string]int{}
	for _, k := range loadKnown(verif) {
		if k.Property == id && !k.Fixed {
			c.known[k.Key] = true
		}
	}
	return c
}

type knownFinding struct {
	Property string
	Key      string
	Text     string
	Fixed    bool
}

// loadKnown reads known_findings.txt, with lines
//
//	known: property=<id> key=<key> <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadKnown(verif string) []knownFinding {
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	out := []knownFinding{}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		k := knownFinding{}
		if strings.HasPrefix(l, "fixed: ") {
			k.Fixed = true
			l = l[len("fixed: "):]
		} else if strings.HasPrefix(l, "known: ") {
			l = l[len("known: "):]
		} else {
			continue
		}
		parts := strings.SplitN(l, " ", 3)
		if len(parts) < 3 {
			continue
		}
		k.Property = strings.TrimPrefix(parts[0], "property=")
		k.Key = strings.TrimPrefix(parts[1], "key=")
		k.Text = parts[2]
		out = append(out, k)
	}
	return out
}

func shardMain(id string, tier string, verif string, out string, scratch string, shard int64, n int64, only int64, secs float64, verbose bool) {
	ck, ok := checks[id]
	if !ok {
		fatal("unknown check %s", id)
	}
	c := newC(id, tier, verif)
	c.shard, c.n, c.only, c.verbose = shard, n, only, verbose
	c.scratchDir = scratch
	debug.SetMaxStack(96 << 20)
	setLimits()
	syscall.Umask(022)
	os.Stdin.Close()
	c.current = sharedInt(out + ".cur")
	c.deadline = time.Now().Add(time.Duration(secs * float64(time.Second)))
	c.groupEnd = c.deadline
	go c.watchdog(out + ".hang")
	c.prepared(ck.run)
	if c.stop && len(c.res.Violations) > 0 {
		c.res.Cut = true
	}

	b, err := json.Marshal(c.res)
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(out, b, 0644); err != nil {
		fatal("%v", err)
	}
	sf, err := os.Create(out + ".states")
	if err != nil {
		fatal("%v", err)
	}
	w := bufio.NewWriter(sf)
	for s := range c.states {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], s)
		w.Write(b[:])
	}
	w.Flush()
	sf.Close()
	if verbose {
		for _, v := range c.res.Violations {
			fmt.Printf("violation: %s\n", v.Error)
		}
	}
	if len(c.res.Violations) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

func seconds(ns map[string]int64) map[string]float64 {
	out := map[string]float64{}
	for k, v := range ns {
		out[k] = float64(v/1e7) / 100
	}
	return out
}

func setLimits() {
	lim := &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, lim)
	fs := &syscall.Rlimit{Cur: 64 << 20, Max: 64 << 20}
	_ = fs
}

func sharedInt(path string) *int64 {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	if err != nil {
		fatal("%v", err)
	}
	f.Write(make([]byte, 4096))
	m, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatal("%v", err)
	}
	f.Close()
	return (*int64)(unsafe.Pointer(&m[0]))
}

func readSharedInt(path string) int64 {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return 0
	}
	return int64(binary.LittleEndian.Uint64(b))
}

func runShard(self string, scratch string, id string, tier string, verif string, shard int, n int, only int64, secs float64, verbose bool, tag string) (int, string, string) {
	out := filepath.Join(scratch, fmt.Sprintf("res%s_%d", tag, shard))
	dir := filepath.Join(scratch, fmt.Sprintf("dir%s_%d", tag, shard))
	os.MkdirAll(dir, 0755)
	logf, _ := os.Create(out + ".log")
	cmd := exec.Command(self, "shard", id, tier, verif, out, dir, strconv.Itoa(shard), strconv.Itoa(n), strconv.FormatInt(only, 10),
		strconv.FormatFloat(secs, 'f', 2, 64), strconv.FormatBool(verbose))
	cmd.Stdout, cmd.Stderr = logf, logf
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=3", "GOGC=800", "GOMEMLIMIT=1500MiB", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err := cmd.Run()
	logf.Close()
	os.RemoveAll(dir)
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	lg, _ := os.ReadFile(out + ".log")
	return code, out, string(lg)
}

func scratchRoot() string {
	base := "/dev/shm"
	if fi, err := os.Stat(base); err != nil || !fi.IsDir() {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "verif_rodkina_")
	if err != nil {
		d, err = os.MkdirTemp("", "verif_rodkina_")
		if err != nil {
			fatal("%v", err)
		}
	}
	os.Chmod(d, 0755)
	return d
}

func checkMain(id string, verif string, repo string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	secs := 60.0
	if tier == "thorough" {
		secs = 600
	}
	if s := os.Getenv("VERIF_SECS"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			secs = f
		}
	}
	ck, ok := checks[id]
	if !ok {
		fatal("unknown check %s", id)
	}
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	scratch := scratchRoot()
	defer os.RemoveAll(scratch)

	n := 8
	if s := os.Getenv("VERIF_SHARDS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	type shardRes struct {
		code     int
		out, log string
		i        int
	}
	ch := make(chan shardRes, n)
	for i := 0; i < n; i++ {
		go func(i int) {
			runtime.LockOSThread() // Pdeathsig is per thread
			code, out, lg := runShard(self, scratch, id, tier, verif, i, n, -1, secs, false, "")
			ch <- shardRes{code, out, lg, i}
		}(i)
	}

	total := result{Groups: map[string]int64{}, Known: map[string]bool{}, Bounds: map[string]int{}}
	groupNS := map[string]int64{}
	states := map[uint64]struct{}{}
	broken := []string{}
	for i := 0; i < n; i++ {
		r := <-ch
		b, err := os.ReadFile(r.out)
		if err != nil {
			// the shard died: finds the case it was executing
			ord := readSharedInt(r.out+".cur") - 1
			hang := false
			if _, err := os.Stat(r.out + ".hang"); err == nil {
				hang = true
			}
			if ord < 0 || r.code == 3 {
				broken = append(broken, fmt.Sprintf("shard %d ended (%d) outside of a case: %s", r.i, r.code, clip(r.log, 3000)))
				continue
			}
			dup := false
			for _, v := range total.Violations {
				if v.Key == "died" {
					dup = true
				}
			}
			if dup {
				continue
			}
			code, out, lg := runShard(self, scratch, id, tier, verif, 0, 1, ord, secs, true, "x"+strconv.Itoa(r.i))
			if _, err := os.Stat(out); err == nil && code == 0 {
				broken = append(broken, fmt.Sprintf("shard %d ended (%d) on case %d but the case alone does not: %s", r.i, r.code, ord, clip(r.log, 3000)))
				continue
			}
			what := "the process ended"
			if hang {
				what = "the case does not terminate"
			}
			total.Violations = append(total.Violations, violation{Property: id, Ordinal: ord, Tier: tier, Key: "died", Case: clip(lg, 3000),
				Error: what + ": " + clip(r.log, 1500)})
			continue
		}
		one := result{}
		if err := json.Unmarshal(b, &one); err != nil {
			fatal("%v", err)
		}
		if len(one.Violations) > 0 && os.Getenv("VERIF_FIRST") != "" {
			fmt.Printf("error: %s\nVIOLATION property=%s replay=none\n", clip(one.Violations[0].Error, 1500), id)
			os.RemoveAll(scratch)
			os.Exit(1)
		}
		total.Cases += one.Cases
		total.Traces += one.Traces
		total.Transitions += one.Transitions
		total.Cut = total.Cut || one.Cut
		total.Violations = append(total.Violations, one.Violations...)
		total.Unreproduced = append(total.Unreproduced, one.Unreproduced...)
		total.Samples = append(total.Samples, one.Samples...)
		for k, v := range one.Groups {
			total.Groups[k] += v
		}
		for k, v := range one.GroupNS {
			groupNS[k] += v
		}
		for k := range one.Known {
			total.Known[k] = true
		}
		for k, v := range one.Bounds {
			total.Bounds[k] = v
		}
		sb, _ := os.ReadFile(r.out + ".states")
		for j := 0; j+8 <= len(sb); j += 8 {
			states[binary.LittleEndian.Uint64(sb[j:])] = struct{}{}
		}
	}

	sort.Slice(total.Violations, func(i, j int) bool { return total.Violations[i].Ordinal < total.Violations[j].Ordinal })
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}
	if len(total.Samples) == 0 {
		for _, v := range total.Violations {
			total.Samples = append(total.Samples, clip(v.Case, 500))
		}
	}

	// keeps the findings that are listed
	listed := loadKnown(verif)
	reported := []string{}
	for _, k := range listed {
		if k.Property == id && !k.Fixed && total.Known[k.Key] {
			reported = append(reported, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s)", id, k.Text, k.Key))
		}
	}
	for _, l := range reported {
		fmt.Println(l)
	}

	wall := time.Since(start).Seconds()
	cov := map[string]interface{}{
		"states":                        len(states),
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": total.Traces,
		"cases":                         total.Cases,
		"samples":                       total.Samples,
		"exhaustive":                    !total.Cut && len(broken) == 0 && len(total.Violations) == 0,
		"rule":                          ck.rule,
		"groups":                        total.Groups,
		"group_seconds":                 seconds(groupNS),
		"bounds":                        total.Bounds,
		"known_findings_met":            len(reported),
		"unreproduced":                  total.Unreproduced,
	}
	ev := map[string]interface{}{
		"property":    id,
		"tier":        tier,
		"seed":        seed,
		"level":       "model_checking",
		"coverage":    cov,
		"wall_s":      math.Round(wall*100) / 100,
		"violations":  len(total.Violations),
		"assumptions": assumptionsOf(id),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}

	fmt.Printf("%s %s: %d cases, %d states, %d transitions, %d traces, exhaustive=%v, %.1fs\n", id, tier, total.Cases, len(states),
		total.Transitions, total.Traces, cov["exhaustive"], wall)
	if len(total.Violations) > 0 {
		outDir := filepath.Join(verif, "out")
		os.MkdirAll(outDir, 0755)
		if os.Getenv("VERIF_KEYS") != "" {
			for _, v := range total.Violations {
				fmt.Printf("key: %s\n", v.Key)
			}
		}
		for i, v := range total.Violations {
			if i >= 3 {
				break
			}
			p := filepath.Join(outDir, fmt.Sprintf("%s_%s_%d.json", id, tier, v.Ordinal))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, append(b, '\n'), 0644)
			fmt.Printf("case: %s\nerror: %s\n", clip(v.Case, 1500), clip(v.Error, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		}
		return 1
	}
	if len(broken) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(broken, "\n"))
		return 3
	}
	if total.Cases == 0 {
		fmt.Fprintln(os.Stderr, "no case was executed")
		return 3
	}
	return 0
}

func replayMain(file string, verif string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	v := violation{}
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	self, _ := os.Executable()
	scratch := scratchRoot()
	defer os.RemoveAll(scratch)
	runtime.LockOSThread()
	code, _, lg := runShard(self, scratch, v.Property, v.Tier, verif, 0, 1, v.Ordinal, 800, true, "r")
	fmt.Print(lg)
	if code != 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
		return 1
	}
	return 0
}

func main() {
	a := os.Args[1:]
	if len(a) < 1 {
		fatal("usage: check ID VERIF REPO | replay FILE VERIF | list")
	}
	switch a[0] {
	case "list":
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "check":
		os.Exit(checkMain(a[1], a[2], a[3]))
	case "replay":
		os.Exit(replayMain(a[1], a[2]))
	case "shard":
		sh, _ := strconv.ParseInt(a[6], 10, 64)
		n, _ := strconv.ParseInt(a[7], 10, 64)
		only, _ := strconv.ParseInt(a[8], 10, 64)
		secs, _ := strconv.ParseFloat(a[9], 64)
		shardMain(a[1], a[2], a[3], a[4], a[5], sh, n, only, secs, a[10] == "true")
	default:
		fatal("unknown command %s", a[0])
	}
}

func assumptionsOf(id string) []string {
	out := []string{"the Go runtime, standard library and crypto/sha512 are trusted", "small-scope: nothing is claimed beyond the bounds"}
	switch id[0] {
	case 'D':
		out = append(out, "the kernel file system behaves as POSIX says (tmpfs); a crash is the end of the process, not a loss of power")
	case 'A':
		out = append(out, "token names identify tokens, channels, externals and everythings in a grammar")
	}
	return out
}
