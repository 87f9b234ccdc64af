// Command hv runs the property checks of /verif against the packages of github.com/qiniu/text.
//
//	hv run -id ID -tier T -shard K -nshards N -seed S -dir DIR   one shard: DIR/stats.json, DIR/cur, DIR/fail.json
//	hv replay FILE                                               one stored case
//	hv list                                                      ids and case counts
package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- registry

// Prop is one executable check of a property; a property may have several (Sub).
type Prop struct {
	ID, Sub string
	Rule    string
	Quick   int // generated cases, all shards together
	Deep    int
	Gen     func(t *rapid.T) interface{}
	Decode  func([]byte) (interface{}, error)
	Check   func(c interface{}, x *Ctx) error
}

var props []*Prop

func reg[C any](id, sub, rule string, quick, deep int, gen func(*rapid.T) C, check func(C, *Ctx) error) {
	props = append(props, &Prop{
		ID: id, Sub: sub, Rule: rule, Quick: quick, Deep: deep,
		Gen: func(t *rapid.T) interface{} { return gen(t) },
		Decode: func(b []byte) (interface{}, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		Check: func(c interface{}, x *Ctx) error { return check(c.(C), x) },
	})
}

// ---------------------------------------------------------------- context of one case

// Ctx collects what a case covered.
type Ctx struct {
	nontrivial bool
	classes    map[string]bool
}

// NonTrivial marks the case as non-trivial by the rule of its Prop.
func (x *Ctx) NonTrivial() { x.nontrivial = true }

// NonTrivialIf marks the case as non-trivial when cond holds.
func (x *Ctx) NonTrivialIf(cond bool) {
	if cond {
		x.nontrivial = true
	}
}

// Class counts the case under a name.
func (x *Ctx) Class(name string) {
	if x.classes == nil {
		x.classes = map[string]bool{}
	}
	x.classes[name] = true
}

// ClassIf counts the case under a name when cond holds.
func (x *Ctx) ClassIf(cond bool, name string) {
	if cond {
		x.Class(name)
	}
}

func failf(format string, args ...interface{}) error { return fmt.Errorf(format, args...) }

// errSkip: the case is outside of the property's domain (counted as trivial).
var errSkip = errors.New("skip")

// Text is a string that survives JSON even if it isn't valid UTF-8.
type Text string

// MarshalJSON implements json.Marshaler.
func (t Text) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(t)) {
		return json.Marshal(string(t))
	}
	return json.Marshal(map[string]string{"quoted": strconv.QuoteToASCII(string(t))})
}

// UnmarshalJSON implements json.Unmarshaler.
func (t *Text) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '{' {
		var m map[string]string
		if err := json.Unmarshal(b, &m); err != nil {
			return err
		}
		s, err := strconv.Unquote(m["quoted"])
		*t = Text(s)
		return err
	}
	var s string
	err := json.Unmarshal(b, &s)
	*t = Text(s)
	return err
}

// ---------------------------------------------------------------- current case and watchdog

const (
	exitHang = 97
	exitMem  = 98
)

var (
	curMap     []byte // mmap'd file holding the case that is running
	caseStart  int64  // process CPU time at start of the case, ns
	caseActive int32
	cpuLimit   = int64(20e9)
	memLimit   = int64(3 << 30)
)

func cpuTime() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func watchdog() {
	for {
		time.Sleep(200 * time.Millisecond)
		if atomic.LoadInt32(&caseActive) == 0 {
			continue
		}
		if d := cpuTime() - atomic.LoadInt64(&caseStart); d > cpuLimit && atomic.LoadInt32(&caseActive) != 0 {
			fmt.Fprintf(os.Stderr, "watchdog: case used %.1fs CPU\n", float64(d)/1e9)
			os.Exit(exitHang)
		}
		if m := rss(); m > memLimit {
			fmt.Fprintf(os.Stderr, "watchdog: %d MB resident\n", m>>20)
			os.Exit(exitMem)
		}
	}
}

func setCur(data []byte) {
	if curMap == nil {
		return
	}
	n := len(data)
	if n > len(curMap)-8 {
		n = 0
	}
	copy(curMap[8:], data[:n])
	binary.LittleEndian.PutUint64(curMap, uint64(n))
}

func openCur(path string) {
	const size = 4 << 20
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := f.Truncate(size); err != nil {
		panic(err)
	}
	curMap, err = syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
}

// ---------------------------------------------------------------- running one case

// Stored is the replay format.
type Stored struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Case     json.RawMessage `json:"case,omitempty"`
	Error    string          `json:"error,omitempty"`
}

func runCase(p *Prop, c interface{}, x *Ctx) (err error) {
	atomic.StoreInt64(&caseStart, cpuTime())
	atomic.StoreInt32(&caseActive, 1)
	defer atomic.StoreInt32(&caseActive, 0)
	defer func() {
		if e := recover(); e != nil {
			if strings.HasPrefix(fmt.Sprintf("%T", e), "rapid.") || strings.HasPrefix(fmt.Sprintf("%T", e), "*rapid.") {
				panic(e)
			}
			err = fmt.Errorf("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	return p.Check(c, x)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") && (strings.Contains(l, "/repo/") || strings.Contains(l, "harness/")) {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---------------------------------------------------------------- rapid driver

type quietTB struct {
	testing.TB
	failed bool
	log    []string
}

type tbStop struct{}

func (t *quietTB) Helper()                         {}
func (t *quietTB) Name() string                    { return "hv" }
func (t *quietTB) Log(a ...interface{})            {}
func (t *quietTB) Logf(f string, a ...interface{}) {}
func (t *quietTB) Error(a ...interface{})          { t.failed = true; t.log = append(t.log, fmt.Sprint(a...)) }
func (t *quietTB) Errorf(f string, a ...interface{}) {
	t.failed = true
	t.log = append(t.log, fmt.Sprintf(f, a...))
}
func (t *quietTB) Fatal(a ...interface{})            { t.Error(a...); panic(tbStop{}) }
func (t *quietTB) Fatalf(f string, a ...interface{}) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *quietTB) Fail()                             { t.failed = true }
func (t *quietTB) FailNow()                          { t.failed = true; panic(tbStop{}) }
func (t *quietTB) Failed() bool                      { return t.failed }
func (t *quietTB) Skip(a ...interface{})             { panic(tbStop{}) }
func (t *quietTB) Skipf(f string, a ...interface{})  { panic(tbStop{}) }
func (t *quietTB) SkipNow()                          { panic(tbStop{}) }
func (t *quietTB) Skipped() bool                     { return false }
func (t *quietTB) Cleanup(f func())                  {}
func (t *quietTB) TempDir() string                   { panic("no temp dir") }
func (t *quietTB) Setenv(k, v string)                {}

// SubStats are the counters of one check in one shard.
type SubStats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Skipped     int            `json:"skipped"`
	Classes     map[string]int `json:"classes"`
	Samples     []Stored       `json:"samples"`
	Rule        string         `json:"rule"`
}

// Stats are the counters of one shard.
type Stats struct {
	Subs map[string]*SubStats `json:"subs"`
	Fail *Stored              `json:"fail"`
	Note string               `json:"note,omitempty"`
}

func mix(parts ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprintln(h, parts...)
	v := h.Sum64()
	v ^= v >> 29
	v *= 0xbf58476d1ce4e5b9
	v ^= v >> 32
	v &= math.MaxInt64
	if v == 0 {
		v = 1
	}
	return v
}

func share(total, shard, nshards int) int {
	n := total / nshards
	if shard < total%nshards {
		n++
	}
	return n
}

func runShard(id, tier string, shard, nshards int, seed int64, dir, only string) int {
	st := &Stats{Subs: map[string]*SubStats{}}
	openCur(filepath.Join(dir, "cur"))
	go watchdog()
	hashes := map[uint64]struct{}{}
	found := false
	for _, p := range props {
		if p.ID != id || only != "" && p.Sub != only {
			continue
		}
		found = true
		total := p.Quick
		if tier == "thorough" {
			total = p.Deep
		}
		n := share(total, shard, nshards)
		ss := &SubStats{Classes: map[string]int{}, Rule: p.Rule}
		st.Subs[p.Sub] = ss
		if n == 0 {
			continue
		}
		fail := runProp(p, n, mix("hv", id, p.Sub, seed, shard), ss, hashes)
		if fail != nil {
			st.Fail = fail
			break
		}
	}
	if !found {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	hb := make([]byte, 0, 8*len(hashes))
	for h := range hashes {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	if err := os.WriteFile(filepath.Join(dir, "hashes"), hb, 0o644); err != nil {
		panic(err)
	}
	b, err := json.Marshal(st)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "stats.json"), b, 0o644); err != nil {
		panic(err)
	}
	return 0
}

func runProp(p *Prop, n int, seed uint64, ss *SubStats, hashes map[uint64]struct{}) (fail *Stored) {
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "25s")
	tb := &quietTB{}
	failing := false
	prop := func(t *rapid.T) {
		c := p.Gen(t)
		data, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		c, err = p.Decode(data)
		if err != nil {
			panic(err)
		}
		cur, _ := json.Marshal(Stored{Property: p.ID, Sub: p.Sub, Case: data})
		setCur(cur)
		x := &Ctx{}
		err = runCase(p, c, x)
		if !failing {
			ss.Evaluations++
			for k := range x.classes {
				ss.Classes[k]++
			}
			if err == errSkip {
				ss.Skipped++
			} else if x.nontrivial {
				ss.NonTrivial++
				h := fnv.New64a()
				h.Write([]byte(p.Sub))
				h.Write(data)
				hashes[h.Sum64()] = struct{}{}
				if len(ss.Samples) < 2 && ss.NonTrivial%7 == 3 && len(data) < 4000 {
					ss.Samples = append(ss.Samples, Stored{Property: p.ID, Sub: p.Sub, Case: data})
				}
			}
		}
		if err != nil && err != errSkip {
			failing = true
			fail = &Stored{Property: p.ID, Sub: p.Sub, Case: data, Error: err.Error()}
			t.Fatalf("%s", "violated")
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(tbStop); !ok {
					panic(e)
				}
			}
		}()
		rapid.Check(tb, prop)
	}()
	if tb.failed && fail == nil {
		fmt.Fprintln(os.Stderr, "rapid:", strings.Join(tb.log, "\n"))
		os.Exit(3)
	}
	return fail
}

// ---------------------------------------------------------------- replay

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var s Stored
	if err := json.Unmarshal(b, &s); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, p := range props {
		if p.ID == s.Property && p.Sub == s.Sub {
			c, err := p.Decode(s.Case)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			go watchdog()
			if err := runCase(p, c, &Ctx{}); err != nil && err != errSkip {
				fmt.Println("FAIL", err)
				return 1
			}
			fmt.Println("PASS")
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "unknown property/sub", s.Property, s.Sub)
	return 2
}

var childModes = map[string]func(args []string) int{}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: hv run|replay|list")
		os.Exit(2)
	}
	if f := childModes[os.Args[1]]; f != nil {
		os.Exit(f(os.Args[2:]))
	}
	testing.Init()
	flag.CommandLine.Parse(nil)
	switch os.Args[1] {
	case "run":
		fs := flag.NewFlagSet("run", flag.ExitOnError)
		id := fs.String("id", "", "")
		tier := fs.String("tier", "quick", "")
		shard := fs.Int("shard", 0, "")
		nshards := fs.Int("nshards", 1, "")
		seed := fs.Int64("seed", 1, "")
		dir := fs.String("dir", ".", "")
		sub := fs.String("sub", "", "")
		fs.Parse(os.Args[2:])
		if os.Getenv("GOMAXPROCS") == "" {
			runtime.GOMAXPROCS(2)
		}
		os.Exit(runShard(*id, *tier, *shard, *nshards, *seed, *dir, *sub))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "list":
		for _, p := range props {
			fmt.Printf("%s\t%s\t%s\t%d\t%d\n", p.ID, p.Sub, p.Rule, p.Quick, p.Deep)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}
