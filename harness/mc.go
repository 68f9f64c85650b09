// Package main is the bounded model checker for the Alda client. It lives in
// /verif/harness and is compiled *inside* the module alda.io/client through
// `go build -overlay` (see bin/check), so it drives the real code.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	log "alda.io/client/logging"
)

// Fail is one violating execution.
type Fail struct {
	Key    string `json:"case"`
	Msg    string `json:"message"`
	Index  int64  `json:"index"`
	Reruns string `json:"reruns,omitempty"`
}

func failf(key string, format string, args ...interface{}) *Fail {
	return &Fail{Key: key, Msg: fmt.Sprintf(format, args...)}
}

// Ctx is the state of one run of one check.
type Ctx struct {
	ID       string
	Tier     string
	Seed     int
	Level    string
	Thorough bool
	start    time.Time
	deadline time.Time
	workers  int
	only     string // replay: run only the case with this key
	stubborn int    // a case fails if it fails in each of so many executions

	evals       int64
	nontriv     int64
	transitions int64
	traces      int64
	timedOut    atomic.Bool
	stop        atomic.Bool

	mu       sync.Mutex
	fails    []*Fail
	known    map[string]string
	knownHit map[string]bool
	samples  []string
	extra    map[string]interface{}
	assume   []string
	rule     string
	phases   []string

	states  [64]stateShard
	outc    [16]stateShard
	current []atomic.Value // current case per worker
	begun   []atomic.Int64
	markDir string
}

type stateShard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// State records that a (canonical) model state was visited.
func (c *Ctx) State(s string) {
	h := hashStr(s)
	sh := &c.states[h%64]
	sh.mu.Lock()
	if sh.m == nil {
		sh.m = map[uint64]struct{}{}
	}
	if len(sh.m) < 400000 {
		sh.m[h] = struct{}{}
	}
	sh.mu.Unlock()
}

// Outcome records a distinct observed result (for vacuity checks).
func (c *Ctx) Outcome(s string) {
	h := hashStr(s)
	sh := &c.outc[h%16]
	sh.mu.Lock()
	if sh.m == nil {
		sh.m = map[uint64]struct{}{}
	}
	if len(sh.m) < 400000 {
		sh.m[h] = struct{}{}
	}
	sh.mu.Unlock()
}

func (c *Ctx) numStates() int {
	n := 0
	for i := range c.states {
		n += len(c.states[i].m)
	}
	return n
}

func (c *Ctx) numOutcomes() int {
	n := 0
	for i := range c.outc {
		n += len(c.outc[i].m)
	}
	return n
}

func (c *Ctx) Trans(n int)         { atomic.AddInt64(&c.transitions, int64(n)) }
func (c *Ctx) Trace()              { atomic.AddInt64(&c.traces, 1) }
func (c *Ctx) Nontrivial()         { atomic.AddInt64(&c.nontriv, 1) }
func (c *Ctx) Assume(s string)     { c.assume = append(c.assume, s) }
func (c *Ctx) Rule(s string)       { c.rule = s }
func (c *Ctx) Set(k string, v any) { c.mu.Lock(); c.extra[k] = v; c.mu.Unlock() }
func (c *Ctx) Sample(s string) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// Done is true when the internal deadline has passed or enough failures exist.
func (c *Ctx) Done() bool {
	if c.stop.Load() {
		return true
	}
	if time.Now().After(c.deadline) {
		c.timedOut.Store(true)
		c.stop.Store(true)
		return true
	}
	return false
}

func (c *Ctx) report(f *Fail) {
	if f == nil {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if what, ok := c.known[f.Key]; ok {
		if !c.knownHit[f.Key] {
			c.knownHit[f.Key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
		}
		return
	}
	c.fails = append(c.fails, f)
	if len(c.fails) >= 40 {
		c.stop.Store(true)
	}
}

// guard runs fn, turning a panic into a Fail.
func guard(key string, fn func() *Fail) (f *Fail) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1800 {
				st = st[:1800]
			}
			f = failf(key, "PANIC: %v\n%s", r, st)
		}
	}()
	return fn()
}

// Item is a unit of exploration.
type Item struct {
	Key string
	Idx int64
	V   any
}

// Explore enumerates every item gen yields and runs each on a worker pool.
// Keys must be unique and deterministic.
func (c *Ctx) Explore(phase string, gen func(yield func(key string, v any) bool), run func(key string, v any) *Fail) {
	c.ExploreN(phase, c.workers, gen, run)
}

func (c *Ctx) ExploreN(phase string, workers int, gen func(yield func(key string, v any) bool), run func(key string, v any) *Fail) {
	if c.Done() {
		c.phases = append(c.phases, fmt.Sprintf("%s: skipped (budget)", phase))
		return
	}
	t0 := time.Now()
	nontriv := c.nontriv
	ch := make(chan []Item, 64)
	var wg sync.WaitGroup
	var n int64
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for batch := range ch {
				for _, it := range batch {
					if c.stop.Load() {
						break
					}
					c.mark(w, it.Key)
					start := time.Now().UnixNano()
					f := guard(it.Key, func() *Fail { return run(it.Key, it.V) })
					for k := 1; k < c.stubborn && f != nil; k++ {
						fmt.Println("executed again:", it.Key)
						c.mark(w, it.Key)
						f = guard(it.Key, func() *Fail { return run(it.Key, it.V) })
					}
					if d := time.Since(time.Unix(0, c.begun[w].Load())); os.Getenv("VERIF_SLOW") != "" && d > time.Second {
						fmt.Println("slow:", d, it.Key)
					}
					c.begun[w].Store(0)
					if slots != nil {
						binary.LittleEndian.PutUint32(slots[w*slotSize:], 0)
					}
					atomic.AddInt64(&c.evals, 1)
					atomic.AddInt64(&n, 1)
					if f != nil {
						f.Index = it.Idx
						bad, again := 1, 4
						if time.Since(time.Unix(0, start)) > 5*time.Second {
							again = 1
						}
						for k := 0; k < again; k++ {
							if guard(it.Key, func() *Fail { return run(it.Key, it.V) }) != nil {
								bad++
							}
						}
						f.Reruns = fmt.Sprintf("failed %d of %d executions", bad, again+1)
						f.Key = it.Key
						c.report(f)
					}
				}
			}
		}(w)
	}
	var batch []Item
	size := 64
	if workers == 1 || workers > c.workers {
		size = 1
	}
	complete := true
	var idx int64
	gen(func(key string, v any) bool {
		idx++
		if c.only != "" && key != c.only {
			return true
		}
		batch = append(batch, Item{key, idx, v})
		if len(batch) >= size {
			if c.Done() {
				complete = false
				return false
			}
			ch <- batch
			batch = nil
		}
		return true
	})
	if len(batch) > 0 && !c.stop.Load() {
		ch <- batch
	}
	close(ch)
	wg.Wait()
	if c.stop.Load() {
		complete = false
	}
	plain := ""
	if c.nontriv == nontriv && n > 0 {
		plain = ", none of interest"
	}
	c.phases = append(c.phases, fmt.Sprintf("%s: %d cases, complete=%v, %.1fs%s", phase, n, complete, time.Since(t0).Seconds(), plain))
}

// slots is shared with the supervising process, which learns from it what was
// running if this process dies (stack overflow, out of memory, os.Exit).
var slots []byte

const slotSize = 8192

func (c *Ctx) mark(w int, key string) {
	if slots != nil {
		b := slots[w*slotSize : (w+1)*slotSize]
		n := copy(b[4:], key)
		if n < len(key) {
			n = 0
		}
		binary.LittleEndian.PutUint32(b, uint32(n))
	}
	c.begun[w].Store(time.Now().UnixNano())
	c.current[w].Store(key)
}

// watchdog: a single tiny case that runs for a minute is a hang, and one that
// uses up the memory never ends either.
var hangLimit = 60 * time.Second

const memLimit = 11 << 30

func (c *Ctx) watchdog() {
	for {
		time.Sleep(time.Second)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		full := ms.HeapAlloc+ms.StackInuse > memLimit
		oldest, key := int64(0), ""
		for w := range c.begun {
			b := c.begun[w].Load()
			if b != 0 && (oldest == 0 || b < oldest) {
				oldest = b
				key, _ = c.current[w].Load().(string)
			}
		}
		if oldest == 0 {
			continue
		}
		age := time.Since(time.Unix(0, oldest))
		if full && age > 2*time.Second {
			c.report(&Fail{Key: key, Msg: fmt.Sprintf("RUNAWAY: the case used up %d GB of memory in %s without finishing", memLimit>>30, age)})
			c.finish()
		}
		if age > hangLimit {
			c.report(&Fail{Key: key, Msg: fmt.Sprintf("HANG: the case did not finish within %s", hangLimit)})
			c.finish()
		}
	}
}

// supervise runs the check in a child process. If the child dies, the cases it
// was running are run again one by one to find the one that kills it.
func supervise(id string) {
	path := filepath.Join(os.TempDir(), fmt.Sprintf("verif-slots-%d", os.Getpid()))
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		path = filepath.Join(d, "slots")
	}
	run := func(extra []string, quiet bool) (int, string, []string) {
		os.WriteFile(path, make([]byte, 64*slotSize), 0644)
		defer os.Remove(path)
		cmd := exec.Command(os.Args[0], append(extra, os.Args[1:]...)...)
		cmd.Env = append(os.Environ(), "VERIF_SLOTS="+path)
		var tail tailBuf
		if quiet {
			cmd.Stdout, cmd.Stderr = nil, &tail
		} else {
			cmd.Stdout, cmd.Stderr = os.Stdout, io.MultiWriter(os.Stderr, &tail)
		}
		err := cmd.Run()
		rc := 0
		if err != nil {
			rc = -1
			if e, ok := err.(*exec.ExitError); ok && e.ExitCode() >= 0 {
				rc = e.ExitCode()
			}
		}
		var keys []string
		if b, err := os.ReadFile(path); err == nil {
			for w := 0; w < 64; w++ {
				if n := binary.LittleEndian.Uint32(b[w*slotSize:]); n > 0 && n <= slotSize-4 {
					keys = append(keys, string(b[w*slotSize+4:w*slotSize+4+int(n)]))
				}
			}
		}
		return rc, tail.String(), keys
	}
	rc, _, keys := run(nil, false)
	if rc == 0 || rc == 1 {
		os.Exit(rc)
	}
	fmt.Printf("%s: the check process died (status %d) while running %d cases; running them one by one\n", id, rc, len(keys))
	sort.Slice(keys, func(i, j int) bool { return len(keys[i]) < len(keys[j]) })
	for _, k := range keys {
		r, msg, _ := run([]string{"-only", k}, true)
		if r == 0 {
			continue
		}
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		rp := filepath.Join(dir, id+".json")
		d, _ := json.MarshalIndent(map[string]any{"property": id, "tier": os.Getenv("VERIF_TIER"), "case": k,
			"how_to_replay": "bin/check " + id + " --replay " + rp, "message": "the client process dies: " + msg}, "", "  ")
		os.WriteFile(rp, append(d, '\n'), 0644)
		fmt.Printf("--- failing case: %s\nthe process running it dies (status %d):\n%s\n", k, r, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		os.Exit(1)
	}
	os.Exit(rc & 0xff)
}

// tailBuf keeps the beginning of what is written to it.
type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if r := 3000 - len(t.b); r > 0 {
		t.b = append(t.b, p[:minInt(r, len(p))]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.b) }

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type checkDef struct {
	level string
	run   func(*Ctx)
	quick time.Duration
}

var checks = map[string]checkDef{}

func register(id, level string, run func(*Ctx)) {
	checks[id] = checkDef{level: level, run: run}
}

func loadKnown(id string) map[string]string {
	out := map[string]string{}
	data, err := os.ReadFile(filepath.Join(verifDir, "known_findings.jsonl"))
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(data), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		var k struct {
			Property string `json:"property"`
			Case     string `json:"case"`
			What     string `json:"what"`
			Status   string `json:"status"`
		}
		if json.Unmarshal([]byte(line), &k) == nil && k.Property == id && k.Status == "open" {
			out[k.Case] = k.What
		}
	}
	return out
}

var verifDir = "/verif"

// finish writes evidence and exits.
func (c *Ctx) finish() {
	c.mu.Lock()
	fails := append([]*Fail{}, c.fails...)
	c.mu.Unlock()
	sort.SliceStable(fails, func(i, j int) bool {
		if len(fails[i].Key) != len(fails[j].Key) {
			return len(fails[i].Key) < len(fails[j].Key)
		}
		return fails[i].Index < fails[j].Index
	})
	exhaustive := !c.timedOut.Load() && len(fails) == 0 && c.only == ""
	samples := c.samples
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	cov := map[string]interface{}{
		"samples":           samples,
		"exhaustive":        exhaustive,
		"phases":            c.phases,
		"distinct_outcomes": c.numOutcomes(),
	}
	switch c.Level {
	case "model_checking":
		cov["states"] = c.numStates()
		cov["transitions"] = atomic.LoadInt64(&c.transitions)
		cov["traces_validated_against_impl"] = atomic.LoadInt64(&c.traces)
		cov["rule"] = c.rule
	default:
		cov["evaluations"] = atomic.LoadInt64(&c.evals)
		cov["distinct_nontrivial"] = atomic.LoadInt64(&c.nontriv)
		cov["rule"] = c.rule
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property":    c.ID,
		"tier":        c.Tier,
		"seed":        c.Seed,
		"level":       c.Level,
		"coverage":    cov,
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  len(fails),
		"assumptions": c.assume,
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	data, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if c.only == "" {
		os.WriteFile(filepath.Join(verifDir, "evidence", c.ID+".json"), append(data, '\n'), 0644)
	}
	for _, p := range c.phases {
		fmt.Println("  " + p)
	}
	fmt.Printf("%s tier=%s evaluations=%d states=%d transitions=%d outcomes=%d wall=%.1fs exhaustive=%v\n",
		c.ID, c.Tier, c.evals, c.numStates(), c.transitions, c.numOutcomes(), time.Since(c.start).Seconds(), exhaustive)
	if len(fails) > 0 {
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, c.ID+".json")
		rep := map[string]interface{}{
			"property": c.ID, "tier": c.Tier,
			"how_to_replay": "bin/check " + c.ID + " --replay " + path,
			"case":          fails[0].Key, "failures": fails,
		}
		d, _ := json.MarshalIndent(rep, "", "  ")
		os.WriteFile(path, append(d, '\n'), 0644)
		for i, f := range fails {
			if i >= 5 {
				break
			}
			fmt.Printf("--- failing case: %s\n%s\n(%s)\n", f.Key, f.Msg, f.Reruns)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		os.Exit(1)
	}
	os.Exit(0)
}

func main() {
	tier := flag.String("tier", "", "quick or thorough")
	seed := flag.Int("seed", 1, "")
	replay := flag.String("replay", "", "replay file")
	only := flag.String("only", "", "run only the case with this key")
	budget := flag.Int("budget", 0, "seconds")
	vdir := flag.String("verif", "/verif", "")
	flag.Parse()
	verifDir = *vdir
	id := flag.Arg(0)
	if id == "try" {
		log.SetGlobalLevel("panic")
		tryMain()
		return
	}
	if id == "fakeplayer" {
		runFakePlayer(os.Args[2:])
		return
	}
	if id == "tracer" {
		tracerMain(flag.Args()[1:])
		return
	}
	if id == "worker" {
		workerMain(flag.Args()[1:])
		return
	}
	def, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	if sp := os.Getenv("VERIF_SLOTS"); sp == "" {
		supervise(id)
	} else if f, err := os.OpenFile(sp, os.O_RDWR, 0); err == nil {
		slots, _ = syscall.Mmap(int(f.Fd()), 0, 64*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	debug.SetMaxStack(128 << 20)
	debug.SetMemoryLimit(8 << 30)
	log.SetGlobalLevel("panic")
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	c := &Ctx{
		ID: id, Tier: *tier, Seed: *seed, Level: def.level,
		Thorough: *tier == "thorough",
		start:    time.Now(), workers: runtime.NumCPU(),
		extra: map[string]interface{}{}, known: loadKnown(id), knownHit: map[string]bool{},
		only: *only,
	}
	if *replay != "" {
		data, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r struct{ Case, Tier string }
		json.Unmarshal(data, &r)
		c.only = r.Case
		c.Tier = r.Tier
		c.Thorough = r.Tier == "thorough"
	}
	b := 150 * time.Second
	if c.Thorough {
		b = 780 * time.Second
	}
	if *budget > 0 {
		b = time.Duration(*budget) * time.Second
	}
	c.deadline = c.start.Add(b)
	c.current = make([]atomic.Value, 64)
	c.begun = make([]atomic.Int64, 64)
	debug.SetGCPercent(400)
	go c.watchdog()
	if f := guard("(harness)", func() *Fail { def.run(c); return nil }); f != nil {
		c.report(f)
	}
	c.finish()
}
