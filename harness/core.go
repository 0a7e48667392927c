package main

// Runner: parent process (shards, verdict, evidence) and worker processes.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	log "github.com/sirupsen/logrus"
)

// FatalExit is what a log.Fatal of the code under test becomes in process.
type FatalExit struct{ Msg string }

type fatalHook struct {
	mu   sync.Mutex
	last string
}

func (h *fatalHook) Levels() []log.Level { return []log.Level{log.FatalLevel} }
func (h *fatalHook) Fire(e *log.Entry) error {
	h.mu.Lock()
	h.last = e.Message
	h.mu.Unlock()
	return nil
}

var theHook = &fatalHook{}

func quietLogs() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.FatalLevel)
	log.AddHook(theHook)
	log.StandardLogger().ExitFunc = func(code int) {
		theHook.mu.Lock()
		m := theHook.last
		theHook.mu.Unlock()
		panic(FatalExit{m})
	}
}

// Outcome of a guarded call
type Outcome struct {
	Fatal string // message of log.Fatal
	Panic string // any other panic
	Stack string
}

func (o Outcome) Bad() bool { return o.Fatal != "" || o.Panic != "" }
func (o Outcome) String() string {
	if o.Fatal != "" {
		return "log.Fatal: " + o.Fatal
	}
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	return "ok"
}

func guard(f func()) (out Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if fe, ok := r.(FatalExit); ok {
				out.Fatal = fe.Msg
				if out.Fatal == "" {
					out.Fatal = "(no message)"
				}
				return
			}
			out.Panic = fmt.Sprint(r)
			out.Stack = string(debug.Stack())
		}
	}()
	f()
	return
}

// ---------------------------------------------------------------- reporting

type Violation struct {
	Case   string          `json:"case"`
	What   string          `json:"what"`
	Key    string          `json:"key"` // identifies a known finding
	Detail json.RawMessage `json:"detail,omitempty"`
}

type Report struct {
	perKey       map[string]int
	Property     string
	Tier         string
	Seed         int64
	Evaluations  int64
	Distinct     map[uint64]bool
	Rule         string
	Samples      []interface{}
	Counters     map[string]int64
	Violations   []Violation
	Inconclusive []string
	Level        string
	Assumptions  []string

	mu   sync.Mutex
	last time.Time // of a sign of progress
}

func NewReport() *Report {
	return &Report{Distinct: map[uint64]bool{}, Counters: map[string]int64{}}
}

func (r *Report) Eval(n int) {
	r.mu.Lock()
	r.Evaluations += int64(n)
	r.last = time.Now()
	r.mu.Unlock()
}
func (r *Report) progress() time.Time {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.last
}
func (r *Report) Count(k string, n int) {
	r.mu.Lock()
	r.Counters[k] += int64(n)
	r.last = time.Now()
	r.mu.Unlock()
}
func (r *Report) Max(k string, n int) {
	r.mu.Lock()
	if r.Counters["max_"+k] < int64(n) {
		r.Counters["max_"+k] = int64(n)
	}
	r.mu.Unlock()
}
func (r *Report) Seen(sig string) {
	h := fnv.New64a()
	h.Write([]byte(sig))
	r.mu.Lock()
	r.Distinct[h.Sum64()] = true
	r.mu.Unlock()
}
func (r *Report) Sample(s interface{}) {
	r.mu.Lock()
	if len(r.Samples) < 3 {
		r.Samples = append(r.Samples, s)
	}
	r.mu.Unlock()
}
func (r *Report) Violate(key, cs, what string, detail interface{}) {
	var raw json.RawMessage
	if detail != nil {
		b, err := json.Marshal(detail)
		if err == nil {
			raw = b
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.perKey == nil {
		r.perKey = map[string]int{}
	}
	if r.perKey[key]++; r.perKey[key] <= 3 && len(r.Violations) < 1000 {
		r.Violations = append(r.Violations, Violation{Case: cs, What: what, Key: key, Detail: raw})
	}
	r.Counters["violations_seen"]++
}
func (r *Report) Inconc(s string) {
	r.mu.Lock()
	if len(r.Inconclusive) < 50 {
		r.Inconclusive = append(r.Inconclusive, s)
	}
	r.mu.Unlock()
}

type wireReport struct {
	Evaluations  int64
	Distinct     []uint64
	Rule         string
	Samples      []interface{}
	Counters     map[string]int64
	Violations   []Violation
	Inconclusive []string
	Assumptions  []string
}

// ---------------------------------------------------------------- checks

type Ctx struct {
	R       *Report
	Seed    int64
	Tier    string
	Shard   int
	Shards  int
	Scratch string
	Only    string // replay of one case

	CaseLimit time.Duration // a case that takes longer never ends
	GiveUp    func()
	StopAfter int // a shard stops after so many violations
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a size for the tier
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Mine reports whether case i belongs to this shard
func (c *Ctx) Mine(i int) bool { return i%c.Shards == c.Shard }

type Check struct {
	ID          string
	Level       string
	Shards      int
	Rule        string
	Assumptions []string
	Timeout     time.Duration // per worker, quick
	Run         func(c *Ctx)
	CaseLimit   time.Duration // for the checks whose cases only compute
	MinEvals    int64
	MinCounters map[string]int64 // a run that saw fewer observed nothing: inconclusive
	Race        bool             // the worker is a race-detector build
}

var checks = map[string]*Check{}
var buildDir, verifDir string

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	if c.Shards == 0 {
		c.Shards = 8
	}
	if c.Timeout == 0 {
		c.Timeout = 600 * time.Second
	}
	switch c.ID { // the cases of the others wait for nodes, processes or clients
	case "C14", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C26", "C27", "C28", "C29", "C31", "C32", "C33":
	default:
		c.CaseLimit = 150 * time.Second
	}
	checks[c.ID] = c
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick|thorough")
	seed := flag.Int64("seed", 1, "seed")
	worker := flag.Bool("worker", false, "run as worker")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	scratch := flag.String("scratch", "", "")
	outp := flag.String("out", "", "")
	only := flag.String("only", "", "run only this case")
	verif := flag.String("verif", "/verif", "")
	build := flag.String("build", "", "directory of the build (scratch of this run)")
	sub := flag.String("sub", "", "helper sub command")
	flag.Parse()
	// programs started from here get the default action for SIGINT, even if this one was started ignoring it
	ints := make(chan os.Signal, 1)
	signal.Notify(ints, os.Interrupt)
	go func() { <-ints; os.Exit(130) }()
	if *sub != "" {
		runSub(*sub, flag.Args())
		return
	}
	buildDir, verifDir = *build, *verif
	c, ok := checks[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *worker {
		runWorker(c, &Ctx{R: NewReport(), Seed: *seed, Tier: *tier, Shard: *shard, Shards: *shards, Scratch: *scratch, Only: *only}, *outp)
		return
	}
	os.Exit(runParent(c, *tier, *seed, *verif, *only))
}

func runWorker(c *Check, ctx *Ctx, outp string) {
	quietLogs()
	os.MkdirAll(ctx.Scratch, 0755)
	os.Chdir(ctx.Scratch)
	if ctx.Only != "" {
		ctx.Shard, ctx.Shards = 0, 1
	}
	ctx.CaseLimit = c.CaseLimit
	if c.ID == "C23" || c.ID == "C26" || c.ID >= "C31" {
		ctx.StopAfter = 2
	}
	if ctx.Tier == "thorough" {
		ctx.CaseLimit *= 3
	}
	ctx.GiveUp = func() {
		writeReport(c, ctx, outp)
		os.Exit(0)
	}
	c.Run(ctx)
	writeReport(c, ctx, outp)
}

func writeReport(c *Check, ctx *Ctx, outp string) {
	ctx.R.mu.Lock()
	defer ctx.R.mu.Unlock()
	w := wireReport{Evaluations: ctx.R.Evaluations, Rule: c.Rule, Samples: ctx.R.Samples, Counters: ctx.R.Counters,
		Violations: ctx.R.Violations, Inconclusive: ctx.R.Inconclusive}
	for k := range ctx.R.Distinct {
		w.Distinct = append(w.Distinct, k)
	}
	b, err := json.Marshal(w)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal report:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(outp+".tmp", b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Rename(outp+".tmp", outp)
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.buf = append(t.buf, p...)
	if len(t.buf) > 400000 {
		// keep the head (first panic) and the tail
		t.buf = append(append([]byte{}, t.buf[:200000]...), t.buf[len(t.buf)-100000:]...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func runParent(c *Check, tier string, seed int64, verif, only string) int {
	start := time.Now()
	self, _ := os.Executable()
	scratch, err := os.MkdirTemp("", "vrun-"+c.ID+"-")
	if err != nil {
		fmt.Println("cannot make scratch:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	// clean on signals too
	rep := NewReport()
	rep.Property, rep.Tier, rep.Seed, rep.Level = c.ID, tier, seed, c.Level
	shards := c.Shards
	if only != "" {
		shards = 1
	}
	timeout := c.Timeout
	if tier == "thorough" {
		timeout = 10 * c.Timeout
	}
	par := runtime.NumCPU()
	if par < 2 {
		par = 2
	}
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			ctx, cancel := context.WithTimeout(context.Background(), timeout)
			defer cancel()
			outp := filepath.Join(scratch, fmt.Sprintf("out-%d.json", s))
			cmd := exec.CommandContext(ctx, self, "-prop", c.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-worker",
				"-shard", fmt.Sprint(s), "-shards", fmt.Sprint(shards), "-scratch", filepath.Join(scratch, fmt.Sprintf("w%d", s)), "-out", outp, "-only", only, "-build", buildDir, "-verif", verif)
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT) } // leaves the stacks in the output
			cmd.WaitDelay = 10 * time.Second
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 log_path="+filepath.Join(scratch, fmt.Sprintf("race-%d", s)), "GOTRACEBACK=all")
			t := &tail{}
			cmd.Stdout = t
			cmd.Stderr = t
			err := cmd.Run()
			if cmd.Process != nil {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			}
			b, rerr := os.ReadFile(outp)
			if rerr != nil {
				msg := string(t.buf)
				if ctx.Err() != nil {
					rep.Inconc(fmt.Sprintf("worker %d timed out after %v", s, timeout))
					fmt.Printf("worker %d timed out; tail: %s\n", s, lastLines(msg, 15))
					return
				}
				if crashInRepo(msg) {
					rep.Violate("worker-crash", fmt.Sprintf("shard=%d", s), "the code under test crashed the process: "+firstLine(crashLine(msg)), map[string]string{"output": headTail(msg)})
					return
				}
				rep.Inconc(fmt.Sprintf("worker %d ended without a report (%v)", s, err))
				fmt.Printf("worker %d ended without a report (%v):\n%s\n", s, err, headTail(msg))
				return
			}
			var w wireReport
			if err := json.Unmarshal(b, &w); err != nil {
				rep.Inconc("bad worker report: " + err.Error())
				return
			}
			rep.mu.Lock()
			defer rep.mu.Unlock()
			rep.Evaluations += w.Evaluations
			for _, d := range w.Distinct {
				rep.Distinct[d] = true
			}
			for k, v := range w.Counters {
				if strings.HasPrefix(k, "max_") {
					if rep.Counters[k] < v {
						rep.Counters[k] = v
					}
				} else {
					rep.Counters[k] += v
				}
			}
			rep.Violations = append(rep.Violations, w.Violations...)
			rep.Inconclusive = append(rep.Inconclusive, w.Inconclusive...)
			for _, sm := range w.Samples {
				if len(rep.Samples) < 3 {
					rep.Samples = append(rep.Samples, sm)
				}
			}
		}(s)
	}
	wg.Wait()
	if c.Race {
		collectRaces(rep, scratch)
	}
	return verdict(c, rep, verif, start)
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimRight(s, "\n"), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}
func headTail(s string) string {
	if len(s) > 8000 {
		return s[:5000] + "\n...\n" + s[len(s)-2500:]
	}
	return s
}
func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
func crashLine(s string) string {
	for _, m := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(s, m); i >= 0 {
			return s[i:]
		}
	}
	return s
}

// crashInRepo tells whether the goroutine that crashed was running code of the
// repository (and not only harness code).
func crashInRepo(s string) bool {
	i := strings.Index(s, "panic: ")
	if j := strings.Index(s, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		return false
	}
	if strings.HasPrefix(s[i:], "fatal error: all goroutines are asleep") {
		return false
	}
	// the first goroutine block after the message is the crashing one
	t := s[i:]
	k := strings.Index(t, "\ngoroutine ")
	if k < 0 {
		return false
	}
	block := t[k+1:]
	if e := strings.Index(block, "\n\n"); e >= 0 {
		block = block[:e]
	}
	return strings.Contains(block, "github.com/dappnode/mev-sp-oracle/")
}

type known struct {
	Property, Key, What string
}

// known_findings.txt: lines "finding: property=<id> key=<key> <what>" and "fixed: ..."
func loadKnown(verif string) []known {
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(parts) < 3 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(parts[0], "property="), strings.TrimPrefix(parts[1], "key="), parts[2]})
	}
	return out
}

func verdict(c *Check, r *Report, verif string, start time.Time) int {
	kf := loadKnown(verif)
	var fresh []Violation
	reported := map[string]bool{}
	for _, v := range r.Violations {
		matched := false
		for _, k := range kf {
			if k.Property == r.Property && k.Key == v.Key {
				matched = true
				if !reported[k.Key] {
					reported[k.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Property, k.What)
				}
				break
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}
	// evidence
	cov := map[string]interface{}{}
	for k, v := range r.Counters {
		cov[k] = v
	}
	samples := r.Samples
	if samples == nil {
		samples = []interface{}{}
	}
	cov["evaluations"] = r.Evaluations
	cov["distinct_nontrivial"] = len(r.Distinct)
	cov["rule"] = c.Rule
	cov["samples"] = samples
	if len(r.Inconclusive) > 0 {
		cov["inconclusive"] = r.Inconclusive
	}
	as := c.Assumptions
	if as == nil {
		as = []string{}
	}
	ev := map[string]interface{}{"property": r.Property, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "assumptions": as, "wall_s": time.Since(start).Seconds(), "violations": len(fresh)}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.Property+".json"), b, 0644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	if len(fresh) > 0 {
		dir := filepath.Join(verif, "evidence", "replays")
		os.MkdirAll(dir, 0755)
		seen := map[string]bool{}
		n := 0
		sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].Key < fresh[j].Key })
		for _, v := range fresh {
			if seen[v.Key] {
				continue
			}
			seen[v.Key] = true
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.Property, n))
			rb, _ := json.MarshalIndent(map[string]interface{}{"property": r.Property, "seed": r.Seed, "tier": r.Tier, "case": v.Case, "key": v.Key,
				"what": v.What, "detail": v.Detail,
				"replay": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/run.sh %s -only '%s'", r.Seed, r.Tier, r.Property, v.Case)}, "", " ")
			os.WriteFile(p, rb, 0644)
			fmt.Printf("%s: %s [%s] (%s)\n", r.Property, v.What, v.Key, v.Case)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, p)
			n++
			if n >= 5 && os.Getenv("VERIF_ALL") == "" {
				break
			}
		}
		return 1
	}
	if len(r.Inconclusive) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s: %s\n", r.Property, strings.Join(r.Inconclusive, "; "))
		return 2
	}
	if r.Evaluations < c.MinEvals {
		fmt.Printf("INCONCLUSIVE property=%s: only %d evaluations\n", r.Property, r.Evaluations)
		return 2
	}
	for k, v := range c.MinCounters {
		if r.Counters[k] < v {
			fmt.Printf("INCONCLUSIVE property=%s: observed only %d %s (need %d)\n", r.Property, r.Counters[k], k, v)
			return 2
		}
	}
	fmt.Printf("HELD property=%s on %d executions, %d distinct non-trivial, %.1fs\n", r.Property, r.Evaluations, len(r.Distinct), time.Since(start).Seconds())
	return 0
}

// collectRaces reads the race detector's logs
func collectRaces(rep *Report, scratch string) {
	files, _ := filepath.Glob(filepath.Join(scratch, "race-*"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range bytes.Split(b, []byte("==================")) {
			s := string(blk)
			if !strings.Contains(s, "DATA RACE") {
				continue
			}
			rep.Counters["race_reports"]++
			if !strings.Contains(s, "github.com/dappnode/mev-sp-oracle/") {
				rep.Counters["race_reports_outside_repo"]++
				continue
			}
			rep.Violate("race:"+raceKey(s), "race", "data race between "+raceKey(s), map[string]string{"report": headTail(s)})
		}
	}
}

// raceKey: the pair of first repository frames of the two accesses, without line numbers
func raceKey(s string) string {
	var fr []string
	for _, part := range strings.Split(s, "\n\n") {
		if !(strings.Contains(part, "rite at 0x") || strings.Contains(part, "ead at 0x")) {
			continue
		}
		for _, l := range strings.Split(part, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "github.com/dappnode/mev-sp-oracle/") {
				l = strings.TrimPrefix(l, "github.com/dappnode/mev-sp-oracle/")
				if i := strings.Index(l, "("); i > 0 && strings.HasSuffix(l, "()") {
					l = strings.TrimSuffix(l, "()")
				}
				fr = append(fr, l)
				break
			}
		}
	}
	sort.Strings(fr)
	return strings.Join(fr, "<->")
}
