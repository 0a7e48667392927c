package main

// C14: crash and fault injection into SaveToJson by system-call injection
// (strace) on a child process of this program that runs the real save.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/dappnode/mev-sp-oracle/oracle"
)

func init() {
	subs["saver"] = saverMain
	register(&Check{ID: "C14", MinEvals: 200, Timeout: 700 * time.Second,
		MinCounters: map[string]int64{"killed_during_save": 20, "errors_injected": 20, "short_disks": 10, "traces_checked": 3},
		Rule:        "distinct (system call and its position in the save, fault, first or later save, with or without per-slot copy, which file a restart found)",
		Assumptions: []string{"a rename is atomic and durable once its directory is written, as on the journaling file systems the oracle runs on"},
		Run:         func(c *Ctx) { c14run(c) }})
}

// ---------------------------------------------------------------- child

type saverOut struct {
	FirstErr  string
	SaveErr   string
	Crash     string
	AfterErr  string // what stopped working after the save
	Hash1     string
	Hash2     string
	SlotSaved uint64
}

func saverChain(seed int64, cs int) *Chain {
	c := &Ctx{Seed: seed}
	r := chainRand(c, "C14", cs)
	p := defProfile()
	p.Busy, p.Cleanups = 24, 0
	p.NVals = 4 + r.Intn(8)
	p.RSub = 60
	return GenChain(r, p)
}

// saver <seed> <case> <dir> <first: 0|1> <slot: 0|1> <limit> <out>
func saverMain(a []string) {
	runtime.LockOSThread()
	quietLogs()
	seed, _ := strconv.ParseInt(a[0], 10, 64)
	cs, _ := strconv.Atoi(a[1])
	dir, first, perSlot := a[2], a[3] == "1", a[4] == "1"
	limit, _ := strconv.Atoi(a[5])
	var out saverOut
	finish := func() {
		b, _ := json.Marshal(out)
		os.WriteFile(a[6], b, 0644)
		os.Exit(0)
	}
	oracle.StateFolder = dir
	ch := saverChain(seed, cs)
	or, _ := ch.NewOracle()
	m := NewModel(ch)
	step := func(b *BlockSpec) error {
		need := ch.needExec(m, b)
		m.Step(ch, b)
		_, err, o := advance(or, func() *oracle.FullBlock { return ch.Full(b, need) })
		if o.Bad() {
			return fmt.Errorf("%s", o)
		}
		return err
	}
	n := len(ch.Blocks)
	for i, b := range ch.Blocks[:n-4] {
		if err := step(b); err != nil {
			out.Crash = "step: " + err.Error()
			finish()
		}
		if i == n/2 {
			or.FreezeCheckpoint()
		}
	}
	if !first {
		if err := or.SaveToJson(perSlot); err != nil {
			out.FirstErr = err.Error()
			finish()
		}
		st, _ := or.StateWithHash()
		out.Hash1 = st.StateHash
		if !perSlot {
			if err := step(ch.Blocks[n-4]); err != nil {
				out.Crash = "step: " + err.Error()
				finish()
			}
		} else {
			// the same slot saved again with more content: a checkpoint
			or.FreezeCheckpoint()
		}
	}
	out.SlotSaved = or.State().LatestProcessedSlot
	st, _ := or.StateWithHash()
	out.Hash2 = st.StateHash
	b, _ := json.Marshal(out)
	os.WriteFile(a[6]+".pre", b, 0644)
	if limit > 0 {
		var old syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: old.Max})
	}
	os.Mkdir(dir+"-MARK1", 0755)
	var err error
	o := guard(func() { err = or.SaveToJson(perSlot) })
	os.Mkdir(dir+"-MARK2", 0755)
	if limit > 0 {
		var old syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: old.Max, Max: old.Max})
	}
	if o.Bad() {
		out.Crash = "SaveToJson: " + o.String()
		finish()
	}
	if err != nil {
		out.SaveErr = err.Error()
	}
	// what a restart would find now
	for _, s := range []string{oracle.StateJsonName, fmt.Sprintf("state_%d.json", out.SlotSaved)} {
		if b, e := os.ReadFile(filepath.Join(dir, s)); e == nil {
			os.WriteFile(filepath.Join(dir+"-SEEN-"+s), b, 0644)
		}
	}
	// the oracle must go on
	// on this thread: the faults are counted per thread
	after := make(chan struct{})
	go func() {
		select {
		case <-after:
		case <-time.After(30 * time.Second):
			out.AfterErr = "the oracle is stuck after the failed save"
			finish()
		}
	}()
	out.AfterErr = func() string {
		or.State()
		or.LatestCommitedSlot()
		if _, e := or.StateWithHash(); e != nil {
			return "hash: " + e.Error()
		}
		if e := step(ch.Blocks[int(m.next-ch.Blocks[0].Slot)]); e != nil {
			return "step: " + e.Error()
		}
		if e := or.SaveToJson(perSlot); e != nil {
			return "next save: " + e.Error()
		}
		h, _ := or.StateWithHash()
		f, _ := ch.NewOracle()
		ok, e := f.LoadFromJson()
		if !ok || e != nil {
			return fmt.Sprintf("load of the next save: %v %v", ok, e)
		}
		g, _ := f.StateWithHash()
		if g.StateHash != h.StateHash {
			return "the next save stored another state"
		}
		return ""
	}()
	close(after)
	finish()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---------------------------------------------------------------- parent

type sysEv struct {
	name  string
	n     int // occurrence of this call in the thread
	line  string
	inner bool
}

var sysLine = regexp.MustCompile(`^(\d+)\s+([a-z_0-9]+)\((.*)$`)

// traced calls, one file operation each
const traced = "openat,open,creat,write,pwrite64,writev,fsync,fdatasync,fchmod,fchmodat,chmod,close,rename,renameat,renameat2,unlink,unlinkat,ftruncate,truncate,mkdir,mkdirat,link,linkat,copy_file_range,sendfile,newfstatat,fstat"

func runSaver(c *Ctx, tag string, cs int, first, perSlot bool, limit int, inject string) (dir string, out *saverOut, pre *saverOut, trace []byte, killed bool, err error) {
	dir = filepath.Join(c.Scratch, "d-"+tag)
	outp := filepath.Join(c.Scratch, "o-"+tag)
	tr := filepath.Join(c.Scratch, "t-"+tag)
	self, _ := os.Executable()
	args := []string{"-f", "-qq", "-o", tr, "-s", "300", "-e", "trace=" + traced, "-e", "signal=none"}
	if inject != "" {
		args = append(args, "-e", "inject="+inject)
	}
	args = append(args, self, "-sub", "saver", fmt.Sprint(c.Seed), fmt.Sprint(cs), dir, fmt.Sprint(b2i(first)), fmt.Sprint(b2i(perSlot)), fmt.Sprint(limit), outp)
	cmd := exec.Command("strace", args...)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	t := time.AfterFunc(90*time.Second, func() { cmd.Process.Kill() })
	e := cmd.Run()
	t.Stop()
	trace, _ = os.ReadFile(tr)
	os.Remove(tr)
	if b, e := os.ReadFile(outp); e == nil {
		out = &saverOut{}
		json.Unmarshal(b, out)
	}
	if b, e := os.ReadFile(outp + ".pre"); e == nil {
		pre = &saverOut{}
		json.Unmarshal(b, pre)
	}
	os.Remove(outp)
	os.Remove(outp + ".pre")
	if out == nil {
		killed = true
		if pre == nil {
			err = fmt.Errorf("child: %v %s", e, lastLines(eb.String(), 5))
		}
	}
	return
}

// saveCalls lists the calls of the save, with their position in the thread's count of that call
func saveCalls(trace []byte, dir string) []sysEv {
	var out []sysEv
	cnt := map[string]int{}
	inside := false
	tid := ""
	for _, l := range strings.Split(string(trace), "\n") {
		mm := sysLine.FindStringSubmatch(l)
		if mm == nil {
			continue
		}
		k := mm[1] + " " + mm[2]
		cnt[k]++
		if strings.HasPrefix(mm[2], "mkdir") && strings.Contains(mm[3], "-MARK1") {
			inside, tid = true, mm[1]
			continue
		}
		if strings.HasPrefix(mm[2], "mkdir") && strings.Contains(mm[3], "-MARK2") {
			break
		}
		if inside && mm[1] == tid {
			out = append(out, sysEv{name: mm[2], n: cnt[k], line: l})
		}
	}
	return out
}

var reOpen = regexp.MustCompile(`"([^"]*)".*(O_[A-Z_|0-9]+).*= (\d+)`)
var rePaths = regexp.MustCompile(`"([^"]*)"`)

// judgeTrace: a state file becomes visible only with its content on disk
func judgeTrace(evs []sysEv) (string, int) {
	type fd struct {
		path  string
		dirty bool
		sync  bool
	}
	fds := map[string]*fd{}
	byPath := map[string]*fd{}
	published := 0
	isState := func(p string) bool {
		b := filepath.Base(p)
		return b == oracle.StateJsonName || regexp.MustCompile(`^state_\d+\.json$`).MatchString(b)
	}
	for _, e := range evs {
		if strings.Contains(e.line, "= -1") {
			continue
		}
		arg := e.line[strings.Index(e.line, "(")+1:]
		first := strings.TrimSpace(strings.SplitN(strings.SplitN(arg, ",", 2)[0], ")", 2)[0])
		switch e.name {
		case "openat", "open", "creat":
			m := reOpen.FindStringSubmatch(arg)
			if m == nil {
				continue
			}
			f := &fd{path: m[1], sync: strings.Contains(m[2], "O_SYNC") || strings.Contains(m[2], "O_DSYNC")}
			if strings.Contains(m[2], "O_TRUNC") && isState(m[1]) {
				return "the state file itself is truncated before its new content is there: " + e.line, published
			}
			if strings.Contains(m[2], "O_WRONLY") || strings.Contains(m[2], "O_RDWR") {
				fds[m[3]] = f
				byPath[m[1]] = f
			}
		case "write", "pwrite64", "writev", "ftruncate", "copy_file_range", "sendfile":
			if f := fds[first]; f != nil {
				f.dirty = !f.sync
				if isState(f.path) {
					return "the state file itself is written in place: " + e.line[:min2(len(e.line), 120)], published
				}
			}
		case "fsync", "fdatasync":
			if f := fds[first]; f != nil {
				f.dirty = false
			}
		case "close":
			delete(fds, first)
		case "rename", "renameat", "renameat2", "link", "linkat":
			ps := rePaths.FindAllStringSubmatch(arg, -1)
			if len(ps) < 2 {
				continue
			}
			if isState(ps[1][1]) {
				published++
				if f := byPath[ps[0][1]]; f != nil && f.dirty {
					return "the new state file is put in place before its content is on disk: " + e.line, published
				}
			}
		}
	}
	return "", published
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// judgeDisk: what does a restart find in dir?
func judgeDisk(ch *Chain, dir string, pre *saverOut, first, perSlot bool) (string, string) {
	oracle.StateFolder = dir
	found := ""
	try := func(what string, load func(or *oracle.Oracle) (bool, error)) string {
		or, _ := ch.NewOracle()
		var ok bool
		var err error
		o := guard(func() { ok, err = load(or) })
		if o.Bad() {
			return fmt.Sprintf("a restart crashes on %s: %s", what, o)
		}
		if err != nil {
			return fmt.Sprintf("a restart refuses %s: %v", what, err)
		}
		if !ok {
			found += what + ":none "
			if !first {
				return fmt.Sprintf("%s is lost", what)
			}
			return ""
		}
		h, err := or.StateWithHash()
		if err != nil {
			return err.Error()
		}
		switch h.StateHash {
		case pre.Hash1:
			found += what + ":old "
		case pre.Hash2:
			found += what + ":new "
		default:
			return fmt.Sprintf("a restart loads a state from %s that is neither the previous nor the new one", what)
		}
		return ""
	}
	if s := try(oracle.StateJsonName, func(or *oracle.Oracle) (bool, error) { return or.LoadFromJson() }); s != "" {
		return s, found
	}
	if perSlot {
		p := filepath.Join(dir, fmt.Sprintf("state_%d.json", pre.SlotSaved))
		if s := try("the per-slot copy", func(or *oracle.Oracle) (bool, error) { return or.LoadFromPath(p) }); s != "" {
			return s, found
		}
	}
	// and the restarted oracle can save
	or, _ := ch.NewOracle()
	or.LoadFromJson()
	if err := or.SaveToJson(true); err != nil {
		return "a restarted oracle cannot save: " + err.Error(), found
	}
	f, _ := ch.NewOracle()
	if ok, err := f.LoadFromJson(); !ok || err != nil {
		return fmt.Sprint("what a restarted oracle saved cannot be loaded: ", err), found
	}
	return "", found
}

func c14run(c *Ctx) {
	if _, err := exec.LookPath("strace"); err != nil {
		c.R.Inconc("no strace")
		return
	}
	n := c.N(8, 64)
	c.cases(n, func(cs int, name string) {
		r := rand.New(rand.NewSource(c.Seed*77 + int64(cs)))
		first := cs%4 == 3
		perSlot := cs%2 == 0
		ch := saverChain(c.Seed, cs)
		fail := func(key, what string, d interface{}) { c.R.Violate(key, name, what, d) }
		clean := func(dir string) {
			for _, s := range []string{"", "-MARK1", "-MARK2", "-SEEN-" + oracle.StateJsonName} {
				os.RemoveAll(dir + s)
			}
			g, _ := filepath.Glob(dir + "-SEEN-*")
			for _, f := range g {
				os.Remove(f)
			}
		}
		// undisturbed
		dir, out, _, trace, _, err := runSaver(c, "base", cs, first, perSlot, 0, "")
		if err != nil || out == nil {
			c.R.Inconc(fmt.Sprintf("undisturbed child: %v %s", err, lastLines(string(trace), 3)))
			return
		}
		if out.Crash != "" || out.FirstErr != "" || out.SaveErr != "" || out.AfterErr != "" {
			if strings.HasPrefix(out.Crash, "step") {
				c.R.Count("chains_stopped_by_other_difference", 1)
				return
			}
			fail("undisturbed", fmt.Sprintf("an undisturbed save fails: %+v", *out), nil)
			return
		}
		evs := saveCalls(trace, dir)
		if len(evs) == 0 {
			c.R.Inconc("no system calls of the save in the trace")
			return
		}
		c.R.Count("traces_checked", 1)
		c.R.Max("calls_in_a_save", len(evs))
		bad, pub := judgeTrace(evs)
		if bad != "" {
			fail("not-durable", bad, map[string]interface{}{"trace": evLines(evs)})
		}
		c.R.Count("files_published", pub)
		clean(dir)
		// every instant of the save: killed, or the call fails
		type fault struct {
			ev   int
			what string
		}
		var fs []fault
		for i, e := range evs {
			fs = append(fs, fault{i, "signal=KILL"})
			switch e.name {
			case "write", "pwrite64", "writev":
				fs = append(fs, fault{i, "error=ENOSPC"}, fault{i, "error=EIO"}, fault{i, "error=EDQUOT"}, fault{i, "retval=7"})
			case "fsync", "fdatasync":
				fs = append(fs, fault{i, "error=EIO"}, fault{i, "error=ENOSPC"})
			case "openat", "open", "creat":
				fs = append(fs, fault{i, "error=ENOSPC"}, fault{i, "error=EACCES"}, fault{i, "error=EMFILE"}, fault{i, "error=EROFS"})
			case "rename", "renameat", "renameat2":
				fs = append(fs, fault{i, "error=EIO"}, fault{i, "error=ENOSPC"}, fault{i, "error=EACCES"})
			case "close":
				fs = append(fs, fault{i, "error=EIO"})
			case "mkdir", "mkdirat", "fchmod", "fchmodat", "chmod":
				fs = append(fs, fault{i, "error=EACCES"}, fault{i, "error=EIO"})
			}
		}
		for fi, f := range fs {
			e := evs[f.ev]
			tag := fmt.Sprintf("f%d", fi)
			what := f.what
			if f.what == "retval=7" {
				// a short write that did happen cannot be faked; covered by the short disks below
				continue
			}
			dir, out, pre, trace, killed, err := runSaver(c, tag, cs, first, perSlot, 0, fmt.Sprintf("%s:%s:when=%d", e.name, what, e.n))
			if err != nil {
				c.R.Count("faults_outside_the_save", 1)
				clean(dir)
				continue
			}
			d := map[string]interface{}{"chain": ch.Name, "call": e.line[:min2(len(e.line), 200)], "fault": what, "first_save": first, "per_slot": perSlot}
			_, m1 := os.Stat(dir + "-MARK1")
			_, m2 := os.Stat(dir + "-MARK2")
			if what == "signal=KILL" {
				if m1 != nil || m2 == nil || !killed {
					c.R.Count("faults_outside_the_save", 1)
					clean(dir)
					continue
				}
				c.R.Count("killed_during_save", 1)
			} else {
				if out == nil || !strings.Contains(string(trace), "(INJECTED)") {
					c.R.Count("faults_outside_the_save", 1)
					clean(dir)
					continue
				}
				c.R.Count("errors_injected", 1)
			}
			c.R.Eval(1)
			if out != nil {
				if out.Crash != "" {
					fail("crash:"+e.name+":"+what, fmt.Sprintf("when %s fails (%s) the save crashes: %s", e.name, what, out.Crash), d)
					clean(dir)
					continue
				}
				if out.AfterErr != "" {
					fail("stuck:"+e.name+":"+what, fmt.Sprintf("after %s failed (%s) in a save: %s", e.name, what, out.AfterErr), d)
					clean(dir)
					continue
				}
				// what was on disk when the save returned
				bad := judgeSeen(ch, dir, pre, out, first, perSlot)
				if bad != "" {
					fail("lost:"+e.name+":"+what, fmt.Sprintf("when %s fails (%s): %s", e.name, what, bad), d)
				}
				c.R.Seen(fmt.Sprint(e.name, f.ev, what, first, perSlot, out.SaveErr != ""))
			} else {
				bad, found := judgeDisk(ch, dir, pre, first, perSlot)
				if bad != "" {
					fail("lost:"+e.name+":"+what, fmt.Sprintf("killed at %s (call %d of the save): %s", e.name, f.ev+1, bad), d)
				}
				c.R.Seen(fmt.Sprint(e.name, f.ev, what, first, perSlot, found))
				c.R.Sample(map[string]interface{}{"killed_at": e.name, "call": f.ev + 1, "of": len(evs), "restart_found": found})
			}
			clean(dir)
		}
		// disks that are too small: the write stops somewhere in the middle
		for k := 0; k < c.N(4, 20); k++ {
			limit := []int{1, 4096, 100, 1 + r.Intn(30000)}[k%4]
			dir, out, pre, _, _, err := runSaver(c, fmt.Sprintf("lim%d", k), cs, first, perSlot, limit, "")
			c.R.Eval(1)
			d := map[string]interface{}{"chain": ch.Name, "disk_bytes": limit, "first_save": first, "per_slot": perSlot}
			if err != nil || out == nil {
				if pre != nil && out == nil {
					fail("crash:full-disk", "a full disk kills the oracle", d)
				}
				clean(dir)
				continue
			}
			if out.SaveErr == "" && out.Crash == "" {
				c.R.Count("short_disk_large_enough", 1)
			} else {
				c.R.Count("short_disks", 1)
			}
			if out.Crash != "" || out.AfterErr != "" {
				fail("stuck:full-disk", fmt.Sprintf("a disk with room for %d bytes: %s %s", limit, out.Crash, out.AfterErr), d)
			} else if bad := judgeSeen(ch, dir, pre, out, first, perSlot); bad != "" {
				fail("lost:full-disk", fmt.Sprintf("a disk with room for %d bytes: %s", limit, bad), d)
			}
			c.R.Seen(fmt.Sprint("limit", limit, first, perSlot, out.SaveErr != ""))
			clean(dir)
		}
	})
}

func evLines(evs []sysEv) []string {
	var out []string
	for _, e := range evs {
		out = append(out, e.line[:min2(len(e.line), 160)])
	}
	return out
}

// judgeSeen: the files as they were when a save with a fault returned
func judgeSeen(ch *Chain, dir string, pre, out *saverOut, first, perSlot bool) string {
	tmp := dir + "-judge"
	os.MkdirAll(tmp, 0755)
	defer os.RemoveAll(tmp)
	for _, s := range []string{oracle.StateJsonName, fmt.Sprintf("state_%d.json", pre.SlotSaved)} {
		if b, err := os.ReadFile(dir + "-SEEN-" + s); err == nil {
			os.WriteFile(filepath.Join(tmp, s), b, 0644)
		}
	}
	bad, found := judgeDisk(ch, tmp, pre, first, perSlot)
	if bad != "" {
		return bad
	}
	if out.SaveErr == "" {
		if !strings.Contains(found, oracle.StateJsonName+":new") || (perSlot && !strings.Contains(found, "copy:new")) {
			return "the save reports success although a restart finds " + found
		}
	}
	return ""
}
