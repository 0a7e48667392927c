package main

// C18 (no data races, no torn reads) and C19 (no deadlocks, no lock left behind):
// the oracle, its API and its savers at work together, in this process and as
// the real program, under the race detector (C18) and with monitored locks (C19).

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
)

func init() {
	register(&Check{ID: "C18", Race: true, Rule: "race detector over the real oracle, onchain client and API working together (processing, freezing, saving, validator reloads, all endpoints) and over the real program under requests and stop signals; every state served or saved has to be one that an uninterrupted run goes through",
		Assumptions: []string{"one processing goroutine, as in the program"},
		Run: func(c *Ctx) {
			c.cases(c.N(42, 1200), func(i int, name string) {
				if i%7 >= 5 {
					concProg(c, "C18", i, name)
				} else {
					concStress(c, "C18", i, name)
				}
			})
		},
		Timeout: 14 * time.Minute, MinEvals: 1000,
		MinCounters: map[string]int64{"slots_processed": 400, "answers": 1500, "states_served": 80, "saves": 30, "program_answers": 80}})
	register(&Check{ID: "C19", Rule: "monitored locks (taken again by their holder, taken in both orders, released unheld, still held when an operation returns) and a watchdog over the same workloads, plus sequences of failing operations after each of which readers and a writer have to get through",
		Assumptions: []string{"one processing goroutine, as in the program", "an operation that does not return within 60 s with healthy nodes is stuck"},
		Run: func(c *Ctx) {
			c.cases(c.N(240, 3000), func(i int, name string) {
				switch i % 8 {
				case 0, 3:
					concStress(c, "C19", i, name)
				case 6:
					concProg(c, "C19", i, name)
				default:
					lockProbes(c, i, name)
				}
			})
		},
		Timeout: 14 * time.Minute, MinEvals: 2000,
		MinCounters: map[string]int64{"slots_processed": 400, "answers": 1500, "probes": 400, "failed_operations": 80, "program_answers": 80}})
}

// guarded runs f in a goroutine of its own and says whether it came back in time
func guarded(d time.Duration, f func()) (o Outcome, back bool) {
	done := make(chan Outcome, 1)
	go func() { done <- guard(f) }()
	select {
	case o = <-done:
		return o, true
	case <-time.After(d):
		return o, false
	}
}

// stuckAt: where the goroutines of this process wait for locks, by repository function
func stuckAt() (string, string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var where []string
	var dump []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		head := firstLine(g)
		if !(strings.Contains(head, "Mutex") || strings.Contains(head, "semacquire") || strings.Contains(head, "chan ") || strings.Contains(head, "sync.Cond")) {
			continue
		}
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "github.com/dappnode/mev-sp-oracle/") && !strings.Contains(l, "verifmon") {
				f := strings.TrimPrefix(l, "github.com/dappnode/mev-sp-oracle/")
				if k := strings.LastIndex(f, "("); k > 0 {
					f = f[:k]
				}
				where = append(where, f)
				dump = append(dump, g)
				break
			}
		}
	}
	seen := map[string]bool{}
	var u []string
	for _, w := range where {
		if !seen[w] {
			seen[w] = true
			u = append(u, w)
		}
	}
	return strings.Join(u, ","), cutStr(strings.Join(dump, "\n\n"), 12000)
}

func (c *Ctx) judgeLocks(name string) bool {
	ok := true
	for _, r := range lockReports() {
		kw := strings.SplitN(r, "|", 2)
		c.R.Violate("lock-"+kw[0], name, kw[1], nil)
		ok = false
	}
	return ok
}

// anyPath: every endpoint with arguments that exist and such that do not
func anyPath(r *rand.Rand, ch *Chain) string {
	ids := ch.World.Indices()
	v := ch.World.Vals[ids[r.Intn(len(ids))]]
	wd := addr(keyUser0 + r.Intn(8)).Hex()
	if w, ok := v.Exec(); ok && r.Intn(3) > 0 {
		wd = w
	}
	return pick(r, "/state", "/state", "/status", "/config", "/memory/validators", fmt.Sprintf("/memory/validator/%d", v.Index),
		fmt.Sprintf("/memory/validatorsbyindex/%d,%d", v.Index, v.Index+1), "/memory/validators/"+wd, "/memory/validators/"+wd,
		"/memory/feesinfo", "/memory/statistics", "/memory/allblocks", "/memory/proposedblocks", "/memory/missedblocks", "/memory/wrongfeeblocks",
		"/memory/donations", "/onchain/proof/"+wd, "/")
}

// servedState judges one /state answer
func servedState(ref *progRef, body []byte) string {
	var st oracle.OracleState
	if err := json.Unmarshal(body, &st); err != nil {
		return "the state served is not readable: " + err.Error()
	}
	x := contentOf(&st)
	if !ref.contents[st.LatestProcessedSlot][sha256.Sum256(x)] {
		return fmt.Sprintf("the state served (slot %d) is none that the processing went through: %s", st.LatestProcessedSlot, firstDiff(x, ref.bySlot[st.LatestProcessedSlot]))
	}
	if st.StateHash != "" && st.StateHash != sealOf(&st) {
		return "the state served does not have the hash of its content"
	}
	return ""
}

// something is stuck in this process for good: what else it would be given could wait for it too
var concStopped atomic.Bool

func concStuck() bool {
	concStopped.Store(true)
	return true
}

func concStress(c *Ctx, id string, i int, name string) {
	if concStopped.Load() {
		return
	}
	r := chainRand(c, id, i)
	ch, ref, why := progChain(r, false, 0)
	if ch == nil {
		c.R.Count("no_chain", 1)
		_ = why
		return
	}
	dir := filepath.Join(c.Scratch, id+"-"+name)
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	oldFolder := oracle.StateFolder
	oracle.StateFolder = filepath.Join(dir, "oracle-data")
	defer func() { oracle.StateFolder = oldFolder }()
	s := newAPIScene(c, name, ch, []string{"http://127.0.0.1:1"})
	if s == nil {
		return
	}
	stuck := false
	defer func() {
		if !stuck {
			s.stop()
		}
	}()
	fail := func(key, what string, more ...interface{}) {
		c.R.Violate(key, name, what, map[string]interface{}{"chain": ch.Name, "more": more})
	}
	cp := ref.ckpts[r.Intn(len(ref.ckpts))]
	s.n.Con.Slot = cp
	copy(s.n.Con.Root[:], common.FromHex(ref.roots[cp]))
	s.setFinal(ch.Cfg.DeployedSlot)
	o, back := guarded(60*time.Second, func() { s.on.RefreshBeaconValidators() })
	if o.Bad() || !back {
		c.R.Inconc("validators not loaded: " + o.String())
		return
	}

	var stop atomic.Bool
	var wg sync.WaitGroup
	var gmu sync.Mutex
	working := map[string]string{}
	at := func(who, what string) {
		gmu.Lock()
		working[who] = what
		gmu.Unlock()
	}
	crash := func(who string, o Outcome) bool {
		if o.Bad() {
			fail("crash:"+firstWords(o.String(), 8), who+" crashed among concurrent work: "+o.String(), o.Stack)
			stop.Store(true)
			return true
		}
		return false
	}
	pause := func(rr *rand.Rand, max int) {
		switch rr.Intn(4) {
		case 0:
			runtime.Gosched()
		case 1:
		default:
			time.Sleep(time.Duration(rr.Intn(max*1000)+1) * time.Microsecond)
		}
	}
	spawn := func(who string, f func(rr *rand.Rand)) {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(rr)
			at(who, "")
		}()
	}
	saves := int64(0)
	spawn("processing", func(rr *rand.Rand) {
		defer stop.Store(true)
		or := s.or
		for k, b := range ch.Blocks {
			if stop.Load() {
				return
			}
			at("processing", fmt.Sprint("slot ", b.Slot))
			s.n.mu.Lock()
			s.n.Finalized = b.Slot
			if s.n.Head < b.Slot+uint64(rr.Intn(40)) {
				s.n.Head = b.Slot + 40
			}
			s.n.mu.Unlock()
			need := false
			if crash("processing", guard(func() {
				var fb *oracle.FullBlock
				if k%2 == 0 {
					fb = s.on.FetchFullBlock(b.Slot, or)
				} else {
					need = s.ch.needExec(s.m, b)
					fb = ch.Full(b, need)
				}
				s.m.Step(ch, b)
				if _, err := or.AdvanceStateToNextSlot(fb); err != nil {
					fail("refused", fmt.Sprintf("slot %d is refused among concurrent work: %v", b.Slot, err))
					stop.Store(true)
					return
				}
				is, err := or.IsCheckpoint()
				if err == nil && is {
					if err := or.RunOffchainReconciliation(); err != nil {
						fail("offchain", "the books do not add up among concurrent work: "+err.Error())
					}
					if or.FreezeCheckpoint() {
						st := or.LatestCommitedState()
						sl, _ := or.LatestCommitedSlot()
						if st == nil || sl != b.Slot || st.MerkleRoot != ref.roots[b.Slot] {
							fail("frozen", fmt.Sprintf("the checkpoint frozen at slot %d is not the expected one", b.Slot))
						} else if in, err := or.IsOracleInSyncWithChain(st.MerkleRoot, sl); err != nil || !in {
							fail("frozen-sync", fmt.Sprint("the frozen checkpoint is not in sync with itself: ", in, err))
						}
						if err := or.SaveToJson(true); err != nil {
							fail("save", "a state cannot be saved among concurrent work: "+err.Error())
						}
						atomic.AddInt64(&saves, 1)
					}
				}
				switch rr.Intn(25) {
				case 0:
					s.on.RefreshBeaconValidators()
				case 1:
					ads := or.GetUniqueWithdrawalAddresses()
					cl := map[string]*big.Int{}
					for _, a := range ads {
						cl[a] = big.NewInt(0)
					}
					owed, _ := new(big.Int).SetString(ref.owed[or.State().LatestProcessedBlock], 10)
					if owed != nil {
						or.RunOnchainReconciliation(owed, cl)
					}
				}
			})) {
				return
			}
			c.R.Count("slots_processed", 1)
			pause(rr, 3)
		}
	})
	spawn("saver", func(rr *rand.Rand) {
		for !stop.Load() {
			at("saver", "saving")
			if crash("saver", guard(func() {
				if err := s.or.SaveToJson(false); err != nil {
					fail("save", "a state cannot be saved among concurrent work: "+err.Error())
				}
			})) {
				return
			}
			atomic.AddInt64(&saves, 1)
			b, err := os.ReadFile(filepath.Join(oracle.StateFolder, oracle.StateJsonName))
			if err == nil {
				if w := servedState(ref, b); w != "" {
					fail("saved-torn", strings.Replace(w, "served", "saved", 1))
					stop.Store(true)
				}
			}
			pause(rr, 25)
		}
	})
	for k := 0; k < 6; k++ {
		who := fmt.Sprint("reader ", k)
		spawn(who, func(rr *rand.Rand) {
			for n := 0; !stop.Load() || n < 30; n++ {
				p := anyPath(rr, ch)
				at(who, p)
				x := s.get(p)
				at(who, "")
				if x.err != nil {
					if strings.Contains(x.err.Error(), "Timeout") || strings.Contains(x.err.Error(), "deadline") {
						c.R.Count("timeouts", 1)
						wh, dump := stuckAt()
						fail("no-answer:"+routeOf(p), "no answer to "+p+" within 30 s among concurrent work; waiting for locks: "+wh, dump)
						stop.Store(true)
						return
					}
					fail("dropped:"+routeOf(p), "the request "+p+" is dropped among concurrent work: "+x.String(), lastLines(string(s.panics.buf), 30))
					stop.Store(true)
					return
				}
				c.R.Count("answers", 1)
				c.R.Eval(1)
				if p == "/state" && x.code == 200 {
					c.R.Count("states_served", 1)
					c.R.Seen(fmt.Sprint(name, sha256.Sum256(x.body)))
					if w := servedState(ref, x.body); w != "" {
						fail("torn", w)
						stop.Store(true)
						return
					}
				}
				pause(rr, 4)
			}
		})
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(150 * time.Second):
		stuck = concStuck()
		wh, dump := stuckAt()
		gmu.Lock()
		w := fmt.Sprint(working)
		gmu.Unlock()
		if wh != "" {
			fail("deadlock:"+wh, "concurrent work does not get on, waiting at "+wh+"; "+w, dump)
		} else {
			c.R.Inconc("concurrent work takes more than 150 s: " + w + "\n" + dump)
		}
		return
	}
	c.R.Count("saves", int(saves))
	if s.n.inflight.Load() == 0 && len(c.R.Violations) == 0 {
		st := s.or.State()
		if !ref.contents[st.LatestProcessedSlot][sha256.Sum256(contentOf(st))] {
			fail("final-state", "the state after concurrent work is not the one of the same blocks alone: "+firstDiff(contentOf(st), ref.bySlot[st.LatestProcessedSlot]))
		}
	}
	if id == "C19" {
		c.judgeLocks(name)
		for k := 0; ; k++ {
			h := lockHeld()
			if len(h) == 0 {
				break
			}
			if k > 200 {
				fail("held-after", "locks are held although nothing is going on: "+strings.Join(h, ", "))
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		a, ct, si := lockStats()
		c.R.Max("lock_acquisitions_per_worker_max", int(a))
		c.R.Max("lock_contended_per_worker_max", int(ct))
		c.R.Max("lock_sites_max", si)
	}
}

// concProg: the real program under requests, asked to stop at some request
func concProg(c *Ctx, id string, i int, name string) {
	if concStopped.Load() {
		return
	}
	pc := newProgCase(c, id, name, i, i%2 == 0)
	if pc == nil {
		return
	}
	defer pc.close()
	r := pc.r
	pc.dry = r.Intn(3) != 0
	last := pc.ref.slots[len(pc.ref.slots)-1]
	lockLog := filepath.Join(pc.dir, "locks.log")
	os.Setenv("VERIF_LOCKLOG", lockLog)
	defer os.Unsetenv("VERIF_LOCKLOG")
	// nodes that advance step by step keep the program busy for longer
	pc.n.Finalized, pc.n.Head = pc.ref.slots[0], last
	var calls int64
	pc.onReq = func(q Req) {
		if q.Kind == "syncing" && atomic.AddInt64(&calls, 1)%2 == 0 {
			pc.n.mu.Lock()
			if pc.n.Finalized < last {
				pc.n.Finalized += uint64(1 + atomic.LoadInt64(&calls)%3)
				if pc.n.Finalized > last {
					pc.n.Finalized = last
				}
			}
			pc.n.mu.Unlock()
		}
	}
	starts := 2 + r.Intn(3)
	for k := 0; k < starts && pc.ok; k++ {
		var pl *interruption
		if k+1 < starts || r.Intn(2) == 0 {
			pl = &interruption{at: 80 + r.Intn(900), sig: pick(r, syscall.SIGTERM, syscall.SIGINT)}
			if r.Intn(3) == 0 {
				pl.delay = time.Duration(r.Intn(30)) * time.Millisecond
			}
		}
		p := pc.begin(pl)
		var stop atomic.Bool
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !stop.Load() && !p.exited() {
					path := anyPath(rr, pc.ch)
					t0 := time.Now()
					code, body := p.get(path)
					if code == 0 {
						if time.Since(t0) > 19*time.Second && !p.exited() {
							pc.mu.Lock()
							if pc.overrun == "" {
								pc.overrun = path
							}
							pc.mu.Unlock()
							p.cmd.Process.Signal(syscall.SIGQUIT)
							return
						}
						time.Sleep(3 * time.Millisecond)
						continue
					}
					c.R.Count("program_answers", 1)
					c.R.Eval(1)
					if path == "/state" && code == 200 {
						c.R.Count("program_states_served", 1)
						if w := servedState(pc.ref, body); w != "" {
							pc.mu.Lock()
							if pc.torn == "" {
								pc.torn = w
							}
							pc.mu.Unlock()
						}
					}
					time.Sleep(time.Duration(rr.Intn(1500)) * time.Microsecond)
				}
			}()
		}
		res := pc.await(p)
		for res == "idle" {
			pc.n.mu.Lock()
			fin := pc.n.Finalized
			pc.n.mu.Unlock()
			if fin == last {
				break
			}
			pc.mu.Lock()
			pc.headers = 0
			pc.mu.Unlock()
			res = pc.await(p)
		}
		pc.mu.Lock()
		fired := pc.fired
		pc.mu.Unlock()
		if res != "exit" && !p.exited() && !(fired && pl != nil) && res == "idle" {
			p.cmd.Process.Signal(syscall.SIGTERM)
			fired = true
		}
		if fired {
			select {
			case <-p.done:
			case <-time.After(60 * time.Second):
				p.cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case <-p.done:
				case <-time.After(5 * time.Second):
				}
				pc.fail("does-not-stop", "the program, under requests, does not stop within 60 s")
			}
			c.R.Count("stopped_under_requests", 1)
		}
		stop.Store(true)
		if res == "stalled" {
			p.cmd.Process.Signal(syscall.SIGQUIT)
			time.Sleep(time.Second)
			pc.fail("stalled", "the program, under requests, makes no request to its nodes for 60 s")
		}
		if !p.exited() {
			p.kill()
		}
		wg.Wait()
		pc.mu.Lock()
		torn, over := pc.torn, pc.overrun
		pc.mu.Unlock()
		if torn != "" {
			pc.fail("torn", torn)
		}
		if over != "" {
			pc.fail("no-answer:"+routeOf(over), "the program does not answer "+over+" within 20 s")
		}
		if res == "exit" && !fired && !p.portTaken() {
			if code, _ := exitCode(p); code != 66 { // the race detector's
				pc.fail("ended", fmt.Sprintf("the program, under requests, ends by itself with code %d", code))
			}
		}
		if pc.ok {
			pc.judgeFile("under requests")
		}
		if b, err := os.ReadFile(lockLog); err == nil && id == "C19" {
			for _, l := range bytes.Split(bytes.TrimSpace(b), []byte("\n")) {
				kw := strings.SplitN(string(l), "|", 2)
				if len(kw) == 2 {
					pc.fail("lock-"+kw[0], kw[1])
				}
			}
		}
		c.R.Seen(fmt.Sprint(res, fired, pc.dry))
	}
}

var errBroken, errDone = errors.New("broken"), errors.New("done")

func brokenValidators(valIndices []phase0.ValidatorIndex, slotStr string, opts ...retry.Option) (map[phase0.ValidatorIndex]*v1.Validator, error) {
	return nil, errBroken
}

func wrongSlot(ch *Chain, pos int) *BlockSpec {
	if pos >= len(ch.Blocks) {
		pos = len(ch.Blocks) - 1
	}
	b := cloneBlock(ch.Blocks[pos])
	b.Slot += 7777777
	return b
}

// lockProbes: sequences of operations, many of them failing; after each one
// readers and a writer must get through
func lockProbes(c *Ctx, i int, name string) {
	if concStopped.Load() {
		return
	}
	r := chainRand(c, "C19p", i)
	p := apiProfile(r)
	p.Busy, p.Cleanups = 20+r.Intn(30), r.Intn(2)
	ch := GenChain(r, p)
	dir := filepath.Join(c.Scratch, "C19-"+name)
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	oldFolder := oracle.StateFolder
	oracle.StateFolder = filepath.Join(dir, "oracle-data")
	defer func() { oracle.StateFolder = oldFolder }()
	s := newAPIScene(c, name, ch, []string{"http://127.0.0.1:1"})
	if s == nil {
		return
	}
	stuck := false
	defer func() {
		if !stuck {
			s.stop()
		}
	}()
	or := s.or
	s.n.Con.Slot = ch.Cfg.DeployedSlot
	s.setFinal(ch.Cfg.DeployedSlot)
	pos := 0
	brokenSet := false
	restore := func() {
		if brokenSet {
			or.SetGetSetOfValidatorsFunc(ch.World.GetSet)
			or.GetPendingConsolidationsFunc(ch.World.GetPending)
			brokenSet = false
		}
	}
	block := filepath.Join(dir, "afile")
	os.WriteFile(block, nil, 0644)
	type op struct {
		name string
		f    func() error
	}
	m := s.m
	ops := []op{
		{"advance", func() error {
			if pos >= len(ch.Blocks) {
				return nil
			}
			b := ch.Blocks[pos]
			_, err := or.AdvanceStateToNextSlot(ch.Full(b, ch.needExec(m, b)))
			if err == nil {
				m.Step(ch, b)
				pos++
			}
			return err
		}},
		{"advance-wrong", func() error {
			if pos >= len(ch.Blocks) {
				return nil
			}
			b := ch.Blocks[pos]
			var prev, next *BlockSpec
			if pos > 0 {
				prev = ch.Blocks[pos-1]
			}
			if pos+1 < len(ch.Blocks) {
				next = ch.Blocks[pos+1]
			}
			w := wrongBlocks(r, ch, m, b, prev, next)
			if len(w) == 0 {
				return nil
			}
			x := w[r.Intn(len(w))]
			mk := x.mk
			if mk == nil {
				mk = func() *oracle.FullBlock { return ch.Full(x.b, true) }
			}
			_, err := or.AdvanceStateToNextSlot(mk())
			if err == nil {
				c.R.Count("wrong_block_accepted", 1) // C16's business
				return errDone
			}
			return err
		}},
		{"ischeckpoint", func() error { _, err := or.IsCheckpoint(); return err }},
		{"freeze", func() error {
			if or.State().LatestProcessedSlot < ch.Cfg.DeployedSlot {
				return nil
			}
			if at, err := or.IsCheckpoint(); err != nil || !at {
				return err
			}
			if !or.FreezeCheckpoint() {
				return errBroken
			}
			return nil
		}},
		{"save", func() error { return or.SaveToJson(r.Intn(2) == 0) }},
		{"save-fails", func() error {
			old := oracle.StateFolder
			oracle.StateFolder = filepath.Join(block, "oracle-data")
			defer func() { oracle.StateFolder = old }()
			return or.SaveToJson(r.Intn(2) == 0)
		}},
		{"load", func() error { // what was saved by this oracle; it goes on from there
			if or.State().LatestProcessedSlot < ch.Cfg.DeployedSlot {
				return nil
			}
			if err := or.SaveToJson(false); err != nil {
				return err
			}
			_, err := or.LoadFromJson()
			return err
		}},
		{"load-bad", func() error {
			f := filepath.Join(dir, "bad.json")
			good := mustJSON(sealedCopy(or))
			switch r.Intn(4) {
			case 0:
				good = good[:r.Intn(len(good))]
			case 1:
				good = []byte("null")
			case 2:
				good = []byte("{}")
			case 3:
				good = bytes.Replace(good, []byte("1"), []byte("2"), 1)
			}
			os.WriteFile(f, good, 0644)
			if r.Intn(2) == 0 {
				_, err := or.LoadFromPath(f)
				return err
			}
			_, err := or.LoadFromBytes(good)
			return err
		}},
		{"load-missing", func() error { _, err := or.LoadFromPath(filepath.Join(dir, "none")); return err }},
		{"load-folder", func() error { _, err := or.LoadFromPath(dir); return err }},
		{"load-given", func() error {
			_, err := or.LoadGivenState(1) // nothing is that old
			return err
		}},
		{"latest-committed", func() error { or.LatestCommitedState(); or.LatestCommitedSlot(); return nil }},
		{"in-sync", func() error {
			sl, ok := or.LatestCommitedSlot()
			root := oracle.DefaultRoot
			if ok {
				root = or.LatestCommitedState().MerkleRoot
			}
			switch r.Intn(3) {
			case 0:
				root = "0x" + strings.Repeat("ab", 32)
			case 1:
				sl += uint64(r.Intn(3))
			}
			_, err := or.IsOracleInSyncWithChain(root, sl)
			return err
		}},
		{"offchain", func() error { return or.RunOffchainReconciliation() }},
		{"onchain", func() error {
			cl := map[string]*big.Int{}
			for _, a := range or.GetUniqueWithdrawalAddresses() {
				if r.Intn(5) > 0 {
					cl[a] = big.NewInt(int64(r.Intn(2)))
				}
			}
			return or.RunOnchainReconciliation(big.NewInt(r.Int63()), cl)
		}},
		{"refresh", func() error { s.on.RefreshBeaconValidators(); return nil }},
		{"api", func() error {
			x := s.get(anyPath(r, ch))
			if x.err != nil {
				return x.err
			}
			if x.code != 200 {
				return errBroken
			}
			return nil
		}},
		{"api-bad", func() error {
			x := s.get(hostile(r))
			if x.err != nil {
				return x.err
			}
			if x.code != 200 {
				return errBroken
			}
			return nil
		}},
		{"can-subscribe", func() error {
			for _, id := range ch.World.Indices() {
				if v := ch.World.At(id, or.State().LatestProcessedSlot); v != nil {
					oracle.CanValidatorSubscribeToPool(v)
				}
			}
			return nil
		}},
		{"break-nodes", func() error {
			or.SetGetSetOfValidatorsFunc(brokenValidators)
			brokenSet = true
			return nil
		}},
		{"repair-nodes", func() error { restore(); return nil }},
	}
	for k := 0; k < c.N(40, 200) && len(c.R.Violations) == 0; k++ {
		x := ops[r.Intn(len(ops))]
		if r.Intn(3) == 0 {
			x = ops[0]
		}
		var err error
		var mine []string
		o, back := guarded(60*time.Second, func() {
			err = x.f()
			mine = lockMine()
		})
		c.R.Eval(1)
		c.R.Seen(fmt.Sprint(x.name, err == nil, o.Bad()))
		if !back {
			stuck = concStuck()
			wh, dump := stuckAt()
			if wh == "" {
				c.R.Inconc(name + ": the operation " + x.name + " takes more than 60 s")
				return
			}
			c.R.Violate("stuck:"+x.name, name, "the operation "+x.name+" alone does not return within 60 s, waiting at "+wh, map[string]string{"stacks": dump})
			return
		}
		if !c.judgeLocks(name) {
			stuck = concStuck()
			return
		}
		if len(mine) > 0 {
			c.R.Violate("held-after:"+x.name, name, fmt.Sprintf("after %s (%v) locks are held: %s", x.name, err, strings.Join(mine, ", ")), nil)
			stuck = concStuck()
			return
		}
		if o.Bad() { // the program ends here
			c.R.Count("ended_operations", 1)
			return
		}
		if err == errDone {
			return
		}
		if err != nil {
			c.R.Count("failed_operations", 1)
		}
		// everybody gets through
		for _, q := range []op{
			{"a reader", func() error { or.State(); or.LatestCommitedSlot(); s.on.Validators(); return nil }},
			{"a writer", func() error {
				_, err := or.AdvanceStateToNextSlot(ch.Full(wrongSlot(ch, pos), true))
				if err == nil {
					return errDone
				}
				return nil
			}},
			{"a request", func() error { x := s.get(pick(r, "/state", "/status", "/memory/validators", "/config")); return x.err }},
			{"a save", func() error { return or.SaveToJson(false) }},
		} {
			if q.name == "a save" && r.Intn(4) > 0 {
				continue
			}
			var err error
			o, back := guarded(45*time.Second, func() { err = q.f() })
			c.R.Count("probes", 1)
			if !back || (q.name == "a request" && err != nil && strings.Contains(err.Error(), "Timeout")) {
				stuck = concStuck()
				wh, dump := stuckAt()
				c.R.Violate("lock-left:"+x.name, name, fmt.Sprintf("after %s (%v), %s does not get through within 45 s; waiting at %s", x.name, err, q.name, wh), map[string]string{"stacks": dump})
				return
			}
			if o.Bad() || err == errDone {
				return
			}
		}
	}
}
