package main

// C26 and C23: the real program (built from the working tree, its pauses
// shortened) against the fake nodes, interrupted and restarted, and its
// transactions watched by a fake contract.

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
)

// ---------------------------------------------------------------- reference

type progRef struct {
	slots    []uint64
	contents map[uint64]map[[32]byte]bool // every content the state may have after a slot
	bySlot   map[uint64][]byte            // after the slot and its checkpoint
	roots    map[uint64]string            // checkpoints with enough data
	owed     map[uint64]string            // owed per execution block, for the reconciliation
	ckpts    []uint64
}

func (c *Chain) progReference() (*progRef, string) {
	ref := &progRef{contents: map[uint64]map[[32]byte]bool{}, bySlot: map[uint64][]byte{}, roots: map[uint64]string{}, owed: map[uint64]string{}}
	or, _ := c.NewOracle()
	m := NewModel(c)
	ref.bySlot[c.Cfg.DeployedSlot-1] = contentOf(or.State())
	ref.contents[c.Cfg.DeployedSlot-1] = map[[32]byte]bool{sha256.Sum256(ref.bySlot[c.Cfg.DeployedSlot-1]): true}
	for _, b := range c.Blocks {
		need := c.needExec(m, b)
		m.Step(c, b)
		if _, err, o := advance(or, func() *oracle.FullBlock { return c.Full(b, need) }); err != nil || o.Bad() {
			return nil, fmt.Sprint(err, o)
		}
		note := func() {
			x := contentOf(or.State())
			if ref.contents[b.Slot] == nil {
				ref.contents[b.Slot] = map[[32]byte]bool{}
			}
			ref.contents[b.Slot][sha256.Sum256(x)] = true
			ref.bySlot[b.Slot] = x
		}
		note()
		var cp, enough bool
		var err error
		if o := guard(func() { cp, err = or.IsCheckpoint() }); o.Bad() || err != nil {
			return nil, fmt.Sprint(err, o)
		}
		if cp {
			if o := guard(func() { enough = or.FreezeCheckpoint() }); o.Bad() {
				return nil, o.String()
			}
			if enough {
				ref.roots[b.Slot] = or.State().CommitedStates[b.Slot].MerkleRoot
				ref.ckpts = append(ref.ckpts, b.Slot)
			}
			note()
		}
		ref.slots = append(ref.slots, b.Slot)
		st := or.State()
		owed := bclone(st.PoolAccumulatedFees)
		for _, v := range st.Validators {
			owed.Add(owed, v.AccumulatedRewardsWei)
			owed.Add(owed, v.PendingRewardsWei)
		}
		ref.owed[st.LatestProcessedBlock] = owed.String()
	}
	return ref, ""
}

// progChain: short chains whose deployment block exists; some with a checkpoint
// on a slot at which the validators are reloaded
func progChain(r *rand.Rand, aligned bool, crowd int) (*Chain, *progRef, string) {
	why := ""
	for try := 0; try < 400; try++ {
		p := apiProfile(r)
		p.SmallIdx = true
		p.Busy, p.Cleanups = 25+r.Intn(70), 0
		if p.Crowd > 60 {
			p.Crowd = 60
		}
		if crowd > 0 {
			p.Crowd = crowd
		}
		p.Ckpt = uint64(pick(r, 3, 5, 8, 13, 20))
		if aligned {
			p.Net = pick(r, "mainnet", "holesky", "hoodi")
			pts := startPoints[p.Net]
			p.Start = (pts[r.Intn(len(pts))]/1200)*1200 - uint64(pick(r, 0, 4, 10, 14))
			p.Ckpt = uint64(pick(r, 2, 4, 5, 7, 10))
		}
		ch := GenChain(r, p)
		b0 := ch.Blocks[0]
		if b0.Missed || b0.Slot != ch.Cfg.DeployedSlot {
			continue
		}
		ch.Cfg.DeployedBlock = b0.Number
		if aligned {
			ok := false
			for _, b := range ch.Blocks {
				if b.Slot%1200 == 0 && b.Slot > ch.Cfg.DeployedSlot && (b.Slot-ch.Cfg.DeployedSlot)%ch.Cfg.Checkpoint == 0 {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		ref, w := ch.progReference()
		if ref == nil {
			why = w
			continue
		}
		if len(ref.ckpts) == 0 {
			continue
		}
		return ch, ref, ""
	}
	return nil, nil, why
}

func progNode(r *rand.Rand, ch *Chain, ref *progRef) *Node {
	n := NewNode(ch)
	n.Genesis = 1600000000
	n.SSZ = r.Intn(2) == 0
	pool := common.HexToAddress(ch.Cfg.PoolAddress)
	n.DeployTxs = deployTxs(r, n, pool, pick(r, "direct", "proxy"), ch.Cfg.Fee, ch.Cfg.Checkpoint)
	first := ref.ckpts[0]
	n.Con.Slot = first - ch.Cfg.Checkpoint
	n.Balance = nil
	n.BalanceAt = func(a common.Address, tag string) string {
		if a == pool && strings.HasPrefix(tag, "0x") {
			if x, err := strconv.ParseUint(tag[2:], 16, 64); err == nil && ref.owed[x] != "" {
				return ref.owed[x]
			}
		}
		return "1000000000000000000"
	}
	return n
}

// ---------------------------------------------------------------- the process

type prog struct {
	cmd      *exec.Cmd
	out      *tail
	done     chan struct{}
	err      error
	api, met int
	dir      string
}

func keyFile(dir string) string {
	f := filepath.Join(dir, "updater.json")
	if _, err := os.Stat(f); err == nil {
		return f
	}
	k := &keystore.Key{Address: addr(keyUpdater), PrivateKey: key(keyUpdater).Priv}
	b, err := keystore.EncryptKey(k, "secret", 2, 1)
	if err != nil {
		panic(err)
	}
	os.WriteFile(f, b, 0600)
	return f
}

func startProg(n *Node, dir string, dry bool, extra ...string) *prog {
	args := []string{"-consensus-endpoint", n.CLURL, "-execution-endpoint", n.ELURL, "-pool-address", n.C.Cfg.PoolAddress, "-relayers-endpoints", "https://127.0.0.1:1",
		"-num-retries", "3", "-log-level", "info"}
	if dry {
		args = append(args, "-dry-run")
	} else {
		args = append(args, "-updater-keystore-file", keyFile(dir), "-updater-keystore-pass", "secret")
	}
	return runProg(dir, append(args, extra...))
}

// runProg starts the program with these options and free ports
func runProg(dir string, args []string) *prog {
	p := &prog{out: &tail{}, done: make(chan struct{}), api: freePort(), met: freePort(), dir: dir}
	p.cmd = exec.Command(filepath.Join(buildDir, "prog"), append([]string{"-api-port", fmt.Sprint(p.api), "-metrics-port", fmt.Sprint(p.met)}, args...)...)
	p.cmd.Dir = dir
	p.cmd.Env = append(os.Environ(), "VERIF_SLEEP_DIV=1500", "VERIF_BUILDER="+addr(keyWhitelist).Hex())
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p.cmd.WaitDelay = 5 * time.Second
	if err := p.cmd.Start(); err != nil {
		p.err = err
		close(p.done)
		return p
	}
	go func() {
		p.err = p.cmd.Wait()
		close(p.done)
	}()
	return p
}

func (p *prog) log() string {
	p.out.mu.Lock()
	defer p.out.mu.Unlock()
	return string(p.out.buf)
}

func (p *prog) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *prog) kill() {
	if p.cmd.Process != nil {
		p.cmd.Process.Kill()
	}
	<-p.done
}

// portTaken: another process of the machine took the port meanwhile
func (p *prog) portTaken() bool { return strings.Contains(p.log(), "address already in use") }

func (p *prog) tail(n int) string { return lastLines(p.log(), n) }

func (p *prog) get(path string) (int, []byte) {
	hc := &http.Client{Timeout: 20 * time.Second}
	defer hc.CloseIdleConnections()
	r, err := hc.Get(fmt.Sprintf("http://127.0.0.1:%d%s", p.api, path))
	if err != nil {
		return 0, nil
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return 0, nil
	}
	return r.StatusCode, b
}

// ---------------------------------------------------------------- driver

type interruption struct {
	at     int // request number of this start (of the kind, if one is given)
	kind   string
	sig    syscall.Signal
	delay  time.Duration
	reason string
}

type progCase struct {
	c      *Ctx
	id     string
	name   string
	r      *rand.Rand
	ch     *Chain
	ref    *progRef
	n      *Node
	dir    string
	dry    bool
	ok     bool
	starts int
	trace  []string

	mu       sync.Mutex
	cur      *prog
	reqs     int            // of this start
	byKind   map[string]int // of this start
	plan     *interruption
	fired    bool
	blocks   []uint64 // slots fetched by this start's loop
	inLoop   bool     // the finalized header was asked for
	headers  int      // finalized headers since the last block
	lastReq  time.Time
	onReq    func(q Req) // further hook
	overrun  string
	torn     string
	minFirst uint64 // slot the loop has to start with (0: not judged)
}

func (pc *progCase) fail(key, what string) {
	pc.ok = false
	tailLog := ""
	if pc.cur != nil {
		tailLog = pc.cur.tail(25)
	}
	pc.c.R.Violate(key, pc.name, what, map[string]interface{}{"chain": pc.ch.Name, "checkpoint": pc.ch.Cfg.Checkpoint, "deployed": pc.ch.Cfg.DeployedSlot, "dry_run": pc.dry, "history": strings.Join(pc.trace, "; "), "log": tailLog})
}

func (pc *progCase) before(q Req) {
	pc.mu.Lock()
	pc.reqs++
	pc.byKind[q.Kind]++
	pc.lastReq = time.Now()
	if q.Kind == "header" && strings.Contains(q.Arg, "finalized") {
		pc.inLoop = true
		pc.headers++
	}
	if q.Kind == "block" && pc.inLoop {
		if s, err := strconv.ParseUint(q.Arg, 10, 64); err == nil {
			pc.blocks = append(pc.blocks, s)
			pc.headers = 0
		}
	}
	pl, p := pc.plan, pc.cur
	fire := pl != nil && !pc.fired && p != nil && ((pl.kind == "" && pc.reqs >= pl.at) || (pl.kind != "" && pc.inLoop && pl.kind == q.Kind && pc.byKind[q.Kind] >= pl.at))
	if fire {
		pc.fired = true
		pl.reason = fmt.Sprintf("%s %s", q.Kind, q.Arg)
	}
	hook := pc.onReq
	pc.mu.Unlock()
	if hook != nil {
		hook(q)
	}
	if fire {
		p.cmd.Process.Signal(pl.sig)
		if pl.sig == syscall.SIGKILL {
			<-p.done
			return
		}
		time.Sleep(pl.delay)
	}
}

func (pc *progCase) begin(plan *interruption, extra ...string) *prog {
	for try := 0; ; try++ {
		pc.mu.Lock()
		pc.reqs, pc.byKind, pc.plan, pc.fired, pc.blocks, pc.inLoop, pc.headers, pc.lastReq = 0, map[string]int{}, nil, false, nil, false, 0, time.Now()
		pc.cur = nil
		pc.mu.Unlock()
		p := startProg(pc.n, pc.dir, pc.dry, extra...)
		pc.mu.Lock()
		pc.cur, pc.plan = p, plan
		pc.mu.Unlock()
		pc.starts++
		pc.c.R.Count("starts", 1)
		if try < 5 {
			// an unlucky port: not the program's fault
			select {
			case <-p.done:
				if p.portTaken() {
					continue
				}
			case <-time.After(30 * time.Millisecond):
			}
		}
		return p
	}
}

// idle: everything up to the finalized slot was processed
func (pc *progCase) idle() bool {
	pc.mu.Lock()
	defer pc.mu.Unlock()
	return pc.inLoop && pc.headers >= 3
}

// await waits until the program is idle, ends or makes no progress
func (pc *progCase) await(p *prog) string {
	t0 := time.Now()
	for {
		select {
		case <-p.done:
			return "exit"
		case <-time.After(3 * time.Millisecond):
		}
		if pc.idle() {
			return "idle"
		}
		pc.mu.Lock()
		quiet := time.Since(pc.lastReq)
		pc.mu.Unlock()
		if quiet > 60*time.Second {
			return "stalled"
		}
		if time.Since(t0) > 150*time.Second {
			return "slow"
		}
	}
}

func (pc *progCase) stateFile() (*oracle.OracleState, bool) {
	b, err := os.ReadFile(filepath.Join(pc.dir, "oracle-data", "state.json"))
	if err != nil {
		return nil, false
	}
	var s oracle.OracleState
	if json.Unmarshal(b, &s) != nil {
		pc.fail("state-file-broken", "the state file cannot be read")
		return nil, false
	}
	return &s, true
}

// judgeFile: what is on disk is a state that the reference went through
func (pc *progCase) judgeFile(when string) (next uint64) {
	next = pc.ch.Cfg.DeployedSlot
	s, ok := pc.stateFile()
	if !ok {
		return next
	}
	pc.c.R.Eval(1)
	x := contentOf(s)
	if !pc.ref.contents[s.LatestProcessedSlot][sha256.Sum256(x)] {
		pc.fail("saved-state", fmt.Sprintf("the state saved %s (slot %d) is not the one of an uninterrupted run: %s", when, s.LatestProcessedSlot, firstDiff(x, pc.ref.bySlot[s.LatestProcessedSlot])))
		return next
	}
	return s.NextSlotToProcess
}

// judgeTrace: the slots fetched by a start follow each other, from the right one
func (pc *progCase) judgeTrace(from uint64, exact bool) {
	pc.mu.Lock()
	bl := append([]uint64{}, pc.blocks...)
	pc.mu.Unlock()
	pc.c.R.Count("slots_fetched", len(bl))
	if len(bl) == 0 {
		return
	}
	if exact && bl[0] != from {
		pc.fail("restart-slot", fmt.Sprintf("the program goes on with slot %d, its saved state with %d", bl[0], from))
		return
	}
	for i := 1; i < len(bl); i++ {
		if bl[i] != bl[i-1]+1 {
			pc.fail("slot-order", fmt.Sprintf("slot %d is processed after slot %d", bl[i], bl[i-1]))
			return
		}
	}
}

func newProgCase(c *Ctx, id, name string, i int, aligned bool, crowd ...int) *progCase {
	r := chainRand(c, id, i)
	big := 0
	if len(crowd) > 0 {
		big = crowd[0]
	}
	ch, ref, why := progChain(r, aligned, big)
	if ch == nil {
		c.R.Count("no_chain", 1)
		_ = why
		return nil
	}
	pc := &progCase{c: c, id: id, name: name, r: r, ch: ch, ref: ref, ok: true, byKind: map[string]int{}}
	pc.dir = filepath.Join(c.Scratch, id+"-"+name)
	os.MkdirAll(pc.dir, 0755)
	pc.n = progNode(r, ch, ref)
	pc.n.KeepLog = false
	pc.n.Before = pc.before
	pc.n.Start()
	return pc
}

func (pc *progCase) close() {
	pc.mu.Lock()
	p := pc.cur
	pc.mu.Unlock()
	if p != nil {
		p.kill()
	}
	pc.n.Stop()
	os.RemoveAll(pc.dir)
}

// stop asks the program to stop and judges that it does
func (pc *progCase) stop(p *prog, sig syscall.Signal) bool {
	p.cmd.Process.Signal(sig)
	return pc.stopped(p, sig)
}

func (pc *progCase) stopped(p *prog, sig syscall.Signal) bool {
	select {
	case <-p.done:
	case <-time.After(60 * time.Second):
		p.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(time.Second)
		pc.fail("does-not-stop", fmt.Sprintf("the program does not stop within 60 s of %v", sig))
		p.kill()
		return false
	}
	return true
}

func exitCode(p *prog) (int, bool) { // code, killed by a signal
	if p.err == nil {
		return 0, false
	}
	if ee, ok := p.err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return -1, true
		}
		return ee.ExitCode(), false
	}
	return -2, false
}

// ---------------------------------------------------------------- C26

func init() {
	register(&Check{ID: "C26", Rule: "the real program in dry-run and updater mode, killed and asked to stop at requests chosen over its whole run and restarted on its folder: saved states, resumed slots, final state and checkpoints against an uninterrupted reference",
		Assumptions: []string{"the program's own pauses are shortened by a factor of 1500", "interruptions are aligned with requests to the nodes (those within a save are C14's)"},
		Run:         func(c *Ctx) { c.cases(c.N(64, 900), func(i int, name string) { c26case(c, i, name) }) },
		Timeout:     14 * time.Minute,
		MinEvals:    120, MinCounters: map[string]int64{"finished": 20, "killed": 30, "asked_to_stop": 30, "interrupted_at_checkpoint": 3}})
}

func c26case(c *Ctx, i int, name string) {
	aligned := i%4 == 1
	pc := newProgCase(c, "C26", name, i, aligned)
	if pc == nil {
		return
	}
	defer pc.close()
	r := pc.r
	pc.dry = i%3 != 0
	last := pc.ref.slots[len(pc.ref.slots)-1]
	// nodes that advance while the program runs
	if r.Intn(3) == 0 {
		pc.n.Finalized = pc.ref.slots[r.Intn(len(pc.ref.slots))]
		pc.n.Head = last
		var calls int64
		pc.onReq = func(q Req) {
			if q.Kind == "syncing" && atomic.AddInt64(&calls, 1)%3 == 0 {
				pc.n.mu.Lock()
				if pc.n.Finalized < last {
					pc.n.Finalized++
				}
				pc.n.mu.Unlock()
			}
		}
	}
	budget := 3 + r.Intn(7)
	if os.Getenv("VERIF_NOINT") != "" {
		budget = 0
	}
	for k := 0; pc.ok; k++ {
		var pl *interruption
		if k < budget {
			pl = &interruption{at: 1 + r.Intn(60+r.Intn(400)), sig: pick(r, syscall.SIGTERM, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGKILL, syscall.SIGINT)}
			if r.Intn(2) == 0 {
				pl.delay = time.Duration(r.Intn(60)) * time.Millisecond
			}
			switch {
			case aligned && r.Intn(3) > 0: // while the validators are reloaded
				pl.kind, pl.at, pl.delay = "state", 2, 40*time.Millisecond
			case !pc.dry && r.Intn(3) > 0: // around the submission
				pl.kind, pl.at = pick(r, "eth_sendRawTransaction", "eth_estimateGas", "eth_getTransactionReceipt", "eth_getTransactionCount", "net_version"), 1
			}
		}
		before := pc.judgeFile("before a start")
		if !pc.ok {
			return
		}
		restartHigh := false // an updater goes back to the checkpoint of the contract
		if s, has := pc.stateFile(); has && !pc.dry {
			for cp := range s.CommitedStates {
				if cp > pc.n.Con.Slot {
					restartHigh = true
				}
			}
		}
		p := pc.begin(pl)
		res := pc.await(p)
		pc.n.mu.Lock()
		fin := pc.n.Finalized
		pc.n.mu.Unlock()
		if res == "idle" && fin == last { // it may have got there since
			pc.mu.Lock()
			pc.headers = 0
			pc.mu.Unlock()
			res = pc.await(p)
		}
		pc.mu.Lock()
		fired := pc.fired
		why := ""
		if pl != nil {
			why = pl.reason
		}
		inLoop := pc.inLoop
		pc.mu.Unlock()
		c.R.Eval(1)
		switch {
		case fired:
			pc.trace = append(pc.trace, fmt.Sprintf("start %d: %v at %s", pc.starts, pl.sig, why))
			if pl.sig == syscall.SIGKILL {
				<-p.done
				c.R.Count("killed", 1)
			} else {
				if !pc.stopped(p, pl.sig) {
					return
				}
				c.R.Count("asked_to_stop", 1)
			}
			c.R.Seen(fmt.Sprint(pl.sig, pl.delay > 0, strings.SplitN(why, "@", 2)[0]))
			if aligned && strings.HasPrefix(why, "state") || strings.HasPrefix(why, "eth_send") || strings.HasPrefix(why, "eth_estimate") || strings.Contains(why, "VotedReport") || strings.Contains(why, "quorum") {
				c.R.Count("interrupted_at_checkpoint", 1)
			}
			code, sigd := exitCode(p)
			// a stop that races with the program's own fatal end cannot happen with healthy nodes;
			// one that arrives before the handler is installed ends the process
			if pl.sig != syscall.SIGKILL && code != 0 && !sigd && !p.portTaken() {
				pc.fail("exit-code", fmt.Sprintf("the program ends with code %d when asked to stop", code))
				return
			}
			pc.judgeTrace(before, !restartHigh)
			pc.judgeFile(fmt.Sprintf("after %v", pl.sig))
			continue
		case res == "exit" && p.portTaken():
			c.R.Count("port_taken", 1)
			continue
		case res == "exit":
			code, sigd := exitCode(p)
			pc.fail("ended", fmt.Sprintf("the program ends by itself (code %d, signal %v, in the loop: %v) although the nodes are healthy: %s", code, sigd, inLoop, lastLines(p.log(), 1)))
			return
		case res == "stalled":
			pc.fail("stalled", "the program makes no request for 60 s although there are slots to process")
			return
		case res == "slow":
			c.R.Inconc("a run took more than 150 s")
			return
		}
		pc.mu.Lock()
		nb := len(pc.blocks)
		pc.mu.Unlock()
		pc.judgeTrace(before, !restartHigh)
		if fin < last { // wait for the nodes
			if k >= budget {
				pc.n.mu.Lock()
				pc.n.Finalized = last
				pc.n.mu.Unlock()
			}
			p.kill()
			continue
		}
		pc.trace = append(pc.trace, fmt.Sprintf("start %d: idle after %d slots", pc.starts, nb))
		// the state served and the state saved
		code, body := p.get("/state")
		if !pc.stop(p, pick(r, syscall.SIGTERM, syscall.SIGINT)) {
			return
		}
		if code == 200 {
			if x := contentOf(parseState(body)); !bytes.Equal(x, pc.ref.bySlot[last]) {
				pc.fail("final-served", "the state served at the end is not the one of an uninterrupted run: "+firstDiff(x, pc.ref.bySlot[last]))
				return
			}
		} else if !p.portTaken() {
			pc.fail("state-endpoint", fmt.Sprintf("the state is not served at the end: %d %s", code, body))
			return
		}
		s, has := pc.stateFile()
		if !has {
			pc.fail("final-not-saved", "no state is saved at the end")
			return
		}
		if x := contentOf(s); !bytes.Equal(x, pc.ref.bySlot[last]) {
			missing := []string{}
			for _, cp := range pc.ref.ckpts {
				if s.CommitedStates[cp] == nil {
					missing = append(missing, fmt.Sprint(cp))
				}
			}
			k := "final-saved"
			if len(missing) > 0 {
				k = "checkpoint-lost"
			}
			pc.fail(k, fmt.Sprintf("the final state is not the one of an uninterrupted run (missing checkpoints: %s): %s", strings.Join(missing, ","), firstDiff(x, pc.ref.bySlot[last])))
			return
		}
		c.R.Count("finished", 1)
		if pc.dry && len(pc.n.Sent) > 0 {
			pc.fail("dry-run-sent", "a transaction was sent in dry-run mode")
		}
		if !pc.dry {
			for _, cp := range pc.ref.ckpts {
				if cp > pc.n.Con.Slot && len(pc.ref.ckpts) > 0 && consecutive(pc.ref, pc.ch.Cfg.Checkpoint, cp) {
					pc.fail("not-submitted", fmt.Sprintf("checkpoint %d was never consolidated, the contract is at %d", cp, pc.n.Con.Slot))
					return
				}
			}
		}
		if k < budget {
			continue // start it again on a finished chain
		}
		return
	}
}

// consecutive: all checkpoints from the first to cp had enough data
func consecutive(ref *progRef, size, cp uint64) bool {
	for s := ref.ckpts[0]; s <= cp; s += size {
		if ref.roots[s] == "" {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C23

func init() {
	register(&Check{ID: "C23", Rule: "the real program in updater mode against a fake contract with other members, reverting and rejected transactions, interruptions and a late quorum: every transaction judged when it arrives, progress judged at every block request; plus the submission function alone under faults",
		Assumptions: []string{"the program's own pauses are shortened by a factor of 1500", "a transaction is mined as soon as it is accepted", "after a wrong root was consolidated by others before the oracle looked, nothing is judged"},
		Run: func(c *Ctx) {
			c.cases(c.N(64, 900), func(i int, name string) {
				if i%8 == 7 {
					c23submit(c, i, name)
				} else {
					c23case(c, i, name)
				}
			})
		},
		Timeout:  14 * time.Minute,
		MinEvals: 250, MinCounters: map[string]int64{"transactions": 80, "consolidated": 80, "refused_starts": 4, "failed_transactions": 6, "submissions_alone": 50, "skipped_already_consolidated": 2}})
}

type txWatch struct {
	pc       *progCase
	lastRead uint64
	init     uint64
	perStart map[uint64]int
	fate     map[uint64]string // first transaction for the slot
	accepted map[uint64]int
	votedOwn map[uint64]bool
	forkAt   uint64 // others consolidate another root for this slot after our vote
	forked   bool
	bad      []string // key|what, judged in the main goroutine
	mu       sync.Mutex
}

func (w *txWatch) report(key, what string) {
	w.mu.Lock()
	w.bad = append(w.bad, key+"|"+what)
	w.mu.Unlock()
}

// judge is called by the fake node (locked) for every transaction
func (w *txWatch) tx(t *SentTx) string {
	pc, n := w.pc, w.pc.n
	pc.c.R.Eval(1)
	pc.c.R.Count("transactions", 1)
	pool := common.HexToAddress(pc.ch.Cfg.PoolAddress)
	size := pc.ch.Cfg.Checkpoint
	switch {
	case pc.dry:
		w.report("dry-run-sent", "a transaction is sent in dry-run mode")
	case t.From != addr(keyUpdater) || t.To == nil || *t.To != pool || t.Method != "submitReport":
		w.report("foreign-tx", fmt.Sprintf("a transaction %s from %s to %v", t.Method, t.From.Hex(), t.To))
		return "reject"
	case t.Value.Sign() != 0:
		w.report("value", "a report is sent with a value of "+t.Value.String())
	}
	if want := pc.ref.roots[t.Slot]; want != hexutil.Encode(t.Root[:]) {
		w.report("wrong-report", fmt.Sprintf("slot %d is reported with root %x, the checkpoint has %s", t.Slot, t.Root, want))
	}
	if t.Slot != w.lastRead+size {
		w.report("out-of-turn", fmt.Sprintf("slot %d is reported although the oracle read that the contract is at %d", t.Slot, w.lastRead))
	}
	w.perStart[t.Slot]++
	if w.perStart[t.Slot] > 1 {
		w.report("twice", fmt.Sprintf("slot %d is reported %d times by one run", t.Slot, w.perStart[t.Slot]))
	}
	if w.accepted[t.Slot] > 0 {
		w.report("twice", fmt.Sprintf("slot %d is reported again although the report was accepted", t.Slot))
	}
	if f := w.fate[t.Slot]; f != "" {
		delete(w.fate, t.Slot)
		pc.c.R.Count("failed_transactions", 1)
		return f
	}
	if n.Con.check(t.From, t.Slot) == "" {
		w.accepted[t.Slot]++
		w.votedOwn[t.Slot] = true
	}
	return ""
}

func c23case(c *Ctx, i int, name string) {
	pc := newProgCase(c, "C23", name, i, i%4 == 1)
	if pc == nil {
		return
	}
	defer pc.close()
	r, n, ref := pc.r, pc.n, pc.ref
	size := pc.ch.Cfg.Checkpoint
	pc.dry = i%8 == 2
	last := ref.slots[len(ref.slots)-1]
	others := r.Intn(4)
	for k := 0; k < others; k++ {
		n.Con.Members = append(n.Con.Members, addr(100+k))
	}
	n.Con.Quorum = uint64(1 + r.Intn(others+1))
	if pc.dry && n.Con.Quorum > uint64(others) {
		n.Con.Quorum = uint64(others)
	}
	if r.Intn(4) == 0 { // the contract was initialized later
		n.Con.Slot = ref.ckpts[r.Intn(len(ref.ckpts))] - size
	}
	w := &txWatch{pc: pc, init: n.Con.Slot, perStart: map[uint64]int{}, fate: map[uint64]string{}, accepted: map[uint64]int{}, votedOwn: map[uint64]bool{}}
	n.TxFate = w.tx
	due := map[uint64]bool{} // have to be consolidated one after the other
	var dues []uint64
	for s := w.init + size; ref.roots[s] != "" && s <= last; s += size {
		due[s] = true
		dues = append(dues, s)
	}
	for _, s := range dues {
		if r.Intn(5) == 0 {
			w.fate[s] = pick(r, "revert", "reject")
		}
	}
	early := r.Intn(3) == 0
	if len(dues) > 0 && others > 0 && n.Con.Quorum <= uint64(others) && i%4 == 3 {
		w.forkAt = dues[r.Intn(len(dues))]
		delete(w.fate, w.forkAt)
	}
	// the quorum comes very late for one of them, and the program starts again meanwhile
	var slowAt uint64
	slowPolls, slowFor, slowStart := 0, 0, 0
	var voted *interruption
	if i%16 == 4 || i%16 == 6 {
		if others == 0 {
			others = 1 + r.Intn(2)
			for k := 0; k < others; k++ {
				n.Con.Members = append(n.Con.Members, addr(100+k))
			}
		}
		if n.Con.Quorum < 2 {
			n.Con.Quorum = 2
		}
		if len(dues) > 0 {
			slowAt, slowFor = dues[r.Intn(len(dues))], pick(r, 60, 150, 150, 300)
			delete(w.fate, slowAt)
		}
	}
	rr := rand.New(rand.NewSource(int64(i) + c.Seed*1000))
	var hookMu sync.Mutex
	polls := 0
	pc.onReq = func(q Req) {
		hookMu.Lock()
		defer hookMu.Unlock()
		n.mu.Lock()
		defer n.mu.Unlock()
		next := n.Con.Slot + size
		pc.mu.Lock()
		var reached uint64
		if len(pc.blocks) > 0 {
			reached = pc.blocks[len(pc.blocks)-1]
		}
		inLoop := pc.inLoop
		pc.mu.Unlock()
		if q.Kind == "block" && inLoop && reached > 0 {
			// everything due before this slot is consolidated
			for _, s := range dues {
				if s < reached && n.Con.Slot < s && !pc.dry {
					w.report("moved-on", fmt.Sprintf("slot %d is processed although checkpoint %d is not consolidated (contract at %d)", reached, s, n.Con.Slot))
				}
			}
			if w.forked && reached > w.forkAt {
				w.report("moved-on", fmt.Sprintf("slot %d is processed although the contract consolidated another root than the reported one for %d", reached, w.forkAt))
			}
		}
		hold := false
		if slowAt == next {
			hold = !w.votedOwn[next] || pc.starts <= slowStart || slowPolls < slowFor
			if w.votedOwn[next] && slowStart == 0 {
				slowStart = pc.starts
				pc.mu.Lock()
				if voted != nil {
					voted.kind, voted.at = "", 1
				}
				pc.mu.Unlock()
			}
			if q.Kind == "eth_call" && strings.HasPrefix(q.Arg, "addressToVotedReport") && pc.starts > slowStart && slowStart > 0 {
				slowPolls++
				c.R.Max("polls_with_a_late_quorum", slowPolls)
			}
		}
		if due[next] && !w.forked && !hold && (early || reached >= next) {
			switch {
			case w.forkAt == next:
				if w.perStart[next] > 0 && w.votedOwn[next] && q.Kind == "eth_call" && rr.Intn(3) == 0 {
					for k := 0; k < others && n.Con.Slot < next; k++ {
						n.Con.Vote(addr(100+k), next, [32]byte{1, 2, 3})
					}
					w.forked = n.Con.Slot == next && n.Con.Root == [32]byte{1, 2, 3}
				}
			default:
				var root [32]byte
				copy(root[:], common.FromHex(ref.roots[next]))
				for k := 0; k < others && n.Con.Slot < next; k++ {
					if rr.Intn(12) != 0 {
						continue
					}
					if h, ok := n.Con.Voted[addr(100+k)]; ok && n.Con.Reports[h] != nil && n.Con.Reports[h].slot == next && n.Con.Reports[h].root == root {
						continue
					}
					if rr.Intn(4) == 0 && n.Con.Quorum > 1 {
						n.Con.Vote(addr(100+k), next, [32]byte{9, byte(k)}) // dissents for now
						continue
					}
					n.Con.Vote(addr(100+k), next, root)
				}
			}
		}
		if q.Kind == "eth_call" && strings.HasPrefix(q.Arg, "lastConsolidatedSlot") {
			w.lastRead = n.Con.Slot
			if w.forked {
				polls++
			}
		}
	}
	flush := func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		for _, b := range w.bad {
			kw := strings.SplitN(b, "|", 2)
			pc.fail(kw[0], kw[1])
		}
		w.bad = nil
		return pc.ok
	}

	// starts that have to be refused
	if !pc.dry {
		var restore func()
		key := ""
		var extra []string
		members := n.Con.Members
		switch i % 4 {
		case 0:
			n.Con.Members, key = members[1:], "not-whitelisted"
			restore = func() { n.Con.Members = members }
		case 1:
			f := n.BalanceAt
			n.BalanceAt = func(a common.Address, tag string) string {
				if a == addr(keyUpdater) {
					return "0"
				}
				return f(a, tag)
			}
			key, restore = "no-funds", func() { n.BalanceAt = f }
		case 2:
			extra, key, restore = []string{"-updater-keystore-pass", "other"}, "wrong-password", func() {}
		}
		if key != "" {
			hook := pc.onReq
			pc.onReq = nil
			p := pc.begin(nil, extra...)
			res := ""
			select {
			case <-p.done:
				res = "exit"
			case <-time.After(20 * time.Second):
			}
			code, sigd := exitCode(p)
			pc.mu.Lock()
			in := pc.inLoop
			pc.mu.Unlock()
			c.R.Eval(1)
			if res != "exit" || code == 0 || sigd || in || len(n.Sent) > 0 {
				pc.fail("started:"+key, "an updater starts although: "+key)
				return
			}
			c.R.Count("refused_starts", 1)
			c.R.Seen(key)
			n.mu.Lock()
			restore()
			n.mu.Unlock()
			pc.onReq = hook
		}
	}

	// before, it ran without updating: its state is ahead of the contract
	if !pc.dry && (i%8 == 0 || i%8 == 3 || i%16 == 5) {
		hook := pc.onReq
		pc.onReq, pc.dry = nil, true
		var pl *interruption
		if r.Intn(2) == 0 {
			pl = &interruption{kind: "block", at: 1 + r.Intn(len(ref.slots)), sig: pick(r, syscall.SIGTERM, syscall.SIGKILL)}
		}
		p := pc.begin(pl)
		switch res := pc.await(p); {
		case res == "idle":
			if !pc.stop(p, syscall.SIGTERM) {
				return
			}
		case res == "exit" && (pc.fired || p.portTaken()):
		case res == "slow":
			c.R.Inconc(name + ": the run ahead took more than 150 s")
			return
		default:
			pc.fail("dry-run-"+res, "a run in dry-run mode: "+res+": "+lastLines(p.log(), 1))
			return
		}
		n.settle()
		pc.trace = append(pc.trace, "a run in dry-run mode before")
		if s, ok := pc.stateFile(); ok {
			ahead := 0
			for _, x := range dues {
				if s.CommitedStates[x] != nil {
					ahead++
				}
			}
			c.R.Max("checkpoints_ahead_of_the_contract", ahead)
			if ahead > 1 {
				c.R.Count("started_ahead_of_the_contract", 1)
			}
		}
		if !pc.ok {
			return
		}
		pc.onReq, pc.dry = hook, false
	}

	budget := r.Intn(5)
	if slowAt != 0 && budget == 0 {
		budget = 1
	}
	for k := 0; k < budget+40; k++ {
		var pl *interruption
		n.mu.Lock()
		if k > 0 && slowStart == 0 {
			slowAt = 0 // it ended before that
		}
		n.mu.Unlock()
		if slowAt != 0 && slowStart == 0 && k == 0 {
			pl = &interruption{kind: "once voted", sig: pick(r, syscall.SIGTERM, syscall.SIGKILL)}
			voted = pl
		} else if k < budget {
			pl = &interruption{at: 1 + r.Intn(60+r.Intn(300)), sig: pick(r, syscall.SIGTERM, syscall.SIGKILL)}
			if r.Intn(3) > 0 {
				pl.kind, pl.at = pick(r, "eth_sendRawTransaction", "eth_estimateGas", "eth_getTransactionReceipt", "eth_getTransactionCount", "net_version", "eth_call"), 1+r.Intn(3)
			}
			if r.Intn(2) == 0 {
				pl.delay = time.Duration(r.Intn(60)) * time.Millisecond
			}
		}
		n.settle() // what the previous start asked for counts for that start
		n.mu.Lock()
		if w.votedOwn[w.forkAt] && n.Con.Slot < w.forkAt {
			w.forkAt = 0 // only judged when it comes while the program waits
		}
		w.perStart, w.forked, polls = map[uint64]int{}, false, 0
		n.mu.Unlock()
		sent := len(n.Sent)
		p := pc.begin(pl)
		res := ""
		t0 := time.Now()
		for res == "" {
			select {
			case <-p.done:
				res = "exit"
			case <-time.After(3 * time.Millisecond):
			}
			n.mu.Lock()
			fk := polls
			n.mu.Unlock()
			if !flush() {
				return
			}
			pc.mu.Lock()
			quiet := time.Since(pc.lastReq)
			fired := pc.fired
			pc.mu.Unlock()
			switch {
			case res != "":
			case pc.idle():
				res = "idle"
			case fk > 12:
				res = "forked"
			case fired && pl.sig != syscall.SIGKILL && time.Since(t0) > 70*time.Second:
				pc.fail("does-not-stop", "the program does not stop when asked to")
				return
			case quiet > 60*time.Second:
				res = "stalled"
			case time.Since(t0) > 150*time.Second:
				res = "slow"
			}
		}
		c.R.Eval(1)
		if !flush() {
			return
		}
		pc.mu.Lock()
		fired := pc.fired
		why := ""
		if pl != nil {
			why = pl.reason
		}
		pc.mu.Unlock()
		if fired {
			<-p.done
			pc.trace = append(pc.trace, fmt.Sprintf("start %d: %v at %s", pc.starts, pl.sig, why))
			c.R.Count("interrupted", 1)
			c.R.Seen(fmt.Sprint(pl.sig, strings.SplitN(why, "@", 2)[0]))
			continue
		}
		n.mu.Lock()
		var t *SentTx
		if len(n.Sent) > sent {
			t = n.Sent[len(n.Sent)-1]
		}
		at := n.Con.Slot
		n.mu.Unlock()
		switch res {
		case "exit":
			code, _ := exitCode(p)
			if p.portTaken() {
				c.R.Count("port_taken", 1)
				continue
			}
			if t != nil && t.Status != 1 && code != 0 { // reported as a failure
				pc.trace = append(pc.trace, fmt.Sprintf("start %d: ended after the transaction for %d was %s", pc.starts, t.Slot, t.Err))
				c.R.Count("failures_reported", 1)
				continue
			}
			pc.fail("ended", fmt.Sprintf("the program ends by itself with code %d: %s", code, lastLines(p.log(), 1)))
			return
		case "stalled":
			pc.fail("stalled", "the program makes no request for 60 s")
			return
		case "slow":
			c.R.Inconc(fmt.Sprintf("%s: a run took more than 150 s (contract at %d, fork %d %v, dues %v, quorum %d of %d, voted %v; %s)\n%s", name, at, w.forkAt, w.forked, dues, n.Con.Quorum, len(n.Con.Members), n.Con.Voted, strings.Join(pc.trace, "; "), p.tail(30)))
			return
		case "forked":
			c.R.Count("forks_waited", 1)
			return
		}
		// idle: all that was due is consolidated
		if !pc.dry {
			for _, s := range dues {
				if at < s {
					pc.fail("not-submitted", fmt.Sprintf("checkpoint %d is not consolidated at the end, the contract is at %d", s, at))
					return
				}
			}
		}
		n.mu.Lock()
		for _, h := range n.Con.History {
			if h.slot != w.forkAt && ref.roots[h.slot] != hexutil.Encode(h.root[:]) {
				pc.fail("wrong-root", fmt.Sprintf("slot %d was consolidated with root %x, want %s", h.slot, h.root, ref.roots[h.slot]))
			}
			if !pc.dry && w.accepted[h.slot] == 0 {
				c.R.Count("skipped_already_consolidated", 1)
			}
		}
		c.R.Count("consolidated", len(n.Con.History))
		c.R.Seen(fmt.Sprint(pc.dry, others, n.Con.Quorum, len(n.Con.History), early))
		n.mu.Unlock()
		if k < budget {
			p.kill()
			continue
		}
		return
	}
	c.R.Inconc("a case needed more than 40 starts")
}

// c23submit: the submission alone, with every request failing
func c23submit(c *Ctx, i int, name string) {
	r := chainRand(c, "C23s", i)
	p := apiProfile(r)
	p.Busy, p.Cleanups = 12, 0
	ch := GenChain(r, p)
	n := NewNode(ch)
	n.Con.Slot = ch.Cfg.DeployedSlot
	n.Start()
	defer n.Stop()
	cli := n.Cli()
	var on *oracle.Onchain
	var err error
	if o := guard(func() { on, err = oracle.NewOnchain(cli, key(keyUpdater).Priv) }); o.Bad() || err != nil || on == nil {
		c.R.Inconc(fmt.Sprint("cannot connect: ", o, err))
		return
	}
	submit := func(slot uint64, root string) (error, Outcome) {
		var err error
		o := guard(func() { err = on.UpdateContractMerkleRoot(slot, root) })
		c.R.Eval(1)
		c.R.Count("submissions_alone", 1)
		return err, o
	}
	fail := func(key, what string) { c.R.Violate(key, name, what, map[string]string{"chain": ch.Name}) }
	for k := 0; k < c.N(40, 300); k++ {
		var root [32]byte
		r.Read(root[:])
		if r.Intn(5) == 0 {
			root = [32]byte{31: byte(r.Intn(2))}
		}
		s := fmt.Sprintf("%x", root)
		if r.Intn(2) == 0 {
			s = "0x" + s
		}
		n.mu.Lock()
		n.Con.Reports, n.Con.Voted = map[common.Hash]*fakeReport{}, map[common.Address]common.Hash{}
		n.Con.Slot = pick(r, n.Con.Slot, uint64(r.Intn(1000)), uint64(r.Int63()))
		slot := n.Con.Slot + ch.Cfg.Checkpoint
		sent := len(n.Sent)
		n.Fault, n.TxFate, n.KeepLog, n.Log = nil, nil, true, nil
		n.mu.Unlock()
		mode := pick(r, "ok", "revert", "reject", "badroot", "notturn", "fault", "fault", "fault")
		var f *Fault
		switch mode {
		case "revert", "reject":
			n.TxFate = func(*SentTx) string { return mode }
		case "badroot":
			s = pick(r, "", "0x", s[:len(s)-1], s[:len(s)-2], s+"00", strings.Replace(s, s[len(s)-2:], "zz", 1), "0x"+strings.Repeat("g", 64))
		case "notturn":
			slot += pick(r, uint64(1), ch.Cfg.Checkpoint, ^uint64(0), ^ch.Cfg.Checkpoint+1)
		case "fault":
			kind := pick(r, "eth_getTransactionCount", "net_version", "eth_estimateGas", "eth_sendRawTransaction", "eth_getBlockByNumber", "eth_maxPriorityFeePerGas", "eth_getCode", "eth_chainId")
			fs := faultsFor(r, Req{Side: "el", Kind: kind})
			f = fs[r.Intn(len(fs))]
			n.mu.Lock()
			n.Fault = func(q Req) *Fault {
				if q.Kind == kind {
					return f
				}
				return nil
			}
			n.mu.Unlock()
			mode = "fault:" + kind + ":" + f.Name
		}
		err, o := submit(slot, s)
		n.mu.Lock()
		txs := append([]*SentTx{}, n.Sent[sent:]...)
		n.mu.Unlock()
		mined := 0
		for _, t := range txs {
			if t.mined && t.Status == 1 {
				mined++
			}
			if t.Method != "submitReport" || t.Slot != slot || t.Root != root || t.Value.Sign() != 0 || t.From != addr(keyUpdater) {
				fail("alone-other-tx", fmt.Sprintf("asked to report %d %s, sent %s %d %x value %s", slot, s, t.Method, t.Slot, t.Root, t.Value))
			}
		}
		c.R.Seen(fmt.Sprint(mode, err == nil, o.Bad(), len(txs)))
		if o.Panic != "" {
			fail("alone-crash", o.String())
			continue
		}
		failed := err != nil || o.Fatal != ""
		switch {
		case mode == "ok" && (failed || mined != 1):
			fail("alone-refused", fmt.Sprint("a good report is not accepted: ", err, o))
		case !failed && mined != 1:
			fail("alone-success:"+strings.SplitN(mode, ":", 2)[0], fmt.Sprintf("a report (%s) is given as successful although %d transactions were mined", mode, mined))
		case mode == "badroot" && len(txs) > 0:
			fail("alone-bad-root", "a report with the malformed root "+s+" is sent")
		case len(txs) > 1:
			fail("alone-many", fmt.Sprintf("%d transactions for one report", len(txs)))
		}
	}
}

var _ = sort.Strings
var _ types.TxData
