package main

// C10..C13, C16, C17, C25, C30: replicas, roots, checkpoints, persistence,
// refused blocks, configuration changes, reconciliation.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
)

func mustJSON(x interface{}) []byte {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return b
}

// contentOf is the canonical content of a state, without its embedded hash
func contentOf(s *oracle.OracleState) []byte {
	c := *s
	c.StateHash = ""
	return mustJSON(&c)
}

// sealed re-computes the embedded hash of a state document
func sealed(s *oracle.OracleState) []byte {
	c := *s
	c.StateHash = ""
	b, err := json.MarshalIndent(c, "", " ")
	if err != nil {
		panic(err)
	}
	h := sha256.Sum256(b)
	c.StateHash = "0x" + hex.EncodeToString(h[:])
	b, err = json.MarshalIndent(c, "", " ")
	if err != nil {
		panic(err)
	}
	return b
}

// sealOf is the hash of a state's content
func sealOf(s *oracle.OracleState) string {
	c := *s
	c.StateHash = ""
	b, err := json.MarshalIndent(c, "", " ")
	if err != nil {
		panic(err)
	}
	h := sha256.Sum256(b)
	return "0x" + hex.EncodeToString(h[:])
}

func parseState(b []byte) *oracle.OracleState {
	var s oracle.OracleState
	if err := json.Unmarshal(b, &s); err != nil {
		panic(err)
	}
	return &s
}

// needExec: the fetcher asks for header and receipts only when they matter
func (c *Chain) needExec(m *Model, b *BlockSpec) bool {
	pool := common.HexToAddress(c.Cfg.PoolAddress)
	if b.Missed {
		return false
	}
	return m.subscribed(b.Proposer) || b.FeeRec == pool || b.Slot%3 == 0 || c.facts(b).mevPool
}

// a step of the real oracle, guarded
func advance(or *oracle.Oracle, mk func() *oracle.FullBlock) (uint64, error, Outcome) {
	var s uint64
	var err error
	o := guard(func() { s, err = or.AdvanceStateToNextSlot(mk()) })
	return s, err, o
}

func stateDir(c *Ctx, name string) string {
	d := filepath.Join(c.Scratch, "data-"+name)
	oracle.StateFolder = d
	return d
}

func (c *Chain) interesting(b *BlockSpec, r *rand.Rand) bool {
	return !b.Missed || b.Slot%1200 == 0 || b.Slot%1200 == 1199 || r.Intn(60) == 0
}

func firstDiff(a, b []byte) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	i := 0
	for i < n && a[i] == b[i] {
		i++
	}
	cut := func(x []byte) string {
		lo, hi := i-60, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(x) {
			hi = len(x)
		}
		if lo > hi {
			return ""
		}
		return string(x[lo:hi])
	}
	return fmt.Sprintf("...%s... vs ...%s...", cut(a), cut(b))
}

// ---------------------------------------------------------------- C10

type replica struct {
	or    *oracle.Oracle
	cfg   *oracle.Config
	kind  string
	rr    *rand.Rand
	model *Model
}

func permutedSet(w *World, rr *rand.Rand) oracle.GetSetOfValidatorsFunc {
	return func(ids []phase0.ValidatorIndex, slot string, opts ...retry.Option) (map[phase0.ValidatorIndex]*v1.Validator, error) {
		ids = append([]phase0.ValidatorIndex{}, ids...)
		rr.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		return w.GetSet(ids, slot, opts...)
	}
}

func permutedPending(w *World, rr *rand.Rand) oracle.GetPendingConsolidationsFunc {
	return func(id string, opts ...retry.Option) (*oracle.PendingConsolidationsResponse, error) {
		p, err := w.GetPending(id, opts...)
		if err == nil {
			rr.Shuffle(len(p.Data), func(i, j int) { p.Data[i], p.Data[j] = p.Data[j], p.Data[i] })
		}
		return p, err
	}
}

// readAround serves the requests a replica may be asked for between two slots
func readAround(or *oracle.Oracle, rr *rand.Rand) {
	switch rr.Intn(8) {
	case 0:
		or.StateWithHash()
	case 1:
		mustJSON(or.State())
	case 2:
		or.GetUniqueWithdrawalAddresses()
	case 3:
		or.RunOffchainReconciliation()
	case 4:
		or.LatestCommitedState()
		or.LatestCommitedSlot()
	case 5:
		or.IsCheckpoint()
		or.IsOracleInSyncWithChain(oracle.DefaultRoot, 0)
	case 6:
		or.RunOnchainReconciliation(bi(5), map[string]*big.Int{"0x00": bi(1)})
	case 7:
		or.StateSnapshot()
	}
}

// addConsolChains lets consolidation targets exit and consolidate on, too
func addConsolChains(r *rand.Rand, ch *Chain) {
	w := ch.World
	var exec []uint64
	for _, i := range w.Indices() {
		if _, ok := w.Vals[i].Exec(); ok {
			exec = append(exec, i)
		}
	}
	if len(exec) < 4 {
		return
	}
	src := map[uint64]bool{}
	for _, c := range w.Consols {
		src[c.Source] = true
	}
	lo, hi := ch.Blocks[0].Slot, ch.Blocks[len(ch.Blocks)-1].Slot+1
	for k := 0; k < 3+r.Intn(4); k++ {
		s, t := exec[r.Intn(len(exec)-1)], exec[r.Intn(len(exec)-1)]
		if s == t || src[s] {
			continue
		}
		src[s] = true
		w.Consols = append(w.Consols, Consol{lo, hi, s, t})
		at := lo + uint64(r.Int63n(int64(hi-lo)))
		w.Vals[s].Timeline = append(w.Vals[s].Timeline, ValAt{at, v1.ValidatorStateExitedUnslashed, keepEB})
		sortTimeline(w.Vals[s])
	}
	// later states stay exited
	for i := range src {
		gone := false
		for k := range w.Vals[i].Timeline {
			t := &w.Vals[i].Timeline[k]
			if t.Status == v1.ValidatorStateExitedUnslashed {
				gone = true
			} else if gone && isActiveState(t.Status) {
				t.Status = v1.ValidatorStateExitedUnslashed
			}
		}
	}
}

func init() {
	register(&Check{ID: "C10", MinEvals: 1000, MinCounters: map[string]int64{"checkpoints_compared": 300, "cleanup_slots": 50, "restarts": 100, "compared_with_other_process": 200},
		Rule:        "distinct (transitions of the slot, number of members) among compared slots and checkpoints of all replicas",
		Assumptions: []string{"the beacon node's answers for a slot are a function of the slot, up to order"},
		Run: func(c *Ctx) {
			c.cases(c.N(150, 3000), func(i int, name string) { c10case(c, i, name) })
		}})

	register(&Check{ID: "C11", MinEvals: 500, MinCounters: map[string]int64{"proofs_verified": 5000, "negatives_tried": 5000, "nothing_to_publish": 5},
		Rule:        "distinct (number of leaves, position of zero amounts, size of the largest) of judged trees",
		Assumptions: []string{"Keccak-256 of go-ethereum is the on-chain hash"},
		Run: func(c *Ctx) {
			if c.Only == "withdrawal-is-pool" || c.Only == "withdrawal-is-poolfees" || (c.Only == "" && c.Shard == 0) {
				c11findings(c)
			}
			if c.Only == "" || strings.HasPrefix(c.Only, "case-") {
				c.cases(c.N(320, 6000), func(i int, name string) { c11case(c, i, name) })
			}
		}})

	register(&Check{ID: "C12", MinEvals: 1000, MinCounters: map[string]int64{"checkpoints_frozen": 500, "recomparisons": 5000},
		Rule: "distinct (transitions in the slot after which old checkpoints were compared again, operation performed)",
		Run: func(c *Ctx) {
			c.cases(c.N(280, 6000), func(i int, name string) { c12case(c, i, name) })
		}})

	register(&Check{ID: "C13", MinEvals: 500, MinCounters: map[string]int64{"loads_statejson": 50, "loads_slotfile": 50, "loads_endpoint": 50, "fee_boundary_crossed": 20},
		Rule: "distinct (way of loading, transitions of the slot before, members, checkpoints) of judged save/load pairs",
		Run: func(c *Ctx) {
			c.cases(c.N(280, 6000), func(i int, name string) { c13case(c, i, name) })
		}})

	register(&Check{ID: "C16", MinEvals: 1000, MinCounters: map[string]int64{"refusals_judged": 5000, "failed_cleanups": 10, "incomplete_judged": 100},
		Rule: "distinct (kind of wrong block, transitions of the right one) of judged refusals",
		Run: func(c *Ctx) {
			c.cases(c.N(320, 6000), func(i int, name string) { c16case(c, i, name) })
		}})

	register(&Check{ID: "C17", MinEvals: 1000, MinCounters: map[string]int64{"scheduled_changes_applied": 50, "refusals_judged": 2000, "loads_judged": 300},
		Rule: "distinct (kind of change event, slot relative to the schedule, network, verdict), and (age of the loaded state, age of the loader) relative to the schedule",
		Run: func(c *Ctx) {
			c.cases(c.N(280, 6000), func(i int, name string) { c17case(c, i, name) })
		}})

	register(&Check{ID: "C25", MinEvals: 1000, MinCounters: map[string]int64{"onchain_ok": 500, "onchain_refused": 3000, "offchain_refused": 3000, "address_lists": 500},
		Rule: "distinct (kind of perturbed entry, sign, members) of judged reconciliations",
		Run: func(c *Ctx) {
			c.cases(c.N(240, 5000), func(i int, name string) { c25case(c, i, name) })
		}})

	register(&Check{ID: "C30", MinEvals: 1000, MinCounters: map[string]int64{"due": 300, "not_due": 1000, "agreement_judged": 2000},
		Rule: "distinct (checkpoint length, distance to deployment, checkpoints frozen) and (relation of slot and root on both sides)",
		Run: func(c *Ctx) {
			c.cases(c.N(320, 6000), func(i int, name string) { c30case(c, i, name) })
		}})
}

func c10chain(r *rand.Rand, i int) *Chain {
	p := defProfile()
	p.Exits, p.Consol, p.Cleanups, p.Busy = 60, 70, 2, 70
	p.RSub, p.RDon, p.NVals = 70, 40, 8+r.Intn(10)
	p.NearFee = i%6 == 0
	if i%3 != 0 {
		p.Cleanups = 1
	}
	p.Crowd = -1
	if i%30 == 8 {
		p.Crowd = pick(r, 60, 130)
	}
	ch := GenChain(r, p)
	addConsolChains(r, ch)
	return ch
}

// what one oracle says after a slot
type c10rec struct{ Hash, Frozen string }

type c10job struct {
	Seed int64
	Case int
	From []byte // the state to start from, of the first replica
	Recs map[uint64]c10rec
}

func init() {
	// an oracle process of its own: it starts from a state saved by another one, and says where it differs first
	subs["c10replica"] = func(args []string) {
		var j c10job
		raw, err := os.ReadFile(args[0])
		if err == nil {
			err = json.Unmarshal(raw, &j)
		}
		if err != nil {
			fmt.Println("harness:", err)
			os.Exit(2)
		}
		ch := c10chain(chainRand(&Ctx{Seed: j.Seed}, "C10", j.Case), j.Case)
		rr := rand.New(rand.NewSource(int64(j.Case)))
		or, _ := ch.NewOracle()
		or.SetGetSetOfValidatorsFunc(permutedSet(ch.World, rr))
		or.GetPendingConsolidationsFunc(permutedPending(ch.World, rr))
		if ok, err := or.LoadFromBytes(j.From); !ok || err != nil {
			fmt.Printf("differs: it does not load the state: %v %v\n", ok, err)
			os.Exit(1)
		}
		m := NewModel(ch)
		n := 0
		for _, b := range ch.Blocks {
			need := ch.needExec(m, b)
			m.Step(ch, b)
			if b.Slot < or.State().NextSlotToProcess {
				continue
			}
			_, err, o := advance(or, func() *oracle.FullBlock { return ch.Full(b, need) })
			want, ok := j.Recs[b.Slot]
			if o.Bad() || err != nil {
				if ok {
					fmt.Printf("differs: it refuses slot %d: %v %v\n", b.Slot, err, o)
					os.Exit(1)
				}
				break
			}
			if !ok {
				continue
			}
			if want.Frozen != "" {
				got := "false"
				if or.FreezeCheckpoint() {
					got = string(mustJSON(or.LatestCommitedState()))
				}
				if got != want.Frozen {
					fmt.Printf("differs: it publishes another checkpoint at slot %d: %s\n", b.Slot, firstDiff([]byte(want.Frozen), []byte(got)))
					os.Exit(1)
				}
			}
			if want.Hash != "" {
				st, err := or.StateWithHash()
				if err != nil || st.StateHash != want.Hash {
					fmt.Printf("differs: its state is another one after slot %d (%v)\n", b.Slot, err)
					os.Exit(1)
				}
			}
			n++
		}
		fmt.Println("same", n)
	}
}

// elsewhere compares with an oracle in another process
func (c *Ctx) elsewhere(j *c10job, dir, name string) {
	f := filepath.Join(dir, "elsewhere.json")
	os.WriteFile(f, mustJSON(j), 0600)
	self, err := os.Executable()
	if err != nil {
		c.R.Inconc(err.Error())
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "-sub", "c10replica", f)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	last := lines[len(lines)-1]
	switch {
	case err == nil && strings.HasPrefix(last, "same "):
		n, _ := strconv.Atoi(last[5:])
		c.R.Count("compared_with_other_process", n)
	case strings.HasPrefix(last, "differs: "):
		c.R.Violate("other-process", name, "an oracle in another process, started from a state of the first one: "+last[9:], map[string]interface{}{"job": f})
	case crashInRepo(string(out)):
		c.R.Violate("other-process-crash", name, "an oracle in another process, started from a state of the first one, crashes: "+firstLine(crashLine(string(out))), nil)
	default:
		c.R.Inconc("replica in another process: " + last)
	}
}

func c10case(c *Ctx, i int, name string) {
	r := chainRand(c, "C10", i)
	ch := c10chain(r, i)
	dir := stateDir(c, name)
	defer os.RemoveAll(dir)
	var reps []*replica
	for k, kind := range []string{"plain", "busy-reader", "restarting"} {
		or, cfg := ch.NewOracle()
		rp := &replica{or: or, cfg: cfg, kind: kind, rr: rand.New(rand.NewSource(int64(i*10 + k)))}
		if k > 0 {
			or.SetGetSetOfValidatorsFunc(permutedSet(ch.World, rp.rr))
			or.GetPendingConsolidationsFunc(permutedPending(ch.World, rp.rr))
		}
		reps = append(reps, rp)
	}
	m := NewModel(ch)
	bad := func(key, what string, b *BlockSpec) {
		c.R.Violate(key, name, what, map[string]interface{}{"chain": ch.Name, "slot": b.Slot, "block": b.Note})
	}
	job := &c10job{Seed: c.Seed, Case: i, Recs: map[uint64]c10rec{}}
	leave := -1 // after which block another process takes over
	if i%4 == 0 {
		leave = reps[2].rr.Intn(len(ch.Blocks))
	}
	for bi, b := range ch.Blocks {
		need := ch.needExec(m, b)
		m.Step(ch, b)
		hashNow := ch.interesting(b, r)
		ckpt := (b.Slot-ch.Cfg.DeployedSlot)%ch.Cfg.Checkpoint == 0 && (hashNow || r.Intn(10) == 0)
		var hash0, froz0 string
		for k, rp := range reps {
			if rp.kind == "restarting" && ((hashNow && rp.rr.Intn(15) == 0) || rp.rr.Intn(500) == 0) {
				if err := rp.or.SaveToJson(false); err != nil {
					bad("save", "cannot save: "+err.Error(), b)
					return
				}
				or, cfg := ch.NewOracle()
				or.SetGetSetOfValidatorsFunc(permutedSet(ch.World, rp.rr))
				or.GetPendingConsolidationsFunc(permutedPending(ch.World, rp.rr))
				ok, err := or.LoadFromJson()
				if !ok || err != nil {
					bad("load", fmt.Sprintf("a restarted replica cannot load its own state: %v %v", ok, err), b)
					return
				}
				rp.or, rp.cfg = or, cfg
				c.R.Count("restarts", 1)
			}
			if rp.kind == "busy-reader" && rp.rr.Intn(3) == 0 {
				readAround(rp.or, rp.rr)
			}
			_, err, o := advance(rp.or, func() *oracle.FullBlock { return ch.Full(b, need) })
			if o.Bad() || err != nil {
				// processing problems belong to other properties, unless the replicas differ on it
				if k > 0 {
					bad("one-refuses", fmt.Sprintf("replica %s refuses slot %d that %s accepted: %v %v", rp.kind, b.Slot, reps[0].kind, err, o), b)
				} else {
					c.R.Count("chains_stopped_by_other_difference", 1)
				}
				return
			}
			frozen := ""
			if ckpt {
				var done bool
				if o := guard(func() { done = rp.or.FreezeCheckpoint() }); o.Bad() {
					c.R.Count("freeze_failed", 1)
					return
				}
				frozen = fmt.Sprint(done)
				if done {
					frozen = string(mustJSON(rp.or.LatestCommitedState()))
				}
			}
			if hashNow {
				st, err := rp.or.StateWithHash()
				if err != nil {
					bad("hash", err.Error(), b)
					return
				}
				if k == 0 {
					hash0 = st.StateHash
					if bi == leave || (leave >= 0 && job.From == nil && bi > leave) {
						job.From = mustJSON(st)
					}
				} else if st.StateHash != hash0 {
					bad("state-differs@"+strings.Join(tagList(m), "+"), fmt.Sprintf("replicas %s and %s differ after slot %d: %s", reps[0].kind, rp.kind, b.Slot, firstDiff(contentOf(reps[0].or.State()), contentOf(rp.or.State()))), b)
					return
				}
			}
			if k == 0 {
				froz0 = frozen
			} else if frozen != froz0 {
				bad("checkpoint-differs", fmt.Sprintf("replicas %s and %s publish different checkpoints at slot %d: %s", reps[0].kind, rp.kind, b.Slot, firstDiff([]byte(froz0), []byte(frozen))), b)
				return
			}
		}
		if job.From != nil && (hash0 != "" || froz0 != "") {
			job.Recs[b.Slot] = c10rec{hash0, froz0}
		}
		c.R.Eval(1)
		if ckpt {
			c.R.Count("checkpoints_compared", 1)
		}
		if b.Slot%1200 == 0 {
			c.R.Count("cleanup_slots", 1)
		}
		if hashNow && len(m.trans) > 0 {
			c.R.Seen(fmt.Sprint(strings.Join(m.trans, ","), len(m.vals), ckpt))
			c.R.Sample(map[string]interface{}{"chain": ch.Name, "slot": b.Slot, "hash": hash0, "transitions": m.trans})
		}
	}
	if len(job.Recs) > 1 {
		c.elsewhere(job, dir, name)
	}
}

// ---------------------------------------------------------------- C11

func hexBytes(s string) ([]byte, error) { return hex.DecodeString(strings.TrimPrefix(s, "0x")) }

// refRoot: odd levels repeat their last node, pairs are sorted
func refRoot(leaves [][]byte) []byte {
	l := append([][]byte{}, leaves...)
	for len(l) > 1 {
		if len(l)%2 == 1 {
			l = append(l, l[len(l)-1])
		}
		var n [][]byte
		for i := 0; i < len(l); i += 2 {
			n = append(n, nodeHash(l[i], l[i+1]))
		}
		l = n
	}
	return l[0]
}

// judgeTree compares one published checkpoint with the expected leaves
func judgeTree(c *Ctx, r *rand.Rand, st *oracle.OnchainState, leaves []MLeaf) []string {
	var out []string
	root, err := hexBytes(st.MerkleRoot)
	if err != nil || len(root) != 32 {
		return []string{"root is not 32 bytes of hex: " + st.MerkleRoot}
	}
	var hs [][]byte
	for _, l := range leaves {
		hs = append(hs, leafHash(l))
	}
	if want := refRoot(hs); !bytes.Equal(want, root) {
		out = append(out, fmt.Sprintf("root %s, want 0x%x for the %d leaves of this state", st.MerkleRoot, want, len(leaves)))
	}
	if len(st.Leafs) != len(leaves) || len(st.Proofs) != len(leaves) {
		out = append(out, fmt.Sprintf("%d leaves and %d proofs stored, want %d", len(st.Leafs), len(st.Proofs), len(leaves)))
	}
	known := map[common.Address]*big.Int{}
	for _, l := range leaves {
		known[l.Addr] = l.Amount
	}
	var allProofs [][][]byte
	for _, l := range leaves {
		a := strings.ToLower(l.Addr.Hex())
		raw, ok := st.Leafs[a]
		if !ok {
			out = append(out, "no leaf for "+a)
			continue
		}
		if raw.WithdrawalAddress != a || raw.AccumulatedBalanceWei == nil || raw.AccumulatedBalanceWei.Cmp(l.Amount) != 0 {
			out = append(out, fmt.Sprintf("leaf of %s is %s %s, want %s", a, raw.WithdrawalAddress, bstr(raw.AccumulatedBalanceWei), l.Amount))
		}
		var pr [][]byte
		for _, s := range st.Proofs[a] {
			b, err := hexBytes(s)
			if err != nil || len(b) != 32 || !strings.HasPrefix(s, "0x") {
				out = append(out, "proof element is not a 32 byte hash: "+s)
			}
			pr = append(pr, b)
		}
		allProofs = append(allProofs, pr)
		if !verifyProof(leafHash(l), pr, root) {
			out = append(out, fmt.Sprintf("the proof of %s for %s does not verify", a, l.Amount))
		}
		c.R.Count("proofs_verified", 1)
		// nothing else verifies with it
		for k := 0; k < 4; k++ {
			o := MLeaf{l.Addr, bclone(l.Amount)}
			switch k {
			case 0:
				o.Amount.Add(o.Amount, bi(1))
			case 1:
				if o.Amount.Sign() == 0 {
					continue
				}
				o.Amount.Sub(o.Amount, bi(1))
			case 2:
				o.Addr = leaves[r.Intn(len(leaves))].Addr
				if o.Addr == l.Addr {
					continue
				}
			case 3:
				o.Addr[r.Intn(20)] ^= byte(1 << r.Intn(8))
			}
			c.R.Count("negatives_tried", 1)
			if verifyProof(leafHash(o), pr, root) {
				out = append(out, fmt.Sprintf("the proof of %s for %s also verifies for %s %s", a, l.Amount, o.Addr.Hex(), o.Amount))
			}
		}
	}
	return out
}

// manyChain: n validators with distinct or shared withdrawal addresses
func manyAddresses(r *rand.Rand, ch *Chain, n int) {
	idx := ch.World.Indices()
	base := idx[len(idx)-1] + 10
	for k := 0; k < n; k++ {
		i := base + uint64(k)
		u := keyUser0 + 100 + r.Intn(n)
		ch.World.Vals[i] = &WVal{Index: i, Pub: mkPub(i), Creds: mkCreds(pick(r, "01", "02"), addr(u), i), Timeline: []ValAt{{0, v1.ValidatorStateActiveOngoing, 32e9}}}
	}
}

func c11case(c *Ctx, i int, name string) {
	r := chainRand(c, "C11", i)
	p := defProfile()
	p.PMev, p.PVan, p.PWrong, p.PMissed = 35, 35, 3, 10
	p.RSub, p.Cleanups, p.Busy = 60, 0, 60
	p.NVals = pick(r, 1, 2, 3, 5, 9, 17, 33)
	if i%8 == 0 {
		p.Cleanups, p.Exits, p.Consol = 1, 50, 60
	}
	p.NoBad = i%2 == 0
	ch := GenChain(r, p)
	judge := func(or *oracle.Oracle, leaves []MLeaf, b *BlockSpec, what string) bool {
		before := contentOf(or.State())
		nBefore := len(or.State().CommitedStates)
		var done bool
		o := guard(func() { done = or.FreezeCheckpoint() })
		c.R.Eval(1)
		var errs []string
		if o.Bad() {
			errs = append(errs, "FreezeCheckpoint: "+o.String())
		} else if len(leaves) < 2 {
			c.R.Count("nothing_to_publish", 1)
			if done || len(or.State().CommitedStates) != nBefore || !bytes.Equal(before, contentOf(or.State())) {
				errs = append(errs, fmt.Sprintf("published a checkpoint of %d leaves", len(leaves)))
			}
		} else if !done {
			errs = append(errs, fmt.Sprintf("published nothing although there are %d leaves", len(leaves)))
		} else {
			st := or.State().CommitedStates[b.Slot]
			if st == nil || st.Slot != b.Slot {
				errs = append(errs, "the checkpoint is not stored under its slot")
			} else {
				errs = append(errs, judgeTree(c, r, st, leaves)...)
			}
			zeros, maxLen := "", 0
			for _, l := range leaves {
				zeros += map[bool]string{true: "0", false: "1"}[l.Amount.Sign() == 0]
				if l.Amount.BitLen() > maxLen {
					maxLen = l.Amount.BitLen()
				}
			}
			c.R.Seen(fmt.Sprint(len(leaves), zeros, maxLen/16))
			c.R.Max("leaves", len(leaves))
			c.R.Sample(map[string]interface{}{"chain": ch.Name, "slot": b.Slot, "leaves": len(leaves), "root": st.MerkleRoot})
		}
		if len(errs) > 0 {
			c.R.Violate("tree:"+keepLetters(firstWords(errs[0], 3)), name, errs[0], map[string]interface{}{"chain": ch.Name, "slot": b.Slot, "what": what, "problems": errs})
			return false
		}
		return true
	}
	every := 1 + r.Intn(6)
	n := 0
	ch.Drive(true, func(s *StepInfo) bool {
		if len(s.Diffs) > 0 {
			c.R.Count("chains_stopped_by_other_difference", 1)
			return true
		}
		if s.B.Missed && s.B.Slot%1200 != 0 {
			return true
		}
		n++
		if n%every != 0 {
			return true
		}
		return judge(s.Or, s.M.leaves(), s.B, "chain")
	})
	// synthetic sizes: load a state with many validators and mixed case addresses
	if i%2 == 0 {
		or, cfg := ch.NewOracle()
		m := NewModel(ch)
		k := pick(r, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 33, 64, 65, 100+r.Intn(60))
		st := parseState(mustJSON(or.State()))
		st.PoolAccumulatedFees = randAmount(r, false)
		m.fees = bclone(st.PoolAccumulatedFees)
		users := 1 + r.Intn(k+2)
		for j := 0; j < k; j++ {
			a := addr(keyUser0 + 100 + r.Intn(users)).Hex()
			switch r.Intn(3) {
			case 0:
				a = strings.ToLower(a)
			case 1:
				a = "0x" + strings.ToUpper(a[2:])
			}
			amt := randAmount(r, false)
			if r.Intn(6) == 0 {
				amt = new(big.Int).Lsh(bi(int64(1+r.Intn(1000))), uint(100+r.Intn(100)))
			}
			ix := randIndex(r)
			if m.vals[ix] != nil {
				continue
			}
			st.Validators[ix] = &oracle.ValidatorInfo{ValidatorStatus: oracle.ValidatorStatus(1 + r.Intn(5)), AccumulatedRewardsWei: amt, PendingRewardsWei: randAmount(r, false), CollateralWei: big0(), WithdrawalAddress: a, ValidatorIndex: ix, ValidatorKey: "0x00"}
			m.vals[ix] = &MVal{Acc: amt, Addr: strings.ToLower(a), Pend: big0(), Coll: big0()}
		}
		st.LatestProcessedSlot, st.NextSlotToProcess = ch.Blocks[0].Slot, ch.Blocks[0].Slot+1
		// the fee in force at that slot
		st.PoolFeesPercentOver10000 = feeInForce(ch.Cfg, st.LatestProcessedSlot)
		ok, err := or.LoadFromBytes(sealed(st))
		if !ok || err != nil {
			c.R.Inconc(fmt.Sprintf("%s: synthetic state refused: %v", name, err))
			return
		}
		_ = cfg
		judge(or, m.leaves(), ch.Blocks[0], "synthetic")
	}
}

func firstWords(s string, n int) string {
	f := strings.Fields(s)
	if len(f) > n {
		f = f[:n]
	}
	return strings.Join(f, " ")
}

// feeInForce at a slot, from the published schedule
func feeInForce(cfg ChainCfg, slot uint64) int {
	best, fee := uint64(0), cfg.Fee
	for s, f := range rules[cfg.Net].fees {
		if s <= slot && s >= best {
			best, fee = s, f
		}
	}
	return fee
}

// two validators, one of which withdraws to an address of the pool itself
func c11findings(c *Ctx) {
	for _, which := range []string{"withdrawal-is-pool", "withdrawal-is-poolfees"} {
		if c.Only != "" && c.Only != which {
			continue
		}
		ch := dustChain()
		a := addr(keyPool)
		if which == "withdrawal-is-poolfees" {
			a = addr(keyPoolFees)
		}
		ch.World.Vals[2].Creds = mkCreds("01", a, 2)
		ch.Blocks[0].Events[0].Addr = a
		or, _ := ch.NewOracle()
		if _, err, o := advance(or, func() *oracle.FullBlock { return ch.Full(ch.Blocks[0], true) }); err != nil || o.Bad() {
			c.R.Violate(which+"-refused", which, fmt.Sprint(err, o), nil)
			continue
		}
		or.State().Validators[2].AccumulatedRewardsWei.SetInt64(77)
		or.State().PoolAccumulatedFees.SetInt64(55)
		c.R.Count("own_address_cases", 1)
		var done bool
		o := guard(func() { done = or.FreezeCheckpoint() })
		if o.Bad() {
			c.R.Violate(which, which, "freezing a checkpoint halts: "+o.String(), nil)
			continue
		}
		if !done {
			c.R.Violate(which+"-nothing", which, "nothing published", nil)
			continue
		}
		st := or.LatestCommitedState()
		leaf := st.Leafs[strings.ToLower(a.Hex())]
		want := bi(77)
		if which == "withdrawal-is-poolfees" {
			want = bi(132)
		}
		if leaf.AccumulatedBalanceWei == nil || leaf.AccumulatedBalanceWei.Cmp(want) != 0 {
			c.R.Violate(which, which, fmt.Sprintf("the leaf of %s holds %s, its claimable balance is %s", a.Hex(), bstr(leaf.AccumulatedBalanceWei), want), nil)
		}
	}
}

// ---------------------------------------------------------------- C12

func validatorsJSON(v map[uint64]*oracle.ValidatorInfo) []byte { return mustJSON(v) }

func c12case(c *Ctx, i int, name string) {
	r := chainRand(c, "C12", i)
	p := defProfile()
	p.Busy, p.Cleanups = 60, 0
	p.PMev, p.PVan = 35, 30
	p.RSub, p.RBan, p.RUnban, p.RUnsub = 60, 20, 20, 30
	if i%6 == 0 {
		p.Cleanups, p.Exits, p.Consol = 1, 60, 60
	}
	p.NearFee = i%7 == 0
	most := 14
	if i%9 == 5 { // many checkpoints
		p.Busy, most = 140+r.Intn(60), 100
		p.NVals, p.Crowd = 3+r.Intn(8), -1
	}
	ch := GenChain(r, p)
	or, cfg := ch.NewOracle()
	dir := stateDir(c, name)
	defer os.RemoveAll(dir)
	m := NewModel(ch)
	type froz struct {
		slot uint64
		json []byte
	}
	var frozen []froz
	fail := func(key, what string, b *BlockSpec) {
		c.R.Violate(key, name, what, map[string]interface{}{"chain": ch.Name, "slot": b.Slot, "transitions": m.trans})
	}
	for _, b := range ch.Blocks {
		need := ch.needExec(m, b)
		m.Step(ch, b)
		if _, err, o := advance(or, func() *oracle.FullBlock { return ch.Full(b, need) }); err != nil || o.Bad() {
			c.R.Count("chains_stopped_by_other_difference", 1)
			return
		}
		if b.Missed && b.Slot%1200 != 0 && r.Intn(30) != 0 {
			continue
		}
		c.R.Eval(1)
		op := "advance"
		// an operation in between
		switch r.Intn(9) {
		case 0:
			op = "save"
			if o := guard(func() { or.SaveToJson(r.Intn(2) == 0) }); o.Bad() {
				fail("save", o.String(), b)
				return
			}
		case 1:
			op = "load"
			or.SaveToJson(false)
			n, cf := ch.NewOracle()
			if ok, err := n.LoadFromJson(); !ok || err != nil {
				c.R.Count("load_failed", 1)
				return
			}
			or, cfg = n, cf
		case 2:
			op = "read"
			for k := 0; k < 3; k++ {
				readAround(or, r)
			}
		case 3:
			op = "reload-in-place"
			or.SaveToJson(false)
			if ok, err := or.LoadFromJson(); !ok || err != nil {
				c.R.Count("load_failed", 1)
				return
			}
		}
		_ = cfg
		for k, f := range frozen {
			got := or.State().CommitedStates[f.slot]
			if got != nil && len(frozen) > 14 && k > 0 && r.Intn(len(frozen)) > 6 {
				continue
			}
			c.R.Count("recomparisons", 1)
			if got == nil {
				fail("checkpoint-lost", fmt.Sprintf("the checkpoint of slot %d vanished after %s", f.slot, op), b)
				return
			}
			if g := mustJSON(got); !bytes.Equal(g, f.json) {
				fail("checkpoint-changed:"+op, fmt.Sprintf("the checkpoint of slot %d changed after %s at slot %d: %s", f.slot, op, b.Slot, firstDiff(f.json, g)), b)
				return
			}
		}
		if len(or.State().CommitedStates) != len(frozen) {
			fail("checkpoint-appeared", fmt.Sprintf("%d checkpoints, %d were frozen", len(or.State().CommitedStates), len(frozen)), b)
			return
		}
		c.R.Seen(fmt.Sprint(op, strings.Join(m.trans, ","), len(frozen) > 0))
		if len(frozen) < most && (r.Intn(3) == 0 || most > 14 && r.Intn(3) == 0) {
			st := or.State()
			vals := validatorsJSON(st.Validators)
			rest := *st
			rest.CommitedStates = nil
			rest.StateHash = ""
			before := mustJSON(&rest)
			var done bool
			if o := guard(func() { done = or.FreezeCheckpoint() }); o.Bad() {
				fail("freeze-crash", o.String(), b)
				return
			}
			rest2 := *or.State()
			rest2.CommitedStates = nil
			rest2.StateHash = ""
			if after := mustJSON(&rest2); !bytes.Equal(before, after) {
				fail("freeze-changed-state", "freezing changed the state: "+firstDiff(before, after), b)
				return
			}
			if done {
				got := or.State().CommitedStates[b.Slot]
				if got == nil {
					fail("not-stored", "the frozen checkpoint is not stored under its slot", b)
					return
				}
				if !bytes.Equal(validatorsJSON(got.Validators), vals) {
					fail("not-a-mirror", "the checkpoint does not mirror the validators: "+firstDiff(vals, validatorsJSON(got.Validators)), b)
					return
				}
				frozen = append(frozen, froz{b.Slot, mustJSON(got)})
				c.R.Count("checkpoints_frozen", 1)
				c.R.Max("checkpoints_in_one_state", len(frozen))
				c.R.Sample(map[string]interface{}{"chain": ch.Name, "slot": b.Slot, "validators": len(got.Validators), "root": got.MerkleRoot})
			}
		}
	}
}

// ---------------------------------------------------------------- C13

func c13case(c *Ctx, i int, name string) {
	r := chainRand(c, "C13", i)
	p := defProfile()
	p.Busy = 40 + r.Intn(40)
	p.NearFee = i%2 == 0
	p.Cleanups = 0
	if i%8 == 1 {
		p.Cleanups, p.Exits, p.Consol = 1, 60, 60
	}
	if i%2 == 0 {
		p.Net = pick(r, "mainnet", "hoodi")
	}
	ch := GenChain(r, p)
	dir := stateDir(c, name)
	defer os.RemoveAll(dir)
	fail := func(key, what string, d interface{}) { c.R.Violate(key, name, what, d) }

	// where to stop: around the fee change and anywhere
	stops := map[int]bool{}
	nb := len(ch.Blocks)
	for k := 0; k < 3; k++ {
		stops[r.Intn(nb)] = true
	}
	feeAt := -1
	for k, b := range ch.Blocks {
		if _, ok := rules[ch.Cfg.Net].fees[b.Slot]; ok {
			feeAt = k
			stops[k] = true
			if k > 0 {
				stops[k-1] = true
			}
			if k+1 < nb {
				stops[k+1] = true
			}
		}
	}
	type track struct {
		or   *oracle.Oracle
		from uint64
		how  string
	}
	or, _ := ch.NewOracle()
	tracks := []*track{{or, 0, "uninterrupted"}}
	m := NewModel(ch)
	frozen := 0
	for k, b := range ch.Blocks {
		need := ch.needExec(m, b)
		m.Step(ch, b)
		for ti, t := range tracks {
			_, err, o := advance(t.or, func() *oracle.FullBlock { return ch.Full(b, need) })
			if err != nil || o.Bad() {
				if ti == 0 {
					c.R.Count("chains_stopped_by_other_difference", 1)
				} else {
					fail("continue-refused:"+t.how, fmt.Sprintf("loaded at slot %d (%s), the oracle refuses slot %d: %v %v", t.from, t.how, b.Slot, err, o), nil)
				}
				return
			}
		}
		ck := (b.Slot-ch.Cfg.DeployedSlot)%ch.Cfg.Checkpoint == 0 && frozen < 20
		if ck {
			if !tracks[0].or.FreezeCheckpoint() {
				ck = false
			} else {
				frozen++
				for _, t := range tracks[1:] {
					t.or.FreezeCheckpoint()
				}
			}
		}
		check := !b.Missed || stops[k] || k == nb-1 || ck
		if check && len(tracks) > 1 {
			s0, err0 := tracks[0].or.StateWithHash()
			for _, t := range tracks[1:] {
				s, err := t.or.StateWithHash()
				if err != nil || err0 != nil {
					fail("hash-error", fmt.Sprint(err, err0), nil)
					return
				}
				if s.StateHash != s0.StateHash {
					fail("diverged:"+t.how, fmt.Sprintf("an oracle loaded at slot %d (%s) differs from the uninterrupted one after slot %d: %s", t.from, t.how, b.Slot, firstDiff(contentOf(s0), contentOf(s))), nil)
					return
				}
				c.R.Count("continued_slots_compared", 1)
				if feeAt >= 0 && k >= feeAt && t.from < ch.Blocks[feeAt].Slot {
					c.R.Count("fee_boundary_crossed", 1)
				}
			}
		}
		if !stops[k] || len(tracks) > 6 {
			continue
		}
		src := tracks[r.Intn(len(tracks))].or
		before := contentOf(src.State())
		ho, err := src.StateWithHash()
		if err != nil {
			fail("hash-error", err.Error(), nil)
			return
		}
		for _, how := range []string{"statejson", "slotfile", "endpoint"} {
			n, cfg := ch.NewOracle()
			var ok bool
			var err error
			var raw []byte
			o := guard(func() {
				switch how {
				case "statejson":
					if err = src.SaveToJson(r.Intn(2) == 0); err != nil {
						return
					}
					ok, err = n.LoadFromJson()
					raw, _ = os.ReadFile(filepath.Join(dir, oracle.StateJsonName))
				case "slotfile":
					if err = src.SaveToJson(true); err != nil {
						return
					}
					ok, err = n.LoadGivenState(b.Slot)
					raw, _ = os.ReadFile(filepath.Join(dir, fmt.Sprintf("state_%d.json", b.Slot)))
				case "endpoint":
					var st *oracle.OracleState
					if st, err = src.StateWithHash(); err != nil {
						return
					}
					raw = mustJSON(st)
					ok, err = n.LoadFromBytes(raw)
				}
			})
			c.R.Eval(1)
			c.R.Count("loads_"+how, 1)
			d := map[string]interface{}{"chain": ch.Name, "slot": b.Slot, "way": how}
			if o.Bad() || err != nil || !ok {
				fail("load:"+how, fmt.Sprintf("the state saved at slot %d cannot be loaded (%s): ok=%v err=%v %v", b.Slot, how, ok, err, o), d)
				return
			}
			if !bytes.Equal(before, contentOf(src.State())) {
				fail("save-changed-state", "saving changed the state: "+firstDiff(before, contentOf(src.State())), d)
				return
			}
			if g := contentOf(n.State()); !bytes.Equal(before, g) {
				fail("roundtrip:"+how, "the loaded state differs: "+firstDiff(before, g), d)
				return
			}
			stored := parseState(raw)
			if stored.StateHash != ho.StateHash {
				fail("stored-hash:"+how, fmt.Sprintf("the stored hash is %s, the saving oracle reports %s", stored.StateHash, ho.StateHash), d)
				return
			}
			if resealed := parseState(sealed(stored)).StateHash; resealed != stored.StateHash {
				fail("hash-not-of-content:"+how, "the stored hash is not the hash of the stored content", d)
				return
			}
			nh, err := n.StateWithHash()
			if err != nil || nh.StateHash != ho.StateHash {
				fail("reloaded-hash:"+how, fmt.Sprintf("after loading the hash is %v, was %s", nh, ho.StateHash), d)
				return
			}
			if want := feeInForce(ch.Cfg, b.Slot); cfg.PoolFeesPercentOver10000 != want {
				fail("fee-after-load:"+how, fmt.Sprintf("after loading at slot %d the fee is %d, %d is in force", b.Slot, cfg.PoolFeesPercentOver10000, want), d)
				return
			}
			c.R.Seen(fmt.Sprint(how, strings.Join(m.trans, ","), len(m.vals), frozen > 0))
			c.R.Sample(d)
			if r.Intn(2) == 0 || how == "statejson" {
				tracks = append(tracks, &track{n, b.Slot, how})
			}
		}
	}
}

// ---------------------------------------------------------------- C16

func cloneBlock(b *BlockSpec) *BlockSpec {
	n := *b
	n.Txs = append([]TxSpec{}, b.Txs...)
	n.Events = append([]EvSpec{}, b.Events...)
	if b.BaseFee != nil {
		n.BaseFee = bclone(b.BaseFee)
	}
	return &n
}

// asBlock makes a real block out of a missed slot
func (c *Chain) asBlock(b *BlockSpec, number uint64) *BlockSpec {
	n := cloneBlock(b)
	if n.Missed {
		n.Missed = false
		n.Fork, n.BaseFee, n.Number = "deneb", bi(7), number
		n.FeeRec = addr(keyBuilder0)
	}
	return n
}

func (n *BlockSpec) addEv(e EvSpec, pool common.Address) {
	to := pool
	n.Txs = append([]TxSpec{{Kind: 2, From: keyGov, To: &to, Value: big0(), Data: []byte{1, 2, 3, 4}, GasUsed: 40000, FeeCap: bclone(n.BaseFee), TipCap: big0()}}, n.Txs...)
	for i := range n.Events {
		n.Events[i].Tx++
	}
	e.Tx = 0
	n.Events = append(n.Events, e)
}

type wrongBlock struct {
	kind string
	b    *BlockSpec
	// split: the duty and the block are of different slots
	mk func() *oracle.FullBlock
}

// wrongBlocks: blocks the oracle must refuse in front of block b
func wrongBlocks(r *rand.Rand, c *Chain, m *Model, b *BlockSpec, prev *BlockSpec, next *BlockSpec) []wrongBlock {
	var out []wrongBlock
	num := m.lastBlock + 1
	pool := common.HexToAddress(c.Cfg.PoolAddress)
	shift := func(kind string, d int64) {
		n := cloneBlock(b)
		n.Slot = uint64(int64(n.Slot) + d)
		// a block of another slot must not be one whose own content is refused
		out = append(out, wrongBlock{kind: kind, b: n})
	}
	shift("future", 1)
	shift("far-future", int64(2+r.Intn(100000)))
	shift("past", -1)
	shift("far-past", -int64(2+r.Intn(1000)))
	if prev != nil {
		out = append(out, wrongBlock{kind: "repeat", b: prev})
	}
	if next != nil {
		out = append(out, wrongBlock{kind: "skip", b: next})
	}
	ev := func(kind string, es ...EvSpec) {
		n := c.asBlock(b, num)
		for _, e := range es {
			n.addEv(e, pool)
		}
		if m.configVerdict(n) == "" {
			return // nothing wrong with it
		}
		out = append(out, wrongBlock{kind: kind, b: n})
	}
	fee := EvSpec{Kind: "fee", Amount: bi(int64(r.Intn(10001)))}
	ev("fee-unscheduled", fee)
	ev("fee-same", EvSpec{Kind: "fee", Amount: bi(int64(m.feePct))})
	ev("fee-500", EvSpec{Kind: "fee", Amount: bi(500)})
	ev("fee-wrapped", EvSpec{Kind: "fee", Amount: new(big.Int).Add(new(big.Int).Lsh(bi(1), 64), bi(int64(m.feePct)))})
	ev("recipient", EvSpec{Kind: "recipient", Addr: addr(keyUser0)})
	ev("ckpt", EvSpec{Kind: "ckpt", ID: m.cfg.Checkpoint + 1})
	ev("ckpt-zero", EvSpec{Kind: "ckpt", ID: 0})
	ev("coll", EvSpec{Kind: "coll", Amount: new(big.Int).Add(m.cfg.Collateral, bi(1))})
	ev("coll-huge", EvSpec{Kind: "coll", Amount: new(big.Int).Add(m.cfg.Collateral, new(big.Int).Lsh(bi(1), 64))})
	ok := []EvSpec{{Kind: "recipient", Addr: common.HexToAddress(m.cfg.PoolFees)}, {Kind: "ckpt", ID: m.cfg.Checkpoint}, {Kind: "coll", Amount: bclone(m.cfg.Collateral)}}
	k := r.Intn(3)
	ev("twice-"+ok[k].Kind, ok[k], ok[k])
	if f, sched := rules[m.cfg.Net].fees[b.Slot]; sched {
		good := EvSpec{Kind: "fee", Amount: bi(int64(f))}
		had := false
		for _, e := range b.Events {
			had = had || e.Kind == "fee"
		}
		var g []EvSpec
		if !had {
			g = []EvSpec{good}
		}
		ev("goodfee-badrecipient", append(g, EvSpec{Kind: "recipient", Addr: addr(keyUser0)})...)
		ev("goodfee-badckpt", append(g, EvSpec{Kind: "ckpt", ID: 5 + m.cfg.Checkpoint})...)
		ev("goodfee-badcoll", append(g, EvSpec{Kind: "coll", Amount: new(big.Int).Add(m.cfg.Collateral, bi(9))})...)
		ev("goodfee-twice", append(g, good)...)
		if !had {
			ev("fee-plus1", EvSpec{Kind: "fee", Amount: bi(int64(f + 1))})
			ev("fee-minus1", EvSpec{Kind: "fee", Amount: bi(int64(f - 1))})
		}
	}
	// a block whose duty is of the right slot and whose content is of another one
	if !b.Missed {
		n := cloneBlock(b)
		n.Slot++
		out = append(out, wrongBlock{kind: "duty-mismatch", b: n, mk: func() *oracle.FullBlock {
			o := c.build(n)
			o.Duty.Slot = phase0.Slot(b.Slot)
			return c.fullFrom(o, true)
		}})
	}
	return out
}

// incompleteBlocks: the right block, with part of the data it needs missing or of something else
func incompleteBlocks(r *rand.Rand, c *Chain, b *BlockSpec) []wrongBlock {
	var out []wrongBlock
	if b.Missed {
		return nil
	}
	o := c.build(b)
	add := func(kind string, f func(*oracle.FullBlock)) {
		out = append(out, wrongBlock{kind: kind, b: b, mk: func() *oracle.FullBlock {
			fb := c.Full(b, true)
			f(fb)
			return fb
		}})
	}
	if b.FeeRec == common.HexToAddress(c.Cfg.PoolAddress) && !c.facts(b).mev && len(b.Txs) > 0 {
		out = append(out, wrongBlock{kind: "without-receipts", b: b, mk: func() *oracle.FullBlock { return c.Full(b, false) }})
		n := len(o.Receipts)
		add("receipts-short", func(fb *oracle.FullBlock) { fb.SetHeaderAndReceipts(o.Header, o.Receipts[:n-1]) })
		if n > 1 {
			k := r.Intn(n - 1)
			rc := append([]*types.Receipt{}, o.Receipts...)
			rc[k], rc[k+1] = rc[k+1], rc[k]
			add("receipts-of-others", func(fb *oracle.FullBlock) { fb.SetHeaderAndReceipts(o.Header, rc) })
		}
	}
	someone := func(not uint64) *v1.Validator {
		for i := range c.World.Vals {
			if v := c.World.At(i, b.Slot); v != nil && i != not {
				return v
			}
		}
		return nil
	}
	full := c.Full(b, false)
	if vs := full.ValidatorsSubs; len(vs) > 0 {
		k := r.Intn(len(vs))
		add("subs-short", func(fb *oracle.FullBlock) {
			fb.ValidatorsSubs = append(append([]*v1.Validator{}, fb.ValidatorsSubs[:k]...), fb.ValidatorsSubs[k+1:]...)
		})
		if vs[k] != nil {
			if w := someone(uint64(vs[k].Index)); w != nil {
				add("subs-of-others", func(fb *oracle.FullBlock) { fb.ValidatorsSubs[k] = w })
			}
		}
	}
	if vs := full.ValidatorsUnsubs; len(vs) > 0 {
		k := r.Intn(len(vs))
		add("unsubs-short", func(fb *oracle.FullBlock) {
			fb.ValidatorsUnsubs = append(append([]*v1.Validator{}, fb.ValidatorsUnsubs[:k]...), fb.ValidatorsUnsubs[k+1:]...)
		})
		if vs[k] != nil {
			if w := someone(uint64(vs[k].Index)); w != nil {
				add("unsubs-of-others", func(fb *oracle.FullBlock) { fb.ValidatorsUnsubs[k] = w })
			}
		}
	}
	return out
}

// c16incomplete gives them to a copy of the oracle, which may end
func c16incomplete(c *Ctx, r *rand.Rand, name string, ch *Chain, or *oracle.Oracle, b *BlockSpec) bool {
	ws := incompleteBlocks(r, ch, b)
	if len(ws) == 0 {
		return true
	}
	raw := mustJSON(sealedCopy(or))
	for _, w := range ws {
		or2, _ := ch.NewOracle()
		if ok, err := or2.LoadFromBytes(raw); !ok || err != nil {
			c.R.Count("copies_that_do_not_load", 1)
			return true
		}
		before := mustJSON(or2.State())
		s, err, o := advance(or2, w.mk)
		c.R.Eval(1)
		c.R.Count("incomplete_judged", 1)
		c.R.Seen("incomplete" + w.kind + b.Note)
		d := map[string]interface{}{"chain": ch.Name, "slot_due": b.Slot, "wrong": w.kind, "error": fmt.Sprint(err), "outcome": o.String()}
		if err == nil && !o.Bad() {
			c.R.Violate("accepted:"+w.kind, name, fmt.Sprintf("slot %d was processed although data it needs is missing or of something else (%s)", s, w.kind), d)
			return false
		}
		if o.Panic != "" {
			c.R.Violate("panic:"+w.kind, name, "panic on a block with missing data: "+o.Panic, d)
			return false
		}
		if o.Fatal == "" { // an error: it can be tried again
			if after := mustJSON(or2.State()); !bytes.Equal(before, after) {
				c.R.Violate("changed-by:"+w.kind, name, fmt.Sprintf("a refused block (%s) changed the state: %s", w.kind, firstDiff(before, after)), d)
				return false
			}
		}
	}
	return true
}

func c16case(c *Ctx, i int, name string) {
	r := chainRand(c, "C16", i)
	p := defProfile()
	p.Busy, p.Cleanups = 40+r.Intn(30), 0
	p.NearFee = i%3 == 0
	p.RConf = 10
	if i%3 == 0 {
		p.Net = pick(r, "mainnet", "hoodi")
	}
	swept := i%8 == 5
	if swept { // beacon nodes that fail at the cleanup
		p.Busy, p.Cleanups, p.Exits, p.Consol = 60, 2+r.Intn(2), 60, 60
	}
	ch := GenChain(r, p)
	or, cfg := ch.NewOracle()
	m := NewModel(ch)
	fail := func(key, what string, d interface{}) { c.R.Violate(key, name, what, d) }
	for k, b := range ch.Blocks {
		var prev, next *BlockSpec
		if k > 0 {
			prev = ch.Blocks[k-1]
		}
		if k+1 < len(ch.Blocks) {
			next = ch.Blocks[k+1]
		}
		need := ch.needExec(m, b)
		if k > 0 && r.Intn(3) == 0 && !c16incomplete(c, r, name, ch, or, b) {
			return
		}
		before := mustJSON(or.State())
		cbefore := mustJSON(cfg)
		wb := wrongBlocks(r, ch, m, b, prev, next)
		r.Shuffle(len(wb), func(i, j int) { wb[i], wb[j] = wb[j], wb[i] })
		_, feeSlot := rules[ch.Cfg.Net].fees[b.Slot]
		nTry := 4
		if feeSlot || k < 3 {
			nTry = len(wb)
		}
		for _, w := range wb {
			if nTry--; nTry < 0 || swept && b.Slot%1200 != 0 && r.Intn(40) != 0 {
				break
			}
			mk := w.mk
			if mk == nil {
				w := w
				mk = func() *oracle.FullBlock { return ch.Full(w.b, true) }
			}
			s, err, o := advance(or, mk)
			c.R.Eval(1)
			c.R.Count("refusals_judged", 1)
			c.R.Seen(w.kind + fmt.Sprint(feeSlot, b.Note, len(m.vals) > 0))
			d := map[string]interface{}{"chain": ch.Name, "slot_due": b.Slot, "wrong": w.kind, "error": fmt.Sprint(err), "outcome": o.String()}
			c.R.Sample(d)
			if err == nil && !o.Bad() {
				fail("accepted:"+w.kind, fmt.Sprintf("a wrong block (%s) was accepted as slot %d instead of %d", w.kind, s, b.Slot), d)
				return
			}
			if o.Panic != "" {
				fail("panic:"+w.kind, "panic on a wrong block: "+o.Panic, d)
				return
			}
			after := mustJSON(or.State())
			if !bytes.Equal(before, after) {
				fail("changed-by:"+w.kind, fmt.Sprintf("a refused block (%s) changed the state: %s", w.kind, firstDiff(before, after)), d)
				return
			}
			if ca := mustJSON(cfg); !bytes.Equal(cbefore, ca) {
				fail("config-changed-by:"+w.kind, fmt.Sprintf("a refused block (%s) changed the configuration: %s", w.kind, firstDiff(cbefore, ca)), d)
				return
			}
		}
		var s uint64
		var err error
		var o Outcome
		processed := false
		for call := 1; swept && b.Slot%1200 == 0 && call < 6 && !processed; call++ {
			calls, failed := 0, false
			ch.World.Fail = func(string) error {
				if calls++; calls == call {
					failed = true
					return errBroken
				}
				return nil
			}
			s, err, o = advance(or, func() *oracle.FullBlock { return ch.Full(b, need) })
			ch.World.Fail = nil
			if !failed {
				processed = true
				break
			}
			c.R.Eval(1)
			c.R.Count("failed_cleanups", 1)
			c.R.Seen(fmt.Sprint("cleanup", call, b.Note))
			d := map[string]interface{}{"chain": ch.Name, "slot": b.Slot, "call": call, "error": fmt.Sprint(err), "outcome": o.String()}
			if o.Fatal != "" { // the program ends
				return
			}
			if err == nil || o.Panic != "" {
				fail("cleanup-failure-ignored", fmt.Sprintf("the beacon node fails at the cleanup of slot %d: %v %v", b.Slot, err, o), d)
				return
			}
			if after := mustJSON(or.State()); !bytes.Equal(before, after) {
				fail("changed-by:failed-cleanup", "a slot that cannot be processed because the beacon node fails at the cleanup changed the state: "+firstDiff(before, after), d)
				return
			}
			if ca := mustJSON(cfg); !bytes.Equal(cbefore, ca) {
				fail("config-changed-by:failed-cleanup", "a failed cleanup changed the configuration: "+firstDiff(cbefore, ca), d)
				return
			}
		}
		m.Step(ch, b)
		if !processed {
			s, err, o = advance(or, func() *oracle.FullBlock { return ch.Full(b, need) })
		}
		c.R.Eval(1)
		if err != nil || o.Bad() || s != b.Slot {
			fail("right-block-refused", fmt.Sprintf("the right block of slot %d was not processed after refused ones: slot %d %v %v", b.Slot, s, err, o), map[string]interface{}{"chain": ch.Name})
			return
		}
		st := or.State()
		if st.LatestProcessedSlot != b.Slot || st.NextSlotToProcess != b.Slot+1 || st.LatestProcessedBlock != m.lastBlock {
			fail("bookkeeping", fmt.Sprintf("after slot %d block %d: latest slot %d, latest block %d, next %d", b.Slot, m.lastBlock, st.LatestProcessedSlot, st.LatestProcessedBlock, st.NextSlotToProcess), nil)
			return
		}
		if ds := compareState(st, m); len(ds) > 0 {
			// without the refused blocks this chain matches the reference: whose fault is it?
			if plainMatches(ch, k) {
				fail("later-effect", "refused blocks had an effect on slot "+fmt.Sprint(b.Slot)+": "+ds[0].String(), map[string]interface{}{"chain": ch.Name, "differences": diffStrings(ds)})
			} else {
				c.R.Count("chains_stopped_by_other_difference", 1)
			}
			return
		}
	}
}

// plainMatches: does the chain, without interference, match the reference up to block k?
func plainMatches(ch *Chain, k int) bool {
	ok := true
	sub := *ch
	sub.Blocks = ch.Blocks[:k+1]
	sub.Drive(true, func(s *StepInfo) bool {
		if len(s.Diffs) > 0 {
			ok = false
		}
		return ok
	})
	return ok
}

// ---------------------------------------------------------------- C17

func c17case(c *Ctx, i int, name string) {
	r := chainRand(c, "C17", i)
	p := defProfile()
	p.Busy, p.Cleanups = 24+r.Intn(20), 0
	p.PMev, p.PVan, p.RDon, p.RSub = 30, 25, 60, 60
	p.RConf = 25
	p.Net = pick(r, "mainnet", "hoodi")
	p.NearFee = i%5 != 0
	if i%5 == 0 {
		p.Net = ""
	}
	ch := GenChain(r, p)
	or, cfg := ch.NewOracle()
	m := NewModel(ch)
	pool := common.HexToAddress(ch.Cfg.PoolAddress)
	fail := func(key, what string, d interface{}) { c.R.Violate(key, name, what, d) }
	rel := func(slot uint64) string {
		for s := range rules[ch.Cfg.Net].fees {
			switch {
			case slot == s:
				return "at"
			case slot+1 == s:
				return "just-before"
			case slot == s+1:
				return "just-after"
			case slot < s:
				return "before"
			}
			return "after"
		}
		return "none"
	}
	type doc struct {
		slot uint64
		raw  []byte
		fee  int
	}
	var docs []doc
	for _, b := range ch.Blocks {
		need := ch.needExec(m, b)
		// candidates for this slot
		var cands []EvSpec
		for _, v := range []*big.Int{bi(0), bi(1), bi(499), bi(500), bi(501), bi(700), bi(1000), bi(10000), bi(int64(m.feePct)), bi(int64(ch.Cfg.Fee)), bi(int64(r.Intn(10001))),
			new(big.Int).Add(new(big.Int).Lsh(bi(1), 64), bi(500)), new(big.Int).Lsh(bi(1), 255), new(big.Int).Add(new(big.Int).Lsh(bi(1), 32), bi(500))} {
			cands = append(cands, EvSpec{Kind: "fee", Amount: v})
		}
		cands = append(cands, EvSpec{Kind: "recipient", Addr: addr(keyUser0)}, EvSpec{Kind: "recipient", Addr: common.Address{}}, EvSpec{Kind: "recipient", Addr: common.HexToAddress(ch.Cfg.PoolFees)},
			EvSpec{Kind: "ckpt", ID: ch.Cfg.Checkpoint}, EvSpec{Kind: "ckpt", ID: ch.Cfg.Checkpoint + 1}, EvSpec{Kind: "ckpt", ID: 0}, EvSpec{Kind: "ckpt", ID: ^uint64(0)},
			EvSpec{Kind: "coll", Amount: bclone(ch.Cfg.Collateral)}, EvSpec{Kind: "coll", Amount: new(big.Int).Add(ch.Cfg.Collateral, bi(1))}, EvSpec{Kind: "coll", Amount: big0()},
			EvSpec{Kind: "coll", Amount: new(big.Int).Add(ch.Cfg.Collateral, new(big.Int).Lsh(bi(1), 64))})
		r.Shuffle(len(cands), func(i, j int) { cands[i], cands[j] = cands[j], cands[i] })
		nTry := 3
		if x := rel(b.Slot); x == "at" || strings.HasPrefix(x, "just") {
			nTry = len(cands)
		}
		for _, e := range cands[:nTry] {
			n := ch.asBlock(b, m.lastBlock+1)
			n.addEv(e, pool)
			why := m.configVerdict(n)
			if why == "" {
				if !b.Missed {
					continue // accepted: judged by the right block below
				}
				// a change that is due is judged on a copy
				cp, ccfg := ch.NewOracle()
				if ok, err := cp.LoadFromBytes(sealed(or.State())); !ok || err != nil {
					fail("copy", fmt.Sprint("cannot copy the oracle: ", err), nil)
					return
				}
				_, err, o := advance(cp, func() *oracle.FullBlock { return ch.Full(n, true) })
				c.R.Eval(1)
				c.R.Seen(fmt.Sprint("accept ", e.Kind, rel(b.Slot), ch.Cfg.Net))
				want := m.feePct
				if e.Kind == "fee" {
					want = int(e.Amount.Int64())
				}
				if err != nil || o.Bad() || ccfg.PoolFeesPercentOver10000 != want || cp.State().PoolFeesPercentOver10000 != want {
					fail("due-change:"+e.Kind, fmt.Sprintf("%s change to %s at slot %d (%s) should be accepted: %v %v, fee is %d", e.Kind, evStr(e), b.Slot, rel(b.Slot), err, o, ccfg.PoolFeesPercentOver10000), nil)
					return
				}
				continue
			}
			before, cb := mustJSON(or.State()), mustJSON(cfg)
			_, err, o := advance(or, func() *oracle.FullBlock { return ch.Full(n, true) })
			c.R.Eval(1)
			c.R.Count("refusals_judged", 1)
			c.R.Seen(fmt.Sprint("refuse ", e.Kind, rel(b.Slot), ch.Cfg.Net, why))
			d := map[string]interface{}{"chain": ch.Name, "slot": b.Slot, "event": evStr(e), "relative": rel(b.Slot)}
			if err == nil && !o.Bad() {
				fail("accepted:"+e.Kind+"@"+rel(b.Slot), fmt.Sprintf("%s change to %s at slot %d (%s the schedule) was accepted", e.Kind, evStr(e), b.Slot, rel(b.Slot)), d)
				return
			}
			if !bytes.Equal(before, mustJSON(or.State())) || !bytes.Equal(cb, mustJSON(cfg)) {
				fail("changed:"+e.Kind, "a refused change had an effect", d)
				return
			}
		}
		m.Step(ch, b)
		_, err, o := advance(or, func() *oracle.FullBlock { return ch.Full(b, need) })
		c.R.Eval(1)
		if err != nil || o.Bad() {
			fail("refused@"+rel(b.Slot), fmt.Sprintf("slot %d (%s the schedule) with only due changes is refused: %v %v", b.Slot, rel(b.Slot), err, o), nil)
			return
		}
		if m.tags["feechange"] {
			c.R.Count("scheduled_changes_applied", 1)
		}
		if cfg.PoolFeesPercentOver10000 != m.feePct || or.State().PoolFeesPercentOver10000 != m.feePct {
			fail("fee-in-force@"+rel(b.Slot), fmt.Sprintf("after slot %d (%s the schedule) the fee is %d/%d, want %d", b.Slot, rel(b.Slot), cfg.PoolFeesPercentOver10000, or.State().PoolFeesPercentOver10000, m.feePct), nil)
			return
		}
		if ds := compareState(or.State(), m); len(ds) > 0 {
			if m.tags["share"] || hasField(ds, "feepct", "fees") {
				fail("split@"+rel(b.Slot), fmt.Sprintf("slot %d (%s the schedule): %s", b.Slot, rel(b.Slot), ds[0]), map[string]interface{}{"chain": ch.Name, "differences": diffStrings(ds), "fee": m.feePct})
			} else {
				c.R.Count("chains_stopped_by_other_difference", 1)
			}
			return
		}
		if x := rel(b.Slot); x == "at" || strings.HasPrefix(x, "just") || r.Intn(8) == 0 {
			docs = append(docs, doc{b.Slot, sealed(or.State()), m.feePct})
		}
	}
	// loading: any state of the schedule, into a fresh, an older and a newer oracle
	mkLoader := func(at int) (*oracle.Oracle, *oracle.Config, string) {
		n, cf := ch.NewOracle()
		if at >= 0 {
			if ok, err := n.LoadFromBytes(docs[at].raw); !ok || err != nil {
				return nil, nil, fmt.Sprint(err)
			}
			return n, cf, rel(docs[at].slot)
		}
		return n, cf, "fresh"
	}
	for k := 0; k < 12 && len(docs) > 0; k++ {
		di := r.Intn(len(docs))
		n, cf, age := mkLoader(r.Intn(len(docs)+1) - 1)
		if n == nil {
			fail("load-refused", age, nil)
			return
		}
		d := docs[di]
		c.R.Eval(1)
		c.R.Count("loads_judged", 1)
		c.R.Seen(fmt.Sprint("load ", rel(d.slot), " into ", age))
		// the wrong fee for its slot must be refused
		st := parseState(d.raw)
		wrongFee := pick(r, st.PoolFeesPercentOver10000+1, ch.Cfg.Fee, 500, 700, 1000)
		if wrongFee != d.fee {
			bad := parseState(d.raw)
			bad.PoolFeesPercentOver10000 = wrongFee
			b4, cb4 := mustJSON(n.State()), mustJSON(cf)
			var ok bool
			var err error
			o := guard(func() { ok, err = n.LoadFromBytes(sealed(bad)) })
			if ok || err == nil || o.Bad() {
				fail("load-wrong-fee", fmt.Sprintf("a state of slot %d (%s) with fee %d instead of %d was loaded into a %s oracle: %v %v %v", d.slot, rel(d.slot), wrongFee, d.fee, age, ok, err, o), nil)
				return
			}
			if !bytes.Equal(b4, mustJSON(n.State())) || !bytes.Equal(cb4, mustJSON(cf)) {
				fail("load-wrong-fee-effect", "a refused state changed state or configuration", nil)
				return
			}
		}
		ok, err := n.LoadFromBytes(d.raw)
		if !ok || err != nil {
			fail("load-refused", fmt.Sprintf("a state of slot %d (%s the schedule) with the fee %d in force is refused by a %s oracle: %v", d.slot, rel(d.slot), d.fee, age, err), nil)
			return
		}
		if cf.PoolFeesPercentOver10000 != d.fee || n.State().PoolFeesPercentOver10000 != d.fee {
			fail("fee-after-load", fmt.Sprintf("after loading slot %d (%s) into a %s oracle the fee is %d/%d, want %d", d.slot, rel(d.slot), age, cf.PoolFeesPercentOver10000, n.State().PoolFeesPercentOver10000, d.fee), nil)
			return
		}
		// and it goes on with it
		mm := NewModel(ch)
		for _, b := range ch.Blocks {
			need := ch.needExec(mm, b)
			mm.Step(ch, b)
			if b.Slot <= d.slot {
				continue
			}
			if b.Slot > d.slot+6 {
				break
			}
			_, err, o := advance(n, func() *oracle.FullBlock { return ch.Full(b, need) })
			if err != nil || o.Bad() {
				fail("continue-refused", fmt.Sprintf("loaded at slot %d (%s) into a %s oracle, slot %d is refused: %v %v", d.slot, rel(d.slot), age, b.Slot, err, o), nil)
				return
			}
			if ds := compareState(n.State(), mm); len(ds) > 0 || cf.PoolFeesPercentOver10000 != mm.feePct {
				fail("continue-differs", fmt.Sprintf("loaded at slot %d (%s) into a %s oracle, slot %d: fee %d, %v", d.slot, rel(d.slot), age, b.Slot, cf.PoolFeesPercentOver10000, diffStrings(ds)), nil)
				return
			}
		}
	}
}

func evStr(e EvSpec) string {
	switch e.Kind {
	case "recipient":
		return e.Addr.Hex()
	case "ckpt":
		return fmt.Sprint(e.ID)
	}
	return bstr(e.Amount)
}

// ---------------------------------------------------------------- C25

func c25case(c *Ctx, i int, name string) {
	r := chainRand(c, "C25", i)
	p := defProfile()
	p.Busy, p.Cleanups = 50, 0
	p.PVan, p.RDon, p.RSub = 30, 60, 60
	ch := GenChain(r, p)
	or, _ := ch.NewOracle()
	m := NewModel(ch)
	// some validators withdraw to the pool's fee address
	special := i%4 == 0
	if special {
		for _, ix := range ch.World.Indices()[:2] {
			if _, ok := ch.World.Vals[ix].Exec(); ok {
				ch.World.Vals[ix].Creds = mkCreds("01", addr(keyPoolFees), ix)
			}
		}
	}
	fail := func(key, what string, b *BlockSpec) {
		c.R.Violate(key, name, what, map[string]interface{}{"chain": ch.Name, "slot": b.Slot})
	}
	for _, b := range ch.Blocks {
		need := ch.needExec(m, b)
		m.Step(ch, b)
		if _, err, o := advance(or, func() *oracle.FullBlock { return ch.Full(b, need) }); err != nil || o.Bad() {
			c.R.Count("chains_stopped_by_other_difference", 1)
			return
		}
		if r.Intn(3) != 0 {
			continue
		}
		st := or.State()
		owed := bclone(st.PoolAccumulatedFees)
		want := map[common.Address]bool{common.HexToAddress(ch.Cfg.PoolFees): true}
		for _, v := range st.Validators {
			owed.Add(owed, v.AccumulatedRewardsWei)
			owed.Add(owed, v.PendingRewardsWei)
			want[common.HexToAddress(v.WithdrawalAddress)] = true
		}
		// address list
		got := map[common.Address]int{}
		var list []string
		if o := guard(func() { list = or.GetUniqueWithdrawalAddresses() }); o.Bad() {
			fail("list-crash", o.String(), b)
			return
		}
		for _, a := range list {
			got[common.HexToAddress(a)]++
		}
		c.R.Eval(1)
		c.R.Count("address_lists", 1)
		for a := range want {
			if got[a] != 1 {
				fail("address-list", fmt.Sprintf("%s appears %d times in the list of addresses whose claims are summed", a.Hex(), got[a]), b)
				return
			}
		}
		if len(got) != len(want) {
			fail("address-list", fmt.Sprintf("%d addresses in the list, want %d", len(got), len(want)), b)
			return
		}
		// on-chain: claims up to the claimable amounts
		claimed := map[string]*big.Int{}
		tot := big0()
		var cl []string
		for _, a := range list {
			x := big0()
			if r.Intn(2) == 0 {
				x = new(big.Int).Rand(r, new(big.Int).Add(owed, bi(1)))
				x.Quo(x, bi(int64(len(list))))
			}
			claimed[a] = x
			tot.Add(tot, x)
			cl = append(cl, a)
		}
		sort.Strings(cl)
		bal := new(big.Int).Sub(owed, tot)
		run := func() (error, Outcome) {
			var err error
			o := guard(func() { err = or.RunOnchainReconciliation(bal, claimed) })
			return err, o
		}
		off := func() (error, Outcome) {
			var err error
			o := guard(func() { err = or.RunOffchainReconciliation() })
			return err, o
		}
		if err, o := run(); err != nil || o.Bad() {
			fail("onchain-false-alarm", fmt.Sprintf("balanced books refused: %v %v", err, o), b)
			return
		}
		c.R.Count("onchain_ok", 1)
		if err, o := off(); err != nil || o.Bad() {
			if owed.Cmp(m.income) == 0 {
				fail("offchain-false-alarm", fmt.Sprintf("balanced books refused: %v %v", err, o), b)
			} else {
				c.R.Count("chains_stopped_by_other_difference", 1)
			}
			return
		}
		probe := func(kind string, x *big.Int, onchain, offchain bool) bool {
			for _, d := range []int64{1, -1, 1 + r.Int63n(1000000), 1 << 62} {
				old := bclone(x)
				x.Add(x, bi(d))
				c.R.Eval(1)
				c.R.Seen(fmt.Sprint(kind, d > 0, len(st.Validators), onchain, offchain))
				if onchain {
					c.R.Count("onchain_refused", 1)
					if err, o := run(); err == nil || o.Bad() {
						fail("onchain-missed:"+kind, fmt.Sprintf("a difference of %d wei in %s is not reported (%v)", d, kind, o), b)
						return false
					}
				}
				if offchain {
					c.R.Count("offchain_refused", 1)
					if err, o := off(); err == nil || o.Bad() {
						fail("offchain-missed:"+kind, fmt.Sprintf("a difference of %d wei in %s is not reported (%v)", d, kind, o), b)
						return false
					}
				}
				x.Set(old)
			}
			return true
		}
		if !probe("contract balance", bal, true, false) || !probe("pool fees", st.PoolAccumulatedFees, true, true) {
			return
		}
		for _, a := range cl {
			if r.Intn(2) == 0 && !probe("claimed amount", claimed[a], true, false) {
				return
			}
		}
		for _, v := range st.Validators {
			if r.Intn(2) == 0 && !(probe("claimable", v.AccumulatedRewardsWei, true, true) && probe("pending", v.PendingRewardsWei, true, true)) {
				return
			}
		}
		if n := len(st.EtherReceivedEvents); n > 0 && !probe("ether received", st.EtherReceivedEvents[r.Intn(n)].DonationAmount, false, true) {
			return
		}
		if n := len(st.SubscriptionEvents); n > 0 && !probe("subscription collateral", st.SubscriptionEvents[r.Intn(n)].SubscriptionCollateral, false, true) {
			return
		}
		for k := len(st.ProposedBlocks) - 1; k >= 0; k-- {
			if st.ProposedBlocks[k].RewardType == oracle.VanilaBlock {
				if !probe("vanilla reward", st.ProposedBlocks[k].Reward, false, true) {
					return
				}
				break
			}
		}
		c.R.Sample(map[string]interface{}{"chain": ch.Name, "slot": b.Slot, "owed": owed.String(), "addresses": len(list)})
	}
}

// ---------------------------------------------------------------- C30

func flipHexCase(s string) string {
	b := []byte(s)
	for i := 2; i < len(b); i++ {
		if b[i] >= 'a' && b[i] <= 'f' {
			b[i] -= 32
		}
	}
	return string(b)
}

func c30case(c *Ctx, i int, name string) {
	r := chainRand(c, "C30", i)
	p := defProfile()
	p.Busy, p.Cleanups = 60+r.Intn(60), 0
	p.Ckpt = uint64(pick(r, 1, 2, 3, 5, 7, 16, 31, 32, 33))
	ch := GenChain(r, p)
	or, _ := ch.NewOracle()
	m := NewModel(ch)
	fail := func(key, what string, slot uint64) {
		c.R.Violate(key, name, what, map[string]interface{}{"chain": ch.Name, "slot": slot, "checkpoint": ch.Cfg.Checkpoint, "deployed": ch.Cfg.DeployedSlot})
	}
	type fz struct {
		slot uint64
		root string
	}
	var frozen []fz
	agree := func(slot uint64) bool {
		// the latest checkpoint
		ls, any := or.LatestCommitedSlot()
		lc := or.LatestCommitedState()
		if len(frozen) == 0 {
			if any || lc != nil {
				fail("latest-of-none", fmt.Sprintf("latest checkpoint %d %v %v although nothing was frozen", ls, any, lc != nil), slot)
				return false
			}
			for _, q := range []struct {
				root string
				slot uint64
				want bool
			}{{oracle.DefaultRoot, 0, true}, {"0x" + strings.Repeat("ab", 32), 0, false}, {"0x" + strings.Repeat("ab", 32), slot, false}, {"0x" + strings.Repeat("0", 63) + "1", 0, false}} {
				ok, err := or.IsOracleInSyncWithChain(q.root, q.slot)
				c.R.Eval(1)
				c.R.Count("agreement_judged", 1)
				c.R.Seen(fmt.Sprint("agree none ", q.want))
				if ok != q.want || err != nil {
					fail("agreement-none", fmt.Sprintf("nothing frozen, contract has %s at %d: in sync %v err %v", q.root, q.slot, ok, err), slot)
					return false
				}
			}
			return true
		}
		last := frozen[0]
		for _, f := range frozen {
			if f.slot > last.slot {
				last = f
			}
		}
		if !any || ls != last.slot || lc == nil || lc.Slot != last.slot || lc.MerkleRoot != last.root {
			fail("latest", fmt.Sprintf("latest checkpoint is %d %v, want %d", ls, any, last.slot), slot)
			return false
		}
		other := "0x" + strings.Repeat("cd", 32)
		near := []byte(last.root)
		near[len(near)-1] ^= 1
		if near[len(near)-1] < '0' {
			near[len(near)-1] = '5'
		}
		roots := []struct {
			r    string
			same bool
			n    string
		}{{last.root, true, "same"}, {flipHexCase(last.root), true, "same-upper"}, {other, false, "other"}, {oracle.DefaultRoot, false, "default"}, {frozen[r.Intn(len(frozen))].root, false, "older"}}
		if string(near) != last.root {
			roots = append(roots, struct {
				r    string
				same bool
				n    string
			}{string(near), false, "near"})
		}
		slots := []uint64{last.slot, last.slot - 1, last.slot + 1, last.slot + ch.Cfg.Checkpoint, 0, frozen[r.Intn(len(frozen))].slot}
		for _, rt := range roots {
			same := strings.EqualFold(rt.r, last.root)
			for _, s := range slots {
				ok, err := or.IsOracleInSyncWithChain(rt.r, s)
				c.R.Eval(1)
				c.R.Count("agreement_judged", 1)
				c.R.Seen(fmt.Sprint("agree ", rt.n, same, s == last.slot, s > last.slot))
				wantOk := same && s == last.slot
				wantErr := same != (s == last.slot)
				if ok != wantOk || (err != nil) != wantErr {
					fail(fmt.Sprintf("agreement:%v-%v", same, s == last.slot), fmt.Sprintf("contract: root %s (same=%v) slot %d (latest %d): in sync %v, error %v", rt.n, same, s, last.slot, ok, err), slot)
					return false
				}
			}
		}
		return true
	}
	if is, err := or.IsCheckpoint(); is || err == nil {
		fail("fresh-due", fmt.Sprintf("a checkpoint is due before the first slot: %v %v", is, err), ch.Cfg.DeployedSlot-1)
		return
	}
	if !agree(0) {
		return
	}
	freezeProb := pick(r, 1, 2, 4)
	for _, b := range ch.Blocks {
		need := ch.needExec(m, b)
		m.Step(ch, b)
		if _, err, o := advance(or, func() *oracle.FullBlock { return ch.Full(b, need) }); err != nil || o.Bad() {
			c.R.Count("chains_stopped_by_other_difference", 1)
			return
		}
		is, err := or.IsCheckpoint()
		want := (b.Slot-ch.Cfg.DeployedSlot)%ch.Cfg.Checkpoint == 0
		c.R.Eval(1)
		c.R.Count(map[bool]string{true: "due", false: "not_due"}[want], 1)
		c.R.Seen(fmt.Sprint(ch.Cfg.Checkpoint, b.Slot-ch.Cfg.DeployedSlot, len(frozen)))
		if err != nil || is != want {
			fail("due", fmt.Sprintf("slot %d is %d after deployment, checkpoint length %d: due %v %v", b.Slot, b.Slot-ch.Cfg.DeployedSlot, ch.Cfg.Checkpoint, is, err), b.Slot)
			return
		}
		if want && r.Intn(freezeProb) == 0 {
			var done bool
			if o := guard(func() { done = or.FreezeCheckpoint() }); o.Bad() {
				c.R.Count("freeze_failed", 1)
				return
			}
			if done {
				cs := or.State().CommitedStates[b.Slot]
				if cs == nil {
					fail("frozen-elsewhere", "the frozen checkpoint is not stored under its slot", b.Slot)
					return
				}
				frozen = append(frozen, fz{b.Slot, cs.MerkleRoot})
				c.R.Sample(map[string]interface{}{"chain": ch.Name, "slot": b.Slot, "root": cs.MerkleRoot, "nth": len(frozen)})
			}
			if !agree(b.Slot) {
				return
			}
		} else if r.Intn(12) == 0 {
			if !agree(b.Slot) {
				return
			}
		}
		// a restart in between must not change what is due or the latest
		if r.Intn(40) == 0 {
			n, _ := ch.NewOracle()
			if ok, err := n.LoadFromBytes(sealed(or.State())); ok && err == nil {
				or = n
			}
		}
	}
	agree(ch.Blocks[len(ch.Blocks)-1].Slot)
}
