package main

// An in-process beacon node and execution node that serve a Chain over the real
// protocols (beacon REST API, JSON-RPC), with a contract and injectable faults.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	stdlog "log"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec/altair"
	"github.com/attestantio/go-eth2-client/spec/capella"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/prysmaticlabs/go-bitfield"
)

type Req struct {
	Seq  int    `json:"seq"`
	Side string `json:"side"` // cl el
	Kind string `json:"kind"`
	Arg  string `json:"arg"`
}

func (r Req) String() string { return r.Side + " " + r.Kind + " " + r.Arg }

type Fault struct {
	Kind   string // drop truncate status body rpcerr mutate
	Status int
	Body   string
	CT     string
	Delay  time.Duration
	Mutate func(b []byte) []byte
	Name   string
}

const depositAddr = "0x00000000219ab540356cbb839cbe05303d7705fa"

type reportKey struct {
	slot uint64
	root [32]byte
}

// FakeContract is the smoothing pool's storage, with its submitReport
type FakeContract struct {
	DeployBlock uint64
	Ckpt        uint64
	Fee         *big.Int
	FeeRec      common.Address
	Collateral  *big.Int
	Root        [32]byte
	Slot        uint64
	Claimed     map[common.Address]*big.Int
	Members     []common.Address
	Quorum      uint64
	Voted       map[common.Address]common.Hash
	Reports     map[common.Hash]*fakeReport
	History     []reportKey // consolidated
}

type fakeReport struct {
	slot, votes uint64
	root        [32]byte
}

type SentTx struct {
	Hash   common.Hash
	From   common.Address
	To     *common.Address
	Value  *big.Int
	Method string
	Slot   uint64
	Root   [32]byte
	Status uint64
	Err    string
	mined  bool
}

type Node struct {
	C   *Chain
	mu  sync.Mutex
	spc map[uint64]*BlockSpec // by slot
	num map[uint64]*BlockSpec // by execution number
	bld map[uint64]*Built     // by slot
	txs map[common.Hash]txPos

	Genesis          uint64
	Head, Finalized  uint64
	CLChain, ELChain uint64
	SyncDist         uint64
	ELSyncing        bool
	SSZ              bool
	Con              *FakeContract
	Balance          func(a common.Address, block string) *big.Int
	Extra            map[common.Hash]*types.Receipt // receipts of transactions sent by the oracle
	Sent             []*SentTx
	TxFate           func(t *SentTx) string // "" ok, revert (mined, failed), lost (never mined), reject (eth_sendRawTransaction error)
	EstimateErr      func(slot uint64, root [32]byte) string
	BalanceAt        func(a common.Address, block string) string
	ByBlockClaimed   func(a common.Address, block string) *big.Int
	DeployTxs        []*types.Transaction // transactions of the deployment block
	DeployTime       uint64               // overrides the header time of the deployment block
	Fault            func(r Req) *Fault
	Before           func(r Req)
	inflight         atomic.Int64
	Log              []Req
	seq              int
	KeepLog          bool
	stateCache       map[uint64][]byte
	FillTo           uint64 // the registry is filled up to this index

	clsrv, elsrv *http.Server
	CLURL, ELURL string
}

type txPos struct {
	slot uint64
	idx  int
}

func NewNode(c *Chain) *Node {
	n := &Node{C: c, spc: map[uint64]*BlockSpec{}, num: map[uint64]*BlockSpec{}, bld: map[uint64]*Built{}, txs: map[common.Hash]txPos{}, Extra: map[common.Hash]*types.Receipt{},
		stateCache: map[uint64][]byte{}, KeepLog: true}
	n.CLChain, n.ELChain = c.World.ChainID, c.World.ChainID
	for _, b := range c.Blocks {
		n.addBlock(b)
	}
	if len(c.Blocks) > 0 {
		n.Head = c.Blocks[len(c.Blocks)-1].Slot
		n.Finalized = n.Head
	}
	n.Con = &FakeContract{DeployBlock: c.Cfg.DeployedBlock, Ckpt: c.Cfg.Checkpoint, Fee: bi(int64(c.Cfg.Fee)), FeeRec: common.HexToAddress(c.Cfg.PoolFees), Collateral: bclone(c.Cfg.Collateral),
		Slot: c.Cfg.DeployedSlot, Claimed: map[common.Address]*big.Int{}, Members: []common.Address{addr(keyUpdater)}, Quorum: 1, Voted: map[common.Address]common.Hash{}, Reports: map[common.Hash]*fakeReport{}}
	for i := range c.World.Vals {
		if i > n.FillTo {
			n.FillTo = i
		}
	}
	return n
}

func (n *Node) addBlock(b *BlockSpec) {
	n.spc[b.Slot] = b
	if !b.Missed {
		n.num[b.Number] = b
	}
}

func (n *Node) built(slot uint64) *Built {
	b := n.spc[slot]
	if b == nil || b.Missed {
		return nil
	}
	if x := n.bld[slot]; x != nil {
		return x
	}
	x := n.C.build(b)
	x.Header.Time = n.Genesis + slot*12
	n.bld[slot] = x
	for i, t := range x.Txs {
		n.txs[t.Hash()] = txPos{slot, i}
	}
	return x
}

// settle waits for the requests of a killed program
func (n *Node) settle() {
	for i := 0; i < 1000; i++ {
		time.Sleep(5 * time.Millisecond)
		if n.inflight.Load() == 0 {
			return
		}
	}
}

func (n *Node) Start() {
	mk := func(h http.HandlerFunc) (*http.Server, string) {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		inner := h
		h = func(w http.ResponseWriter, r *http.Request) {
			n.inflight.Add(1)
			defer n.inflight.Add(-1)
			inner(w, r)
		}
		s := &http.Server{Handler: h, ErrorLog: stdlog.New(io.Discard, "", 0)}
		go s.Serve(l)
		return s, "http://" + l.Addr().String()
	}
	n.clsrv, n.CLURL = mk(n.serveCL)
	n.elsrv, n.ELURL = mk(n.serveEL)
}

func (n *Node) Stop() {
	n.clsrv.Close()
	n.elsrv.Close()
}

func (n *Node) Cli() *config.CliConfig {
	return &config.CliConfig{DryRun: true, NumRetries: 1, ConsensusEndpoint: n.CLURL, ExecutionEndpoint: n.ELURL, PoolAddress: n.C.Cfg.PoolAddress, LogLevel: "fatal"}
}

func (n *Node) Reqs() []Req {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]Req{}, n.Log...)
}

func (n *Node) note(side, kind, arg string) (Req, *Fault) {
	n.mu.Lock()
	n.seq++
	r := Req{n.seq, side, kind, arg}
	if n.KeepLog {
		n.Log = append(n.Log, r)
	}
	f, before := n.Fault, n.Before
	n.mu.Unlock()
	if before != nil {
		before(r)
	}
	if f != nil {
		return r, f(r)
	}
	return r, nil
}

type answer struct {
	status int
	ct     string
	ver    string
	body   []byte
}

func (n *Node) reply(w http.ResponseWriter, a answer, f *Fault) {
	if f != nil {
		if f.Delay > 0 {
			time.Sleep(f.Delay)
		}
		switch f.Kind {
		case "drop":
			if hj, ok := w.(http.Hijacker); ok {
				c, _, err := hj.Hijack()
				if err == nil {
					c.Close()
				}
			}
			return
		case "truncate":
			w.Header().Set("Content-Type", a.ct)
			if a.ver != "" {
				w.Header().Set("Eth-Consensus-Version", a.ver)
			}
			w.Header().Set("Content-Length", strconv.Itoa(len(a.body)))
			w.WriteHeader(a.status)
			w.Write(a.body[:len(a.body)/2])
			if fl, ok := w.(http.Flusher); ok {
				fl.Flush()
			}
			if hj, ok := w.(http.Hijacker); ok {
				if c, _, err := hj.Hijack(); err == nil {
					c.Close()
				}
			}
			return
		case "cut": // a shorter body with a matching length
			a.body = a.body[:len(a.body)/2]
		case "status":
			a = answer{f.Status, "application/json", "", []byte(f.Body)}
		case "body":
			a.body = []byte(f.Body)
			if f.CT != "" {
				a.ct = f.CT
			}
		case "mutate":
			a.body = f.Mutate(a.body)
		}
	}
	w.Header().Set("Content-Type", a.ct)
	if a.ver != "" {
		w.Header().Set("Eth-Consensus-Version", a.ver)
	}
	w.WriteHeader(a.status)
	w.Write(a.body)
}

func jsonAns(v interface{}) answer {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return answer{200, "application/json", "", b}
}

func notFound(msg string) answer {
	b, _ := json.Marshal(map[string]interface{}{"code": 404, "message": msg})
	return answer{404, "application/json", "", b}
}

// ---------------------------------------------------------------- beacon node

func (n *Node) stateSlot(id string) (uint64, bool) {
	switch id {
	case "head":
		return n.Head, true
	case "finalized":
		return n.Finalized, true
	}
	s, err := strconv.ParseUint(id, 10, 64)
	return s, err == nil && s <= n.Head
}

func (n *Node) serveCL(w http.ResponseWriter, r *http.Request) {
	p := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	body, _ := io.ReadAll(r.Body)
	kind, arg := "", ""
	var f func() answer
	path := r.URL.Path
	ssz := n.SSZ && strings.Contains(r.Header.Get("Accept"), "octet-stream")
	switch {
	case path == "/eth/v1/node/version":
		kind, f = "version", func() answer { return jsonAns(map[string]interface{}{"data": map[string]string{"version": "fake/v1"}}) }
	case path == "/eth/v1/node/syncing":
		kind, f = "syncing", func() answer {
			return jsonAns(map[string]interface{}{"data": map[string]interface{}{"head_slot": fmt.Sprint(n.Head), "sync_distance": fmt.Sprint(n.SyncDist), "is_syncing": n.SyncDist > 0, "is_optimistic": false, "el_offline": false}})
		}
	case path == "/eth/v1/config/deposit_contract":
		kind, f = "deposit", func() answer {
			return jsonAns(map[string]interface{}{"data": map[string]string{"chain_id": fmt.Sprint(n.CLChain), "address": depositAddr}})
		}
	case path == "/eth/v1/config/spec":
		kind, f = "spec", func() answer {
			return jsonAns(map[string]interface{}{"data": map[string]string{"SLOTS_PER_EPOCH": "32", "SECONDS_PER_SLOT": "12", "CONFIG_NAME": "fake"}})
		}
	case path == "/eth/v1/beacon/genesis":
		kind, f = "genesis", func() answer {
			return jsonAns(map[string]interface{}{"data": map[string]string{"genesis_time": fmt.Sprint(n.Genesis), "genesis_validators_root": "0x" + strings.Repeat("11", 32), "genesis_fork_version": "0x00000000"}})
		}
	case strings.HasPrefix(path, "/eth/v2/beacon/blocks/"):
		kind, arg = "block", p[len(p)-1]
		f = func() answer { return n.clBlock(arg, ssz) }
	case strings.HasPrefix(path, "/eth/v1/beacon/headers/"):
		kind, arg = "header", p[len(p)-1]
		f = func() answer { return n.clHeader(arg) }
	case strings.HasPrefix(path, "/eth/v1/validator/duties/proposer/"):
		kind, arg = "duties", p[len(p)-1]
		f = func() answer { return n.clDuties(arg) }
	case strings.HasPrefix(path, "/eth/v1/beacon/states/") && strings.HasSuffix(path, "/validators"):
		kind, arg = "validators", p[len(p)-2]
		var q struct {
			IDs []string `json:"ids"`
		}
		json.Unmarshal(body, &q)
		for _, x := range r.URL.Query()["id"] {
			q.IDs = append(q.IDs, strings.Split(x, ",")...)
		}
		st := arg
		arg += ":" + strings.Join(q.IDs, ",")
		f = func() answer { return n.clValidators(st, q.IDs) }
	case strings.HasPrefix(path, "/eth/v2/debug/beacon/states/"):
		kind, arg = "state", p[len(p)-1]
		f = func() answer { return n.clState(arg, ssz) }
	case strings.HasPrefix(path, "/eth/v1/beacon/states/") && strings.HasSuffix(path, "/pending_consolidations"):
		kind, arg = "consolidations", p[len(p)-2]
		f = func() answer { return n.clConsol(arg) }
	default:
		kind, arg = "unknown", path
		f = func() answer { return notFound("unknown " + path) }
	}
	_, flt := n.note("cl", kind, arg)
	n.mu.Lock()
	a := func() answer { defer n.mu.Unlock(); return f() }()
	n.reply(w, a, flt)
}

func (n *Node) clBlock(id string, ssz bool) answer {
	slot, ok := n.stateSlot(id)
	if !ok {
		return notFound("NOT_FOUND: beacon block " + id)
	}
	b := n.built(slot)
	if b == nil {
		return notFound("NOT_FOUND: beacon block at slot " + id)
	}
	v := n.spc[slot].Fork
	var data []byte
	var err error
	if ssz {
		switch v {
		case "bellatrix":
			data, err = b.Block.Bellatrix.MarshalSSZ()
		case "capella":
			data, err = b.Block.Capella.MarshalSSZ()
		case "deneb":
			data, err = b.Block.Deneb.MarshalSSZ()
		case "electra":
			data, err = b.Block.Electra.MarshalSSZ()
		case "fulu":
			data, err = b.Block.Fulu.MarshalSSZ()
		}
		if err != nil {
			panic(err)
		}
		return answer{200, "application/octet-stream", v, data}
	}
	switch v {
	case "bellatrix":
		data, err = json.Marshal(b.Block.Bellatrix)
	case "capella":
		data, err = json.Marshal(b.Block.Capella)
	case "deneb":
		data, err = json.Marshal(b.Block.Deneb)
	case "electra":
		data, err = json.Marshal(b.Block.Electra)
	case "fulu":
		data, err = json.Marshal(b.Block.Fulu)
	}
	if err != nil {
		panic(err)
	}
	a := jsonAns(map[string]interface{}{"version": v, "execution_optimistic": false, "finalized": slot <= n.Finalized, "data": json.RawMessage(data)})
	a.ver = v
	return a
}

func (n *Node) clHeader(id string) answer {
	slot, ok := n.stateSlot(id)
	if !ok {
		return notFound("no header " + id)
	}
	z := "0x" + strings.Repeat("00", 32)
	return jsonAns(map[string]interface{}{"execution_optimistic": false, "finalized": true, "data": map[string]interface{}{"root": z, "canonical": true,
		"header": map[string]interface{}{"message": map[string]string{"slot": fmt.Sprint(slot), "proposer_index": "1", "parent_root": z, "state_root": z, "body_root": z},
			"signature": "0x" + strings.Repeat("00", 96)}}})
}

func (n *Node) clDuties(ep string) answer {
	e, err := strconv.ParseUint(ep, 10, 64)
	if err != nil {
		return answer{400, "application/json", "", []byte(`{"code":400,"message":"bad epoch"}`)}
	}
	var ds []map[string]string
	var any uint64
	for i := range n.C.World.Vals {
		if any == 0 || i < any {
			any = i
		}
	}
	for s := e * 32; s < e*32+32; s++ {
		prop := any
		if b := n.spc[s]; b != nil {
			prop = b.Proposer
		}
		var pub phase0.BLSPubKey
		if v := n.C.World.Vals[prop]; v != nil {
			pub = v.Pub
		}
		ds = append(ds, map[string]string{"pubkey": "0x" + hex.EncodeToString(pub[:]), "slot": fmt.Sprint(s), "validator_index": fmt.Sprint(prop)})
	}
	return jsonAns(map[string]interface{}{"dependent_root": "0x" + strings.Repeat("22", 32), "execution_optimistic": false, "data": ds})
}

func (n *Node) clValidators(st string, ids []string) answer {
	slot, ok := n.stateSlot(st)
	if !ok {
		return notFound("no state " + st)
	}
	out := []json.RawMessage{}
	for _, id := range ids {
		i, err := strconv.ParseUint(id, 10, 64)
		if err != nil {
			continue
		}
		v := n.validator(i, slot)
		if v == nil {
			continue
		}
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		out = append(out, b)
	}
	return jsonAns(map[string]interface{}{"execution_optimistic": false, "finalized": true, "data": out})
}

// validator as the beacon node shows it at a slot
func (n *Node) validator(i, slot uint64) *v1.Validator { return n.C.World.At(i, slot) }

const farFuture = phase0.Epoch(^uint64(0))

// registryEntry gives a validator record whose epochs and balance stand for the status
func registryEntry(v *v1.Validator, epoch phase0.Epoch) (*phase0.Validator, phase0.Gwei) {
	x := *v.Validator
	bal := v.Balance
	x.ActivationEligibilityEpoch, x.ActivationEpoch, x.ExitEpoch, x.WithdrawableEpoch, x.Slashed = 1, 2, farFuture, farFuture, false
	if bal == 0 {
		bal = 1
	}
	switch v.Status {
	case v1.ValidatorStatePendingInitialized:
		x.ActivationEligibilityEpoch, x.ActivationEpoch = farFuture, farFuture
	case v1.ValidatorStatePendingQueued:
		x.ActivationEpoch = farFuture
	case v1.ValidatorStateActiveExiting:
		x.ExitEpoch, x.WithdrawableEpoch = epoch+5, epoch+300
	case v1.ValidatorStateActiveSlashed:
		x.ExitEpoch, x.WithdrawableEpoch, x.Slashed = epoch+5, epoch+300, true
	case v1.ValidatorStateExitedUnslashed:
		x.ExitEpoch, x.WithdrawableEpoch = epoch-1, epoch+300
	case v1.ValidatorStateExitedSlashed:
		x.ExitEpoch, x.WithdrawableEpoch, x.Slashed = epoch-1, epoch+300, true
	case v1.ValidatorStateWithdrawalPossible:
		x.ExitEpoch, x.WithdrawableEpoch = epoch-2, epoch-1
	case v1.ValidatorStateWithdrawalDone:
		x.ExitEpoch, x.WithdrawableEpoch = epoch-2, epoch-1
		bal = 0
	}
	return &x, bal
}

// Registry is what the finalized state contains: index -> validator
func (n *Node) Registry(slot uint64) map[uint64]*v1.Validator {
	out := map[uint64]*v1.Validator{}
	epoch := phase0.Epoch(slot / 32)
	for i := uint64(0); i <= n.FillTo; i++ {
		v := n.validator(i, slot)
		if v == nil {
			f := &WVal{Index: i, Pub: mkPub(i), Creds: mkCreds("bls", common.Address{}, i), Timeline: []ValAt{{0, v1.ValidatorStateActiveOngoing, 32e9}}}
			v = f.V1(slot)
		}
		x, bal := registryEntry(v, epoch)
		out[i] = &v1.Validator{Index: phase0.ValidatorIndex(i), Balance: bal, Status: v1.ValidatorToState(x, &bal, epoch, farFuture), Validator: x}
	}
	return out
}

func (n *Node) clState(id string, ssz bool) answer {
	slot, ok := n.stateSlot(id)
	if !ok {
		return notFound("no state " + id)
	}
	if b := n.stateCache[slot]; b != nil {
		return answer{200, "application/octet-stream", "capella", b}
	}
	roots := make([]phase0.Root, 8192)
	mixes := make([]phase0.Root, 65536)
	comm := func() *altair.SyncCommittee { return &altair.SyncCommittee{Pubkeys: make([]phase0.BLSPubKey, 512)} }
	reg := n.Registry(slot)
	s := &capella.BeaconState{Slot: phase0.Slot(slot), Fork: &phase0.Fork{}, LatestBlockHeader: &phase0.BeaconBlockHeader{}, BlockRoots: roots, StateRoots: roots, HistoricalRoots: []phase0.Root{},
		ETH1Data: &phase0.ETH1Data{BlockHash: make([]byte, 32)}, ETH1DataVotes: []*phase0.ETH1Data{}, RANDAOMixes: mixes, Slashings: make([]phase0.Gwei, 8192),
		PreviousEpochParticipation: []altair.ParticipationFlags{}, CurrentEpochParticipation: []altair.ParticipationFlags{}, JustificationBits: bitfield.NewBitvector4(),
		PreviousJustifiedCheckpoint: &phase0.Checkpoint{}, CurrentJustifiedCheckpoint: &phase0.Checkpoint{}, FinalizedCheckpoint: &phase0.Checkpoint{}, InactivityScores: []uint64{},
		CurrentSyncCommittee: comm(), NextSyncCommittee: comm(), LatestExecutionPayloadHeader: &capella.ExecutionPayloadHeader{}, HistoricalSummaries: []*capella.HistoricalSummary{}}
	for i := uint64(0); i <= n.FillTo; i++ {
		s.Validators = append(s.Validators, reg[i].Validator)
		s.Balances = append(s.Balances, reg[i].Balance)
	}
	b, err := s.MarshalSSZ()
	if err != nil {
		panic(err)
	}
	n.stateCache[slot] = b
	return answer{200, "application/octet-stream", "capella", b}
}

func (n *Node) clConsol(id string) answer {
	slot, ok := n.stateSlot(id)
	if !ok {
		return notFound("no state " + id)
	}
	out := []map[string]string{}
	for _, c := range n.C.World.PendingAt(slot) {
		out = append(out, map[string]string{"source_index": fmt.Sprint(c[0]), "target_index": fmt.Sprint(c[1])})
	}
	return jsonAns(map[string]interface{}{"version": "electra", "execution_optimistic": false, "finalized": true, "data": out})
}

// ---------------------------------------------------------------- execution node

type rpcErr struct {
	Code int    `json:"code"`
	Msg  string `json:"message"`
	Data string `json:"data,omitempty"`
}

func (n *Node) serveEL(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	var q struct {
		ID     json.RawMessage   `json:"id"`
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
	}
	if err := json.Unmarshal(body, &q); err != nil {
		w.WriteHeader(400)
		return
	}
	arg := ""
	if q.Method == "eth_call" && len(q.Params) > 0 {
		arg = callName(q.Params[0])
		if len(q.Params) > 1 {
			arg += "@" + strings.Trim(string(q.Params[1]), `"`)
		}
	} else if q.Method == "eth_getLogs" {
		arg = logsName(q.Params[0])
	} else {
		var ps []string
		for _, p := range q.Params {
			s := strings.Trim(string(p), `"`)
			if len(s) > 80 {
				s = s[:80]
			}
			ps = append(ps, s)
		}
		arg = strings.Join(ps, ",")
	}
	_, flt := n.note("el", q.Method, arg)
	n.mu.Lock()
	res, e := func() (interface{}, *rpcErr) { defer n.mu.Unlock(); return n.el(q.Method, q.Params) }()
	out := map[string]interface{}{"jsonrpc": "2.0", "id": q.ID}
	if flt != nil && flt.Kind == "rpcerr" {
		e = &rpcErr{Code: flt.Status, Msg: flt.Body}
	}
	if flt != nil && flt.Kind == "result" {
		res, e = json.RawMessage(flt.Body), nil
	}
	if flt != nil && flt.Kind == "mutres" && e == nil {
		b, _ := json.Marshal(res)
		res = json.RawMessage(flt.Mutate(b))
	}
	if e != nil {
		out["error"] = e
	} else {
		out["result"] = res
	}
	n.reply(w, jsonAns(out), flt)
}

func callName(p json.RawMessage) string {
	var c struct{ Data, Input hexutil.Bytes }
	json.Unmarshal(p, &c)
	d := c.Input
	if len(d) == 0 {
		d = c.Data
	}
	if len(d) >= 4 {
		if m, err := poolABI.MethodById(d[:4]); err == nil {
			return m.Name
		}
	}
	return "?"
}

func logsName(p json.RawMessage) string {
	var q struct {
		FromBlock, ToBlock string
		Topics             []json.RawMessage
	}
	json.Unmarshal(p, &q)
	name := ""
	if len(q.Topics) > 0 {
		for k, e := range poolABI.Events {
			if strings.Contains(string(q.Topics[0]), e.ID.Hex()) {
				name += k
			}
		}
	}
	return name + "@" + q.FromBlock + "-" + q.ToBlock
}

func (n *Node) headNumber() uint64 {
	var m uint64
	for k, b := range n.num {
		if b.Slot <= n.Head && k > m {
			m = k
		}
	}
	return m
}

func (n *Node) blockTag(s string) (*BlockSpec, bool) {
	s = strings.Trim(s, `"`)
	if s == "latest" || s == "pending" || s == "" {
		return n.num[n.headNumber()], true
	}
	x, err := hexutil.DecodeUint64(s)
	if err != nil {
		return nil, false
	}
	b := n.num[x]
	if b == nil || b.Slot > n.Head {
		return nil, true
	}
	return b, true
}

// preHeader is the head of a chain that has no generated block yet.
func (n *Node) preHeader() interface{} {
	h := types.Header{Number: new(big.Int).SetUint64(n.C.Cfg.DeployedBlock - 1), Difficulty: new(big.Int), UncleHash: types.EmptyUncleHash, TxHash: types.EmptyTxsHash, Extra: []byte{}}
	raw, _ := json.Marshal(&h)
	m := map[string]interface{}{}
	json.Unmarshal(raw, &m)
	m["hash"] = blockHashOf(n.C.Cfg.DeployedSlot-1, n.C.Cfg.DeployedBlock-1).Hex()
	m["size"], m["uncles"], m["transactions"] = "0x400", []string{}, []string{}
	return m
}

func (n *Node) headerJSON(b *BlockSpec, full bool) interface{} {
	bt := n.bld[b.Slot]
	if bt == nil {
		bt = n.built(b.Slot)
	}
	h := *bt.Header
	h.UncleHash = types.EmptyUncleHash
	txs := bt.Txs
	if b.Number == n.Con.DeployBlock && n.DeployTxs != nil {
		txs = n.DeployTxs
	}
	if b.Number == n.Con.DeployBlock && n.DeployTime != 0 {
		h.Time = n.DeployTime
	}
	h.TxHash = types.EmptyTxsHash
	if len(txs) > 0 {
		h.TxHash = common.Hash{7}
	}
	raw, _ := json.Marshal(&h)
	m := map[string]interface{}{}
	json.Unmarshal(raw, &m)
	m["hash"] = blockHashOf(b.Slot, b.Number).Hex()
	m["size"] = "0x400"
	m["uncles"] = []string{}
	var l []interface{}
	for _, t := range txs {
		if !full {
			l = append(l, t.Hash().Hex())
			continue
		}
		tr, _ := json.Marshal(t)
		tm := map[string]interface{}{}
		json.Unmarshal(tr, &tm)
		tm["blockHash"] = m["hash"]
		tm["blockNumber"] = hexutil.EncodeUint64(b.Number)
		tm["from"] = addr(keyGov).Hex()
		l = append(l, tm)
	}
	if l == nil {
		l = []interface{}{}
	}
	m["transactions"] = l
	return m
}

func (n *Node) el(method string, ps []json.RawMessage) (interface{}, *rpcErr) {
	bad := func(s string) (interface{}, *rpcErr) { return nil, &rpcErr{Code: -32602, Msg: s} }
	str := func(i int) string {
		if i >= len(ps) {
			return ""
		}
		var s string
		json.Unmarshal(ps[i], &s)
		return s
	}
	switch method {
	case "eth_chainId":
		return hexutil.EncodeUint64(n.ELChain), nil
	case "net_version":
		return fmt.Sprint(n.ELChain), nil
	case "eth_syncing":
		if n.ELSyncing {
			return map[string]string{"startingBlock": "0x0", "currentBlock": "0x1", "highestBlock": "0x100"}, nil
		}
		return false, nil
	case "eth_blockNumber":
		return hexutil.EncodeUint64(n.headNumber()), nil
	case "eth_getBlockByNumber":
		b, ok := n.blockTag(str(0))
		if !ok {
			return bad("bad tag")
		}
		if b == nil && str(0) == "latest" {
			return n.preHeader(), nil
		}
		if b == nil {
			return nil, nil
		}
		return n.headerJSON(b, len(ps) > 1 && string(ps[1]) == "true"), nil
	case "eth_getTransactionReceipt":
		h := common.HexToHash(str(0))
		if r := n.Extra[h]; r != nil {
			return r, nil
		}
		p, ok := n.txs[h]
		if !ok {
			for s := range n.spc { // not built yet
				n.built(s)
			}
			p, ok = n.txs[h]
		}
		if !ok || p.slot > n.Head {
			return nil, nil
		}
		r := *n.built(p.slot).Receipts[p.idx]
		r.Logs = []*types.Log{}
		return &r, nil
	case "eth_getLogs":
		var q struct {
			FromBlock, ToBlock string
			Address            json.RawMessage
			Topics             []json.RawMessage
		}
		if len(ps) == 0 || json.Unmarshal(ps[0], &q) != nil {
			return bad("bad filter")
		}
		from, err := hexutil.DecodeUint64(q.FromBlock)
		if err != nil {
			return bad("bad from")
		}
		to := n.headNumber()
		if q.ToBlock != "" && q.ToBlock != "latest" {
			if to, err = hexutil.DecodeUint64(q.ToBlock); err != nil {
				return bad("bad to")
			}
		}
		logs := []types.Log{}
		var nums []uint64
		for k, b := range n.num {
			if k >= from && k <= to && b.Slot <= n.Head {
				nums = append(nums, k)
			}
		}
		sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
		for _, k := range nums {
			for _, l := range n.built(n.num[k].Slot).Logs {
				if len(q.Address) > 2 && !strings.Contains(strings.ToLower(string(q.Address)), strings.ToLower(l.Address.Hex())) {
					continue
				}
				if len(q.Topics) > 0 && string(q.Topics[0]) != "null" && !strings.Contains(string(q.Topics[0]), l.Topics[0].Hex()) {
					continue
				}
				logs = append(logs, l)
			}
		}
		return logs, nil
	case "eth_call":
		return n.call(ps)
	case "eth_getBalance":
		a := common.HexToAddress(str(0))
		if n.BalanceAt != nil {
			x, _ := new(big.Int).SetString(n.BalanceAt(a, str(1)), 10)
			return (*hexutil.Big)(x), nil
		}
		if n.Balance != nil {
			return (*hexutil.Big)(n.Balance(a, str(1))), nil
		}
		return "0xde0b6b3a7640000", nil
	case "eth_getTransactionCount":
		c := uint64(0)
		a := common.HexToAddress(str(0))
		for _, t := range n.Sent {
			if t.From == a && t.mined {
				c++
			}
		}
		return hexutil.EncodeUint64(c), nil
	case "eth_getCode":
		return "0x6001", nil
	case "eth_maxPriorityFeePerGas", "eth_gasPrice":
		return "0x3b9aca00", nil
	case "eth_estimateGas":
		var c struct {
			From        common.Address
			Data, Input hexutil.Bytes
		}
		json.Unmarshal(ps[0], &c)
		d := c.Input
		if len(d) == 0 {
			d = c.Data
		}
		slot, root, err := decodeSubmit(d)
		if err != nil {
			return bad(err.Error())
		}
		if n.EstimateErr != nil {
			if s := n.EstimateErr(slot, root); s != "" {
				return nil, &rpcErr{Code: 3, Msg: s}
			}
		}
		if s := n.Con.check(c.From, slot); s != "" {
			return nil, &rpcErr{Code: 3, Msg: "execution reverted: " + s}
		}
		return "0x30000", nil
	case "eth_sendRawTransaction":
		return n.sendRaw(str(0))
	}
	return nil, &rpcErr{Code: -32601, Msg: "the method " + method + " does not exist"}
}

func decodeSubmit(d []byte) (uint64, [32]byte, error) {
	var z [32]byte
	m := poolABI.Methods["submitReport"]
	if len(d) < 4 || !bytes.Equal(d[:4], m.ID) {
		return 0, z, errors.New("not submitReport")
	}
	a, err := m.Inputs.Unpack(d[4:])
	if err != nil {
		return 0, z, err
	}
	return asU64(a[0]), a[1].([32]byte), nil
}

func asU64(x interface{}) uint64 {
	switch y := x.(type) {
	case uint64:
		return y
	case *big.Int:
		return y.Uint64()
	}
	panic("asU64")
}

func (k *FakeContract) member(a common.Address) bool {
	for _, m := range k.Members {
		if m == a {
			return true
		}
	}
	return false
}

func (k *FakeContract) check(from common.Address, slot uint64) string {
	if !k.member(from) {
		return "DappnodeSmoothingPool::submitReport: Only oracle members"
	}
	if slot != k.Slot+k.Ckpt {
		return "DappnodeSmoothingPool::submitReport: Slot number invalid"
	}
	return ""
}

func reportHash(slot uint64, root [32]byte) common.Hash {
	return crypto.Keccak256Hash(common.LeftPadBytes(new(big.Int).SetUint64(slot).Bytes(), 8), root[:])
}

// Vote applies an accepted submitReport
func (k *FakeContract) Vote(from common.Address, slot uint64, root [32]byte) string {
	if s := k.check(from, slot); s != "" {
		return s
	}
	if last, ok := k.Voted[from]; ok {
		if r := k.Reports[last]; r != nil && r.slot == slot {
			r.votes--
		}
	}
	h := reportHash(slot, root)
	r := k.Reports[h]
	if r == nil {
		r = &fakeReport{slot: slot, root: root}
		k.Reports[h] = r
	}
	r.votes++
	k.Voted[from] = h
	if r.votes >= k.Quorum {
		k.Slot, k.Root = slot, root
		k.History = append(k.History, reportKey{slot, root})
		delete(k.Reports, h)
	}
	return ""
}

func (n *Node) sendRaw(raw string) (interface{}, *rpcErr) {
	b, err := hexutil.Decode(raw)
	if err != nil {
		return nil, &rpcErr{Code: -32000, Msg: err.Error()}
	}
	tx := new(types.Transaction)
	if err := tx.UnmarshalBinary(b); err != nil {
		return nil, &rpcErr{Code: -32000, Msg: err.Error()}
	}
	from, err := types.Sender(types.LatestSignerForChainID(new(big.Int).SetUint64(n.ELChain)), tx)
	if err != nil {
		return nil, &rpcErr{Code: -32000, Msg: "invalid sender: " + err.Error()}
	}
	t := &SentTx{Hash: tx.Hash(), From: from, To: tx.To(), Value: tx.Value()}
	if slot, root, err := decodeSubmit(tx.Data()); err == nil {
		t.Method, t.Slot, t.Root = "submitReport", slot, root
	}
	fate := ""
	if n.TxFate != nil {
		fate = n.TxFate(t)
	}
	n.Sent = append(n.Sent, t)
	if fate == "reject" {
		t.Err = "rejected"
		return nil, &rpcErr{Code: -32000, Msg: "insufficient funds for gas * price + value"}
	}
	if fate == "lost" {
		t.Err = "lost"
		return t.Hash.Hex(), nil
	}
	t.mined = true
	t.Status = 1
	if fate == "revert" {
		t.Status, t.Err = 0, "reverted"
	} else if t.Method == "submitReport" {
		if s := n.Con.Vote(from, t.Slot, t.Root); s != "" {
			t.Status, t.Err = 0, s
		}
	}
	n.Extra[t.Hash] = &types.Receipt{Type: tx.Type(), Status: t.Status, TxHash: t.Hash, GasUsed: 100000, CumulativeGasUsed: 100000, BlockNumber: new(big.Int).SetUint64(n.headNumber()),
		BlockHash: common.Hash{5}, Logs: []*types.Log{}, EffectiveGasPrice: bi(1)}
	return t.Hash.Hex(), nil
}

func (n *Node) call(ps []json.RawMessage) (interface{}, *rpcErr) {
	var c struct {
		To          common.Address
		Data, Input hexutil.Bytes
	}
	if len(ps) == 0 || json.Unmarshal(ps[0], &c) != nil {
		return nil, &rpcErr{Code: -32602, Msg: "bad call"}
	}
	d := c.Input
	if len(d) == 0 {
		d = c.Data
	}
	if c.To != common.HexToAddress(n.C.Cfg.PoolAddress) || len(d) < 4 {
		return "0x", nil
	}
	tag := "latest"
	if len(ps) > 1 {
		json.Unmarshal(ps[1], &tag)
	}
	m, err := poolABI.MethodById(d[:4])
	if err != nil {
		return nil, &rpcErr{Code: 3, Msg: "execution reverted"}
	}
	args, err := m.Inputs.Unpack(d[4:])
	if err != nil {
		return nil, &rpcErr{Code: 3, Msg: "execution reverted"}
	}
	k := n.Con
	var out []interface{}
	num := func(x uint64) interface{} { // typed as the ABI wants
		switch m.Outputs[0].Type.Size {
		case 64:
			return x
		default:
			return new(big.Int).SetUint64(x)
		}
	}
	switch m.Name {
	case "deploymentBlockNumber":
		out = []interface{}{num(k.DeployBlock)}
	case "checkpointSlotSize":
		out = []interface{}{num(k.Ckpt)}
	case "poolFee":
		out = []interface{}{k.Fee}
	case "poolFeeRecipient":
		out = []interface{}{k.FeeRec}
	case "subscriptionCollateral":
		out = []interface{}{k.Collateral}
	case "rewardsRoot":
		out = []interface{}{k.Root}
	case "lastConsolidatedSlot":
		out = []interface{}{num(k.Slot)}
	case "quorum":
		out = []interface{}{num(k.Quorum)}
	case "getAllOracleMembers":
		out = []interface{}{k.Members}
	case "claimedBalance":
		a := args[0].(common.Address)
		v := k.Claimed[a]
		if n.ByBlockClaimed != nil {
			v = n.ByBlockClaimed(a, tag)
		}
		if v == nil {
			v = big0()
		}
		out = []interface{}{v}
	case "addressToVotedReportHash":
		out = []interface{}{[32]byte(k.Voted[args[0].(common.Address)])}
	case "reportHashToReport":
		h := args[0].([32]byte)
		r := k.Reports[common.Hash(h)]
		if r == nil {
			r = &fakeReport{}
		}
		for i, x := range []uint64{r.slot, r.votes} {
			if m.Outputs[i].Type.T == abi.UintTy && m.Outputs[i].Type.Size == 64 {
				out = append(out, x)
			} else {
				out = append(out, new(big.Int).SetUint64(x))
			}
		}
	default:
		return nil, &rpcErr{Code: 3, Msg: "execution reverted: " + m.Name}
	}
	b, err := m.Outputs.Pack(out...)
	if err != nil {
		panic(m.Name + ": " + err.Error())
	}
	return hexutil.Encode(b), nil
}

// ---------------------------------------------------------------- helpers

// freePort: a free one outside the range of outgoing connections
func freePort() int {
	for {
		p := 10000 + rand.Intn(22000)
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		l.Close()
		return p
	}
}

func init() {
	subs["fakenode"] = func(args []string) { // debugging aid
		fmt.Fprintln(os.Stderr, "not a command")
	}
}
