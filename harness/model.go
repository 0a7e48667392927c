package main

// Reference semantics of one slot, written from the published rules (spec and
// property statements), not from the implementation.

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

const (
	stActive = "active"
	stYellow = "yellowcard"
	stRed    = "redcard"
	stNot    = "notsubscribed"
	stBanned = "banned"
)

type MVal struct {
	Status  string
	Acc     *big.Int
	Pend    *big.Int
	Coll    *big.Int
	Addr    string // lower case 0x
	Key     string
	Auto    bool
	Credits int
}

type MRec struct {
	Slot, Block, Val uint64
	Key, Addr        string
	Type             string // okpoolproposal okpoolproposalblskeys missedproposal wrongfeerecipient
	Reward           *big.Int
	RType            string
}

type MDon struct {
	Amount *big.Int
	From   common.Address
	Block  uint64
	Log    uint
}

type ChainCfg struct {
	Net           string
	PoolAddress   string
	PoolFees      string
	DeployedSlot  uint64
	DeployedBlock uint64
	Checkpoint    uint64
	Fee           int
	Collateral    *big.Int
}

type Chain struct {
	Cfg    ChainCfg
	World  *World
	Blocks []*BlockSpec
	Name   string
}

type Model struct {
	cfg       ChainCfg
	w         *World
	vals      map[uint64]*MVal
	fees      *big.Int
	feePct    int
	income    *big.Int
	proposed  []MRec
	missed    []MRec
	wrong     []MRec
	donations []MDon
	nSub      int
	nUnsub    int
	nEther    int
	lastSlot  uint64
	lastBlock uint64
	next      uint64

	// of the last step
	tags  map[string]bool
	trans []string
}

func NewModel(c *Chain) *Model {
	return &Model{cfg: c.Cfg, w: c.World, vals: map[uint64]*MVal{}, fees: big0(), feePct: c.Cfg.Fee, income: big0(), next: c.Cfg.DeployedSlot, lastSlot: c.Cfg.DeployedSlot - 1,
		tags: map[string]bool{}}
}

func (m *Model) clone() *Model {
	n := *m
	n.vals = map[uint64]*MVal{}
	for k, v := range m.vals {
		c := *v
		c.Acc, c.Pend, c.Coll = bclone(v.Acc), bclone(v.Pend), bclone(v.Coll)
		n.vals[k] = &c
	}
	n.fees, n.income = bclone(m.fees), bclone(m.income)
	n.proposed = append([]MRec{}, m.proposed...)
	n.missed = append([]MRec{}, m.missed...)
	n.wrong = append([]MRec{}, m.wrong...)
	n.donations = append([]MDon{}, m.donations...)
	n.tags = map[string]bool{}
	return &n
}

func (m *Model) tag(t string) { m.tags[t] = true }

func (m *Model) subscribed(i uint64) bool {
	v, ok := m.vals[i]
	return ok && (v.Status == stActive || v.Status == stYellow || v.Status == stRed)
}
func (m *Model) banned(i uint64) bool {
	v, ok := m.vals[i]
	return ok && v.Status == stBanned
}

func (m *Model) setStatus(i uint64, s, why string) {
	v := m.vals[i]
	m.trans = append(m.trans, fmt.Sprintf("%s-%s->%s", v.Status, why, s))
	v.Status = s
}

func (m *Model) sorted() []uint64 {
	var out []uint64
	for k := range m.vals {
		out = append(out, k)
	}
	sort.Slice(out, func(a, b int) bool { return out[a] < out[b] })
	return out
}

func (m *Model) method(slot uint64) string {
	r := rules[m.cfg.Net]
	if r.electra != 0 && slot >= r.electra {
		return "electra"
	}
	if slot >= r.fork1 {
		return "fork1"
	}
	return "prefork1"
}

// share one reward at a slot
func (m *Model) share(slot uint64, reward *big.Int, why string) {
	var el []uint64
	for _, i := range m.sorted() {
		if s := m.vals[i].Status; s == stActive || s == stYellow {
			el = append(el, i)
		}
	}
	m.tag("share")
	m.trans = append(m.trans, fmt.Sprintf("share-%s-%s-%d", m.method(slot), why, len(el)))
	if len(el) == 0 {
		m.fees.Add(m.fees, reward)
		return
	}
	given := big0()
	feeNum := new(big.Int).Mul(reward, bi(int64(m.feePct)))
	cut, frac := new(big.Int).QuoRem(feeNum, bi(10000), new(big.Int))
	pot := new(big.Int).Sub(reward, cut)
	switch m.method(slot) {
	case "electra":
		tot := big0()
		eb := map[uint64]*big.Int{}
		for _, i := range el {
			eb[i] = new(big.Int).SetUint64(m.w.Vals[i].at(slot).EB)
			tot.Add(tot, eb[i])
		}
		if tot.Sign() != 0 { // nobody has any balance: nothing to share by, the pool keeps it
			for _, i := range el {
				s := new(big.Int).Quo(new(big.Int).Mul(pot, eb[i]), tot)
				m.vals[i].Pend.Add(m.vals[i].Pend, s)
				given.Add(given, s)
			}
		} else {
			m.tag("zeroeb")
		}
	default:
		if m.method(slot) == "prefork1" {
			pot.Sub(pot, frac)
			if pot.Sign() < 0 {
				m.tag("negpot") // the legacy rule breaks down on dust, see known_findings.txt
			}
		}
		each := new(big.Int).Quo(pot, bi(int64(len(el))))
		for _, i := range el {
			m.vals[i].Pend.Add(m.vals[i].Pend, each)
			given.Add(given, each)
		}
	}
	m.fees.Add(m.fees, new(big.Int).Sub(reward, given))
}

// ---------------------------------------------------------------- block facts

type facts struct {
	mev      bool
	mevVal   *big.Int
	mevPool  bool
	mevEvent int // index in Events
	tip      *big.Int
}

func isWhitelisted(chain uint64, a common.Address) bool {
	return a == addr(keyWhitelist)
}

const exceptionSlot = 10400574

func (c *Chain) facts(b *BlockSpec) facts {
	f := facts{mevVal: big0(), mevEvent: -1, tip: big0()}
	if b.Missed {
		return f
	}
	for _, t := range b.Txs {
		var eff *big.Int
		if t.Kind < 2 {
			eff = bclone(t.FeeCap)
		} else {
			eff = new(big.Int).Add(b.BaseFee, t.TipCap)
			if eff.Cmp(t.FeeCap) > 0 {
				eff = bclone(t.FeeCap)
			}
		}
		eff.Sub(eff, b.BaseFee)
		f.tip.Add(f.tip, eff.Mul(eff, new(big.Int).SetUint64(t.GasUsed)))
	}
	n := len(b.Txs)
	if n == 0 {
		return f
	}
	last := b.Txs[n-1]
	if last.To == nil {
		return f
	}
	if c.Cfg.Net == "mainnet" && b.Slot == exceptionSlot {
		f.mev, f.mevVal, f.mevPool = true, mustBig("177043568463114308"), true
		f.mevEvent = -2
		return f
	}
	from := addr(last.From)
	if from != b.FeeRec && !isWhitelisted(c.World.ChainID, from) {
		return f
	}
	pool := common.HexToAddress(c.Cfg.PoolAddress)
	for i, e := range b.Events {
		if e.Kind == "ether" && e.Tx == n-1 && e.Amount.Cmp(last.Value) == 0 {
			f.mev, f.mevVal, f.mevPool, f.mevEvent = true, bclone(last.Value), true, i
			return f
		}
	}
	if *last.To == pool {
		return f // a call to the pool, not a payment
	}
	f.mev, f.mevVal = true, bclone(last.Value)
	return f
}

func mustBig(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return x
}

// expected verdict on the configuration events of a block ("" accepted)
func (m *Model) configVerdict(b *BlockSpec) string {
	if b.Missed {
		return ""
	}
	n := map[string]int{}
	for _, e := range b.Events {
		switch e.Kind {
		case "fee", "recipient", "ckpt", "coll":
			n[e.Kind]++
			if n[e.Kind] > 1 {
				return "two config events of one kind"
			}
		}
	}
	for _, e := range b.Events {
		switch e.Kind {
		case "fee":
			f, ok := rules[m.cfg.Net].fees[b.Slot]
			if !ok || e.Amount.Cmp(bi(int64(f))) != 0 {
				return "unscheduled fee"
			}
		case "recipient":
			if e.Addr != common.HexToAddress(m.cfg.PoolFees) {
				return "recipient"
			}
		case "ckpt":
			if e.ID != m.cfg.Checkpoint {
				return "checkpoint size"
			}
		case "coll":
			if e.Amount.Cmp(m.cfg.Collateral) != 0 {
				return "collateral"
			}
		}
	}
	return ""
}

func credAddr(v *WVal) (string, bool) {
	return v.Exec()
}

func recAddr(v *WVal) (string, bool) { // address in block records; whether execution type
	if a, ok := v.Exec(); ok {
		return a, true
	}
	h := hex.EncodeToString(v.Creds)
	if strings.HasPrefix(h, "00") {
		return "0x" + h[2:], false
	}
	return "", false
}

func canJoin(s v1.ValidatorState) bool {
	switch s {
	case v1.ValidatorStatePendingInitialized, v1.ValidatorStatePendingQueued, v1.ValidatorStateActiveOngoing:
		return true
	}
	return false
}

func isActiveState(s v1.ValidatorState) bool {
	switch s {
	case v1.ValidatorStateActiveOngoing, v1.ValidatorStateActiveExiting, v1.ValidatorStateActiveSlashed:
		return true
	}
	return false
}

// Step processes the block of the next slot. c gives the block's facts.
// Returns "" or the reason the block must be refused (model unchanged).
func (m *Model) Step(c *Chain, b *BlockSpec) string {
	m.tags = map[string]bool{}
	m.trans = nil
	if b.Slot != m.next {
		return "slot"
	}
	if r := m.configVerdict(b); r != "" {
		return r
	}
	f := c.facts(b)
	subBefore := m.subscribed(b.Proposer)
	pv := m.w.Vals[b.Proposer]
	pAddr, pExec := recAddr(pv)
	pKey := "0x" + hex.EncodeToString(pv.Pub[:])
	pool := common.HexToAddress(m.cfg.PoolAddress)

	if !b.Missed {
		for _, e := range b.Events {
			if e.Kind == "fee" {
				m.feePct = int(e.Amount.Int64())
				m.tag("feechange")
			}
		}
	}
	// subscriptions
	if !b.Missed {
		for _, e := range b.Events {
			switch e.Kind {
			case "sub":
				m.nSub++
			case "unsub":
				m.nUnsub++
			case "ether":
				m.nEther++
			}
		}
		if f.mevEvent == -2 {
			m.nEther++
		}
		for _, e := range b.Events {
			if e.Kind == "sub" {
				m.subscribe(b, e)
			}
		}
	}
	rec := MRec{Slot: b.Slot, Val: b.Proposer, Key: pKey, Addr: pAddr, Reward: big0(), RType: "unknownrewardtype"}
	if b.Missed {
		rec.Type = "missedproposal"
		if m.subscribed(b.Proposer) {
			m.tag("missed")
			switch m.vals[b.Proposer].Status {
			case stActive:
				m.setStatus(b.Proposer, stYellow, "miss")
			case stYellow:
				m.setStatus(b.Proposer, stRed, "miss")
			default:
				m.setStatus(b.Proposer, stRed, "miss")
			}
			m.missed = append(m.missed, rec)
		}
	} else {
		rec.Block = b.Number
		ok := false
		if f.mev {
			rec.Reward, rec.RType = bclone(f.mevVal), "mev"
			ok = f.mevPool
		} else if b.FeeRec == pool {
			rec.Reward, rec.RType = bclone(f.tip), "vanila"
			ok = true
		} else if subBefore {
			rec.Reward, rec.RType = bclone(f.tip), "vanila"
		}
		switch {
		case ok && !pExec:
			rec.Type = "okpoolproposalblskeys"
			m.tag("bls")
			m.tag("reward")
			m.fees.Add(m.fees, rec.Reward)
			m.income.Add(m.income, rec.Reward)
			m.proposed = append(m.proposed, rec)
		case ok:
			rec.Type = "okpoolproposal"
			m.tag("reward")
			m.income.Add(m.income, rec.Reward)
			v := m.vals[b.Proposer]
			if v == nil {
				v = &MVal{Status: stNot, Acc: big0(), Pend: big0(), Coll: big0(), Addr: pAddr, Key: pKey}
				m.vals[b.Proposer] = v
				m.tag("autosub")
			}
			switch v.Status {
			case stNot:
				m.setStatus(b.Proposer, stActive, "auto")
				v.Auto = true
				m.tag("autosub")
			case stRed:
				m.setStatus(b.Proposer, stYellow, "ok")
			case stYellow:
				m.setStatus(b.Proposer, stActive, "ok")
			case stActive:
				m.setStatus(b.Proposer, stActive, "ok")
			case stBanned:
				m.trans = append(m.trans, "banned-ok")
				m.tag("banned-ok")
			}
			m.share(b.Slot, rec.Reward, rec.RType)
			v.Acc.Add(v.Acc, v.Pend)
			v.Pend = big0()
			m.proposed = append(m.proposed, rec)
		default:
			rec.Type = "wrongfeerecipient"
			if m.subscribed(b.Proposer) {
				m.tag("wrongfee")
				m.setStatus(b.Proposer, stBanned, "wrongfee")
				m.forfeit(b.Slot, b.Proposer, "wrongfee")
				m.wrong = append(m.wrong, rec)
			}
		}
		for _, e := range b.Events {
			if e.Kind == "unsub" {
				m.unsubscribe(b, e)
			}
		}
		for i, e := range b.Events {
			if e.Kind == "ether" && i != f.mevEvent {
				m.tag("donation")
				m.income.Add(m.income, e.Amount)
				m.share(b.Slot, e.Amount, "donation")
				m.donations = append(m.donations, MDon{bclone(e.Amount), e.Addr, b.Number, uint(i)})
			}
		}
		tot := big0()
		for _, e := range b.Events {
			if e.Kind == "ban" {
				m.tag("ban")
				if m.subscribed(e.ID) {
					m.setStatus(e.ID, stBanned, "ban")
					tot.Add(tot, m.vals[e.ID].Pend)
					m.vals[e.ID].Pend = big0()
					m.tag("banned")
				} else {
					m.trans = append(m.trans, "ban-noop")
				}
			}
		}
		if tot.Sign() > 0 {
			m.share(b.Slot, tot, "ban")
		}
		for _, e := range b.Events {
			if e.Kind == "unban" {
				m.tag("unban")
				if m.banned(e.ID) {
					m.setStatus(e.ID, stActive, "unban")
				} else {
					m.trans = append(m.trans, "unban-noop")
				}
			}
		}
	}
	if b.Slot%1200 == 0 && b.Slot >= rules[m.cfg.Net].fork1 {
		m.cleanup(b.Slot)
	}
	m.lastSlot = b.Slot
	m.next++
	if !b.Missed {
		m.lastBlock = b.Number
	}
	return ""
}

func (m *Model) forfeit(slot, i uint64, why string) {
	p := m.vals[i].Pend
	m.vals[i].Pend = big0()
	m.share(slot, p, why)
}

func (m *Model) subscribe(b *BlockSpec, e EvSpec) {
	m.tag("sub")
	m.income.Add(m.income, e.Amount)
	toPool := func(why string) {
		m.fees.Add(m.fees, e.Amount)
		m.trans = append(m.trans, "sub-pool-"+why)
	}
	wv, ok := m.w.Vals[e.ID]
	if !ok {
		toPool("unknown")
		return
	}
	if !canJoin(wv.at(b.Slot).Status) {
		toPool("state")
		return
	}
	a, ok := credAddr(wv)
	if !ok {
		toPool("creds")
		return
	}
	if common.HexToAddress(a) != e.Addr {
		toPool("sender")
		return
	}
	if m.banned(e.ID) || m.subscribed(e.ID) {
		m.vals[e.ID].Acc.Add(m.vals[e.ID].Acc, e.Amount)
		m.trans = append(m.trans, "sub-return-"+m.vals[e.ID].Status)
		m.tag("returned")
		return
	}
	if e.Amount.Cmp(m.cfg.Collateral) < 0 {
		toPool("low")
		return
	}
	v := m.vals[e.ID]
	if v == nil {
		v = &MVal{Status: stNot, Acc: big0(), Pend: big0(), Coll: bclone(e.Amount), Addr: a, Key: "0x" + hex.EncodeToString(wv.Pub[:])}
		m.vals[e.ID] = v
	}
	v.Auto = false
	v.Pend.Add(v.Pend, e.Amount)
	m.setStatus(e.ID, stActive, "manual")
	m.tag("accepted")
}

func (m *Model) unsubscribe(b *BlockSpec, e EvSpec) {
	m.tag("unsub")
	wv, ok := m.w.Vals[e.ID]
	if !ok {
		m.trans = append(m.trans, "unsub-unknown")
		return
	}
	a, ok := credAddr(wv)
	if !ok {
		m.trans = append(m.trans, "unsub-creds")
		return
	}
	if common.HexToAddress(a) != e.Addr {
		m.trans = append(m.trans, "unsub-sender")
		return
	}
	if !m.subscribed(e.ID) {
		m.trans = append(m.trans, "unsub-noop")
		return
	}
	m.setStatus(e.ID, stNot, "unsub")
	m.forfeit(b.Slot, e.ID, "unsub")
	m.tag("left")
}

func (m *Model) cleanup(slot uint64) {
	if len(m.vals) == 0 {
		return
	}
	m.tag("cleanup")
	target := map[uint64]uint64{}
	el := rules[m.cfg.Net].electra
	if slot >= el { // a network without a known Electra slot has pending consolidations honoured too
		for _, p := range m.w.PendingAt(slot) {
			target[p[0]] = p[1]
		}
	}
	pot := big0()
	for _, i := range m.sorted() {
		v := m.vals[i]
		if isActiveState(m.w.Vals[i].at(slot).Status) || v.Pend.Sign() == 0 {
			continue
		}
		m.tag("swept")
		if m.subscribed(i) {
			m.setStatus(i, stNot, "exit")
		}
		p := v.Pend
		v.Pend = big0()
		t, ok := target[i]
		switch {
		case !ok:
			pot.Add(pot, p)
			m.trans = append(m.trans, "sweep-share")
		case m.vals[t] == nil:
			tv := m.w.Vals[t]
			a, _ := tv.Exec()
			m.vals[t] = &MVal{Status: stNot, Acc: big0(), Pend: bclone(p), Coll: big0(), Addr: a, Key: "0x" + hex.EncodeToString(tv.Pub[:])}
			m.trans = append(m.trans, "consol-new")
			m.tag("consol")
		case m.banned(t):
			pot.Add(pot, p)
			m.trans = append(m.trans, "consol-banned")
			m.tag("consol")
		default:
			m.vals[t].Pend.Add(m.vals[t].Pend, p)
			m.trans = append(m.trans, "consol-"+m.vals[t].Status)
			m.tag("consol")
		}
	}
	if pot.Sign() > 0 {
		m.share(slot, pot, "sweep")
	}
}

// ---------------------------------------------------------------- roots

func keccak(b ...[]byte) []byte { return crypto.Keccak256(b...) }

type MLeaf struct {
	Addr   common.Address
	Amount *big.Int
}

func (m *Model) leaves() []MLeaf {
	sum := map[common.Address]*big.Int{}
	for _, v := range m.vals {
		a := common.HexToAddress(v.Addr)
		if sum[a] == nil {
			sum[a] = big0()
		}
		sum[a].Add(sum[a], v.Acc)
	}
	var as []common.Address
	for a := range sum {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return strings.ToLower(as[i].Hex()) < strings.ToLower(as[j].Hex()) })
	out := []MLeaf{{common.HexToAddress(m.cfg.PoolFees), bclone(m.fees)}}
	for _, a := range as {
		out = append(out, MLeaf{a, sum[a]})
	}
	return out
}

func leafHash(l MLeaf) []byte {
	var u [32]byte
	l.Amount.FillBytes(u[:])
	return keccak(l.Addr[:], u[:])
}

func nodeHash(a, b []byte) []byte {
	if string(a) <= string(b) {
		return keccak(a, b)
	}
	return keccak(b, a)
}

// verify as the contract's MerkleProof library does
func verifyProof(leaf []byte, proof [][]byte, root []byte) bool {
	h := leaf
	for _, p := range proof {
		h = nodeHash(h, p)
	}
	return string(h) == string(root)
}
