package main

// Drives the real oracle over a chain and compares it with the reference after
// every slot.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
)

func (c *Chain) NewConfig() *oracle.Config {
	return &oracle.Config{
		ConsensusEndpoint: "http://cl", ExecutionEndpoint: "http://el",
		Network: c.Cfg.Net, PoolAddress: c.Cfg.PoolAddress, DeployedSlot: c.Cfg.DeployedSlot, DeployedBlock: c.Cfg.DeployedBlock,
		CheckPointSizeInSlots: c.Cfg.Checkpoint, PoolFeesPercentOver10000: c.Cfg.Fee, PoolFeesAddress: c.Cfg.PoolFees, DryRun: true, NumRetries: 1,
		CollateralInWei: bclone(c.Cfg.Collateral),
	}
}

func (c *Chain) NewOracle() (*oracle.Oracle, *oracle.Config) {
	cfg := c.NewConfig()
	or := oracle.NewOracle(cfg)
	or.SetGetSetOfValidatorsFunc(c.World.GetSet)
	or.GetPendingConsolidationsFunc(c.World.GetPending)
	return or, cfg
}

type Diff struct {
	Field string `json:"field"`
	Val   uint64 `json:"val,omitempty"`
	Got   string `json:"got"`
	Want  string `json:"want"`
}

func (d Diff) String() string {
	v := ""
	if d.Val != 0 {
		v = fmt.Sprintf(" of validator %d", d.Val)
	}
	return fmt.Sprintf("%s%s is %s, want %s", d.Field, v, d.Got, d.Want)
}

func bstr(b *big.Int) string {
	if b == nil {
		return "nil"
	}
	return b.String()
}

func compareState(s *oracle.OracleState, m *Model) []Diff {
	var out []Diff
	d := func(f string, v uint64, g, w interface{}) {
		gs, ws := fmt.Sprint(g), fmt.Sprint(w)
		if gs != ws {
			out = append(out, Diff{f, v, gs, ws})
		}
	}
	idx := map[uint64]bool{}
	for i := range s.Validators {
		idx[i] = true
	}
	for i := range m.vals {
		idx[i] = true
	}
	var ids []uint64
	for i := range idx {
		ids = append(ids, i)
	}
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	for _, i := range ids {
		g, w := s.Validators[i], m.vals[i]
		if g == nil || w == nil {
			d("tracked", i, g != nil, w != nil)
			continue
		}
		d("status", i, g.ValidatorStatus.String(), w.Status)
		d("acc", i, bstr(g.AccumulatedRewardsWei), bstr(w.Acc))
		d("pend", i, bstr(g.PendingRewardsWei), bstr(w.Pend))
		d("coll", i, bstr(g.CollateralWei), bstr(w.Coll))
		d("addr", i, strings.ToLower(g.WithdrawalAddress), strings.ToLower(w.Addr))
		d("key", i, strings.ToLower(g.ValidatorKey), strings.ToLower(w.Key))
		d("index", i, g.ValidatorIndex, i)
		d("subtype", i, g.SubscriptionType == oracle.Auto, w.Auto)
	}
	d("fees", 0, bstr(s.PoolAccumulatedFees), bstr(m.fees))
	d("feepct", 0, s.PoolFeesPercentOver10000, m.feePct)
	recs := func(name string, g []oracle.SummarizedBlock, w []MRec) {
		d(name+"#", 0, len(g), len(w))
		n := len(g)
		if len(w) < n {
			n = len(w)
		}
		// only the tail can have changed
		from := 0
		if n > 3 {
			from = n - 3
		}
		for i := from; i < n; i++ {
			d(name, w[i].Val, recStr(g[i]), mrecStr(w[i]))
		}
	}
	recs("proposed", s.ProposedBlocks, m.proposed)
	recs("missed", s.MissedBlocks, m.missed)
	recs("wrongfee", s.WrongFeeBlocks, m.wrong)
	d("donations#", 0, len(s.Donations), len(m.donations))
	n := len(s.Donations)
	if len(m.donations) < n {
		n = len(m.donations)
	}
	for i := 0; i < n; i++ {
		if n-i > 4 {
			continue
		}
		g, w := s.Donations[i], m.donations[i]
		d("donation", 0, fmt.Sprint(g.DonationAmount, " ", g.Raw.BlockNumber, " ", g.Sender.Hex(), " ", g.Raw.Index), fmt.Sprint(w.Amount, " ", w.Block, " ", w.From.Hex(), " ", w.Log))
	}
	d("subevents#", 0, len(s.SubscriptionEvents), m.nSub)
	d("unsubevents#", 0, len(s.UnsubscriptionEvents), m.nUnsub)
	d("etherevents#", 0, len(s.EtherReceivedEvents), m.nEther)
	d("latestslot", 0, s.LatestProcessedSlot, m.lastSlot)
	d("latestblock", 0, s.LatestProcessedBlock, m.lastBlock)
	d("nextslot", 0, s.NextSlotToProcess, m.next)
	return out
}

func recStr(b oracle.SummarizedBlock) string {
	return fmt.Sprint(b.Slot, " ", b.Block, " ", b.ValidatorIndex, " ", strings.ToLower(b.ValidatorKey), " ", strings.ToLower(b.WithdrawalAddress), " ", b.BlockType.String(), " ", b.RewardType.String(), " ", bstr(b.Reward))
}
func mrecStr(b MRec) string {
	return fmt.Sprint(b.Slot, " ", b.Block, " ", b.Val, " ", b.Key, " ", strings.ToLower(b.Addr), " ", b.Type, " ", b.RType, " ", bstr(b.Reward))
}

// Step outcome seen by a monitor
type StepInfo struct {
	C     *Chain
	B     *BlockSpec
	M     *Model // after the step
	Or    *oracle.Oracle
	Cfg   *oracle.Config
	Diffs []Diff
	Err   error
	Out   Outcome
	Prev  map[uint64]PrevVal
	PrevF *big.Int
}

type PrevVal struct {
	Status    string
	Acc, Pend *big.Int
}

func snapVals(or *oracle.Oracle) map[uint64]PrevVal {
	out := map[uint64]PrevVal{}
	for i, v := range or.State().Validators {
		out[i] = PrevVal{v.ValidatorStatus.String(), bclone(v.AccumulatedRewardsWei), bclone(v.PendingRewardsWei)}
	}
	return out
}

// Drive runs the chain; monitor is called after every slot and returns false to stop.
func (c *Chain) Drive(withExec bool, monitor func(s *StepInfo) bool) {
	or, cfg := c.NewOracle()
	m := NewModel(c)
	c.DriveFrom(or, cfg, m, c.Blocks, monitor)
}

func (c *Chain) DriveFrom(or *oracle.Oracle, cfg *oracle.Config, m *Model, blocks []*BlockSpec, monitor func(s *StepInfo) bool) {
	pool := common.HexToAddress(c.Cfg.PoolAddress)
	for _, b := range blocks {
		// the fetcher asks for the header and receipts only when they matter
		need := m.subscribed(b.Proposer) || b.FeeRec == pool || b.Slot%3 == 0
		if !need {
			f := c.facts(b)
			need = f.mevPool
		}
		prev := snapVals(or)
		prevF := bclone(or.State().PoolAccumulatedFees)
		si := &StepInfo{C: c, B: b, M: m, Or: or, Cfg: cfg, Prev: prev, PrevF: prevF}
		m.Step(c, b)
		si.Out = guard(func() {
			fb := c.Full(b, need)
			_, si.Err = or.AdvanceStateToNextSlot(fb)
		})
		if si.Out.Bad() {
			si.Diffs = []Diff{{Field: "crash", Got: si.Out.String(), Want: "block accepted"}}
		} else if si.Err != nil {
			si.Diffs = []Diff{{Field: "error", Got: si.Err.Error(), Want: "block accepted"}}
		} else {
			si.Diffs = compareState(or.State(), m)
		}
		if !monitor(si) || len(si.Diffs) > 0 {
			return
		}
	}
}

func diffStrings(ds []Diff) []string {
	var out []string
	for i, d := range ds {
		if i == 8 {
			out = append(out, fmt.Sprintf("... %d more", len(ds)-8))
			break
		}
		out = append(out, d.String())
	}
	return out
}

func hasTag(m *Model, ts ...string) bool {
	for _, t := range ts {
		if m.tags[t] {
			return true
		}
	}
	return false
}

func hasField(ds []Diff, fs ...string) bool {
	for _, d := range ds {
		for _, f := range fs {
			if d.Field == f || d.Field == f+"#" {
				return true
			}
		}
	}
	return false
}
