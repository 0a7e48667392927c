package main

// A small script language for chain scenarios, for the demonstrations.

import (
	"fmt"
	"math/big"
	"os"
	"strings"

	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/sirupsen/logrus"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
)

type ChainCfg struct {
	Net          string
	PoolAddress  string
	PoolFees     string
	DeployedSlot uint64
	Checkpoint   uint64
	Fee          int
}

type Chain struct {
	Cfg   ChainCfg
	World *World
}

type Scene struct {
	*Chain
	Or     *oracle.Oracle
	OrCfg  *oracle.Config
	Next   uint64
	Number uint64
	dir    string
}

func gwei(x int64) *big.Int { return new(big.Int).Mul(big.NewInt(x), big.NewInt(1e9)) }

var collateral = big.NewInt(10000000000000000)

type fatalExit struct{}

func newScene(net string, deployed, ckpt uint64, fee int) *Scene {
	logrus.SetLevel(logrus.FatalLevel)
	d, err := os.MkdirTemp("", "demo-")
	if err != nil {
		panic(err)
	}
	oracle.StateFolder = d
	s := &Scene{dir: d, Next: deployed, Number: 500, Chain: &Chain{
		Cfg:   ChainCfg{Net: net, PoolAddress: addr(keyPool).Hex(), PoolFees: addr(keyPoolFees).Hex(), DeployedSlot: deployed, Checkpoint: ckpt, Fee: fee},
		World: &World{Net: net, ChainID: nets[net].ChainID, Vals: map[uint64]*WVal{}}}}
	s.Or, s.OrCfg = s.newOracle()
	return s
}

func (s *Scene) newOracle() (*oracle.Oracle, *oracle.Config) {
	c := s.Cfg
	cfg := &oracle.Config{ConsensusEndpoint: "http://cl", ExecutionEndpoint: "http://el", Network: c.Net, PoolAddress: c.PoolAddress, DeployedSlot: c.DeployedSlot, DeployedBlock: 500,
		CheckPointSizeInSlots: c.Checkpoint, PoolFeesPercentOver10000: c.Fee, PoolFeesAddress: c.PoolFees, DryRun: true, NumRetries: 1, CollateralInWei: bclone(collateral)}
	or := oracle.NewOracle(cfg)
	or.SetGetSetOfValidatorsFunc(s.World.GetSet)
	or.GetPendingConsolidationsFunc(s.World.GetPending)
	return or, cfg
}

// val adds a validator to the beacon chain
func (s *Scene) val(idx uint64, kind string, user int) {
	s.World.Vals[idx] = &WVal{Index: idx, Pub: mkPub(idx), Creds: mkCreds(kind, addr(keyUser0+user), idx), Timeline: []ValAt{{0, v1.ValidatorStateActiveOngoing, 32000000000}}}
}

func (s *Scene) status(idx, from uint64, st v1.ValidatorState, eb uint64) {
	v := s.World.Vals[idx]
	v.Timeline = append(v.Timeline, ValAt{from, st, eb})
}

func (s *Scene) fork(slot uint64) string {
	r := rules[s.Cfg.Net]
	if r.electra != 0 && slot >= r.electra {
		return "electra"
	}
	return "deneb"
}

// block makes a block of the next slot: proposed by idx, paying the pool
// amount with an MEV payment in the last transaction; nil: pays elsewhere
func (s *Scene) block(idx uint64, amount *big.Int, evs ...EvSpec) *BlockSpec {
	pool := addr(keyPool)
	b := &BlockSpec{Slot: s.Next, Proposer: idx, Number: s.Number, Fork: s.fork(s.Next), BaseFee: gwei(10), FeeRec: addr(keyBuilder0), Events: evs}
	o := addr(keyDonor0)
	b.Txs = append(b.Txs, TxSpec{Kind: 2, From: keyDonor1, To: &o, Value: big.NewInt(5), GasUsed: 21000, FeeCap: gwei(30), TipCap: gwei(2)})
	if amount != nil {
		b.Txs = append(b.Txs, TxSpec{Kind: 2, From: keyBuilder0, To: &pool, Value: amount, GasUsed: 21000, FeeCap: gwei(30), TipCap: gwei(0)})
		b.Events = append(b.Events, EvSpec{Kind: "ether", Addr: addr(keyBuilder0), Amount: amount, Tx: 1})
	}
	return b
}

// vanilla: the fee recipient is the pool
func (s *Scene) vanilla(idx uint64, evs ...EvSpec) *BlockSpec {
	b := s.block(idx, nil, evs...)
	b.FeeRec = addr(keyPool)
	return b
}

func (s *Scene) missed(idx uint64) *BlockSpec {
	return &BlockSpec{Slot: s.Next, Proposer: idx, Missed: true}
}

func sub(idx uint64, user int) EvSpec {
	return EvSpec{Kind: "sub", Addr: addr(keyUser0 + user), Amount: bclone(collateral), ID: idx}
}
func unsub(idx uint64, user int) EvSpec {
	return EvSpec{Kind: "unsub", Addr: addr(keyUser0 + user), ID: idx}
}
func donate(x *big.Int) EvSpec { return EvSpec{Kind: "ether", Addr: addr(keyDonor0), Amount: x} }

// try processes the block; the error, a fatal log or a panic is returned
func (s *Scene) try(b *BlockSpec) error { return s.tryOn(s.Or, b) }

func (s *Scene) tryOn(or *oracle.Oracle, b *BlockSpec) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	need := !b.Missed
	_, err = or.AdvanceStateToNextSlot(s.Full(b, need))
	return err
}

func (s *Scene) do(b *BlockSpec) {
	if err := s.try(b); err != nil {
		s.fail("slot %d: %v", b.Slot, err)
	}
	s.done(b)
}

func (s *Scene) done(b *BlockSpec) {
	s.Next++
	if !b.Missed {
		s.Number++
	}
}

// quiet processes blocks proposed by a validator outside the pool up to, not
// including, slot
func (s *Scene) quiet(slot uint64) {
	if s.World.Vals[999999] == nil {
		s.val(999999, "01", 70)
	}
	for s.Next < slot {
		s.do(s.block(999999, nil))
	}
}

func (s *Scene) v(idx uint64) *oracle.ValidatorInfo { return s.Or.State().Validators[idx] }

func (s *Scene) fail(f string, a ...interface{}) {
	fmt.Println("DEMO FAILS: " + fmt.Sprintf(f, a...))
	os.RemoveAll(s.dir)
	os.Exit(1)
}

func (s *Scene) want(what string, got, want interface{}) {
	if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
		s.fail("%s: got %s, want %s", what, g, w)
	}
}

func (s *Scene) ok() {
	os.RemoveAll(s.dir)
	fmt.Println("demo ok")
	os.Exit(0)
}

// owed is everything the pool owes
func (s *Scene) owed() *big.Int {
	st := s.Or.State()
	t := bclone(st.PoolAccumulatedFees)
	for _, v := range st.Validators {
		t.Add(t, v.PendingRewardsWei)
		t.Add(t, v.AccumulatedRewardsWei)
	}
	return t
}

func init() {
	logrus.StandardLogger().ExitFunc = func(int) { panic(fatalExit{}) }
}

var _ = strings.ToLower
var _ phase0.ValidatorIndex
