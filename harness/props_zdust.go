package main

// The legacy (pre fork1) split on dust: a dedicated, fixed input, see known_findings.txt.

import (
	"fmt"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
)

func dustChain() *Chain {
	start := uint64(5000000)
	c := &Chain{Name: "dust", Cfg: ChainCfg{Net: "mainnet", PoolAddress: addr(keyPool).Hex(), PoolFees: addr(keyPoolFees).Hex(), DeployedSlot: start, DeployedBlock: 100,
		Checkpoint: 100, Fee: 1000, Collateral: bi(1000)}}
	c.World = &World{Net: "mainnet", ChainID: 1, Vals: map[uint64]*WVal{}}
	b := &BlockSpec{Slot: start, Proposer: 1, Fork: "capella", BaseFee: bi(7), Number: 101, FeeRec: addr(keyBuilder0)}
	for i := uint64(1); i <= 4; i++ {
		c.World.Vals[i] = &WVal{Index: i, Pub: mkPub(i), Creds: mkCreds("01", addr(keyUser0+int(i)), i), Timeline: []ValAt{{0, v1.ValidatorStateActiveOngoing, 32e9}}}
		if i == 1 {
			continue
		}
		to := addr(keyPool)
		b.Txs = append(b.Txs, TxSpec{Kind: 2, From: keyDonor0, To: &to, Value: bi(1000), Data: []byte{1}, GasUsed: 50000, FeeCap: bi(10), TipCap: bi(1)})
		b.Events = append(b.Events, EvSpec{Kind: "sub", ID: i, Addr: addr(keyUser0 + int(i)), Amount: bi(1000), Tx: len(b.Txs) - 1})
	}
	to := addr(keyPool)
	d := &BlockSpec{Slot: start + 1, Proposer: 1, Fork: "capella", BaseFee: bi(7), Number: 102, FeeRec: addr(keyBuilder0)}
	d.Txs = []TxSpec{{Kind: 2, From: keyDonor0, To: &to, Value: bi(1), GasUsed: 30000, FeeCap: bi(10), TipCap: bi(1)}}
	d.Events = []EvSpec{{Kind: "ether", Addr: addr(keyDonor0), Amount: bi(1), Tx: 0}}
	c.Blocks = []*BlockSpec{b, d}
	return c
}

func init() {
	for _, id := range []string{"C01", "C02"} {
		chk := checks[id]
		run := chk.Run
		chk.Run = func(c *Ctx) {
			if c.Only == "dust" || (c.Only == "" && c.Shard == 0) {
				ch := dustChain()
				or, _ := ch.NewOracle()
				for _, b := range ch.Blocks {
					o := guard(func() {
						if _, err := or.AdvanceStateToNextSlot(ch.Full(b, true)); err != nil {
							panic(err)
						}
					})
					if o.Bad() {
						c.R.Violate("dust-refused", "dust", "a 1 wei donation before fork1 is refused: "+o.String(), nil)
						return
					}
				}
				c.R.Count("dust_cases", 1)
				for i, v := range or.State().Validators {
					// the members hold 1000 wei each; a share of a donation cannot be negative
					if v.PendingRewardsWei.Cmp(bi(1000)) < 0 {
						c.R.Violate("prefork1-dust-negative-share", "dust", fmt.Sprintf("a donation of 1 wei changed the pending balance of validator %d from 1000 to %s", i, v.PendingRewardsWei), nil)
						break
					}
				}
			}
			run(c)
		}
	}
}
