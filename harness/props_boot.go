package main

// C27: the configuration that the program derives from the nodes and the
// contract when it starts.

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
)

func init() {
	register(&Check{ID: "C27", Rule: "random deployments (network, genesis, block, shape of the deployment block, contract values) and inconsistent ones, each with every startup request failing in every way: the derived configuration is that of the chain or the start is refused",
		Assumptions: []string{"of the contract creations of the deployment block only the pool's carries decodable initialization data, and its fee is at most 10000", "a start that ends in a crash counts as refused"},
		Run:         func(c *Ctx) { c.cases(c.N(640, 8000), func(i int, name string) { c27case(c, i, name) }) },
		MinEvals:    1500, MinCounters: map[string]int64{"configs_compared": 150, "inconsistent_refused": 200, "faults_refused": 1000, "fee_direct": 10, "fee_proxy": 10, "fee_default": 5, "no_default": 2}})
}

// deployTxs builds a deployment block around the pool's initialization
func deployTxs(r *rand.Rand, n *Node, pool common.Address, how string, fee int, ckpt uint64) []*types.Transaction {
	nonce := uint64(0)
	signer := types.LatestSignerForChainID(new(big.Int).SetUint64(n.ELChain))
	junk := func(k int) []byte { b := make([]byte, k); r.Read(b); return b }
	pack := func(f int) []byte {
		d, err := poolABI.Pack("initialize", addr(keyGov), bclone(n.Con.Collateral), bi(int64(f)), n.Con.FeeRec, ckpt, uint64(1+r.Intn(9)))
		if err != nil {
			panic(err)
		}
		return d
	}
	mk := func(to *common.Address, data []byte) *types.Transaction {
		nonce++
		var in types.TxData
		switch r.Intn(3) {
		case 0:
			in = &types.LegacyTx{Nonce: nonce, To: to, Gas: 100000, GasPrice: bi(30), Value: bi(0), Data: data}
		case 1:
			in = &types.AccessListTx{ChainID: new(big.Int).SetUint64(n.ELChain), Nonce: nonce, To: to, Gas: 100000, GasPrice: bi(30), Value: bi(0), Data: data}
		default:
			in = &types.DynamicFeeTx{ChainID: new(big.Int).SetUint64(n.ELChain), Nonce: nonce, To: to, Gas: 100000, GasFeeCap: bi(30), GasTipCap: bi(1), Value: bi(0), Data: data}
		}
		tx, err := types.SignNewTx(key(keyGov).Priv, signer, in)
		if err != nil {
			panic(err)
		}
		return tx
	}
	sel := poolABI.Methods["initialize"].ID
	other := addr(keyDonor0)
	// decoys that do not initialize the pool
	decoy := func() *types.Transaction {
		switch r.Intn(7) {
		case 0: // a plain transfer
			return mk(&other, nil)
		case 1: // another contract's initialization
			return mk(&other, pack(r.Intn(10001)))
		case 2: // the implementation, whose code dispatches on the selector
			b := append(junk(40+r.Intn(300)), 0x63)
			b = append(append(b, sel...), 0x14, 0x61)
			b = append(b, bytes.Repeat([]byte{0xff}, 200)...)
			return mk(nil, append(b, junk(r.Intn(300))...))
		case 3: // creation data that ends with the selector, or within it
			return mk(nil, append(junk(r.Intn(200)), sel[:1+r.Intn(4)]...))
		case 4: // another method of the pool
			d, _ := poolABI.Pack("subscribeValidator", uint64(r.Intn(100)))
			return mk(&pool, d)
		case 5: // a donation, possibly with a few bytes of data
			return mk(&pool, junk(r.Intn(4)))
		default:
			return mk(nil, junk(r.Intn(100)))
		}
	}
	var txs []*types.Transaction
	for k := r.Intn(4); k > 0; k-- {
		txs = append(txs, decoy())
	}
	switch how {
	case "direct":
		d := pack(fee)
		if r.Intn(3) == 0 {
			d = append(d, junk(r.Intn(40))...)
		}
		txs = append(txs, mk(&pool, d))
	case "proxy": // TransparentUpgradeableProxy(logic, admin, data)
		code := junk(r.Intn(600))
		for k := r.Intn(3); k > 0; k-- { // whose code has the selector too
			code = append(append(code, 0x63), sel...)
			code = append(append(code, bytes.Repeat([]byte{0xff}, 200)...), junk(r.Intn(100))...)
		}
		d := append(code, common.LeftPadBytes(addr(keyDonor0).Bytes(), 32)...)
		d = append(d, common.LeftPadBytes(addr(keyGov).Bytes(), 32)...)
		d = append(d, common.LeftPadBytes([]byte{0x60}, 32)...)
		in := pack(fee)
		d = append(d, common.LeftPadBytes([]byte{byte(len(in))}, 32)...)
		d = append(d, in...)
		if r.Intn(4) > 0 {
			d = append(d, make([]byte, (32-len(in)%32)%32)...)
		}
		txs = append(txs, mk(nil, d))
	}
	for k := r.Intn(4); k > 0; k-- {
		txs = append(txs, decoy())
	}
	return txs
}

func randU64(r *rand.Rand, lo, hi uint64) uint64 { return lo + uint64(r.Int63n(int64(hi-lo))) }

func c27case(c *Ctx, i int, name string) {
	r := chainRand(c, "C27", i)
	p := apiProfile(r)
	p.Busy, p.Cleanups, p.Net = 3, 0, ""
	ch := GenChain(r, p)
	net := pick(r, "mainnet", "mainnet", "holesky", "hoodi", "hoodi", "goerli")
	chainIDs := map[string]uint64{"mainnet": 1, "goerli": 5, "holesky": 17000, "hoodi": 560048}
	how := pick(r, "direct", "proxy", "proxy", "none")
	fee := pick(r, randFee(r), r.Intn(10001), 0, 10000)
	pool := common.HexToAddress(ch.Cfg.PoolAddress)
	slot := randU64(r, 1, 20000000)
	if r.Intn(4) == 0 {
		slot = randU64(r, 1, 300)
	}
	blk := randU64(r, 1, slot+1)
	col := new(big.Int).Rand(r, new(big.Int).Lsh(bi(1), uint(1+r.Intn(255))))
	ckpt := pick(r, randU64(r, 1, 100), randU64(r, 1, 60000), randU64(r, 1, 1<<62))
	ch.Cfg = ChainCfg{Net: net, PoolAddress: pick(r, pool.Hex(), strings.ToLower(pool.Hex())), PoolFees: addr(pick(r, keyPoolFees, keyDonor1, keyGov)).Hex(),
		DeployedSlot: slot, DeployedBlock: blk, Checkpoint: ckpt, Fee: fee, Collateral: col}
	ch.World.ChainID, ch.World.Net = chainIDs[net], net
	mkb := func(slot, num uint64) *BlockSpec {
		return &BlockSpec{Slot: slot, Number: num, Fork: forkNames[r.Intn(len(forkNames))], FeeRec: addr(keyBuilder0), BaseFee: bi(7)}
	}
	ch.Blocks = []*BlockSpec{mkb(slot, blk), mkb(slot+1, blk+1), mkb(slot+2, blk+2)}
	if slot > 1 && blk > 1 {
		ch.Blocks = append([]*BlockSpec{mkb(slot-1, blk-1)}, ch.Blocks...)
	}
	n := NewNode(ch)
	n.Genesis = randU64(r, 1600000000, 1700000000)
	n.built(slot)
	n.SSZ = r.Intn(2) == 0
	n.DeployTxs = deployTxs(r, n, pool, how, fee, ckpt)
	if r.Intn(3) == 0 {
		n.DeployTime = n.Genesis + slot*12 + uint64(r.Intn(12))
	}
	for k := r.Intn(4); k > 0; k-- {
		n.Con.Members = append(n.Con.Members, addr(100+k))
	}
	// later changes of the fee by the governance do not change the initial one
	if r.Intn(2) == 0 {
		n.Con.Fee = bi(int64(r.Intn(10001)))
	}
	n.Start()
	defer n.Stop()
	want := ch.Cfg
	refuse := ""
	switch {
	case how == "none" && net == "mainnet":
		want.Fee = 700
		c.R.Count("fee_default", 1)
	case how == "none" && net == "hoodi":
		want.Fee = 1000
		c.R.Count("fee_default", 1)
	case how == "none":
		refuse = "no default fee"
		c.R.Count("no_default", 1)
	default:
		c.R.Count("fee_"+how, 1)
	}
	dry := r.Intn(2) == 0
	boot := func() (cfg *oracle.Config, why string) {
		cli := n.Cli()
		cli.DryRun = dry
		if !dry {
			cli.UpdaterKeyFile, cli.UpdaterKeyPass = "file", "pass"
		}
		var on *oracle.Onchain
		var err error
		var o Outcome
		if dry {
			o = guard(func() { on, err = oracle.NewOnchain(cli, nil) })
		} else {
			o = guard(func() { on, err = oracle.NewOnchain(cli, key(keyUpdater).Priv) })
		}
		if o.Bad() {
			return nil, fmt.Sprint(o.Fatal, o.Panic)
		}
		if err != nil {
			return nil, err.Error()
		}
		if on == nil {
			c.R.Violate("no-error-no-client", name, "connecting to the nodes gives neither a client nor an error", map[string]interface{}{"cl_chain": n.CLChain, "el_chain": n.ELChain})
			return nil, "nil"
		}
		if o = guard(func() { cfg = on.GetConfigFromContract(cli) }); o.Bad() {
			return nil, fmt.Sprint(o.Fatal, o.Panic)
		}
		return cfg, ""
	}
	judge := func(cfg *oracle.Config, key string) bool {
		bad := func(f string, g, w interface{}) bool {
			if fmt.Sprint(g) == fmt.Sprint(w) {
				return false
			}
			c.R.Violate("config-"+f+key, name, fmt.Sprintf("%s is configured as %v, the chain says %v (initialization: %s)", f, g, w, how), map[string]interface{}{"chain": fmt.Sprintf("%+v", want), "config": fmt.Sprintf("%+v", *cfg)})
			return true
		}
		return !(bad("network", cfg.Network, want.Net) || bad("pool", cfg.PoolAddress, want.PoolAddress) || bad("deployed-slot", cfg.DeployedSlot, want.DeployedSlot) || bad("deployed-block", cfg.DeployedBlock, want.DeployedBlock) ||
			bad("checkpoint", cfg.CheckPointSizeInSlots, want.Checkpoint) || bad("fee", cfg.PoolFeesPercentOver10000, want.Fee) || bad("fee-recipient", strings.ToLower(cfg.PoolFeesAddress), strings.ToLower(want.PoolFees)) ||
			bad("collateral", bstr(cfg.CollateralInWei), bstr(want.Collateral)) || bad("dry-run", cfg.DryRun, dry) || bad("endpoints", cfg.ConsensusEndpoint+cfg.ExecutionEndpoint, n.CLURL+n.ELURL))
	}
	cfg, why := boot()
	c.R.Eval(1)
	c.R.Seen(fmt.Sprint(net, how, fee == 0, len(n.DeployTxs), dry, n.SSZ, refuse != "", n.DeployTime != 0, col.BitLen()/64, ckpt > 1<<32))
	if refuse != "" {
		if cfg != nil {
			c.R.Violate("accepted:"+refuse, name, "the start is not refused although there is no initial fee and no default for "+net, fmt.Sprintf("%+v", *cfg))
		}
		return
	}
	if cfg == nil {
		c.R.Violate("refused", name, "a consistent chain is refused: "+why, map[string]interface{}{"chain": fmt.Sprintf("%+v", want), "init": how})
		return
	}
	c.R.Count("configs_compared", 1)
	if !judge(cfg, "") {
		return
	}
	if net != "goerli" {
		or := oracle.NewOracle(cfg)
		fresh := *ch
		fresh.Cfg = want
		m := NewModel(&fresh)
		if ds := compareState(or.State(), m); len(ds) > 0 {
			c.R.Violate("fresh-"+ds[0].Field, name, "a fresh oracle of the derived configuration: "+ds[0].String(), ds)
		}
	}
	n.mu.Lock()
	log := append([]Req{}, n.Log...)
	n.KeepLog = false
	n.mu.Unlock()

	// inconsistent chains
	wrong := func(what string, set func(), unset func()) {
		n.mu.Lock()
		set()
		n.mu.Unlock()
		cfg, why := boot()
		n.mu.Lock()
		unset()
		n.mu.Unlock()
		c.R.Eval(1)
		c.R.Seen(fmt.Sprint("wrong", what, firstWords(why, 6)))
		if cfg != nil {
			c.R.Violate("accepted:"+what, name, "the start is not refused: "+what, map[string]interface{}{"config": fmt.Sprintf("%+v", *cfg), "chain": fmt.Sprintf("%+v", want), "cl_chain": n.CLChain, "el_chain": n.ELChain})
			return
		}
		c.R.Count("inconsistent_refused", 1)
	}
	id := chainIDs[net]
	others := []uint64{1, 5, 17000, 560048, 100, 0, 1337, id + 1}
	o := others[r.Intn(len(others))]
	if o != id {
		wrong("nodes of different chains", func() { n.ELChain = o }, func() { n.ELChain = id })
		wrong("nodes of different chains", func() { n.CLChain = o }, func() { n.CLChain = id })
	}
	u := pick(r, uint64(0), 2, 3, 4, 100, 137, 11155111, 560049, id+1<<40)
	wrong("unsupported chain", func() { n.CLChain, n.ELChain = u, u }, func() { n.CLChain, n.ELChain = id, id })
	spec := n.spc[slot]
	wrong("no beacon block at the deployment slot", func() { cl := *spec; cl.Missed = true; n.spc[slot] = &cl }, func() { n.spc[slot] = spec })
	dt := n.DeployTime
	at := n.Genesis + slot*12
	t := pick(r, at+12, at+24, n.Genesis-1-uint64(r.Intn(1000)), at+12*uint64(50+r.Intn(1000)))
	if slot > 1 && blk > 1 && r.Intn(2) == 0 {
		t = at - 1
	}
	wrong("the time of the deployment block is of another slot", func() { n.DeployTime = t }, func() { n.DeployTime = dt })
	alt := blk + uint64(1+r.Intn(5))
	hashed := n.bld[slot]
	wrong("the beacon block at the deployment slot has another number", func() {
		cl := *spec
		cl.Number = alt
		n.spc[slot] = &cl
		b := n.C.build(&cl)
		b.Header = hashed.Header
		n.bld[slot] = b
	}, func() { n.spc[slot] = spec; n.bld[slot] = hashed })
	wrong("the deployment block does not exist", func() { n.Con.DeployBlock = blk + 1000 }, func() { n.Con.DeployBlock = blk })

	// every startup request fails in some way
	seen := map[string]int{}
	for _, q := range log {
		k := q.Side + q.Kind + q.Arg
		seen[k]++
		if seen[k] > 2 {
			continue
		}
		fs := faultsFor(r, q)
		for z := c.N(2, 6); z > 0; z-- {
			f := fs[r.Intn(len(fs))]
			nth, cnt := seen[k], 0
			n.mu.Lock()
			n.Fault = func(x Req) *Fault {
				if x.Side+x.Kind+x.Arg == k {
					cnt++
					if cnt >= nth {
						return f
					}
				}
				return nil
			}
			n.mu.Unlock()
			cfg, why := boot()
			n.mu.Lock()
			n.Fault = nil
			n.mu.Unlock()
			c.R.Eval(1)
			c.R.Seen(fmt.Sprint("fault", faultKey(q, f), cfg != nil))
			if cfg == nil {
				c.R.Count("faults_refused", 1)
				_ = why
				continue
			}
			c.R.Count("faults_harmless", 1)
			judge(cfg, ":"+faultKey(q, f))
		}
	}
}
