package main

// Biased random chains. The generator steps the reference model so that it can
// aim at interesting states; what it emits is pure data.

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
)

func init() {
	for k := range oracle.WhitelistedBuilders {
		oracle.WhitelistedBuilders[k] = append(oracle.WhitelistedBuilders[k], addr(keyWhitelist).Hex())
	}
}

type Profile struct {
	Busy      int    // busy slots
	Cleanups  int    // quiet stretches that lead to a cleanup slot
	Net       string // "" any
	Start     uint64 // 0 any
	PMissed   int    // weights of block kinds
	PMev      int
	PVan      int
	PWrong    int
	PIdle     int
	RSub      int // events per 100 blocks
	RUnsub    int
	RDon      int
	RBan      int
	RUnban    int
	RConf     int // restating config events
	Exits     int // % of validators that exit
	Consol    int // % of exiting validators that consolidate
	NVals     int // 0: random
	ZeroEB    bool
	Aliens    bool // inconsistent/unscheduled blocks are added by the caller
	Fee       int  // -1: random
	NearFee   bool // start shortly before the scheduled fee change
	SmallAmts bool
	Dust      bool // allow rewards the pre-fork1 rule cannot split
	Ckpt      uint64
	NoBad     bool // every validator has a well formed address
	BaseFrac  bool
	SmallIdx  bool // indices below 60, so that whole registries can be served
	Crowd     int  // so many further members (0: sometimes, -1: none)
}

func defProfile() Profile {
	return Profile{Busy: 70, Cleanups: 1, PMissed: 20, PMev: 25, PVan: 20, PWrong: 6, PIdle: 14, RSub: 40, RUnsub: 20, RDon: 30, RBan: 10, RUnban: 12, RConf: 3, Exits: 30, Consol: 40, Fee: -1}
}

var startPoints = map[string][]uint64{
	"mainnet": {10188220, 10188220, 11649024, 11649024, 9000000, 10500000, 12000000, 14082460, 14082460, 14200000, exceptionSlot},
	"holesky": {2720632, 2720632, 2000000, 3000000, 5000000},
	"hoodi":   {65536, 65536, 40000, 200000, 2801050, 2801050, 2900000, 1200},
}

func randAmount(r *rand.Rand, small bool) *big.Int {
	switch r.Intn(9) {
	case 0:
		return bi(int64(r.Intn(12)))
	case 1:
		return bi(int64(9990 + r.Intn(30)))
	case 2:
		return bi(int64(r.Intn(1000000)))
	case 3:
		if small {
			return bi(int64(r.Intn(300)))
		}
		x := new(big.Int).Lsh(bi(1), uint(40+r.Intn(50)))
		return x.Add(x, bi(int64(r.Intn(1000))))
	default:
		// 0.0001 .. 10 ether with odd wei
		return new(big.Int).Add(new(big.Int).Mul(bi(int64(1+r.Intn(100000))), bi(100000000000000)), bi(int64(r.Intn(1000000007))))
	}
}

func randFee(r *rand.Rand) int {
	return pick(r, 0, 1, 500, 700, 700, 1000, 1000, 333, 1999, 5000, 9999, 10000, r.Intn(10001))
}

func randIndex(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return uint64(r.Intn(50))
	case 1:
		return uint64(r.Intn(2000))
	default:
		return uint64(100000 + r.Intn(1500000))
	}
}

func ebAt(r *rand.Rand, zero bool) uint64 {
	if zero && r.Intn(3) == 0 {
		return 0
	}
	return pick(r, uint64(32e9), 32e9, 32e9, 2048e9, 64e9, 33e9, 31e9, 1e9, 1000e9, 100e9, 1, 3)
}

func GenWorld(r *rand.Rand, net Net, p Profile, lo, hi uint64) *World {
	w := &World{Net: net.Name, ChainID: net.ChainID, Vals: map[uint64]*WVal{}}
	n := p.NVals
	if n == 0 {
		n = 6 + r.Intn(9)
	}
	users := 3 + r.Intn(5)
	span := hi - lo + 1
	var stable, exiting []uint64
	for len(w.Vals) < n {
		i := randIndex(r)
		if p.SmallIdx {
			i = uint64(r.Intn(58))
		}
		if w.Vals[i] != nil {
			continue
		}
		kind := pick(r, "01", "01", "01", "01", "02", "02", "02", "bls", "bad", "03")
		if p.NoBad && (kind == "bad" || kind == "03" || kind == "bls") {
			kind = "01"
		}
		if len(w.Vals) < 3 {
			kind = pick(r, "01", "02")
		}
		v := &WVal{Index: i, Pub: mkPub(i), Creds: mkCreds(kind, addr(keyUser0+r.Intn(users)), i)}
		st := v1.ValidatorStateActiveOngoing
		if r.Intn(100) < 12 && len(w.Vals) >= 3 {
			st = pick(r, v1.ValidatorStatePendingInitialized, v1.ValidatorStatePendingQueued, v1.ValidatorStateActiveExiting, v1.ValidatorStateActiveSlashed,
				v1.ValidatorStateExitedUnslashed, v1.ValidatorStateExitedSlashed, v1.ValidatorStateWithdrawalPossible, v1.ValidatorStateWithdrawalDone, v1.ValidatorStateUnknown)
		}
		v.Timeline = []ValAt{{0, st, ebAt(r, p.ZeroEB)}}
		// balance changes
		for k := r.Intn(5); k > 0; k-- {
			v.Timeline = append(v.Timeline, ValAt{lo + uint64(r.Int63n(int64(span))), keepStatus, ebAt(r, p.ZeroEB)})
		}
		exits := r.Intn(100) < p.Exits && len(w.Vals) >= 2
		if exits {
			at := lo + uint64(r.Int63n(int64(span)))
			v.Timeline = append(v.Timeline, ValAt{at, pick(r, v1.ValidatorStateExitedUnslashed, v1.ValidatorStateExitedSlashed, v1.ValidatorStateWithdrawalPossible, v1.ValidatorStateWithdrawalDone), keepEB})
			if at+10 < hi {
				v.Timeline = append(v.Timeline, ValAt{at - uint64(r.Intn(5)), v1.ValidatorStateActiveExiting, keepEB})
			}
			exiting = append(exiting, i)
		} else if st == v1.ValidatorStateActiveOngoing {
			stable = append(stable, i)
		}
		sortTimeline(v)
		w.Vals[i] = v
	}
	for k := 0; k < p.Crowd; k++ {
		i := uint64(100000 + k*(1+k%3))
		if p.SmallIdx {
			i = uint64(60 + k)
		}
		for w.Vals[i] != nil {
			i++
		}
		a := addr(keyUser0 + r.Intn(users))
		if r.Intn(3) > 0 {
			a = addr(1000 + k)
		}
		v := &WVal{Index: i, Pub: mkPub(i), Creds: mkCreds(pick(r, "01", "02"), a, i)}
		v.Timeline = []ValAt{{0, v1.ValidatorStateActiveOngoing, ebAt(r, p.ZeroEB)}}
		if r.Intn(100) < p.Exits {
			v.Timeline = append(v.Timeline, ValAt{lo + uint64(r.Int63n(int64(span))), v1.ValidatorStateExitedUnslashed, keepEB})
			exiting = append(exiting, i)
		} else {
			stable = append(stable, i)
		}
		sortTimeline(v)
		w.Vals[i] = v
		w.Crowd = append(w.Crowd, i)
	}
	// consolidations: source exits, target is a stable validator with execution credentials
	for _, s := range exiting {
		if _, ok := w.Vals[s].Exec(); !ok || r.Intn(100) >= p.Consol {
			continue
		}
		var ts []uint64
		for _, t := range stable {
			if _, ok := w.Vals[t].Exec(); ok {
				ts = append(ts, t)
			}
		}
		if len(ts) == 0 {
			break
		}
		w.Consols = append(w.Consols, Consol{lo, hi + 1, s, ts[r.Intn(len(ts))]})
	}
	return w
}

func sortTimeline(v *WVal) {
	sort.SliceStable(v.Timeline, func(a, b int) bool { return v.Timeline[a].From < v.Timeline[b].From })
	for i := range v.Timeline {
		if i > 0 && v.Timeline[i].Status == keepStatus {
			v.Timeline[i].Status = v.Timeline[i-1].Status
		}
		if i > 0 && v.Timeline[i].EB == keepEB {
			v.Timeline[i].EB = v.Timeline[i-1].EB
		}
	}
}

// markers in a timeline under construction: same as before
const keepStatus = v1.ValidatorState(-1)
const keepEB = ^uint64(0)

type genState struct {
	r     *rand.Rand
	p     Profile
	c     *Chain
	m     *Model
	num   uint64
	users []common.Address
	idle  []uint64 // validators used for quiet slots

	joined int // of the crowd
}

func GenChain(r *rand.Rand, p Profile) *Chain {
	netName := p.Net
	if netName == "" {
		netName = pick(r, "mainnet", "mainnet", "holesky", "hoodi")
	}
	if p.Crowd == 0 && !p.SmallIdx && r.Intn(40) == 0 {
		p.Crowd = pick(r, 40, 80, 140, 270)
	}
	if p.Crowd > 0 && p.Busy > 50 {
		p.Busy = 30 + r.Intn(20)
	}
	pts := startPoints[netName]
	base := p.Start
	if base == 0 {
		base = pts[r.Intn(len(pts))]
	}
	if p.NearFee {
		for s := range rules[netName].fees {
			base = s
		}
	}
	back := uint64(r.Intn(p.Busy/2 + 2))
	if base <= back+1 {
		base = back + 2
	}
	start := base - back
	ckpt := p.Ckpt
	if ckpt == 0 {
		ckpt = uint64(pick(r, 1, 3, 7, 20, 32, 100))
		if p.Crowd > 60 && ckpt < 15 {
			ckpt = 15
		}
	}
	c := &Chain{Cfg: ChainCfg{Net: netName, PoolAddress: addr(keyPool).Hex(), PoolFees: addr(keyPoolFees).Hex(), DeployedSlot: start, DeployedBlock: start - start/50,
		Checkpoint: ckpt, Fee: p.Fee, Collateral: pick(r, bi(10000000000000000), bi(80000000000000000), bi(1000), big0(), bi(1))}}
	if c.Cfg.Fee < 0 {
		c.Cfg.Fee = randFee(r)
	}
	for s, f := range rules[netName].fees {
		if start > s { // a pool deployed after the scheduled change has had that fee all along
			c.Cfg.Fee = f
		}
	}
	if netName == "mainnet" && base == exceptionSlot {
		c.Cfg.PoolAddress = "0xAdFb8D27671F14f297eE94135e266aAFf8752e35"
	}
	if r.Intn(2) == 0 {
		c.Cfg.PoolAddress = common.HexToAddress(c.Cfg.PoolAddress).Hex()
	}
	hi := start + uint64(p.Busy) + uint64(p.Cleanups)*1250
	c.World = GenWorld(r, nets[netName], p, start, hi)
	g := &genState{r: r, p: p, c: c, m: NewModel(c), num: c.Cfg.DeployedBlock}
	// an idle validator that never belongs to the pool
	var maxI uint64
	for i := range c.World.Vals {
		if i > maxI {
			maxI = i
		}
	}
	idle := maxI + 1000
	if p.SmallIdx {
		idle = maxI + 1
	}
	c.World.Vals[idle] = &WVal{Index: idle, Pub: mkPub(idle), Creds: mkCreds("01", addr(keyUser0+60), idle), Timeline: []ValAt{{0, v1.ValidatorStateActiveOngoing, 32e9}}}
	g.idle = []uint64{idle}
	c.Name = fmt.Sprintf("%s@%d fee=%d", netName, start, c.Cfg.Fee)

	stretch := p.Busy
	if p.Cleanups > 0 {
		stretch = p.Busy / (p.Cleanups + 1)
		if stretch < 5 {
			stretch = 5
		}
	}
	done := 0
	for k := 0; done < p.Busy; k++ {
		for i := 0; i < stretch && done < p.Busy; i++ {
			g.busy()
			done++
		}
		if k < p.Cleanups && done < p.Busy {
			// quiet until a few slots before the next cleanup slot
			stop := (g.m.next/1200+1)*1200 - uint64(r.Intn(4))
			for g.m.next < stop {
				if _, due := rules[netName].fees[g.m.next]; due {
					g.busy() // the scheduled change does happen
					continue
				}
				g.emit(&BlockSpec{Slot: g.m.next, Proposer: idle, Missed: true})
			}
		}
	}
	return c
}

func (g *genState) emit(b *BlockSpec) {
	if g.m.method(b.Slot) == "prefork1" && !g.p.Dust {
		probe := g.m.clone()
		if probe.Step(g.c, b); probe.tags["negpot"] {
			b = &BlockSpec{Slot: b.Slot, Proposer: g.idle[0], Missed: true}
		}
	}
	if why := g.m.Step(g.c, b); why != "" {
		panic("generator emitted a block the model refuses: " + why)
	}
	g.c.Blocks = append(g.c.Blocks, b)
}

func (g *genState) chooseProposer(kind string) uint64 {
	r := g.r
	all := g.c.World.Indices()
	all = all[:len(all)-1] // not the idle one
	var subs, tracked []uint64
	for _, i := range g.m.sorted() {
		if g.c.World.Vals[i] == nil || i == g.idle[0] {
			continue
		}
		tracked = append(tracked, i)
		if g.m.subscribed(i) {
			subs = append(subs, i)
		}
	}
	x := r.Intn(100)
	if x < 50 && len(subs) > 0 {
		return subs[r.Intn(len(subs))]
	}
	if x < 70 && len(tracked) > 0 {
		return tracked[r.Intn(len(tracked))]
	}
	return all[r.Intn(len(all))]
}

var forkNames = []string{"bellatrix", "capella", "deneb", "electra", "fulu"}

func (g *genState) filler(b *BlockSpec, n int) {
	for i := 0; i < n; i++ {
		b.Txs = append(b.Txs, g.randTx(b))
	}
}

func (g *genState) randTx(b *BlockSpec) TxSpec {
	r := g.r
	t := TxSpec{Kind: r.Intn(5), From: pick(r, keyDonor0, keyDonor1, keyUser0, keyUser0+1, keyGov), Value: randAmount(r, true), GasUsed: pick(r, uint64(21000), 21000, 50000, 1, uint64(r.Intn(3000000)))}
	to := pick(r, addr(keyDonor1), addr(keyUser0+2), common.HexToAddress("0x1234567890123456789012345678901234567890"))
	t.To = &to
	if r.Intn(12) == 0 && t.Kind < 3 {
		t.To = nil
	}
	if t.Kind == 0 && r.Intn(4) == 0 {
		t.Unprotected = true
	}
	t.Failed = r.Intn(6) == 0 // pays its fees all the same
	g.price(b, &t)
	return t
}

func (g *genState) price(b *BlockSpec, t *TxSpec) {
	r := g.r
	switch r.Intn(4) {
	case 0:
		t.FeeCap = bclone(b.BaseFee)
	default:
		t.FeeCap = new(big.Int).Add(b.BaseFee, bi(int64(r.Intn(3000000000))))
	}
	room := new(big.Int).Sub(t.FeeCap, b.BaseFee)
	switch r.Intn(4) {
	case 0:
		t.TipCap = big0()
	case 1:
		t.TipCap = bclone(room) // exactly saturating
	case 2:
		t.TipCap = new(big.Int).Quo(room, bi(3))
	default:
		t.TipCap = bclone(t.FeeCap) // cap binds
	}
}

func (g *genState) baseFee() *big.Int {
	r := g.r
	switch r.Intn(5) {
	case 0:
		return bi(int64(1 + r.Intn(500)))
	case 1:
		return new(big.Int).Add(new(big.Int).Lsh(bi(1), 60), bi(int64(r.Intn(100000))))
	default:
		return bi(int64(1000000000 + r.Intn(2000000000)))
	}
}

func (g *genState) lastTx(b *BlockSpec, from int, to common.Address, val *big.Int, data []byte) {
	t := TxSpec{Kind: g.r.Intn(5), From: from, To: &to, Value: val, GasUsed: uint64(21000 + g.r.Intn(9000)), Data: data}
	if t.Kind == 0 && g.r.Intn(4) == 0 {
		t.Unprotected = true
	}
	g.price(b, &t)
	b.Txs = append(b.Txs, t)
}

func (g *genState) busy() {
	r, p := g.r, g.p
	slot := g.m.next
	b := &BlockSpec{Slot: slot, Fork: forkNames[r.Intn(len(forkNames))], BaseFee: g.baseFee()}
	scheduledFee, isFee := rules[g.c.Cfg.Net].fees[slot]
	tot := p.PMissed + p.PMev + p.PVan + p.PWrong + p.PIdle
	x := r.Intn(tot)
	kind := ""
	switch {
	case x < p.PMissed:
		kind = "missed"
	case x < p.PMissed+p.PMev:
		kind = "mev"
	case x < p.PMissed+p.PMev+p.PVan:
		kind = "van"
	case x < p.PMissed+p.PMev+p.PVan+p.PWrong:
		kind = "wrong"
	default:
		kind = "idle"
	}
	exc := g.c.Cfg.Net == "mainnet" && slot == exceptionSlot
	if exc {
		kind = "mev"
	}
	if isFee && kind == "missed" {
		kind = "van"
	}
	b.Proposer = g.chooseProposer(kind)
	if kind == "missed" {
		b.Missed = true
		g.emit(b)
		return
	}
	if kind == "idle" {
		b.Proposer = g.idle[0]
	}
	g.num += 1
	b.Number = g.num
	pool := common.HexToAddress(g.c.Cfg.PoolAddress)
	other := pick(r, addr(keyUser0), addr(keyUser0+3), addr(keyBuilder1))

	// events first (so that their transactions come before the last one)
	type pend struct {
		e  EvSpec
		tx TxSpec
	}
	var evs []pend
	add := func(e EvSpec) {
		to := pool
		val := big0()
		if e.Kind == "sub" || e.Kind == "ether" {
			val = bclone(e.Amount)
		}
		t := TxSpec{Kind: r.Intn(3), From: pick(r, keyDonor0, keyDonor1, keyUser0), To: &to, Value: val, GasUsed: 60000}
		if e.Kind != "ether" {
			t.Data = []byte{1, 2, 3, 4}
		}
		if r.Intn(5) == 0 { // via a contract
			f := addr(keyForward)
			t.To = &f
		}
		g.price(b, &t)
		evs = append(evs, pend{e, t})
	}
	mevVal := randAmount(r, p.SmallAmts)
	count := func(rate int) int {
		n := 0
		for r.Intn(100) < rate && n < 3 {
			n++
		}
		return n
	}
	if g.p.Crowd > 0 {
		g.mass(add)
	}
	if isFee && (kind != "idle" || true) {
		add(EvSpec{Kind: "fee", Amount: bi(int64(scheduledFee))})
	}
	for k := count(p.RSub); k > 0; k-- {
		add(g.subEvent())
	}
	for k := count(p.RUnsub); k > 0; k-- {
		add(g.unsubEvent())
	}
	for k := count(p.RDon); k > 0; k-- {
		a := randAmount(r, p.SmallAmts)
		if r.Intn(5) == 0 {
			a = bclone(mevVal)
		}
		add(EvSpec{Kind: "ether", Addr: pick(r, addr(keyDonor0), addr(keyDonor1), addr(keyUser0)), Amount: a})
	}
	for k := count(p.RBan); k > 0; k-- {
		add(EvSpec{Kind: "ban", ID: g.anyVal()})
	}
	for k := count(p.RUnban); k > 0; k-- {
		add(EvSpec{Kind: "unban", ID: g.bannedOrAny()})
	}
	if r.Intn(100) < p.RConf {
		switch r.Intn(3) {
		case 0:
			add(EvSpec{Kind: "recipient", Addr: common.HexToAddress(g.c.Cfg.PoolFees)})
		case 1:
			add(EvSpec{Kind: "ckpt", ID: g.c.Cfg.Checkpoint})
		case 2:
			add(EvSpec{Kind: "coll", Amount: bclone(g.c.Cfg.Collateral)})
		}
	}
	// the transactions of a block are in a random order
	r.Shuffle(len(evs), func(i, j int) { evs[i], evs[j] = evs[j], evs[i] })
	g.filler(b, r.Intn(3))
	for k, e := range evs {
		if k > 0 && r.Intn(5) == 0 { // one transaction of a contract may trigger several events
			g.sameTx(b, e.e)
			continue
		}
		e.e.Tx = len(b.Txs)
		b.Txs = append(b.Txs, e.tx)
		b.Events = append(b.Events, e.e)
		if e.e.Kind == "ether" && r.Intn(6) == 0 { // even the very same one
			g.sameTx(b, e.e)
		}
		if r.Intn(4) == 0 {
			g.filler(b, 1)
		}
	}
	builder := pick(r, keyBuilder0, keyBuilder1)
	mevEv := func(from int) {
		b.Events = append(b.Events, EvSpec{Kind: "ether", Addr: addr(from), Amount: bclone(mevVal), Tx: len(b.Txs) - 1})
	}
	switch kind {
	case "mev":
		b.FeeRec = addr(builder)
		if exc {
			g.lastTx(b, builder, addr(keyForward), big0(), []byte{1})
			b.Note = "exception"
			break
		}
		switch r.Intn(6) {
		case 0, 1, 2:
			g.lastTx(b, builder, pool, mevVal, nil)
			mevEv(builder)
			b.Note = "mev-direct"
		case 3, 4:
			g.lastTx(b, builder, addr(keyForward), mevVal, []byte{9})
			extra := func() { // the contract also gives something of its own, maybe as much
				if r.Intn(4) == 0 {
					a := pick(r, bclone(mevVal), new(big.Int).Rsh(mevVal, 1), randAmount(r, p.SmallAmts))
					b.Events = append(b.Events, EvSpec{Kind: "ether", Addr: addr(keyForward), Amount: a, Tx: len(b.Txs) - 1})
				}
			}
			extra()
			mevEv(keyForward)
			extra()
			b.Note = "mev-contract"
		case 5:
			b.FeeRec = pick(r, addr(keyBuilder0), addr(keyUser0+1))
			g.lastTx(b, keyWhitelist, pool, mevVal, nil)
			mevEv(keyWhitelist)
			b.Note = "mev-whitelist"
		}
	case "van":
		b.FeeRec = pool
		b.Note = "van"
		switch r.Intn(5) {
		case 0: // empty block
			if len(b.Events) == 0 {
				b.Txs = nil
				b.Note = "van-empty"
			}
		case 1: // ends with a deployment
			t := g.randTx(b)
			if t.Kind < 3 {
				t.To = nil
				b.Txs = append(b.Txs, t)
				b.Note = "van-deploy"
			}
		case 2: // a donation in the last place
			d := randAmount(r, p.SmallAmts)
			g.lastTx(b, keyDonor0, pool, d, nil)
			b.Events = append(b.Events, EvSpec{Kind: "ether", Addr: addr(keyDonor0), Amount: bclone(d), Tx: len(b.Txs) - 1})
			b.Note = "van-lastdonation"
		case 3: // a payment of a builder that ran out of gas
			if mevVal.Sign() > 0 && r.Intn(2) == 0 {
				g.lastTx(b, keyWhitelist, pool, mevVal, nil)
				b.Txs[len(b.Txs)-1].Failed = true
				b.Note = "van-reverted"
			}
		}
	case "wrong", "idle":
		b.Note = "wrong"
		switch r.Intn(6) {
		case 0:
			b.FeeRec = addr(builder)
			g.lastTx(b, builder, other, mevVal, nil)
			b.Note = "wrong-mev"
		case 1:
			b.FeeRec = addr(builder)
			g.filler(b, 1)
			b.Note = "wrong-vanilla"
		case 2:
			b.FeeRec = addr(builder)
			g.lastTx(b, keyWhitelist, other, mevVal, nil)
			b.Note = "wrong-whitelist"
		case 3: // mev elsewhere while somebody donates the same amount
			b.FeeRec = addr(builder)
			if kind == "wrong" || r.Intn(2) == 0 {
				to := pool
				t := TxSpec{Kind: 2, From: keyDonor0, To: &to, Value: bclone(mevVal), GasUsed: 30000}
				g.price(b, &t)
				b.Txs = append(b.Txs, t)
				b.Events = append(b.Events, EvSpec{Kind: "ether", Addr: addr(keyDonor0), Amount: bclone(mevVal), Tx: len(b.Txs) - 1})
			}
			g.lastTx(b, builder, other, mevVal, nil)
			b.Note = "wrong-equal-donation"
		case 4: // the fee recipient's last transaction calls the pool without paying it
			b.FeeRec = addr(builder)
			g.lastTx(b, builder, pool, big0(), []byte{0xaa, 0xbb, 0xcc, 0xdd})
			b.Note = "wrong-call"
		case 5: // or tried to, without enough gas
			b.FeeRec = addr(builder)
			g.lastTx(b, builder, pool, new(big.Int).Add(mevVal, bi(1)), nil)
			b.Txs[len(b.Txs)-1].Failed = true
			b.Note = "wrong-reverted"
		}
	}
	g.emit(b)
}

// mass adds many events of one kind to a block: first the crowd joins
func (g *genState) mass(add func(EvSpec)) {
	r := g.r
	cr := g.c.World.Crowd
	switch {
	case g.joined < len(cr):
		for n := 60 + r.Intn(80) + len(cr)/400*20; n > 0 && g.joined < len(cr); n-- {
			i := cr[g.joined]
			g.joined++
			a, _ := g.c.World.Vals[i].Exec()
			add(EvSpec{Kind: "sub", ID: i, Addr: common.HexToAddress(a), Amount: bclone(g.c.Cfg.Collateral)})
		}
	case r.Intn(8) == 0:
		kind := pick(r, "unsub", "ban", "unban", "ether", "sub", "mixed")
		for n := 10 + r.Intn(120); n > 0; n-- {
			switch pick(r, kind, kind, kind, "sub", "ether", "unsub") {
			case "unsub":
				add(g.unsubEvent())
			case "ban":
				add(EvSpec{Kind: "ban", ID: g.anyVal()})
			case "unban":
				add(EvSpec{Kind: "unban", ID: g.bannedOrAny()})
			case "sub":
				add(g.subEvent())
			default:
				add(EvSpec{Kind: "ether", Addr: addr(keyDonor0 + r.Intn(2)), Amount: randAmount(r, g.p.SmallAmts)})
			}
		}
	}
}

// sameTx adds an event triggered by the transaction of the last one
func (g *genState) sameTx(b *BlockSpec, e EvSpec) {
	last := b.Events[len(b.Events)-1].Tx
	t := &b.Txs[last]
	f := addr(keyForward)
	t.To = &f
	if len(t.Data) == 0 {
		t.Data = []byte{7, 7, 7, 7}
	}
	if e.Kind == "sub" || e.Kind == "ether" {
		t.Value = new(big.Int).Add(t.Value, e.Amount)
	}
	e.Tx = last
	if e.Amount != nil {
		e.Amount = bclone(e.Amount)
	}
	b.Events = append(b.Events, e)
}

func (g *genState) anyVal() uint64 {
	r := g.r
	ids := g.m.sorted()
	if len(ids) > 0 && r.Intn(5) != 0 {
		return ids[r.Intn(len(ids))]
	}
	all := g.c.World.Indices()
	if r.Intn(5) == 0 {
		return all[len(all)-1] + 7777 // nobody
	}
	return all[r.Intn(len(all)-1)]
}

func (g *genState) bannedOrAny() uint64 {
	var bs []uint64
	for _, i := range g.m.sorted() {
		if g.m.banned(i) {
			bs = append(bs, i)
		}
	}
	if len(bs) > 0 && g.r.Intn(3) != 0 {
		return bs[g.r.Intn(len(bs))]
	}
	return g.anyVal()
}

// specialSender is somebody a rule could be tempted to trust: the pool, who receives its fees, the
// updater, the donor, the null address, the owner of another validator, or nearly the owner
func (g *genState) specialSender(owner common.Address) common.Address {
	r := g.r
	switch r.Intn(8) {
	case 0, 1:
		return common.HexToAddress(g.c.Cfg.PoolFees)
	case 2:
		return addr(keyPool)
	case 3:
		return addr(keyUpdater)
	case 4:
		return common.Address{}
	case 5:
		return addr(keyBuilder0 + r.Intn(3))
	case 6:
		owner[19] ^= 1
		return owner
	default:
		owner[0] ^= 0x80
		return owner
	}
}

func (g *genState) subEvent() EvSpec {
	r := g.r
	all := g.c.World.Indices()
	id := all[r.Intn(len(all)-1)]
	if r.Intn(3) == 0 {
		id = g.anyVal()
	}
	if r.Intn(20) == 0 {
		id = all[len(all)-1] + 5555
	}
	e := EvSpec{Kind: "sub", ID: id}
	e.Addr = addr(keyUser0 + r.Intn(8))
	if v, ok := g.c.World.Vals[id]; ok && r.Intn(6) != 0 {
		if a, ok := v.Exec(); ok {
			e.Addr = common.HexToAddress(a)
		} else {
			e.Addr = common.BytesToAddress(v.Creds[12:])
		}
		if r.Intn(12) == 0 {
			e.Addr = g.specialSender(e.Addr)
		}
	}
	c := g.c.Cfg.Collateral
	switch r.Intn(9) {
	case 0:
		e.Amount = new(big.Int).Sub(c, bi(1))
		if e.Amount.Sign() < 0 {
			e.Amount = big0()
		}
	case 1:
		e.Amount = new(big.Int).Add(c, bi(1))
	case 2:
		e.Amount = randAmount(r, false)
	case 3:
		e.Amount = big0()
	default:
		e.Amount = bclone(c)
	}
	return e
}

func (g *genState) unsubEvent() EvSpec {
	r := g.r
	id := g.anyVal()
	e := EvSpec{Kind: "unsub", ID: id, Addr: addr(keyUser0 + r.Intn(8))}
	if v, ok := g.c.World.Vals[id]; ok && r.Intn(4) != 0 {
		if a, ok := v.Exec(); ok {
			e.Addr = common.HexToAddress(a)
		} else {
			e.Addr = common.BytesToAddress(v.Creds[12:])
		}
	} else if r.Intn(2) == 0 {
		own := common.Address{}
		if ok {
			own = common.BytesToAddress(v.Creds[12:])
		}
		e.Addr = g.specialSender(own)
	}
	return e
}
