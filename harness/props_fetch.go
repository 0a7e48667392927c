package main

// C22: the real fetcher (and the oracle's own node queries) against the fake
// nodes, with every request of a slot failing in every way.

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
)

func init() {
	register(&Check{ID: "C22", Rule: "a fetch either fails or returns exactly the chain's data; fetching and processing a slot under any single node fault either stops or gives the reference's state",
		Assumptions: []string{"the fake nodes speak the beacon API and JSON-RPC subset of the real clients", "well-formed but untrue answers are out of scope except where they are about another slot, block or validator", "the pauses of retry-go are scaled by 1/1500"},
		Run:         func(c *Ctx) { c.cases(c.N(8, 160), func(i int, name string) { c22case(c, i, name) }) },
		MinEvals:    3000, MinCounters: map[string]int64{"clean_fetches_compared": 500, "faults_injected": 2000, "faults_refused": 1000, "faulty_events": 20, "faulty_consolidations": 1}})
}

func eventsDump(e *oracle.Events) map[string]string {
	out := map[string]string{}
	if e == nil {
		return out
	}
	put := func(k string, v interface{}, n int) {
		if n > 0 {
			out[k] = string(mustJSON(v))
		}
	}
	put("ether", e.EtherReceived, len(e.EtherReceived))
	put("sub", e.SubscribeValidator, len(e.SubscribeValidator))
	put("unsub", e.UnsubscribeValidator, len(e.UnsubscribeValidator))
	put("fee", e.UpdatePoolFee, len(e.UpdatePoolFee))
	put("recipient", e.PoolFeeRecipient, len(e.PoolFeeRecipient))
	put("ckpt", e.CheckpointSlotSize, len(e.CheckpointSlotSize))
	put("coll", e.UpdateSubscriptionCollateral, len(e.UpdateSubscriptionCollateral))
	put("ban", e.BanValidator, len(e.BanValidator))
	put("unban", e.UnbanValidator, len(e.UnbanValidator))
	return out
}

// sameBlock compares what was fetched with what the chain holds
func sameBlock(g, w *oracle.FullBlock, exec bool) string {
	cmp := func(what string, a, b interface{}) string {
		x, y := string(mustJSON(a)), string(mustJSON(b))
		if x != y {
			return what + ": " + firstDiff([]byte(x), []byte(y))
		}
		return ""
	}
	if s := cmp("duty", g.ConsensusDuty, w.ConsensusDuty); s != "" {
		return s
	}
	if s := cmp("proposer", g.Validator, w.Validator); s != "" {
		return s
	}
	if (g.ConsensusBlock == nil) != (w.ConsensusBlock == nil) {
		return fmt.Sprintf("block present: %v, on chain: %v", g.ConsensusBlock != nil, w.ConsensusBlock != nil)
	}
	if s := cmp("events", eventsDump(g.Events), eventsDump(w.Events)); s != "" {
		return s
	}
	nn := func(v []*v1.Validator) []*v1.Validator {
		if v == nil {
			return []*v1.Validator{}
		}
		return v
	}
	if s := cmp("subscribing validators", nn(g.ValidatorsSubs), nn(w.ValidatorsSubs)); s != "" {
		return s
	}
	if s := cmp("unsubscribing validators", nn(g.ValidatorsUnsubs), nn(w.ValidatorsUnsubs)); s != "" {
		return s
	}
	if g.ConsensusBlock == nil {
		return ""
	}
	if g.ConsensusBlock.Version != w.ConsensusBlock.Version {
		return fmt.Sprint("fork ", g.ConsensusBlock.Version, " instead of ", w.ConsensusBlock.Version)
	}
	for _, p := range [][2]interface{}{{g.ConsensusBlock.Bellatrix, w.ConsensusBlock.Bellatrix}, {g.ConsensusBlock.Capella, w.ConsensusBlock.Capella}, {g.ConsensusBlock.Deneb, w.ConsensusBlock.Deneb},
		{g.ConsensusBlock.Electra, w.ConsensusBlock.Electra}, {g.ConsensusBlock.Fulu, w.ConsensusBlock.Fulu}} {
		if s := cmp("consensus block", p[0], p[1]); s != "" {
			return s
		}
	}
	if g.ExecutionHeader == nil && exec {
		return "no header and receipts for a block of a member or of the pool"
	}
	if g.ExecutionHeader != nil && w.ExecutionHeader != nil {
		a, b := g.ExecutionHeader, w.ExecutionHeader
		if a.Number.Cmp(b.Number) != 0 || a.BaseFee.Cmp(b.BaseFee) != 0 || a.GasUsed != b.GasUsed {
			return fmt.Sprint("header ", a.Number, a.BaseFee, a.GasUsed, " instead of ", b.Number, b.BaseFee, b.GasUsed)
		}
		if len(g.ExecutionReceipts) != len(w.ExecutionReceipts) {
			return fmt.Sprint(len(g.ExecutionReceipts), " receipts instead of ", len(w.ExecutionReceipts))
		}
		for i, x := range g.ExecutionReceipts {
			y := w.ExecutionReceipts[i]
			if x.TxHash != y.TxHash || x.GasUsed != y.GasUsed || x.Status != y.Status || x.BlockNumber.Cmp(y.BlockNumber) != 0 {
				return fmt.Sprint("receipt ", i, " is of ", x.TxHash, " gas ", x.GasUsed)
			}
		}
	}
	return ""
}

func (c *Chain) wantsExec(m *Model, b *BlockSpec) bool {
	return !b.Missed && (m.subscribed(b.Proposer) || b.FeeRec == common.HexToAddress(c.Cfg.PoolAddress) || c.facts(b).mevPool)
}

func reText(s string) *Fault { return &Fault{Kind: "body", Body: s} }

// faultsFor lists ways in which the answer to a request can go wrong
func faultsFor(r *rand.Rand, q Req) []*Fault {
	out := []*Fault{{Kind: "drop", Name: "drop"}, {Kind: "truncate", Name: "truncate"}, {Kind: "cut", Name: "cut"}}
	st := func(code int, body string) {
		out = append(out, &Fault{Kind: "status", Status: code, Body: body, Name: fmt.Sprintf("status-%d-%s", code, firstWords(body, 2))})
	}
	body := func(s string) {
		out = append(out, &Fault{Kind: "body", Body: s, CT: pick(r, "", "", "text/html", "application/json"), Name: "body-" + s})
	}
	for _, code := range []int{400, 401, 403, 405, 410, 429, 500, 502, 503, 504} {
		switch r.Intn(5) {
		case 0:
			st(code, "")
		case 1:
			st(code, fmt.Sprintf(`{"code":%d,"message":"upstream said 404"}`, code))
		case 2:
			st(code, `{"code":404,"message":"NOT_FOUND: beacon block"}`)
		case 3:
			st(code, "<html>404 not found</html>")
		default:
			st(code, fmt.Sprintf(`{"code":%d,"message":"busy"}`, code))
		}
	}
	st(500, `{"code":500,"message":"404"}`)
	if q.Kind != "block" { // there it is the authoritative answer
		st(404, `{"code":404,"message":"NOT_FOUND"}`)
		st(404, "")
	}
	st(204, "")
	st(202, `{"data":null}`)
	for _, s := range []string{"", "null", "{}", "[]", `"ok"`, "<html>hello</html>", `{"data":null}`, `{"data":{}}`, `{"code":404,"message":"NOT_FOUND"}`, `{"error":"404"}`, "\x00\xff\x00"} {
		body(s)
	}
	if q.Side == "cl" {
		body(`{"version":"phase0","data":{}}`)
		body(`{"version":"deneb","execution_optimistic":false,"finalized":true,"data":null}`)
		if q.Kind == "duties" {
			list := func(name string, f func(ds []json.RawMessage) []json.RawMessage) {
				out = append(out, &Fault{Kind: "mutate", Name: name, Mutate: func(b []byte) []byte {
					var d map[string]json.RawMessage
					var l []json.RawMessage
					if json.Unmarshal(b, &d) != nil || json.Unmarshal(d["data"], &l) != nil {
						return b
					}
					d["data"] = mustJSON(f(l))
					return mustJSON(d)
				}})
			}
			list("duties-none", func(d []json.RawMessage) []json.RawMessage { return []json.RawMessage{} })
			list("duties-first-missing", func(d []json.RawMessage) []json.RawMessage { return d[1:] })
			list("duties-half", func(d []json.RawMessage) []json.RawMessage { return d[:len(d)/2] })
			list("duties-one", func(d []json.RawMessage) []json.RawMessage { return d[:1] })
			list("duties-reversed", func(d []json.RawMessage) []json.RawMessage {
				for i := 0; i < len(d)/2; i++ {
					d[i], d[len(d)-1-i] = d[len(d)-1-i], d[i]
				}
				return d
			})
			list("duties-null", func(d []json.RawMessage) []json.RawMessage {
				for i := range d {
					d[i] = json.RawMessage("null")
				}
				return d
			})
		}
		if q.Kind == "validators" {
			out = append(out, &Fault{Kind: "mutate", Name: "other-index", Mutate: func(b []byte) []byte {
				return []byte(strings.Replace(string(b), `"index":"`, `"index":"7`, 1))
			}})
			out = append(out, &Fault{Kind: "mutate", Name: "null-validator", Mutate: func(b []byte) []byte {
				return []byte(`{"execution_optimistic":false,"finalized":true,"data":[null]}`)
			}})
		}
		if q.Kind == "consolidations" {
			body(`{"version":"electra","execution_optimistic":false,"finalized":true}`)
			body(`{"data":[{"source_index":"1"`)
			body(`{"data":[{"source_index":"x","target_index":"2"}]}`)
		}
	} else {
		rpc := func(code int, msg string) {
			out = append(out, &Fault{Kind: "rpcerr", Status: code, Body: msg, Name: "rpc-" + firstWords(msg, 2)})
		}
		rpc(-32000, "header not found")
		rpc(-32005, "limit exceeded")
		rpc(-32603, "internal error 404")
		rpc(-32601, "method not found")
		res := func(s string) { out = append(out, &Fault{Kind: "result", Body: s, Name: "result-" + s}) }
		res("null")
		res("{}")
		res(`"0x"`)
		res("[null]")
		res(`[{}]`)
		if q.Kind == "eth_getLogs" {
			logs := func(name string, f func(l []map[string]interface{}) []map[string]interface{}) {
				out = append(out, &Fault{Kind: "mutres", Name: name, Mutate: func(b []byte) []byte {
					var l []map[string]interface{}
					if json.Unmarshal(b, &l) != nil || len(l) == 0 {
						return b
					}
					return mustJSON(f(l))
				}})
			}
			k := r.Intn(64)
			edit := func(name string, f func(x map[string]interface{})) {
				logs(name, func(l []map[string]interface{}) []map[string]interface{} { f(l[k%len(l)]); return l })
			}
			edit("log-data-cut", func(x map[string]interface{}) { x["data"] = "0x00" })
			edit("log-data-short", func(x map[string]interface{}) { s := x["data"].(string); x["data"] = s[:len(s)-2] })
			edit("log-data-empty", func(x map[string]interface{}) { x["data"] = "0x" })
			edit("log-data-odd", func(x map[string]interface{}) { x["data"] = "0xabc" })
			edit("log-no-topics", func(x map[string]interface{}) { x["topics"] = []string{} })
			edit("log-other-topic", func(x map[string]interface{}) { x["topics"] = []string{common.Hash{1}.Hex()} })
			edit("log-other-block", func(x map[string]interface{}) { x["blockNumber"] = "0x7" })
			edit("log-no-address", func(x map[string]interface{}) { delete(x, "address") })
			edit("log-no-data", func(x map[string]interface{}) { delete(x, "data") })
			logs("log-extra-bad", func(l []map[string]interface{}) []map[string]interface{} {
				bad := map[string]interface{}{}
				for k, v := range l[0] {
					bad[k] = v
				}
				bad["data"] = "0x01"
				return append([]map[string]interface{}{bad}, l...)
			})
		}
		if q.Kind == "eth_getTransactionReceipt" {
			field := func(name, k string, v interface{}) {
				out = append(out, &Fault{Kind: "mutres", Name: name, Mutate: func(b []byte) []byte {
					m := map[string]interface{}{}
					if json.Unmarshal(b, &m) != nil || m == nil {
						return b
					}
					if v == nil {
						delete(m, k)
					} else {
						m[k] = v
					}
					return mustJSON(m)
				}})
			}
			field("receipt-other-tx", "transactionHash", common.Hash{3}.Hex())
			field("receipt-no-gas", "gasUsed", nil)
			field("receipt-no-hash", "transactionHash", nil)
		}
		if q.Kind == "eth_getBlockByNumber" {
			out = append(out, &Fault{Kind: "mutres", Name: "header-other", Mutate: func(b []byte) []byte {
				m := map[string]interface{}{}
				if json.Unmarshal(b, &m) != nil || m == nil {
					return b
				}
				m["number"] = "0x9"
				return mustJSON(m)
			}})
		}
	}
	return out
}

// faultKey names the family of a fault for reports
func faultKey(q Req, f *Fault) string {
	a := q.Kind
	if q.Kind == "eth_getLogs" {
		a += "-" + strings.SplitN(q.Arg, "@", 2)[0]
	}
	return a + ":" + f.Name
}

func c22case(c *Ctx, i int, name string) {
	r := chainRand(c, "C22", i)
	p := defProfile()
	p.Busy, p.Cleanups = 40, 0
	if i%4 == 1 {
		p.Busy, p.Cleanups = 40, 1
		p.Exits, p.Consol, p.RSub = 70, 80, 90
	}
	p.RSub, p.RUnsub, p.RBan, p.RUnban, p.RConf, p.RDon = 60, 40, 20, 20, 12, 40
	p.NoBad = i%2 == 0
	p.SmallIdx, p.Crowd = i%4 == 2, -1
	if i%8 == 3 {
		p.Crowd = pick(r, 30, 110)
	}
	switch i % 5 {
	case 0: // slots whose number contains 404
		p.Net, p.Start = "mainnet", uint64(pick(r, 11404020, 10240430, 14040420, 9140425))
	case 1:
		p.Net, p.Start = "hoodi", uint64(pick(r, 404020, 140420, 2404020))
	case 2:
		p.Net, p.Start = "mainnet", exceptionSlot
	}
	ch := GenChain(r, p)
	n := NewNode(ch)
	n.SSZ = i%3 == 0
	n.Start()
	defer n.Stop()
	fail := func(key, what string, d interface{}) { c.R.Violate(key, name, what, d) }
	var on *oracle.Onchain
	var err error
	if o := guard(func() { on, err = oracle.NewOnchain(n.Cli(), nil) }); o.Bad() || err != nil || on == nil {
		c.R.Inconc(fmt.Sprint("cannot connect to the fake nodes: ", o, err))
		return
	}
	wire := func(or *oracle.Oracle) {
		or.SetGetSetOfValidatorsFunc(on.GetSetOfValidators)
		or.GetPendingConsolidationsFunc(on.GetPendingConsolidations)
	}
	resetDuties(on)
	or, cfg := ch.NewOracle()
	wire(or)
	m := NewModel(ch)
	var real []int
	for k, b := range ch.Blocks {
		if ch.interesting(b, r) {
			real = append(real, k)
		}
	}
	r.Shuffle(len(real), func(a, b int) { real[a], real[b] = real[b], real[a] })
	target := map[int]bool{}
	for _, k := range real {
		b := ch.Blocks[k]
		if b.Slot%1200 == 0 && len(m.vals) >= 0 {
			target[k] = true
		}
		most := c.N(5, 10)
		if p.Crowd > 0 {
			most = 2
		}
		if len(target) < most && (len(b.Events) > 0 || r.Intn(3) == 0) {
			target[k] = true
		}
	}
	for k, b := range ch.Blocks {
		_ = k
		exec := ch.wantsExec(m, b)
		all := r.Intn(4) == 0
		var before []byte
		var mBefore *Model
		if target[k] {
			before, _ = json.Marshal(sealedCopy(or))
			mBefore = m.clone()
			resetDuties(on)
		}
		n.Log = nil
		var fb *oracle.FullBlock
		o := guard(func() { fb = on.FetchFullBlock(b.Slot, or, all) })
		if o.Bad() || fb == nil {
			fail("clean-fetch", fmt.Sprintf("fetching slot %d from healthy nodes failed: %v", b.Slot, o), map[string]interface{}{"chain": ch.Name, "block": b})
			return
		}
		c.R.Eval(1)
		c.R.Count("clean_fetches_compared", 1)
		want := ch.Full(b, exec || fb.ExecutionHeader != nil)
		if s := sameBlock(fb, want, exec || (all && !b.Missed)); s != "" {
			fail("clean-fetch-differs", fmt.Sprintf("what was fetched for slot %d is not the chain's data: %s", b.Slot, s), map[string]interface{}{"chain": ch.Name, "note": b.Note, "member": m.subscribed(b.Proposer)})
			return
		}
		nf := len(n.Reqs())
		wasEmpty := len(m.vals) == 0
		m.Step(ch, b)
		_, err, o := advance(or, func() *oracle.FullBlock { return fb })
		reqs := n.Reqs()
		if err != nil || o.Bad() {
			fail("clean-advance", fmt.Sprintf("slot %d was refused: %v %v", b.Slot, err, o), map[string]interface{}{"chain": ch.Name})
			return
		}
		ds := compareState(or.State(), m)
		if len(ds) > 0 {
			c.R.Count("chains_stopped_by_other_difference", 1)
			return
		}
		if !target[k] {
			continue
		}
		_, _ = nf, wasEmpty
		c22slot(c, r, name, ch, n, on, cfg, before, mBefore, m, b, reqs, all, wire)
		n.Fault = nil
	}
	c22getters(c, r, name, ch, n, on)
}

func sealedCopy(or *oracle.Oracle) *oracle.OracleState {
	s, err := or.StateWithHash()
	if err != nil {
		panic(err)
	}
	return s
}

// c22slot repeats the fetch and the processing of one slot with one request
// failing, for all requests and all faults
func c22slot(c *Ctx, r *rand.Rand, name string, ch *Chain, n *Node, on *oracle.Onchain, cfg *oracle.Config, before []byte, m0, m1 *Model, b *BlockSpec, reqs []Req, all bool, wire func(*oracle.Oracle)) {
	type key struct{ side, kind, arg string }
	seen := map[key]bool{}
	exec := ch.wantsExec(m0, b)
	for _, q := range reqs {
		k := key{q.Side, q.Kind, q.Arg}
		if seen[k] || q.Kind == "version" || q.Kind == "syncing" || q.Kind == "genesis" || q.Kind == "spec" || q.Kind == "deposit" {
			continue // the client library's own checks of the connection
		}
		seen[k] = true
		if len(seen) > 40 && r.Intn(8) != 0 {
			continue
		}
		fs := faultsFor(r, q)
		if q.Kind == "eth_getTransactionReceipt" && len(seen) > 18 {
			r.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
			fs = fs[:6]
		}
		for _, f := range fs {
			retries := 1
			times := 1 << 30 // for ever
			if r.Intn(6) == 0 {
				retries = 3
				if r.Intn(2) == 0 {
					times = 1 + r.Intn(2)
				}
			}
			on.NumRetries = retries
			hits := 0
			n.mu.Lock()
			n.Fault = func(x Req) *Fault {
				if x.Side == k.side && x.Kind == k.kind && x.Arg == k.arg {
					n.mu.Lock()
					defer n.mu.Unlock()
					hits++
					if hits <= times {
						return f
					}
				}
				return nil
			}
			n.mu.Unlock()
			resetDuties(on)
			cf := ch.NewConfig()
			cf.PoolFeesPercentOver10000 = ch.Cfg.Fee
			or2 := oracle.NewOracle(cf)
			if m0.next > ch.Cfg.DeployedSlot+0 && len(before) > 0 {
				if ok, err := or2.LoadFromBytes(before); !ok || err != nil {
					if m0.next == ch.Cfg.DeployedSlot {
						or2 = oracle.NewOracle(cf)
					} else {
						c.R.Violate("reload", name, fmt.Sprint("the oracle's own state does not load: ", err), nil)
						return
					}
				}
			}
			wire(or2)
			var fb *oracle.FullBlock
			var err error
			stage := "fetch"
			o := guard(func() { fb = on.FetchFullBlock(b.Slot, or2, all) })
			fetched := !o.Bad()
			if fetched {
				stage = "process"
				_, err, o = advance(or2, func() *oracle.FullBlock { return fb })
			}
			n.mu.Lock()
			n.Fault = nil
			got := hits
			n.mu.Unlock()
			on.NumRetries = 1
			if got == 0 {
				c.R.Count("fault_not_reached", 1)
				continue
			}
			c.R.Eval(1)
			c.R.Count("faults_injected", 1)
			c.R.Seen(faultKey(q, f) + stage)
			if q.Kind == "eth_getLogs" && len(b.Events) > 0 {
				c.R.Count("faulty_events", 1)
			}
			if q.Kind == "consolidations" {
				c.R.Count("faulty_consolidations", 1)
			}
			d := map[string]interface{}{"chain": ch.Name, "slot": b.Slot, "request": q.String(), "fault": f.Name, "attempts": retries, "failing_attempts": times, "outcome": o.String(), "error": fmt.Sprint(err), "stage": stage}
			c.R.Sample(d)
			if o.Panic != "" && !inRepo(o.Stack) {
				// third-party code gives up on a malformed answer: no data comes out of it
				c.R.Count("client_library_panics", 1)
				continue
			}
			if o.Panic != "" {
				c.R.Violate("panic:"+faultKey(q, f), name, fmt.Sprintf("%s of slot %d panics when the answer to %s is bad (%s): %s", stage, b.Slot, q, f.Name, o.Panic), d)
				continue
			}
			if o.Bad() || err != nil {
				c.R.Count("faults_refused", 1)
				continue
			}
			c.R.Count("faults_survived", 1)
			if times < 1<<30 {
				c.R.Count("faults_retried_successfully", 1)
			}
			c.R.Eval(1)
			if !strings.HasPrefix(f.Name, "receipt-") { // receipts are judged where they are used
				want := ch.Full(b, exec || fb.ExecutionHeader != nil)
				if q.Kind == "validators" && emptyAnswer(f) && fillNil(fb, want) {
					c.R.Violate("empty-validators-answer", name, "an answer without data to the query of a (un)subscribing validator is taken for a validator that does not exist", d)
					continue
				}
				if s := sameBlock(fb, want, exec); s != "" {
					c.R.Violate("wrong-data:"+faultKey(q, f), name, fmt.Sprintf("slot %d was fetched wrongly when the answer to %s was bad (%s): %s", b.Slot, q, f.Name, s), d)
					continue
				}
			}
			if ds := compareState(or2.State(), m1); len(ds) > 0 {
				d["differences"] = diffStrings(ds)
				c.R.Violate("wrong-state:"+faultKey(q, f), name, fmt.Sprintf("slot %d was processed wrongly when the answer to %s was bad (%s): %s", b.Slot, q, f.Name, ds[0]), d)
			}
		}
	}
}

// the other reads of the nodes: a failure is an error, never a value
func registryDigest[K ~uint64](m map[K]*v1.Validator) string {
	h := sha256.New()
	for i := 0; i < len(m); i++ {
		v := m[K(i)]
		if v == nil {
			return fmt.Sprintf("%d validators, without the one of index %d", len(m), i)
		}
		h.Write(mustJSON(v))
	}
	return fmt.Sprintf("%d validators %x", len(m), h.Sum(nil)[:8])
}

func c22getters(c *Ctx, r *rand.Rand, name string, ch *Chain, n *Node, on *oracle.Onchain) {
	n.Con.Root = [32]byte{byte(1 + r.Intn(200)), 7}
	n.Con.Slot = ch.Cfg.DeployedSlot + ch.Cfg.Checkpoint*uint64(1+r.Intn(9))
	who := addr(keyUser0)
	n.Con.Claimed[who] = randAmount(r, false)
	n.Con.Quorum = uint64(1 + r.Intn(5))
	n.Con.Members = append(n.Con.Members, addr(keyGov))
	n.Con.Reports[reportHash(n.Con.Slot+ch.Cfg.Checkpoint, [32]byte{4})] = &fakeReport{slot: n.Con.Slot + ch.Cfg.Checkpoint, root: [32]byte{4}, votes: 1}
	n.Con.Voted[addr(keyUpdater)] = reportHash(n.Con.Slot+ch.Cfg.Checkpoint, [32]byte{4})
	bal := randAmount(r, false)
	n.Balance = func(a common.Address, tag string) *big.Int { return bal }
	n.SyncDist = uint64(pick(r, 0, 3, 5, 6, 100))
	n.ELSyncing = r.Intn(4) == 0
	type getter struct {
		name string
		f    func() (interface{}, error)
	}
	num := new(big.Int).SetUint64(n.headNumber())
	gs := []getter{
		{"IsSynced", func() (interface{}, error) { return on.AreNodesInSync() }},
		{"FinalizedHeader", func() (interface{}, error) {
			h, err := on.FinalizedBeaconBlockHeader()
			if err != nil {
				return nil, err
			}
			return h.Header.Message.Slot, nil
		}},
		{"SlotAndRoot", func() (interface{}, error) { a, b, err := on.GetOnchainSlotAndRoot(); return fmt.Sprint(a, b), err }},
		{"Claimed", func() (interface{}, error) { return on.GetContractClaimedBalance(who.Hex(), num) }},
		{"ClaimedMap", func() (interface{}, error) {
			return on.GetClaimedPerWithdrawalAddress([]string{who.Hex(), addr(keyUser0 + 1).Hex()}, num)
		}},
		{"PoolBalance", func() (interface{}, error) { return on.GetPoolEthBalance(nil) }},
		{"PoolBalanceAt", func() (interface{}, error) { return on.GetPoolEthBalance(num) }},
		{"AddressBalance", func() (interface{}, error) { return on.GetAddressEthBalance(who) }},
		{"Quorum", func() (interface{}, error) { return on.GetQuorum() }},
		{"Members", func() (interface{}, error) { return on.GetAllOracleMembers() }},
		{"Whitelisted", func() (interface{}, error) { return on.IsAddressWhitelisted(addr(keyGov)) }},
		{"NotWhitelisted", func() (interface{}, error) { return on.IsAddressWhitelisted(who) }},
		{"Collateral", func() (interface{}, error) { return on.GetContractCollateral() }},
		{"CheckpointSize", func() (interface{}, error) { return on.GetSlotCheckpointSize() }},
		{"DeployBlock", func() (interface{}, error) { return on.GetContractDeploymentBlock() }},
		{"PoolFee", func() (interface{}, error) { return on.GetPoolFee() }},
		{"FeeAddress", func() (interface{}, error) { return on.GetPoolFeeAddress() }},
		{"VotedReport", func() (interface{}, error) { return on.GetAddressToVotedReport(addr(keyUpdater)) }},
		{"NoVotedReport", func() (interface{}, error) { return on.GetAddressToVotedReport(addr(keyGov)) }},
	}
	if len(ch.World.Vals) < 400 && n.FillTo < 400 {
		gs = append(gs, getter{"Refresh", func() (interface{}, error) {
			on.RefreshBeaconValidators()
			return registryDigest(on.Validators()), nil
		}})
	}
	truth := map[string]string{
		"Refresh":  registryDigest(n.Registry(n.Finalized)),
		"IsSynced": fmt.Sprint(!n.ELSyncing && n.SyncDist <= 5), "FinalizedHeader": fmt.Sprint(n.Finalized), "SlotAndRoot": fmt.Sprint(common.Hash(n.Con.Root).Hex(), n.Con.Slot),
		"Claimed": n.Con.Claimed[who].String(), "ClaimedMap": fmt.Sprint(map[string]*big.Int{who.Hex(): n.Con.Claimed[who], addr(keyUser0 + 1).Hex(): big0()}),
		"PoolBalance": bal.String(), "PoolBalanceAt": bal.String(), "AddressBalance": bal.String(), "Quorum": fmt.Sprint(n.Con.Quorum), "Members": fmt.Sprint(n.Con.Members),
		"Whitelisted": "true", "NotWhitelisted": "false", "Collateral": ch.Cfg.Collateral.String(), "CheckpointSize": fmt.Sprint(ch.Cfg.Checkpoint), "DeployBlock": fmt.Sprint(ch.Cfg.DeployedBlock),
		"PoolFee": fmt.Sprint(ch.Cfg.Fee), "FeeAddress": common.HexToAddress(ch.Cfg.PoolFees).Hex(),
		"VotedReport": fmt.Sprint(oracle.ReportType{Slot: n.Con.Slot + ch.Cfg.Checkpoint, Votes: 1}), "NoVotedReport": fmt.Sprint(oracle.ReportType{}),
	}
	for _, g := range gs {
		run := func() (string, error, Outcome) {
			var v interface{}
			var err error
			o := guard(func() { v, err = g.f() })
			return fmt.Sprint(v), err, o
		}
		n.mu.Lock()
		n.Log = nil
		n.mu.Unlock()
		v, err, o := run()
		reqs := n.Reqs()
		c.R.Eval(1)
		c.R.Count("clean_reads", 1)
		if err != nil || o.Bad() || v != truth[g.name] {
			c.R.Violate("read:"+g.name, name, fmt.Sprintf("%s reads %s (%v %v) from healthy nodes, the truth is %s", g.name, v, err, o, truth[g.name]), nil)
			continue
		}
		for qi, q := range reqs {
			if q.Kind == "version" || (q.Kind == "syncing" && g.name != "IsSynced") || (qi > 0 && q == reqs[qi-1]) {
				continue
			}
			fs := faultsFor(r, q)
			for _, f := range fs {
				if q.Side == "el" && q.Kind != "eth_call" && strings.HasPrefix(f.Name, "result-null") && q.Kind == "eth_syncing" {
					continue
				}
				hits := 0
				n.mu.Lock()
				n.Fault = func(x Req) *Fault {
					if x.Side == q.Side && x.Kind == q.Kind && x.Arg == q.Arg {
						n.mu.Lock()
						hits++
						n.mu.Unlock()
						return f
					}
					return nil
				}
				n.mu.Unlock()
				v, err, o := run()
				n.mu.Lock()
				n.Fault = nil
				got := hits
				n.mu.Unlock()
				if got == 0 {
					continue
				}
				c.R.Eval(1)
				c.R.Count("faulty_reads", 1)
				d := map[string]interface{}{"read": g.name, "request": q.String(), "fault": f.Name, "value": v, "error": fmt.Sprint(err), "outcome": o.String()}
				if o.Panic != "" && !inRepo(o.Stack) {
					c.R.Count("client_library_panics", 1)
				} else if g.name == "IsSynced" && o.Panic == "" {
					// an empty but well-formed answer cannot be told from a synced node; no slot data depends on it
				} else if o.Panic != "" {
					c.R.Violate("panic:"+g.name+":"+faultKey(q, f), name, fmt.Sprintf("%s panics when the answer to %s is bad (%s): %s", g.name, q, f.Name, o.Panic), d)
				} else if err == nil && !o.Bad() && v != truth[g.name] {
					c.R.Violate("wrong-read:"+g.name+":"+faultKey(q, f), name, fmt.Sprintf("%s reads %s instead of %s when the answer to %s is bad (%s)", g.name, v, truth[g.name], q, f.Name), d)
				}
			}
		}
	}
}

var _ = types.Receipt{}

// inRepo: the panicking function is the repository's
func inRepo(stack string) bool {
	i := strings.LastIndex(stack, "\npanic(")
	if i < 0 {
		return true
	}
	for _, l := range strings.Split(stack[i+1:], "\n")[2:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || l == "" {
			continue
		}
		return strings.HasPrefix(l, "github.com/dappnode/")
	}
	return true
}

func emptyAnswer(f *Fault) bool {
	switch f.Body {
	case "null", "{}", `{"data":null}`, `{"code":404,"message":"NOT_FOUND"}`, `{"error":"404"}`, `{"version":"deneb","execution_optimistic":false,"finalized":true,"data":null}`:
		return f.Kind == "body" || (f.Kind == "status" && f.Status/100 == 2)
	}
	return false
}

// fillNil puts the right validators where none was found
func fillNil(g, w *oracle.FullBlock) bool {
	any := false
	for _, p := range [][2][]*v1.Validator{{g.ValidatorsSubs, w.ValidatorsSubs}, {g.ValidatorsUnsubs, w.ValidatorsUnsubs}} {
		for i := range p[0] {
			if p[0][i] == nil && i < len(p[1]) && p[1][i] != nil {
				p[0][i] = p[1][i]
				any = true
			}
		}
	}
	return any && sameBlock(g, w, false) == ""
}
