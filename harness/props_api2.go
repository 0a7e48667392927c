package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/ethereum/go-ethereum/common"
)

// underFaults repeats one request with every node request it makes failing in
// every way; judge says what is wrong with an answer that is not an error
func (s *scene) underFaults(r *rand.Rand, path string, share int, judge func(x resp) string) {
	n := s.n
	n.mu.Lock()
	n.KeepLog, n.Log, n.Fault = true, nil, nil
	n.mu.Unlock()
	clean := s.get(path)
	reqs := n.Reqs()
	n.mu.Lock()
	n.KeepLog = false
	n.mu.Unlock()
	if clean.err != nil {
		s.wellFormed(path, clean)
		return
	}
	type pt struct {
		q   Req
		nth int
	}
	var pts []pt
	seen := map[string]int{}
	for _, q := range reqs {
		k := q.Side + q.Kind + q.Arg
		pts = append(pts, pt{q, seen[k]})
		seen[k]++
	}
	for _, p := range pts {
		for _, f := range faultsFor(r, p.q) {
			if r.Intn(share) != 0 || f.Kind == "mutate" {
				continue
			}
			var hits, count int64
			n.mu.Lock()
			n.Fault = func(q Req) *Fault {
				if q.Side+q.Kind+q.Arg == p.q.Side+p.q.Kind+p.q.Arg && int(atomic.AddInt64(&count, 1))-1 >= p.nth {
					atomic.AddInt64(&hits, 1)
					return f
				}
				return nil
			}
			n.mu.Unlock()
			x := s.get(path)
			n.mu.Lock()
			n.Fault = nil
			n.mu.Unlock()
			if atomic.LoadInt64(&hits) == 0 {
				continue
			}
			s.c.R.Eval(1)
			s.c.R.Count("node_faults", 1)
			what := fmt.Sprintf("GET %s while the node answers %s to %s", path, f.Name, p.q)
			key := p.q.Side + "-" + p.q.Kind
			if x.err != nil {
				s.panics.mu.Lock()
				lib := !inRepo(string(s.panics.buf)) && len(s.panics.buf) > 0
				s.panics.buf = nil
				s.panics.mu.Unlock()
				if lib {
					s.c.R.Count("client_library_panics", 1)
					continue
				}
				s.fail("fault-no-response:"+key, what+" gets no response", x)
				continue
			}
			if errored(x) {
				s.c.R.Count("node_faults_answered_with_an_error", 1)
				continue
			}
			if why := judge(x); why != "" {
				s.fail("fault-answered:"+key, what+": "+why, x)
			} else {
				s.c.R.Count("node_faults_without_effect", 1)
			}
		}
	}
}

// ---------------------------------------------------------------- C29

func init() {
	register(&Check{ID: "C29", Rule: "listings of every address at chosen moments with generated unfinalized blocks on top, against the admission rules of the reference",
		Assumptions: []string{"validators outside the loaded beacon set cannot be listed", "unfinalized bans, blocks and proposals are not part of the view"},
		Run:         func(c *Ctx) { c.cases(c.N(32, 900), func(i int, name string) { c29case(c, i, name) }) },
		MinEvals:    2000, MinCounters: map[string]int64{"pending_subscriptions_applied": 100, "pending_unsubscriptions_applied": 100, "pending_subscriptions_without_effect": 300, "listed_validators": 1500, "subscriptions_of_validators_not_loaded": 50}})
}

func c29case(c *Ctx, i int, name string) {
	r := chainRand(c, "C29", i)
	p := apiProfile(r)
	p.Busy = 30 + r.Intn(60)
	p.Cleanups = 0
	p.NVals = 8 + r.Intn(14)
	if i%4 == 3 {
		p.PMissed = 300
	}
	ch := GenChain(r, p)
	s := newAPIScene(c, name, ch, nil)
	if s == nil {
		return
	}
	defer s.stop()
	all := s.n.FillTo
	full := s.n.spc
	points := 4 + r.Intn(4)
	for s.step() {
		if s.m.lastBlock == 0 || r.Intn(len(ch.Blocks)) > points && s.pos != len(ch.Blocks) {
			continue
		}
		if s.reg == nil || r.Intn(3) == 0 {
			up := all
			if r.Intn(2) == 0 {
				up = uint64(r.Intn(int(all) + 1))
			}
			if !s.refresh(s.m.lastSlot, up) {
				return
			}
		}
		for k := 0; k < 3; k++ {
			s.c29point(r, full, k)
		}
	}
}

// c29point puts generated blocks on top of the processed ones and judges the view
func (s *scene) c29point(r *rand.Rand, full map[uint64]*BlockSpec, k int) {
	n, m, c := s.n, s.m, s.c
	n.mu.Lock()
	n.spc, n.num, n.bld = map[uint64]*BlockSpec{}, map[uint64]*BlockSpec{}, map[uint64]*Built{}
	for slot, b := range full {
		if slot <= m.lastSlot {
			n.addBlock(b)
		}
	}
	slot, number := m.lastSlot, m.lastBlock
	g := &genState{r: r, p: s.ch.profileLike(), c: s.ch, m: m}
	all := s.ch.World.Indices()
	focus := all[r.Intn(len(all))] // several events of one validator
	for nb := r.Intn(6); nb > 0; nb-- {
		slot += 1 + uint64(r.Intn(3))
		number++
		b := &BlockSpec{Slot: slot, Proposer: all[0], Number: number, Fork: "deneb", BaseFee: bi(7), FeeRec: addr(keyBuilder0)}
		to := common.HexToAddress(s.ch.Cfg.PoolAddress)
		b.Txs = []TxSpec{{Kind: 2, From: keyGov, To: &to, Value: big0(), Data: []byte{1, 2, 3, 4}, GasUsed: 40000, FeeCap: bi(7), TipCap: big0()}}
		for ne := r.Intn(7); ne > 0; ne-- {
			var e EvSpec
			if r.Intn(5) < 3 {
				e = g.subEvent()
			} else {
				e = g.unsubEvent()
				if r.Intn(3) == 0 {
					e.ID = all[r.Intn(len(all))]
				}
			}
			if r.Intn(3) == 0 {
				e.ID = focus
			}
			if v := s.ch.World.Vals[e.ID]; v != nil && r.Intn(4) != 0 {
				if a, ok := v.Exec(); ok {
					e.Addr = common.HexToAddress(a)
				}
			}
			if e.Amount == nil {
				e.Amount = big0()
			}
			if e.Kind == "sub" && s.reg[e.ID] == nil {
				c.R.Count("subscriptions_of_validators_not_loaded", 1)
			}
			b.Events = append(b.Events, e)
		}
		n.addBlock(b)
	}
	n.Head, n.Finalized = slot, m.lastSlot
	if r.Intn(3) == 0 && slot > m.lastSlot {
		n.Finalized = m.lastSlot + uint64(r.Intn(int(slot-m.lastSlot)))
	}
	n.mu.Unlock()
	before := contentOf(s.or.State())
	pend := s.pending()
	for u := 0; u < 9; u++ {
		s.byAddress(addr(keyUser0+u), pend, m, r)
	}
	s.byAddress(addr(keyUser0+60), pend, m, r)
	s.byAddress(addr(keyGov), pend, m, r)
	c.R.Seen(fmt.Sprint(s.name, m.lastSlot, k))
	if k == 0 {
		a := addr(keyUser0 + r.Intn(8))
		path := "/memory/validators/" + strings.ToLower(a.Hex())
		want := s.get(path)
		if len(s.view(a, pend)) > 0 {
			s.underFaults(r, path, 3, func(x resp) string {
				if x.code == 200 && bytes.Equal(x.body, want.body) {
					return ""
				}
				return "the answer is neither an error nor the listing"
			})
		}
	}
	if after := contentOf(s.or.State()); !bytes.Equal(before, after) {
		s.fail("state-modified", "listing an address changed the oracle's state: "+firstDiff(before, after), resp{})
	}
}

func (c *Chain) profileLike() Profile { return defProfile() }

// ---------------------------------------------------------------- C21

func init() {
	register(&Check{ID: "C21", Rule: "proof requests for all addresses against every relation of the contract's root and slot to the oracle's checkpoints, with node faults; proofs verified with an independent Merkle verifier against the contract's root",
		Assumptions: []string{"Keccak-256 of go-ethereum", "the contract's root, slot and claimed amount are read in separate calls of an unchanging chain"},
		Run:         func(c *Ctx) { c.cases(c.N(32, 900), func(i int, name string) { c21case(c, i, name) }) },
		MinEvals:    3000, MinCounters: map[string]int64{"proofs_verified": 500, "refused_relations": 500, "node_faults_answered_with_an_error": 500}})
}

func c21case(c *Ctx, i int, name string) {
	r := chainRand(c, "C21", i)
	p := apiProfile(r)
	p.Busy = 40 + r.Intn(60)
	p.Ckpt = uint64(pick(r, 3, 7, 11, 16))
	p.PMev, p.PVan = 60, 40
	ch := GenChain(r, p)
	s := newAPIScene(c, name, ch, nil)
	if s == nil {
		return
	}
	defer s.stop()
	s.setFinal(ch.Cfg.DeployedSlot)
	if !s.refresh(ch.Cfg.DeployedSlot, s.n.FillTo) {
		return
	}
	s.c21relations(r)
	for s.step() {
		if len(s.ckpts) > 0 && r.Intn(len(ch.Blocks)) < 9 || s.pos == len(ch.Blocks) {
			s.c21relations(r)
		}
	}
}

func (s *scene) c21relations(r *rand.Rand) {
	n := s.n
	before := contentOf(s.or.State())
	hash := func(h string) (x [32]byte) {
		b, _ := hex.DecodeString(h[2:])
		copy(x[:], b)
		return
	}
	for k := 0; k < 10; k++ {
		var f *frozen // the checkpoint that is on chain and known
		root, slot := [32]byte{}, s.ch.Cfg.DeployedSlot
		any := func() *frozen {
			if r.Intn(2) == 0 {
				return s.ckpts[len(s.ckpts)-1]
			}
			return s.ckpts[r.Intn(len(s.ckpts))]
		}
		rel := r.Intn(9)
		if k < 4 {
			rel = 0
		}
		if len(s.ckpts) == 0 && rel < 7 {
			rel = 7
		}
		name := ""
		switch rel {
		case 0, 1, 2:
			f = any()
			root, slot, name = hash(f.root), f.slot, "consolidated"
		case 3: // another root for this slot
			g := any()
			root, slot, name = hash(g.root), g.slot, "bit flipped in the root"
			root[r.Intn(32)] ^= 1 << r.Intn(8)
		case 4: // the root of another slot
			g, h := any(), any()
			root, slot, name = hash(g.root), h.slot, "root of another checkpoint"
			if g.root == h.root {
				f = h
			}
		case 5:
			g := any()
			root, slot, name = hash(g.root), g.slot+1+uint64(r.Intn(3)), "slot without a checkpoint"
		case 6: // a later slot than ours, as if other oracles were ahead
			r.Read(root[:])
			slot, name = s.m.lastSlot+s.ch.Cfg.Checkpoint, "later slot, unknown root"
		case 7:
			name = "nothing consolidated yet"
		case 8:
			r.Read(root[:])
			name = "unknown root"
		}
		// is this slot one of ours after all (e.g. slot+1 with tiny checkpoints)?
		for _, g := range s.ckpts {
			if g.slot == slot && g.root == "0x"+hex.EncodeToString(root[:]) {
				f = g
			}
		}
		dist := uint64(pick(r, 0, 0, 1, 64, 65, 66, 200, 5000))
		if k < 4 {
			dist = uint64(pick(r, 0, 0, 30))
		}
		synced := dist <= 64
		s.setFinal(s.m.lastSlot + dist)
		n.mu.Lock()
		n.Con.Root, n.Con.Slot = root, slot
		n.Con.Claimed = map[common.Address]*big.Int{}
		// what had been claimed by an older block is less: only the latest block has it all
		claimed := n.Con.Claimed
		n.ByBlockClaimed = func(a common.Address, block string) *big.Int {
			v := claimed[a]
			if v != nil && block != "latest" && block != "pending" {
				v = new(big.Int).Rsh(v, 1)
			}
			return v
		}
		var as []common.Address
		if f != nil {
			for _, l := range f.leaves {
				as = append(as, l.Addr)
				switch r.Intn(4) {
				case 0:
				case 1:
					n.Con.Claimed[l.Addr] = bclone(l.Amount)
				default:
					n.Con.Claimed[l.Addr] = new(big.Int).Rand(r, new(big.Int).Add(l.Amount, bi(1)))
				}
			}
		}
		n.mu.Unlock()
		for u := 0; u < 7; u++ {
			as = append(as, addr(keyUser0+u))
		}
		as = append(as, addr(keyPool), addr(keyPoolFees), addr(keyDonor0), common.Address{})
		for j, a := range as {
			x := s.c21one(r, a, f, synced, name)
			if x != nil && j < 2 && k < 2 && s.c.N(1, 2) > 0 {
				y := *x
				s.underFaults(r, "/onchain/proof/"+a.Hex(), 2, func(x resp) string {
					if x.code == 200 && sameProof(x.body, y.body) {
						return ""
					}
					return "the answer is neither an error nor the proof"
				})
			}
		}
		s.c.R.Seen(fmt.Sprint(s.name, s.m.lastSlot, k, name))
	}
	if after := contentOf(s.or.State()); !bytes.Equal(before, after) {
		s.fail("state-modified", "proof requests changed the oracle's state: "+firstDiff(before, after), resp{})
	}
}

func sameProof(a, b []byte) bool {
	norm := func(x []byte) string {
		o, ok := decodeNum(x).(map[string]interface{})
		if !ok {
			return string(x)
		}
		s, _ := asSet(o["registered_validators"])
		o["registered_validators"] = s
		return canon(o)
	}
	return json.Valid(a) && norm(a) == norm(b)
}

func (s *scene) c21one(r *rand.Rand, a common.Address, f *frozen, synced bool, rel string) *resp {
	h := a.Hex()
	if r.Intn(2) == 0 {
		h = strings.ToLower(h)
	}
	path := "/onchain/proof/" + h
	x := s.get(path)
	if !s.wellFormed(path, x) {
		return nil
	}
	s.c.R.Eval(1)
	var leaf *MLeaf
	if f != nil {
		for i := range f.leaves {
			if f.leaves[i].Addr == a {
				leaf = &f.leaves[i]
			}
		}
	}
	if leaf == nil || !synced {
		s.c.R.Count("refused_relations", 1)
		if !errored(x) {
			why := rel
			if !synced {
				why = "the oracle is not in sync"
			} else if f != nil {
				why = "the address has no leaf"
			}
			s.fail("answered:"+strings.ReplaceAll(why, " ", "-"), fmt.Sprintf("GET %s is answered although: %s", path, why), x)
		}
		return nil
	}
	if x.code != 200 {
		s.fail("refused", fmt.Sprintf("GET %s is refused although the checkpoint on chain is known", path), x)
		return nil
	}
	claimed := s.n.Con.Claimed[a]
	if claimed == nil {
		claimed = big0()
	}
	pend := big0()
	var regs []string
	for i, v := range f.m.vals {
		if common.HexToAddress(v.Addr) == a {
			pend.Add(pend, v.Pend)
			regs = append(regs, fmt.Sprint(i))
		}
	}
	s.object(path, x, jobj{"leaf_withdrawal_address": strings.ToLower(a.Hex()), "leaf_accumulated_balance": leaf.Amount.String(), "merkleroot": f.root, "checkpoint_slot": num(f.slot),
		"total_accumulated_rewards_wei": leaf.Amount.String(), "already_claimed_rewards_wei": claimed.String(), "claimable_rewards_wei": new(big.Int).Sub(leaf.Amount, claimed).String(),
		"pending_rewards_wei": pend.String()}, "leaf_withdrawal_address", "merkleroot")
	o, _ := decodeNum(x.body).(map[string]interface{})
	got, _ := asSet(o["registered_validators"])
	sort.Strings(regs)
	if strings.Join(got, ",") != strings.Join(regs, ",") {
		s.fail("registered", fmt.Sprintf("GET %s: registered validators %v, want %v", path, got, regs), x)
	}
	var pr [][]byte
	l, _ := o["merkle_proofs"].([]interface{})
	for _, e := range l {
		b, err := hexBytes(fmt.Sprint(e))
		if err != nil || len(b) != 32 {
			s.fail("proof-shape", "GET "+path+": an element of the proof is not a 32 byte hash", x)
			return nil
		}
		pr = append(pr, b)
	}
	if !verifyProof(leafHash(*leaf), pr, s.n.Con.Root[:]) {
		s.fail("proof-invalid", "GET "+path+": the proof does not verify against the contract's root", x)
		return nil
	}
	s.c.R.Count("proofs_verified", 1)
	return &x
}

// ---------------------------------------------------------------- C28

func init() {
	register(&Check{ID: "C28", Rule: "random assignments of answers to the relays of a pool; every relay reported once in its class, verdict by the rule, any failing relay an error",
		Assumptions: []string{"relays answer 404 (or 400) for a key without a registration", "a registration is read with go-builder-client, whose leniency about field lengths is not judged"},
		Run: func(c *Ctx) {
			c.cases(c.N(48, 400), func(i int, name string) { c28case(c, i, name) })
		},
		MinEvals: 1500, MinCounters: map[string]int64{"positive_verdicts": 100, "negative_verdicts": 200, "failing_relays": 250}})
}

type fakeRelay struct {
	srv  *http.Server
	url  string
	mode string
	ts   int64
	fee  string
	pub  string // key asked last
	path string
	junk string
}

func newRelay() *fakeRelay {
	f := &fakeRelay{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	f.url = "http://" + l.Addr().String()
	f.srv = &http.Server{Handler: http.HandlerFunc(f.serve)}
	go f.srv.Serve(l)
	return f
}

var relayGarbage = []string{"", "null", "{}", "[]", "0", `"x"`, "<html>ok</html>", `{"message":null,"signature":"0x00"}`, `{"message":{},"signature":""}`, `{"code":404,"message":"no registration found"}`,
	`{"data":{}}`, "[null]", "{", `{"message":{"fee_recipient":"0xzz","gas_limit":"1","timestamp":"1","pubkey":"0x00"}}`, "\xff\xfe"}

func (f *fakeRelay) serve(w http.ResponseWriter, q *http.Request) {
	f.pub, f.path = q.URL.Query().Get("pubkey"), q.URL.Path
	body := fmt.Sprintf(`{"message":{"fee_recipient":"%s","gas_limit":"30000000","timestamp":"%d","pubkey":"%s"},"signature":"0x%s"}`, f.fee, f.ts, f.pub, strings.Repeat("ab", 96))
	w.Header().Set("Content-Type", "application/json")
	switch {
	case f.mode == "ok":
		io.WriteString(w, body)
	case f.mode == "404" || f.mode == "400":
		code, _ := strconv.Atoi(f.mode)
		w.WriteHeader(code)
		io.WriteString(w, f.junk)
	case strings.HasPrefix(f.mode, "status"):
		code, _ := strconv.Atoi(f.mode[6:])
		w.WriteHeader(code)
		if code != 204 && code != 304 {
			io.WriteString(w, pickStr(f.junk, body))
		}
	case f.mode == "garbage":
		io.WriteString(w, f.junk)
	case f.mode == "truncated":
		w.Header().Set("Content-Length", fmt.Sprint(len(body)))
		io.WriteString(w, body[:len(body)/2])
	case f.mode == "half":
		io.WriteString(w, body[:len(body)-3])
	case f.mode == "nomessage":
		io.WriteString(w, fmt.Sprintf(`{"signature":"0x%s"}`, strings.Repeat("ab", 96)))
	case f.mode == "hang":
		select {
		case <-q.Context().Done():
		case <-time.After(60 * time.Second):
		}
	default: // drop
		h, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			h.Close()
		}
	}
}

func pickStr(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func c28case(c *Ctx, i int, name string) {
	r := chainRand(c, "C28", i)
	p := apiProfile(r)
	p.Busy, p.Cleanups = 6, 0
	ch := GenChain(r, p)
	nr := r.Intn(7)
	if i%8 == 0 {
		nr = 0
	}
	if i%17 == 3 {
		nr++
	}
	var rs []*fakeRelay
	var urls []string
	for k := 0; k < nr; k++ {
		f := newRelay()
		defer f.srv.Close()
		rs = append(rs, f)
		urls = append(urls, f.url)
	}
	s := newAPIScene(c, name, ch, urls)
	if s == nil {
		return
	}
	defer s.stop()
	pool := common.HexToAddress(ch.Cfg.PoolAddress).Hex()
	before := contentOf(s.or.State())
	for k := 0; k < c.N(150, 800); k++ {
		// sets of relays that mostly agree, so that verdicts of both signs are common
		style := r.Intn(8)
		var correct, wrong, unreg []string
		failing := ""
		want := map[string][2]string{}
		for _, f := range rs {
			f.ts = int64(pick(r, 0, 1, 1700000000, r.Intn(2000000000)))
			f.junk = ""
			x := r.Intn(10)
			kind := "correct"
			switch style {
			case 0:
			case 1:
				kind = pick(r, "correct", "unreg")
			case 2:
				if x == 0 {
					kind = "wrong"
				}
			case 3:
				kind = pick(r, "wrong", "unreg")
			case 4:
				kind = pick(r, "correct", "wrong", "unreg")
			default:
				if x < 3 {
					kind = "fail"
				} else {
					kind = pick(r, "correct", "wrong", "unreg")
				}
			}
			f.fee = pool
			if r.Intn(2) == 0 {
				f.fee = strings.ToLower(pool)
			} else if r.Intn(3) == 0 {
				f.fee = "0x" + strings.ToUpper(pool[2:])
			}
			switch kind {
			case "correct":
				f.mode = "ok"
				correct = append(correct, f.url)
			case "wrong":
				f.mode = "ok"
				a := addr(pick(r, keyBuilder0, keyBuilder1, keyUser0, keyPoolFees, keyDonor0))
				switch r.Intn(3) {
				case 0:
					a = common.HexToAddress(pool)
					a[r.Intn(20)] ^= 1 << r.Intn(8)
				case 1:
					a = common.Address{}
				}
				f.fee = a.Hex()
				wrong = append(wrong, f.url)
			case "unreg":
				f.mode = pick(r, "404", "404", "400")
				f.junk = pick(r, "", `{"code":404,"message":"no registration found"}`, "null", "<html>")
				unreg = append(unreg, f.url)
			case "fail":
				f.mode = pick(r, "status500", "status502", "status503", "status429", "status204", "status301", "status403", "garbage", "garbage", "garbage", "truncated", "half", "nomessage", "drop")
				if strings.HasPrefix(f.mode, "status") {
					f.junk = pick(r, "", "", "busy", `{"code":500,"message":"busy"}`)
				}
				if f.mode == "garbage" {
					f.junk = relayGarbage[r.Intn(len(relayGarbage))]
				}
				failing = f.mode + " " + f.junk
			}
			want[f.url] = [2]string{common.HexToAddress(f.fee).Hex(), fmt.Sprint(f.ts * 1000000000)}
		}
		pk := mkPub(uint64(r.Intn(1000)))
		ph := hex.EncodeToString(pk[:])
		if r.Intn(3) == 0 {
			ph = strings.ToUpper(ph)
		}
		path := "/registeredrelays/0x" + ph
		x := s.get(path)
		if !s.wellFormed(path, x) {
			continue
		}
		c.R.Eval(1)
		c.R.Seen(fmt.Sprint(len(correct), len(wrong), len(unreg), failing, k%3))
		if failing != "" {
			c.R.Count("failing_relays", 1)
			if !errored(x) {
				s.fail("verdict-without-answer:"+firstWords(failing, 1), "a relay fails ("+failing+") and a verdict is given", x)
			}
			continue
		}
		var got struct {
			Verdict *bool               `json:"correct_fee_recipients"`
			C       []map[string]string `json:"correct_fee_relayers"`
			W       []map[string]string `json:"wrong_fee_relayers"`
			U       []map[string]string `json:"unregistered_relayers"`
		}
		if x.code != 200 || json.Unmarshal(x.body, &got) != nil || got.Verdict == nil {
			s.fail("refused", "the registration status is not answered although all relays answered", x)
			continue
		}
		names := func(l []map[string]string) string {
			var o []string
			for _, e := range l {
				o = append(o, e["relay_address"])
			}
			sort.Strings(o)
			return strings.Join(o, ",")
		}
		srt := func(l []string) string { l = append([]string{}, l...); sort.Strings(l); return strings.Join(l, ",") }
		if names(got.C) != srt(correct) || names(got.W) != srt(wrong) || names(got.U) != srt(unreg) {
			s.fail("classes", fmt.Sprintf("relays are classed correct [%s] wrong [%s] unregistered [%s], want [%s] [%s] [%s]", names(got.C), names(got.W), names(got.U), srt(correct), srt(wrong), srt(unreg)), x)
		}
		if v := len(correct) > 0 && len(wrong) == 0; v != *got.Verdict {
			s.fail("verdict", fmt.Sprintf("verdict %v with %d correct, %d wrong and %d unregistered relays", *got.Verdict, len(correct), len(wrong), len(unreg)), x)
		} else if v {
			c.R.Count("positive_verdicts", 1)
		} else {
			c.R.Count("negative_verdicts", 1)
		}
		for _, e := range append(append([]map[string]string{}, got.C...), got.W...) {
			w := want[e["relay_address"]]
			if !strings.EqualFold(e["fee_recipient"], w[0]) || e["timestamp"] != w[1] {
				s.fail("registration", fmt.Sprintf("registration at %s is reported as %v, want %v", e["relay_address"], e, w), x)
			}
		}
		for _, f := range rs {
			if !strings.EqualFold(f.pub, "0x"+ph) || f.path != "/relay/v1/data/validator_registration" {
				s.fail("asked", fmt.Sprintf("relay asked %s for %s, want the registration of 0x%s", f.path, f.pub, ph), x)
			}
		}
	}
	if i%17 == 3 {
		// one relay never answers
		for _, f := range rs {
			f.mode, f.fee = "ok", pool
		}
		rs[r.Intn(nr)].mode = "hang"
		t0 := time.Now()
		x := s.get("/registeredrelays/" + "0x" + strings.Repeat("ab", 48))
		c.R.Eval(1)
		c.R.Count("hanging_relays", 1)
		if s.wellFormed("/registeredrelays", x) && !errored(x) {
			s.fail("verdict-without-answer:hang", "a relay does not answer and a verdict is given", x)
		}
		c.R.Max("longest_wait_ms", int(time.Since(t0).Milliseconds()))
	}
	if after := contentOf(s.or.State()); !bytes.Equal(before, after) {
		s.fail("state-modified", "relay requests changed the oracle's state", resp{})
	}
}

// ---------------------------------------------------------------- C24

func init() {
	register(&Check{ID: "C24", Rule: "generated malformed and borderline requests (paths, parameters, methods, raw bytes) against the real server in many oracle states: each gets one well-formed response, an error where the input is invalid, and the state stays byte for byte",
		Assumptions: []string{"input whose validity is debatable (0X prefix, paths that are cleaned by a redirect) only has to be answered"},
		Run:         func(c *Ctx) { c.cases(c.N(160, 1200), func(i int, name string) { c24case(c, i, name) }) },
		MinEvals:    5000, MinCounters: map[string]int64{"invalid_refused": 3000, "valid_answered": 500, "raw_requests": 200}})
}

var (
	reIndex = regexp.MustCompile(`^[0-9]+$`)
	reAddr  = regexp.MustCompile(`^0x[0-9a-fA-F]{40}$`)
	rePub   = regexp.MustCompile(`^0x[0-9a-fA-F]{96}$`)
)

func indexOK(s string) bool {
	if !reIndex.MatchString(s) {
		return false
	}
	x, _ := new(big.Int).SetString(s, 10)
	return x.IsUint64()
}

func c24case(c *Ctx, i int, name string) {
	r := chainRand(c, "C24", i)
	p := apiProfile(r)
	p.Busy, p.Cleanups = 20+r.Intn(50), 0
	if i%4 == 1 {
		p.PMissed, p.PMev, p.PVan, p.Busy = 900, 4, 4, 50 // red cards
	}
	ch := GenChain(r, p)
	rel := newRelay()
	rel.mode = "404"
	defer rel.srv.Close()
	s := newAPIScene(c, name, ch, []string{rel.url})
	if s == nil {
		return
	}
	defer s.stop()
	s.setFinal(ch.Cfg.DeployedSlot)
	stop := r.Intn(len(ch.Blocks))
	if i%6 == 0 {
		stop = 0
	}
	for s.pos < stop && s.step() {
	}
	if i%5 != 2 {
		if !s.refresh(s.m.lastSlot, uint64(r.Intn(int(s.n.FillTo)+1))) {
			return
		}
	}
	s.setFinal(s.m.lastSlot + uint64(pick(r, 0, 5, 64, 70)))
	if len(s.ckpts) > 0 {
		f := s.ckpts[len(s.ckpts)-1]
		s.n.Con.Slot = f.slot
		b, _ := hex.DecodeString(f.root[2:])
		copy(s.n.Con.Root[:], b)
	}
	before := contentOf(s.or.State())
	n := c.N(450, 3000)
	for k := 0; k < n; k++ {
		s.c24one(r)
	}
	for k := 0; k < n/20; k++ {
		s.c24raw(r)
	}
	// and it still serves
	if x := s.get("/memory/feesinfo"); x.err != nil || x.code != 200 {
		s.fail("dead", "the server does not answer after the malformed requests", x)
	}
	if after := contentOf(s.or.State()); !bytes.Equal(before, after) {
		s.fail("state-modified", "malformed requests changed the oracle's state: "+firstDiff(before, after), resp{})
	}
}

func hostile(r *rand.Rand) string {
	big := func(c string, n int) string { return strings.Repeat(c, n) }
	switch r.Intn(24) {
	case 0:
		return pick(r, "-1", "+1", "1.0", "1e3", "0x1", "０", "1_000", " 1", "1 ", "1\n", "\t1", "1\x00", "NaN", "null", "true", "abc", "18446744073709551616", "99999999999999999999999999")
	case 1:
		return big("9", 1+r.Intn(4000))
	case 2:
		return "0x" + big("zg"[r.Intn(2):][:1], 40)
	case 3:
		return "0x" + big("a", pick(r, 0, 1, 38, 39, 41, 42, 64, 5000))
	case 4:
		return big("a", 40)
	case 5:
		return "0x" + big("_", 96)
	case 6: // the characters between Z and a
		b := []byte(big("a", 96))
		b[r.Intn(96)] = "[\\]^_`GgZz{@:"[r.Intn(13)]
		return "0x" + string(b)
	case 7:
		return "0x" + big("b", pick(r, 94, 95, 97, 98, 96*2))
	case 8:
		b := make([]byte, r.Intn(60))
		r.Read(b)
		return string(b)
	case 9:
		return pick(r, "%", "%00", "%zz", "%2e%2e", "..%2f", "{valindex}", "*", "?", "#", "&", ";", "'", "\"", "<script>", "$(id)", "`id`", "\\", "|")
	case 10:
		return pick(r, "..", ".", "...", "~", " ", "  ", "")
	case 11:
		return strings.Repeat("1,", r.Intn(150)) + pick(r, "", "1", ",", "x")
	case 12:
		return strings.Repeat("7,", pick(r, 98, 99, 100, 101, 500, 5000)) + "7"
	case 13:
		return pick(r, ",", ",,", "1,,2", ",1", "1,", "1, 2", "1;2", "1,-2", "1,2,x", "1,18446744073709551616")
	case 14:
		return fmt.Sprint(r.Uint64())
	case 15:
		return fmt.Sprint(r.Intn(70))
	case 16:
		return fmt.Sprintf("%05d", r.Intn(70))
	case 17:
		return addr(keyUser0 + r.Intn(9)).Hex()
	case 18:
		return strings.ToLower(addr(keyUser0 + r.Intn(9)).Hex())
	case 19:
		p := mkPub(uint64(r.Intn(50)))
		return "0x" + hex.EncodeToString(p[:])
	case 20: // one character of an address replaced
		b := []byte(addr(keyUser0 + r.Intn(9)).Hex())
		b[2+r.Intn(40)] = "gGxX[`@/ -"[r.Intn(10)]
		return string(b)
	case 21:
		return addr(keyUser0).Hex() + pick(r, "\n", " ", "\x00", "0", "%20", "\u200b")
	case 22:
		return pick(r, " ", "\n", "x") + addr(keyUser0).Hex()
	default:
		var l []string
		for k := 1 + r.Intn(8); k > 0; k-- {
			l = append(l, fmt.Sprint(r.Intn(70)))
		}
		return strings.Join(l, ",")
	}
}

func (s *scene) c24one(r *rand.Rand) {
	c := s.c
	param := hostile(r)
	route := pick(r, "/memory/validator/", "/memory/validatorsbyindex/", "/memory/validators/", "/onchain/proof/", "/registeredrelays/", "/")
	method := "GET"
	if r.Intn(8) == 0 {
		method = pick(r, "POST", "PUT", "DELETE", "PATCH", "HEAD", "TRACE", "CONNECT", "FOO", "get")
	}
	path := route + url.PathEscape(param)
	if r.Intn(30) == 0 {
		path += pick(r, "/", "/x", "?x=1", "?"+strings.Repeat("q", 3000), "//", "/../..")
	}
	// unreachable relays and odd states are fine; the response must be there
	req, err := http.NewRequest(method, s.base+path, nil)
	if err != nil {
		return // not a request at all
	}
	var x resp
	hr, err := s.hc.Do(req)
	if err != nil {
		x = resp{err: err}
	} else {
		b, err := io.ReadAll(hr.Body)
		hr.Body.Close()
		x = resp{code: hr.StatusCode, ct: hr.Header.Get("Content-Type"), body: b, err: err}
	}
	c.R.Eval(1)
	c.R.Seen(method + path)
	what := method + " " + strconv.Quote(cutStr(path, 300))
	if x.err != nil {
		s.fail("no-response:"+route, what+" gets no response", x)
		return
	}
	plain := path == route+url.PathEscape(param) && param != "." && param != ".." && !strings.Contains(param, "/")
	if method != "GET" {
		if x.code < 300 && method != "HEAD" {
			s.fail("method:"+method, what+" is accepted", x)
		}
		return
	}
	if !plain {
		return
	}
	valid, listed := false, false
	switch route {
	case "/memory/validator/":
		valid = indexOK(param)
	case "/memory/validatorsbyindex/":
		l := strings.Split(param, ",")
		valid = len(l) <= 100
		for _, e := range l {
			valid = valid && indexOK(e)
		}
		listed = valid
	case "/memory/validators/", "/onchain/proof/":
		valid = reAddr.MatchString(param)
		if len(param) == 42 && strings.HasPrefix(param, "0X") {
			return
		}
	case "/registeredrelays/":
		valid = rePub.MatchString(param)
		listed = valid
	case "/":
		if param == "" {
			return
		}
		if _, ok := map[string]bool{"status": true, "config": true, "state": true}[param]; ok {
			return
		}
	}
	switch {
	case !valid && x.code < 300:
		s.fail("accepted:"+route, what+" is not valid and answered with success", x)
	case !valid:
		c.R.Count("invalid_refused", 1)
		if route != "/" && x.code != 404 && x.code < 400 {
			return // redirect of an unclean path
		}
		if route != "/" && param != "" && x.code != 404 && !errored(x) {
			s.fail("error-shape:"+route, what+" is refused with something else than an error document", x)
		}
	case listed && x.code != 200:
		s.fail("refused:"+route, what+" is valid and refused", x)
	default:
		c.R.Count("valid_answered", 1)
		if !json.Valid(x.body) {
			s.fail("not-json:"+route, what+" is answered with something that is not JSON", x)
		}
	}
}

// c24raw sends bytes that are hardly HTTP
func (s *scene) c24raw(r *rand.Rand) {
	c := s.c
	junk := make([]byte, 1+r.Intn(300))
	r.Read(junk)
	host := "Host: x\r\n"
	raw := pick(r,
		"GET / HTTP/1.1\r\n\r\n", // no host
		"GET  / HTTP/1.1\r\n"+host+"\r\n",
		"GET /memory/validator/"+strings.Repeat("9", 3000000)+" HTTP/1.1\r\n"+host+"\r\n",
		"GET /memory/validatorsbyindex/"+strings.Repeat("1,", 300000)+"1 HTTP/1.1\r\n"+host+"\r\n",
		"GET /memory/validator/%zz HTTP/1.1\r\n"+host+"\r\n",
		"GET /memory/validator/\x01 HTTP/1.1\r\n"+host+"\r\n",
		"GET /memory/validators/0x"+strings.Repeat("%00", 40)+" HTTP/1.1\r\n"+host+"\r\n",
		"GET /registeredrelays/"+strings.Repeat("%2e%2e%2f", 100)+" HTTP/1.1\r\n"+host+"\r\n",
		"GET /state HTTP/9.9\r\n"+host+"\r\n",
		"BREW /status HTTP/1.1\r\n"+host+"\r\n",
		"GET /memory/donations HTTP/1.1\r\n"+host+"Content-Length: -1\r\n\r\n",
		"POST /memory/feesinfo HTTP/1.1\r\n"+host+"Content-Length: 5\r\nConnection: close\r\n\r\nhello",
		"GET /memory/feesinfo HTTP/1.1\r\n"+host+"X: "+strings.Repeat("y", 2000000)+"\r\n\r\n",
		"OPTIONS * HTTP/1.1\r\n"+host+"\r\n",
		"GET http:///memory/feesinfo HTTP/1.1\r\n"+host+"\r\n",
		string(junk)+"\r\n\r\n",
		"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03\r\n\r\n",
	)
	conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.port))
	if err != nil {
		s.fail("no-connection", "the server does not accept connections", resp{err: err})
		return
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	go io.WriteString(conn, raw)
	hr, err := http.ReadResponse(bufio.NewReader(conn), nil)
	c.R.Eval(1)
	c.R.Count("raw_requests", 1)
	what := strconv.Quote(cutStr(raw, 80))
	if err != nil {
		if strings.Contains(err.Error(), "reset") && len(raw) > 1000000 {
			return // the refusal of an oversized request may be overtaken by the reset
		}
		s.fail("raw-no-response", what+" gets no response", resp{err: err})
		return
	}
	hr.Body.Close()
	if hr.StatusCode < 400 && !strings.HasPrefix(raw, "OPTIONS") && !strings.HasPrefix(raw, "GET http") && hr.StatusCode/100 != 3 && !strings.HasPrefix(raw, "GET / HTTP/1.1") && !strings.HasPrefix(raw, "POST") {
		s.fail("raw-accepted", what+fmt.Sprintf(" is answered with %d", hr.StatusCode), resp{code: hr.StatusCode})
	}
}
