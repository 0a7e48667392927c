package main

// The HTTP API of the real service in front of the fake nodes: C20 (answers
// reflect the state), C21 (proofs), C24 (malformed requests), C28 (relays),
// C29 (the view that is not final yet).

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	stdlog "log"
	"math/big"
	"math/rand"
	"net/http"
	"sort"
	"strings"
	"time"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/dappnode/mev-sp-oracle/api"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
)

// what was frozen, according to the reference
type frozen struct {
	slot   uint64
	root   string
	leaves []MLeaf
	m      *Model
}

type scene struct {
	c      *Ctx
	name   string
	ch     *Chain
	n      *Node
	on     *oracle.Onchain
	or     *oracle.Oracle
	cfg    *oracle.Config
	m      *Model
	base   string
	port   int
	hc     *http.Client
	relays []string
	ckpts  []*frozen
	reg    map[uint64]*v1.Validator // registry loaded by the oracle; nil: none
	pos    int                      // blocks processed
	ok     bool                     // the oracle's state is the reference's
	panics *tail
}

type resp struct {
	code int
	ct   string
	body []byte
	err  error
}

func (r resp) String() string {
	if r.err != nil {
		return "no response: " + r.err.Error()
	}
	return fmt.Sprintf("%d %s", r.code, cutStr(string(r.body), 600))
}

func cutStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// newScene wires a chain, fake nodes, an oracle and the real API service together
func newAPIScene(c *Ctx, name string, ch *Chain, relays []string) *scene {
	s := &scene{c: c, name: name, ch: ch, m: NewModel(ch), ok: true, relays: relays, panics: &tail{}}
	s.n = NewNode(ch)
	s.n.KeepLog = false
	s.n.Start()
	var err error
	if o := guard(func() { s.on, err = oracle.NewOnchain(s.n.Cli(), nil) }); o.Bad() || err != nil || s.on == nil {
		c.R.Inconc(fmt.Sprint("cannot connect to the fake nodes: ", o, err))
		s.n.Stop()
		return nil
	}
	resetDuties(s.on) // several histories share this process
	s.or, s.cfg = ch.NewOracle()
	s.hc = &http.Client{Timeout: 30 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
		Transport: &http.Transport{MaxIdleConnsPerHost: 16}}
	stdlog.SetOutput(s.panics) // net/http reports panics of handlers there
	for try := 0; try < 5; try++ {
		cli := s.n.Cli()
		cli.ApiPort = freePort()
		cli.RelayersEndpoints = relays
		svc := api.NewApiService(s.cfg, cli, s.or, s.on)
		go guard(func() { svc.StartHTTPServer() })
		s.port = cli.ApiPort
		s.base = fmt.Sprintf("http://127.0.0.1:%d", s.port)
		for k := 0; k < 100; k++ {
			if r := s.get("/"); r.err == nil && r.code == 200 {
				return s
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	c.R.Inconc("the API does not come up")
	s.n.Stop()
	return nil
}

func (s *scene) stop() {
	s.n.Stop()
	s.hc.CloseIdleConnections()
}

func (s *scene) do(method, path string) resp {
	req, err := http.NewRequest(method, s.base+path, nil)
	if err != nil {
		return resp{err: err}
	}
	r, err := s.hc.Do(req)
	if err != nil {
		return resp{err: err}
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return resp{err: err}
	}
	return resp{code: r.StatusCode, ct: r.Header.Get("Content-Type"), body: b}
}

func (s *scene) get(path string) resp { return s.do("GET", path) }

// step processes the next block; false: the chain is over or the oracle is no
// longer where the reference is (which is the business of other properties)
func (s *scene) step() bool {
	if s.pos >= len(s.ch.Blocks) || !s.ok {
		return false
	}
	b := s.ch.Blocks[s.pos]
	s.pos++
	_, err, o := advance(s.or, func() *oracle.FullBlock { return s.ch.Full(b, s.ch.needExec(s.m, b)) })
	if o.Bad() || err != nil || s.m.Step(s.ch, b) != "" {
		s.ok = false
		return false
	}
	if ds := compareState(s.or.State(), s.m); len(ds) > 0 {
		s.ok = false
		s.c.R.Count("left_at_state_difference", 1)
		return false
	}
	at, err := s.or.IsCheckpoint()
	if err == nil && at {
		done := false
		if o := guard(func() { done = s.or.FreezeCheckpoint() }); o.Bad() {
			s.ok = false
			return false
		}
		if done {
			mc := s.m.clone()
			f := &frozen{slot: s.m.lastSlot, leaves: mc.leaves(), m: mc}
			var hs [][]byte
			for _, l := range f.leaves {
				hs = append(hs, leafHash(l))
			}
			f.root = "0x" + hex.EncodeToString(refRoot(hs))
			if st := s.or.State().CommitedStates[f.slot]; st == nil || st.MerkleRoot != f.root {
				s.ok = false
				return false
			}
			s.ckpts = append(s.ckpts, f)
		}
	}
	return true
}

// refresh loads the validator set at a slot, up to an index
func (s *scene) refresh(slot, upTo uint64) bool {
	s.n.mu.Lock()
	old := s.n.Finalized
	s.n.Finalized, s.n.FillTo = slot, upTo
	s.n.stateCache = map[uint64][]byte{}
	s.n.mu.Unlock()
	o := guard(func() { s.on.RefreshBeaconValidators() })
	s.n.mu.Lock()
	s.n.Finalized = old
	s.n.mu.Unlock()
	if o.Bad() {
		s.c.R.Inconc("validators not loaded: " + o.String())
		return false
	}
	s.reg = s.n.Registry(slot)
	return true
}

func (s *scene) setFinal(slot uint64) {
	s.n.mu.Lock()
	s.n.Finalized, s.n.Head = slot, slot
	s.n.mu.Unlock()
}

// pending blocks: after the last processed one, up to the head
func (s *scene) pending() []*BlockSpec {
	var out []*BlockSpec
	for _, b := range s.n.spc {
		if !b.Missed && b.Number > s.m.lastBlock && b.Slot <= s.n.Head {
			out = append(out, b)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Number < out[j].Number })
	return out
}

func (s *scene) fail(key, what string, r resp, more ...interface{}) {
	d := map[string]interface{}{"response": r.String(), "state": s.ch.Name, "processed_slot": s.m.lastSlot, "panics": ""}
	s.panics.mu.Lock()
	d["panics"] = cutStr(string(s.panics.buf), 1500)
	s.panics.mu.Unlock()
	for i, x := range more {
		d[fmt.Sprint("detail", i)] = x
	}
	s.c.R.Violate(key, s.name, what, d)
}

// wellFormed: a complete HTTP answer came; status and body are judged elsewhere
func (s *scene) wellFormed(path string, r resp) bool {
	if r.err != nil {
		s.fail("no-response:"+routeOf(path), "GET "+path+" gets no response", r)
		return false
	}
	if !json.Valid(r.body) {
		s.fail("not-json:"+routeOf(path), "GET "+path+" is answered with something that is not JSON", r)
		return false
	}
	return true
}

func routeOf(p string) string {
	f := strings.Split(strings.Trim(p, "/"), "/")
	if len(f) > 2 {
		f = append(f[:2], "x")
	} else if len(f) == 2 && f[0] == "registeredrelays" {
		f[1] = "x"
	}
	return strings.Join(f, "/")
}

// errored: an error answer that cannot be taken for data
func errored(r resp) bool {
	if r.err != nil || r.code < 400 || r.code > 599 {
		return false
	}
	var x map[string]interface{}
	if json.Unmarshal(r.body, &x) != nil {
		return false
	}
	_, c := x["code"]
	_, m := x["message"]
	return c && m && len(x) == 2
}

// canon renders any JSON value with sorted keys and exact numbers
func canon(v interface{}) string { return string(mustJSON(v)) }

// asSet: list of JSON objects, order removed
func asSet(v interface{}) ([]string, bool) {
	l, ok := v.([]interface{})
	if !ok {
		return nil, false
	}
	out := make([]string, 0, len(l))
	for _, x := range l {
		out = append(out, canon(x))
	}
	sort.Strings(out)
	return out, true
}

func sortedCanon[T any](l []T) []string {
	out := []string{}
	for _, x := range l {
		out = append(out, canon(decodeNum(mustJSON(x))))
	}
	sort.Strings(out)
	return out
}

type jobj = map[string]interface{}

func num(x uint64) json.Number { return json.Number(fmt.Sprint(x)) }

func (s *scene) recJSON(r MRec) jobj {
	return jobj{"slot": num(r.Slot), "block": num(r.Block), "validator_index": num(r.Val), "validator_key": r.Key, "block_type": r.Type, "reward_wei": r.Reward.String(),
		"reward_type": r.RType, "withdrawal_address": strings.ToLower(r.Addr)}
}

func lowerFields(v interface{}, fields ...string) interface{} {
	switch x := v.(type) {
	case []interface{}:
		for _, y := range x {
			lowerFields(y, fields...)
		}
	case map[string]interface{}:
		for _, f := range fields {
			if t, ok := x[f].(string); ok {
				x[f] = strings.ToLower(t)
			}
		}
	}
	return v
}

func subType(auto bool) string {
	if auto {
		return "auto"
	}
	return "manual"
}

// valJSON is the expected listing of one validator; nil if it is not in the loaded set
func (s *scene) valJSON(i uint64, v *MVal) jobj {
	b := s.reg[i]
	if b == nil {
		return nil
	}
	return jobj{"status": v.Status, "beacon_status": b.Status.String(), "beacon_balance_gwei": fmt.Sprint(uint64(b.Balance)), "beacon_effective_balance_gwei": fmt.Sprint(uint64(b.Validator.EffectiveBalance)),
		"accumulated_rewards_wei": v.Acc.String(), "pending_rewards_wei": v.Pend.String(), "collateral_wei": v.Coll.String(), "withdrawal_address": strings.ToLower(v.Addr),
		"validator_index": num(i), "validator_key": strings.ToLower(v.Key), "subscription_type": subType(v.Auto)}
}

func diffSets(got, want []string) string {
	g, w := map[string]int{}, map[string]int{}
	for _, x := range got {
		g[x]++
	}
	for _, x := range want {
		w[x]++
	}
	var out []string
	for x := range w {
		if g[x] < w[x] {
			out = append(out, "missing "+cutStr(x, 400))
		}
	}
	for x := range g {
		if g[x] > w[x] {
			out = append(out, "unexpected "+cutStr(x, 400))
		}
	}
	sort.Strings(out)
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "; ")
}

// list judges an endpoint that answers a list
func (s *scene) list(path string, want []jobj, lower ...string) {
	r := s.get(path)
	if !s.wellFormed(path, r) {
		return
	}
	s.c.R.Eval(1)
	s.c.R.Count("list_entries_compared", len(want))
	got, ok := asSet(lowerFields(decodeNum(r.body), lower...))
	if r.code != 200 || !ok {
		s.fail("refused:"+routeOf(path), "GET "+path+" does not answer its list", r)
		return
	}
	if d := diffSets(got, sortedCanon(want)); d != "" {
		s.fail("list:"+routeOf(path), "GET "+path+": "+d, r)
	}
}

// object judges fields of an endpoint that answers an object
func (s *scene) object(path string, r resp, want jobj, lower ...string) {
	if !s.wellFormed(path, r) {
		return
	}
	s.c.R.Eval(1)
	s.c.R.Count("fields_compared", len(want))
	if r.code != 200 {
		s.fail("refused:"+routeOf(path), "GET "+path+" does not answer", r)
		return
	}
	got, ok := lowerFields(decodeNum(r.body), lower...).(map[string]interface{})
	if !ok {
		s.fail("shape:"+routeOf(path), "GET "+path+" does not answer an object", r)
		return
	}
	for k, w := range want {
		if canon(got[k]) != canon(w) {
			s.fail("field:"+routeOf(path)+":"+k, fmt.Sprintf("GET %s: %s is %s, want %s", path, k, canon(got[k]), canon(w)), r)
		}
	}
}

func sumBig(xs ...*big.Int) *big.Int {
	t := big0()
	for _, x := range xs {
		t.Add(t, x)
	}
	return t
}

// ---------------------------------------------------------------- C20

func init() {
	register(&Check{ID: "C20", Rule: "every answer of the API equals what the reference holds for the same history, at many slots of many histories; requests leave the state byte for byte",
		Assumptions: []string{"totals and averages as documented in the handlers (rewards include donations, per validator share over earning validators)", "latest/next_checkpoint_slot of the statistics and human readable durations are not judged"},
		Run: func(c *Ctx) {
			c.cases(c.N(40, 900), func(i int, name string) { c20case(c, i, name) })
		},
		MinEvals: 3000, MinCounters: map[string]int64{"fields_compared": 3000, "list_entries_compared": 1000, "states_loaded_elsewhere": 50, "statistics_compared": 50}})
}

func apiProfile(r *rand.Rand) Profile {
	p := defProfile()
	p.SmallIdx = true
	p.Busy = 40 + r.Intn(110)
	p.Cleanups = pick(r, 0, 0, 0, 1)
	p.RDon = 30 + r.Intn(60)
	p.RSub = 60
	p.PMissed = 10 + r.Intn(60)
	p.PWrong = r.Intn(14)
	p.Crowd = -1
	if r.Intn(10) == 0 {
		p.Crowd = pick(r, 30, 110, 270)
	}
	return p
}

func c20case(c *Ctx, i int, name string) {
	r := chainRand(c, "C20", i)
	p := apiProfile(r)
	if i%5 == 4 {
		p.PMissed, p.Busy = 400, 60 // cards
	}
	ch := GenChain(r, p)
	s := newAPIScene(c, name, ch, nil)
	if s == nil {
		return
	}
	defer s.stop()
	dep := ch.Cfg.DeployedSlot
	s.n.Con.Slot = dep
	all := s.n.FillTo
	s.setFinal(dep)
	if i%3 != 0 {
		if !s.refresh(dep, all) {
			return
		}
	}
	s.c20judge(r)
	gap := 1 + r.Intn(len(ch.Blocks)/8+1)
	for s.step() {
		if r.Intn(40) == 0 {
			up := all
			if r.Intn(3) == 0 {
				up = uint64(r.Intn(int(all) + 1))
			}
			if !s.refresh(s.m.lastSlot, up) {
				return
			}
		}
		if (s.pos%gap == 0 || s.pos == len(ch.Blocks)) && (ch.interesting(ch.Blocks[s.pos-1], r) || r.Intn(3) == 0) {
			if s.reg == nil && !s.refresh(s.m.lastSlot, all) {
				return
			}
			s.setFinal(s.m.lastSlot + uint64(pick(r, 0, 0, 1, 33, 63, 64)))
			s.c20judge(r)
		}
	}
	if !s.ok || s.reg == nil {
		return
	}
	// a month later: the same state, but part of the records is old
	for k := 0; k < 6 && len(s.m.proposed)+len(s.m.donations) > 0; k++ {
		old := *s.m
		ls, lb := s.or.State().LatestProcessedSlot, s.or.State().LatestProcessedBlock
		cut := dep + uint64(r.Intn(int(ls-dep)+1))
		cutB := ch.Cfg.DeployedBlock + uint64(r.Intn(int(lb-ch.Cfg.DeployedBlock)+2))
		clear := true
		for _, b := range s.m.proposed {
			clear = clear && b.Slot != cut
		}
		for _, d := range s.m.donations {
			clear = clear && d.Block != cutB
		}
		if !clear {
			continue
		}
		s.m.lastSlot, s.m.lastBlock = cut+216000, cutB+216000
		s.or.State().LatestProcessedSlot, s.or.State().LatestProcessedBlock = s.m.lastSlot, s.m.lastBlock
		s.setFinal(s.m.lastSlot)
		s.statistics(r)
		s.c.R.Count("month_windows", 1)
		*s.m = old
		s.or.State().LatestProcessedSlot, s.or.State().LatestProcessedBlock = ls, lb
	}
}

func (s *scene) c20judge(r *rand.Rand) {
	m, n := s.m, s.n
	before := contentOf(s.or.State())
	c := s.c
	c.R.Seen(fmt.Sprint(s.name, m.lastSlot))
	// general
	if x := s.get("/"); s.wellFormed("/", x) && x.code != 200 {
		s.fail("refused:/", "GET / does not answer", x)
	}
	s.object("/config", s.get("/config"), jobj{"network": s.ch.Cfg.Net, "pool_address": s.ch.Cfg.PoolAddress, "deployed_slot": num(s.ch.Cfg.DeployedSlot), "checkpoint_size": num(s.ch.Cfg.Checkpoint),
		"pool_fees_percent": num(uint64(m.feePct)), "pool_fees_address": s.ch.Cfg.PoolFees, "dry_run": s.cfg.DryRun, "collateral_in_wei": s.ch.Cfg.Collateral.String()})
	n.mu.Lock()
	n.SyncDist = uint64(pick(r, 0, 1, 2, 3, 100))
	n.ELSyncing = r.Intn(4) == 0
	sd, els, fin := n.SyncDist, n.ELSyncing, n.Finalized
	if r.Intn(3) == 0 && fin > 5 {
		n.Con.Slot = fin - uint64(r.Intn(5))
	} else if len(s.ckpts) > 0 && r.Intn(2) == 0 {
		n.Con.Slot = s.ckpts[len(s.ckpts)-1].slot
	} else {
		n.Con.Slot = s.ch.Cfg.DeployedSlot
	}
	con := n.Con.Slot
	n.mu.Unlock()
	st := jobj{"is_consensus_in_sync": sd < 2, "is_execution_in_sync": !els, "is_oracle_in_sync": fin == m.lastSlot, "latest_processed_slot": num(m.lastSlot), "latest_processed_block": num(m.lastBlock),
		"latest_finalized_epoch": num(fin / 32), "latest_finalized_slot": num(fin), "next_checkpoint_slot": num(con + s.ch.Cfg.Checkpoint), "previous_checkpoint_slot": num(con),
		"consensus_chainid": fmt.Sprint(n.CLChain), "execution_chainid": fmt.Sprint(n.ELChain), "depositcontract": depositAddr}
	if fin >= m.lastSlot {
		st["oracle_sync_distance_slots"] = num(fin - m.lastSlot)
	}
	if fin >= con {
		st["previous_checkpoint_age_unix"] = num((fin - con) * 12)
	}
	left := uint64(0)
	if con+s.ch.Cfg.Checkpoint > fin {
		left = con + s.ch.Cfg.Checkpoint - fin
	}
	st["next_checkpoint_remaining_unix"] = num(left * 12)
	s.object("/status", s.get("/status"), st, "depositcontract")

	// the state document
	x := s.get("/state")
	if s.wellFormed("/state", x) {
		c.R.Eval(1)
		if x.code != 200 {
			s.fail("refused:state", "GET /state does not answer", x)
		} else {
			got := decodeNum(x.body).(map[string]interface{})
			delete(got, "state_hash")
			want := decodeNum(mustJSON(s.or.State())).(map[string]interface{})
			delete(want, "state_hash")
			if canon(got) != canon(want) {
				s.fail("state-content", "GET /state is not the current state: "+firstDiff([]byte(canon(got)), []byte(canon(want))), x)
			}
			other, _ := s.ch.NewOracle()
			var ok bool
			var err error
			o := guard(func() { ok, err = other.LoadFromBytes(x.body) })
			if o.Bad() || err != nil || !ok {
				s.fail("state-not-loadable", fmt.Sprintf("the document of /state does not load into an oracle of the same configuration: %v %v %v", ok, err, o), x)
			} else if g := contentOf(other.State()); !bytes.Equal(g, before) {
				s.fail("state-loads-differently", "the document of /state loads as another state: "+firstDiff(g, before), x)
			} else {
				c.R.Count("states_loaded_elsewhere", 1)
			}
		}
	}

	// fees, blocks, donations
	s.object("/memory/feesinfo", s.get("/memory/feesinfo"), jobj{"pool_fee_percent": num(uint64(m.feePct)), "pool_fee_address": s.ch.Cfg.PoolFees, "pool_accumulated_fees": m.fees.String()})
	recs := func(l ...[]MRec) []jobj {
		out := []jobj{}
		for _, a := range l {
			for _, x := range a {
				out = append(out, s.recJSON(x))
			}
		}
		return out
	}
	lf := []string{"validator_key", "withdrawal_address"}
	s.list("/memory/allblocks", recs(m.proposed, m.missed, m.wrong), lf...)
	s.list("/memory/proposedblocks", recs(m.proposed), lf...)
	s.list("/memory/missedblocks", recs(m.missed), lf...)
	s.list("/memory/wrongfeeblocks", recs(m.wrong), lf...)
	dons := []jobj{}
	for k, d := range m.donations {
		dons = append(dons, jobj{"amount_wei": d.Amount.String(), "block_number": num(d.Block), "tx_hash": strings.ToLower(s.or.State().Donations[k].Raw.TxHash.Hex()), "sender": strings.ToLower(d.From.Hex())})
	}
	s.list("/memory/donations", dons, "tx_hash", "sender")

	// validators
	var tracked []uint64
	for _, i := range m.sorted() {
		tracked = append(tracked, i)
	}
	want := []jobj{}
	for _, i := range tracked {
		if j := s.valJSON(i, m.vals[i]); j != nil {
			want = append(want, j)
		}
	}
	s.list("/memory/validators", want, lf...)
	for k := 0; k < 4; k++ {
		i := uint64(r.Intn(64))
		if len(tracked) > 0 && k < 3 {
			i = tracked[r.Intn(len(tracked))]
		}
		path := fmt.Sprintf("/memory/validator/%d", i)
		x := s.get(path)
		if v := m.vals[i]; v != nil {
			s.object(path, x, jobj{"status": v.Status, "accumulated_rewards_wei": json.Number(v.Acc.String()), "pending_rewards_wei": json.Number(v.Pend.String()), "collateral_wei": json.Number(v.Coll.String()),
				"withdrawal_address": strings.ToLower(v.Addr), "validator_index": num(i), "validator_key": strings.ToLower(v.Key), "subscription_type": subType(v.Auto)}, lf...)
		} else if c.R.Eval(1); !errored(x) {
			s.fail("unknown-answered", "GET "+path+" of a validator the oracle does not know is not answered with an error", x)
		}
	}
	// found / not found
	var ids []string
	var found []jobj
	var missing []json.Number
	for k := 1 + r.Intn(12); k > 0; k-- {
		i := uint64(r.Intn(70))
		if len(tracked) > 0 && r.Intn(2) == 0 {
			i = tracked[r.Intn(len(tracked))]
		} else if r.Intn(6) == 0 {
			i = r.Uint64()
		}
		ids = append(ids, fmt.Sprint(i))
		if v := m.vals[i]; v != nil {
			if j := s.valJSON(i, v); j != nil {
				found = append(found, j)
			}
		} else {
			missing = append(missing, num(i))
		}
	}
	path := "/memory/validatorsbyindex/" + strings.Join(ids, ",")
	x = s.get(path)
	if s.wellFormed(path, x) {
		c.R.Eval(1)
		var got struct {
			F []interface{} `json:"found_validators"`
			N []json.Number `json:"not_found_validators"`
		}
		if x.code != 200 || json.Unmarshal(x.body, &got) != nil {
			s.fail("refused:memory/validatorsbyindex", "GET "+path+" does not answer", x)
		} else {
			g := decodeNum(x.body).(map[string]interface{})
			fl, _ := g["found_validators"].([]interface{})
			fs, _ := asSet(lowerFields(fl, lf...))
			if d := diffSets(fs, sortedCanon(found)); d != "" {
				s.fail("byindex-found", "GET "+path+": found: "+d, x)
			}
			if d := diffSets(sortedCanon(got.N), sortedCanon(missing)); d != "" {
				s.fail("byindex-notfound", "GET "+path+": not found: "+d, x)
			}
		}
	}
	// by address
	for k := 0; k < 3; k++ {
		s.byAddress(addr(keyUser0+r.Intn(8)), s.pending(), m, r)
	}
	s.statistics(r)

	if after := contentOf(s.or.State()); !bytes.Equal(before, after) {
		s.fail("state-modified", "the requests changed the oracle's state: "+firstDiff(before, after), resp{})
	}
}

func (s *scene) statistics(r *rand.Rand) {
	m := s.m
	x := s.get("/memory/statistics")
	if !s.wellFormed("/memory/statistics", x) {
		return
	}
	if m.lastSlot < 216000 || m.lastBlock < 216000 {
		s.c.R.Eval(1)
		if !errored(x) && x.code != 200 {
			s.fail("refused:memory/statistics", "GET /memory/statistics of a young chain is neither answered nor refused", x)
		}
		return
	}
	by := map[string]uint64{}
	acc, pend := big0(), big0()
	eb := uint64(0)
	for i, v := range m.vals {
		by[v.Status]++
		acc.Add(acc, v.Acc)
		pend.Add(pend, v.Pend)
		if b := s.reg[i]; b != nil && m.subscribed(i) {
			eb += uint64(b.Validator.EffectiveBalance)
		}
	}
	sent, month, dons := big0(), big0(), big0()
	ok := uint64(0)
	for _, b := range m.proposed {
		if b.Type != "okpoolproposal" {
			continue
		}
		ok++
		sent.Add(sent, b.Reward)
		if b.Slot > m.lastSlot-216000 {
			month.Add(month, b.Reward)
		}
	}
	for _, d := range m.donations {
		dons.Add(dons, d.Amount)
		sent.Add(sent, d.Amount)
		if d.Block > m.lastBlock-216000 {
			month.Add(month, d.Amount)
		}
	}
	div := func(a *big.Int, b uint64) string {
		if b == 0 {
			return "0"
		}
		return new(big.Int).Div(a, new(big.Int).SetUint64(b)).String()
	}
	subs := by[stActive] + by[stYellow] + by[stRed]
	avgEB := uint64(0)
	if subs > 0 {
		avgEB = eb / subs
	}
	if by[stActive]+by[stYellow] == 0 && subs > 0 {
		s.c.R.Count("only_red_cards", 1)
	}
	s.c.R.Count("statistics_compared", 1)
	s.object("/memory/statistics", x, jobj{"total_subscribed_validators": num(subs), "total_active_validators": num(by[stActive]), "total_yellowcard_validators": num(by[stYellow]),
		"total_redcard_validators": num(by[stRed]), "total_banned_validators": num(by[stBanned]), "total_notsubscribed_validators": num(by[stNot]),
		"total_accumulated_rewards_wei": acc.String(), "total_pending_rewards_wei": pend.String(), "total_rewards_sent_wei": sent.String(), "total_rewards_sent_30days_wei": month.String(),
		"rewards_per_validator_per_30days_wei": div(month, by[stActive]+by[stYellow]), "total_donations_wei": dons.String(), "avg_block_reward_wei": div(sent, ok),
		"total_proposed_blocks": num(uint64(len(m.proposed))), "total_missed_blocks": num(uint64(len(m.missed))), "total_wrongfee_blocks": num(uint64(len(m.wrong))),
		"total_effective_balance_gwei": fmt.Sprint(eb), "avg_effective_balance_gwei": fmt.Sprint(avgEB)})
}

// ---------------------------------------------------------------- by address, with pending events (C20, C29)

// byAddress judges the listing of an address given the blocks after the last processed one
func (s *scene) byAddress(a common.Address, pending []*BlockSpec, m *Model, r *rand.Rand) {
	h := a.Hex()
	switch r.Intn(3) {
	case 0:
		h = strings.ToLower(h)
	case 1:
		h = "0x" + strings.ToUpper(h[2:])
	}
	path := "/memory/validators/" + h
	x := s.get(path)
	if !s.wellFormed(path, x) {
		return
	}
	s.c.R.Eval(1)
	view := s.view(a, pending)
	if m.lastBlock == 0 || s.reg == nil {
		if !errored(x) && canon(decodeNum(x.body)) != "[]" {
			s.fail("answered-early", "GET "+path+" is answered before anything is known", x)
		}
		return
	}
	if x.code != 200 {
		s.fail("refused:memory/validators/x", "GET "+path+" does not answer", x)
		return
	}
	got, ok := lowerFields(decodeNum(x.body), "validator_key", "withdrawal_address").([]interface{})
	if !ok {
		s.fail("shape:memory/validators/x", "GET "+path+" does not answer a list", x)
		return
	}
	var want []string
	for i, v := range view {
		if j := s.valJSON(i, v); j != nil {
			if m.vals[i] == nil {
				delete(j, "subscription_type") // means nothing for a validator that is not in the state
				delete(j, "collateral_wei")
			}
			want = append(want, canon(decodeNum(mustJSON(j))))
		}
	}
	var have []string
	for _, g := range got {
		o, _ := g.(map[string]interface{})
		var i uint64
		fmt.Sscan(fmt.Sprint(o["validator_index"]), &i)
		if m.vals[i] == nil {
			delete(o, "subscription_type")
			delete(o, "collateral_wei")
		}
		have = append(have, canon(o))
	}
	s.c.R.Count("listed_validators", len(want))
	if d := diffSets(have, want); d != "" {
		var evs []string
		for _, b := range pending {
			for _, e := range b.Events {
				evs = append(evs, fmt.Sprintf("block %d: %s validator %d by %s amount %v", b.Number, e.Kind, e.ID, e.Addr.Hex(), e.Amount))
			}
		}
		s.fail("view", "GET "+path+": "+d, x, evs)
	}
}

// view is what finalizing the pending events will do to the validators of one address
func (s *scene) view(a common.Address, pending []*BlockSpec) map[uint64]*MVal {
	out := map[uint64]*MVal{}
	la := strings.ToLower(a.Hex())
	for i, v := range s.reg {
		w := &WVal{Creds: v.Validator.WithdrawalCredentials}
		if x, ok := w.Exec(); ok && x == la {
			out[i] = &MVal{Status: "untracked", Acc: big0(), Pend: big0(), Coll: big0(), Addr: la, Key: "0x" + hex.EncodeToString(v.Validator.PublicKey[:])}
		}
	}
	for i, v := range s.m.vals {
		if strings.ToLower(v.Addr) == la {
			c := *v
			c.Acc, c.Pend, c.Coll = bclone(v.Acc), bclone(v.Pend), bclone(v.Coll)
			out[i] = &c
		}
	}
	for _, b := range pending {
		for _, kind := range []string{"sub", "unsub"} {
			for _, e := range b.Events {
				if e.Kind != kind {
					continue
				}
				v := out[e.ID]
				if v == nil || e.Addr != a {
					continue
				}
				in := v.Status == stActive || v.Status == stYellow || v.Status == stRed
				if kind == "unsub" {
					if in {
						v.Status, v.Pend = stNot, big0()
						s.c.R.Count("pending_unsubscriptions_applied", 1)
					}
					continue
				}
				reg := s.reg[e.ID]
				if reg == nil || in || v.Status == stBanned || !canJoin(reg.Status) || e.Amount.Cmp(s.ch.Cfg.Collateral) < 0 {
					s.c.R.Count("pending_subscriptions_without_effect", 1)
					continue
				}
				v.Status = stActive
				v.Pend = sumBig(v.Pend, e.Amount)
				s.c.R.Count("pending_subscriptions_applied", 1)
			}
		}
	}
	return out
}
