package main

// C15: damaged, tampered and foreign state documents.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/dappnode/mev-sp-oracle/oracle"
)

type badDoc struct {
	kind string
	raw  []byte
	must bool // must be refused (otherwise judged by content)
}

// jsonPaths lists every place of a JSON document
func jsonPaths(v interface{}, pre []string, out *[][]string) {
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			p := append(append([]string{}, pre...), k)
			*out = append(*out, p)
			jsonPaths(x[k], p, out)
		}
	case []interface{}:
		for i := range x {
			p := append(append([]string{}, pre...), fmt.Sprint(i))
			*out = append(*out, p)
			jsonPaths(x[i], p, out)
		}
	}
}

func jsonEdit(v interface{}, path []string, f func(old interface{}) (interface{}, bool)) interface{} {
	if len(path) == 0 {
		n, _ := f(v)
		return n
	}
	switch x := v.(type) {
	case map[string]interface{}:
		if len(path) == 1 {
			n, keep := f(x[path[0]])
			if keep {
				x[path[0]] = n
			} else {
				delete(x, path[0])
			}
		} else {
			x[path[0]] = jsonEdit(x[path[0]], path[1:], f)
		}
	case []interface{}:
		var i int
		fmt.Sscan(path[0], &i)
		if len(path) == 1 {
			n, keep := f(x[i])
			if keep {
				x[i] = n
			} else {
				return append(x[:i:i], x[i+1:]...)
			}
		} else {
			x[i] = jsonEdit(x[i], path[1:], f)
		}
	}
	return v
}

func decodeNum(b []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	return v
}

// resealDoc gives a document the hash of its (possibly incomplete) content; nil if it no longer parses
func resealDoc(b []byte) []byte {
	var s oracle.OracleState
	if err := json.Unmarshal(b, &s); err != nil {
		return nil
	}
	h := sealOf(&s)
	v := decodeNum(b)
	v = jsonEdit(v, []string{"state_hash"}, func(interface{}) (interface{}, bool) { return h, true })
	return mustJSON(v)
}

func badDocs(r *rand.Rand, ch *Chain, good []byte, n int) []badDoc {
	var out []badDoc
	add := func(kind string, raw []byte, must bool) { out = append(out, badDoc{kind, raw, must}) }
	// damage
	for k := 0; k < n; k++ {
		b := append([]byte{}, good...)
		p := r.Intn(len(b))
		switch r.Intn(4) {
		case 0:
			b[p] ^= byte(1 << r.Intn(8))
			add("bitflip", b, false)
		case 1:
			b[p] = byte(r.Intn(256))
			add("byte", b, false)
		case 2:
			add("truncated", b[:p], true)
		case 3:
			q := p + 1 + r.Intn(200)
			if q > len(b) {
				q = len(b)
			}
			add("cut", append(b[:p:p], b[q:]...), false)
		}
	}
	// digits changed in place
	var digs []int
	for i, x := range good {
		if x >= '0' && x <= '9' {
			digs = append(digs, i)
		}
	}
	for k := 0; k < n/2; k++ {
		b := append([]byte{}, good...)
		p := digs[r.Intn(len(digs))]
		b[p] = '0' + (b[p]-'0'+byte(1+r.Intn(9)))%10
		add("digit", b, false)
	}
	for _, s := range []string{"", "null", "{}", "[]", "0", "\"x\"", "{\"state_hash\":null}", strings.Repeat("[", 20000), strings.Repeat("{\"a\":", 20000), "\x00\x00\x00", "true", string(good) + "x", string(good) + string(good)} {
		add("garbage", []byte(s), true)
	}
	zero := make([]byte, len(good))
	add("zeros", zero, true)
	// tampering, with and without a fresh hash
	doc := decodeNum(good)
	var paths [][]string
	jsonPaths(doc, nil, &paths)
	edits := []struct {
		name string
		f    func(interface{}) (interface{}, bool)
	}{
		{"null", func(interface{}) (interface{}, bool) { return nil, true }},
		{"dropped", func(interface{}) (interface{}, bool) { return nil, false }},
		{"string", func(interface{}) (interface{}, bool) { return "zz", true }},
		{"object", func(interface{}) (interface{}, bool) { return map[string]interface{}{}, true }},
		{"list", func(interface{}) (interface{}, bool) { return []interface{}{}, true }},
		{"negative", func(interface{}) (interface{}, bool) { return json.Number("-1"), true }},
		{"huge", func(interface{}) (interface{}, bool) {
			return json.Number("99999999999999999999999999999999999999999999"), true
		}},
		{"fraction", func(interface{}) (interface{}, bool) { return json.Number("1.5"), true }},
		{"one", func(interface{}) (interface{}, bool) { return json.Number("1"), true }},
	}
	for k := 0; k < n*2; k++ {
		p := paths[r.Intn(len(paths))]
		if r.Intn(3) == 0 { // prefer shallow places
			p = p[:1]
		}
		e := edits[r.Intn(len(edits))]
		v := jsonEdit(decodeNum(good), p, e.f)
		b := mustJSON(v)
		name := e.name + ":" + p[0]
		add("edit-"+name, b, false)
		if s := resealDoc(b); s != nil {
			add("resealed-"+name, s, false)
		}
	}
	// foreign: a well sealed state of another configuration
	foreign := func(kind string, f func(s *oracle.OracleState)) {
		s := parseState(good)
		f(s)
		add("foreign-"+kind, sealed(s), true)
	}
	foreign("network", func(s *oracle.OracleState) {
		s.Network = map[string]string{"mainnet": "holesky", "holesky": "hoodi", "hoodi": "mainnet"}[s.Network]
	})
	foreign("network-empty", func(s *oracle.OracleState) { s.Network = "" })
	foreign("pool", func(s *oracle.OracleState) { s.PoolAddress = addr(keyUser0).Hex() })
	foreign("poolfees", func(s *oracle.OracleState) { s.PoolFeesAddress = addr(keyUser0).Hex() })
	foreign("fee+1", func(s *oracle.OracleState) { s.PoolFeesPercentOver10000++ })
	foreign("fee-1", func(s *oracle.OracleState) { s.PoolFeesPercentOver10000-- })
	foreign("coll+1", func(s *oracle.OracleState) { s.CollateralInWei = new(big.Int).Add(s.CollateralInWei, bi(1)) })
	foreign("coll-huge", func(s *oracle.OracleState) {
		s.CollateralInWei = new(big.Int).Add(s.CollateralInWei, new(big.Int).Lsh(bi(1), 64))
	})
	foreign("ckpt", func(s *oracle.OracleState) { s.CheckPointSizeInSlots++ })
	foreign("deployedblock", func(s *oracle.OracleState) { s.DeployedBlock++ })
	foreign("deployedslot", func(s *oracle.OracleState) { s.DeployedSlot-- })
	foreign("hash-upper", func(s *oracle.OracleState) {})
	out[len(out)-1].raw = func() []byte {
		s := parseState(good)
		s.StateHash = ""
		return mustJSON(s)
	}()
	out[len(out)-1].kind = "no-hash"
	s := parseState(good)
	s.StateHash = "0x" + strings.Repeat("0", 64)
	add("zero-hash", mustJSON(s), true)
	s = parseState(good)
	s.StateHash = s.StateHash[:20]
	add("short-hash", mustJSON(s), true)
	s = parseState(good)
	if s.PoolAccumulatedFees != nil {
		s.PoolAccumulatedFees = new(big.Int).Add(s.PoolAccumulatedFees, bi(1))
		add("fees+1", mustJSON(s), true)
	}
	return out
}

// acceptable judges a document on its own: parses, carries the hash of its content, nothing missing, same configuration
func acceptable(ch *Chain, raw []byte) (*oracle.OracleState, string) {
	var s oracle.OracleState
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, "does not parse"
	}
	if sealOf(&s) != s.StateHash {
		return nil, "hash"
	}
	c := ch.Cfg
	switch {
	case s.Network != c.Net, s.PoolAddress != c.PoolAddress, s.PoolFeesAddress != c.PoolFees, s.CollateralInWei == nil || s.CollateralInWei.Cmp(c.Collateral) != 0, s.CheckPointSizeInSlots != c.Checkpoint,
		s.DeployedBlock != c.DeployedBlock, s.DeployedSlot != c.DeployedSlot, s.PoolFeesPercentOver10000 != feeInForce(c, s.LatestProcessedSlot):
		return nil, "configuration"
	}
	return &s, ""
}

func init() {
	register(&Check{ID: "C15", MinEvals: 2000, MinCounters: map[string]int64{"refused": 5000, "good_loads_after": 600, "resealed_documents": 600},
		Rule:        "distinct (kind of damage, way of loading, verdict) of judged documents",
		Assumptions: []string{"a document whose content and embedded hash are consistent and whose configuration matches is by definition a good one, whoever wrote it; nothing may be missing in it"},
		Run: func(c *Ctx) {
			c.cases(c.N(160, 3000), func(i int, name string) { c15case(c, i, name) })
		}})
}

func c15case(c *Ctx, i int, name string) {
	r := chainRand(c, "C15", i)
	p := defProfile()
	p.Busy, p.Cleanups = 25+r.Intn(25), 0
	p.RSub, p.RDon = 60, 50
	p.NearFee = i%3 == 0
	if i%3 == 0 {
		p.Net = pick(r, "mainnet", "hoodi")
	}
	ch := GenChain(r, p)
	dir := stateDir(c, name)
	defer os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	// two good states: an earlier live one and a later document
	or, _ := ch.NewOracle()
	m := NewModel(ch)
	var early, good []byte
	cut := 1 + r.Intn(len(ch.Blocks)-1)
	for k, b := range ch.Blocks {
		need := ch.needExec(m, b)
		m.Step(ch, b)
		if _, err, o := advance(or, func() *oracle.FullBlock { return ch.Full(b, need) }); err != nil || o.Bad() {
			c.R.Count("chains_stopped_by_other_difference", 1)
			break
		}
		if k%5 == 4 {
			or.FreezeCheckpoint()
		}
		if k == cut {
			early = sealed(or.State())
		}
	}
	good = sealed(or.State())
	if early == nil {
		early = good
	}
	live, cfg := ch.NewOracle()
	if i%4 != 0 {
		if ok, err := live.LoadFromBytes(early); !ok || err != nil {
			c.R.Violate("good-refused", name, fmt.Sprint("a good state is refused: ", err), nil)
			return
		}
	}
	n := c.N(30, 60)
	docs := badDocs(r, ch, good, n)
	for di, d := range docs {
		way := pick(r, "bytes", "path", "statejson", "given", "given-earlier")
		st0 := live.State()
		before, cb := mustJSON(st0), mustJSON(cfg)
		var ok bool
		var err error
		wr := func(nm string) { os.WriteFile(filepath.Join(dir, nm), d.raw, 0644) }
		o := guard(func() {
			switch way {
			case "bytes":
				ok, err = live.LoadFromBytes(d.raw)
			case "path":
				wr("some.json")
				ok, err = live.LoadFromPath(filepath.Join(dir, "some.json"))
			case "statejson":
				wr(oracle.StateJsonName)
				ok, err = live.LoadFromJson()
			case "given":
				wr("state_999.json")
				ok, err = live.LoadGivenState(999)
			case "given-earlier":
				back := ch.Cfg.Checkpoint * uint64(1+r.Intn(2))
				wr(fmt.Sprintf("state_%d.json", 100000000-back))
				ok, err = live.LoadGivenState(100000000)
				os.Remove(filepath.Join(dir, fmt.Sprintf("state_%d.json", 100000000-back)))
			}
		})
		c.R.Eval(1)
		want, why := acceptable(ch, d.raw)
		if strings.HasPrefix(d.kind, "resealed") {
			c.R.Count("resealed_documents", 1)
		}
		accepted := ok && err == nil
		kk := d.kind
		c.R.Seen(fmt.Sprint(kk, way, accepted, why))
		det := map[string]interface{}{"chain": ch.Name, "kind": d.kind, "way": way, "document": headTail(string(d.raw)), "outcome": o.String(), "error": fmt.Sprint(err)}
		if o.Bad() {
			c.R.Violate("crash:"+firstPart(kk), name, fmt.Sprintf("a bad document (%s, document %d, by %s) crashes the oracle: %s", d.kind, di, way, o), det)
			return
		}
		if (d.must || want == nil) && (accepted || ok || (err == nil && way != "given-earlier")) { // an unusable older file may be passed over
			c.R.Violate("accepted:"+firstPart(kk)+":"+why, name, fmt.Sprintf("a bad document (%s, by %s, %s) is accepted or not reported: ok=%v err=%v", d.kind, way, why, ok, err), det)
			return
		}
		if accepted {
			if got := contentOf(live.State()); !bytes.Equal(got, contentOf(want)) {
				c.R.Violate("accepted-other:"+firstPart(kk), name, "the accepted document differs from the state: "+firstDiff(contentOf(want), got), det)
				return
			}
			// nothing may be missing in what was accepted: the whole life of an oracle goes on
			lo := guard(func() {
				live.StateWithHash()
				live.RunOffchainReconciliation()
				live.RunOnchainReconciliation(bi(1), map[string]*big.Int{})
				live.GetUniqueWithdrawalAddresses()
				live.LatestCommitedState()
				mustJSON(live.State())
				mustJSON(live.StateSnapshot())
				st := live.State()
				for _, v := range st.Validators {
					_ = v.AccumulatedRewardsWei.String() + v.PendingRewardsWei.String() + v.CollateralWei.String()
				}
				for _, cs := range st.CommitedStates {
					_ = cs.MerkleRoot
				}
			})
			if lo.Panic != "" {
				c.R.Violate("accepted-incomplete:"+firstPart(kk), name, "an incomplete document was accepted: "+lo.String(), det)
				return
			}
			c.R.Count("accepted_consistent", 1)
			// start again from the early state
			live, cfg = ch.NewOracle()
			if i%4 != 0 {
				live.LoadFromBytes(early)
			}
			continue
		}
		c.R.Count("refused", 1)
		if live.State() != st0 || !bytes.Equal(before, mustJSON(live.State())) {
			c.R.Violate("state-changed:"+firstPart(kk), name, fmt.Sprintf("a refused document (%s, by %s) changed the live state: %s", d.kind, way, firstDiff(before, mustJSON(live.State()))), det)
			return
		}
		if !bytes.Equal(cb, mustJSON(cfg)) {
			c.R.Violate("config-changed:"+firstPart(kk), name, fmt.Sprintf("a refused document (%s, by %s) changed the configuration: %s", d.kind, way, firstDiff(cb, mustJSON(cfg))), det)
			return
		}
		if di%6 == 0 {
			// a good one loads afterwards, into the same oracle
			ok, err := live.LoadFromBytes(good)
			c.R.Count("good_loads_after", 1)
			if !ok || err != nil || !bytes.Equal(contentOf(live.State()), contentOf(parseState(good))) {
				c.R.Violate("good-refused-after:"+firstPart(kk), name, fmt.Sprintf("after a refused document (%s) a good state is refused: %v %v", d.kind, ok, err), det)
				return
			}
			live, cfg = ch.NewOracle()
			if i%4 != 0 {
				live.LoadFromBytes(early)
			}
		}
		c.R.Sample(map[string]interface{}{"kind": d.kind, "way": way, "error": fmt.Sprint(err)})
	}
	// files that are not there are "not found", files that cannot be read are errors
	if ok, err := live.LoadFromPath(filepath.Join(dir, "nothing-here.json")); ok || err != nil {
		c.R.Violate("missing-file", name, fmt.Sprintf("a missing file gives %v %v, want not found", ok, err), nil)
	}
	os.Mkdir(filepath.Join(dir, "adir"), 0755)
	var ok bool
	var err error
	if o := guard(func() { ok, err = live.LoadFromPath(filepath.Join(dir, "adir")) }); o.Bad() || ok || err == nil {
		c.R.Violate("unreadable-file", name, fmt.Sprintf("an unreadable file gives %v %v %v, want an error", ok, err, o), nil)
	}
	// the given state, else one or two checkpoints before it, never three
	ckpt := ch.Cfg.Checkpoint
	for back := uint64(0); back < 4; back++ {
		fs, _ := filepath.Glob(filepath.Join(dir, "state_*.json"))
		for _, f := range fs {
			os.Remove(f)
		}
		n, _ := ch.NewOracle()
		const at = 50000000
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("state_%d.json", at-back*ckpt)), good, 0644)
		var ok bool
		var err error
		o := guard(func() { ok, err = n.LoadGivenState(at) })
		want := back < 3
		c.R.Eval(1)
		if o.Bad() || ok != want || err != nil {
			c.R.Violate(fmt.Sprintf("given:%d", back), name, fmt.Sprintf("only the state of %d checkpoints before the asked one exists: found=%v err=%v %v", back, ok, err, o), nil)
		}
		if want && ok && !bytes.Equal(contentOf(n.State()), contentOf(parseState(good))) {
			c.R.Violate("given-other", name, "the loaded state is not the stored one", nil)
		}
	}
}

func firstPart(s string) string {
	if i := strings.IndexByte(s, ':'); i > 0 {
		return s[:i]
	}
	return s
}
