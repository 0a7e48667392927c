package main

// C31, C32, C33: the real program started from another oracle's state, with
// right and wrong command lines, and its metrics.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
)

func hash32(root string) (out [32]byte) {
	copy(out[:], common.FromHex(root))
	return
}

func sameRoot(a, b string) bool { return a != "" && hash32(a) == hash32(b) }

// listeners: the sockets that listen on a port
func listeners(port int) map[string]bool {
	out := map[string]bool{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			x := strings.Fields(l)
			if len(x) > 9 && x[3] == "0A" && strings.HasSuffix(x[1], fmt.Sprintf(":%04X", port)) {
				out["socket:["+x[9]+"]"] = true
			}
		}
	}
	return out
}

// owns: a port is the program's (it may have been taken by another process of the machine)
func (p *prog) owns(port int) bool {
	inodes := listeners(port)
	fds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/fd/*", p.cmd.Process.Pid))
	for _, f := range fds {
		if l, err := os.Readlink(f); err == nil && inodes[l] {
			return true
		}
	}
	return false
}

// folderDigest: every file below a folder
func folderDigest(dir string) string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			out = append(out, fmt.Sprintf("%s %d %x", strings.TrimPrefix(p, dir), len(b), b))
		}
		return nil
	})
	return strings.Join(out, "\n")
}

// stateAt: what an honest oracle serves and saves after a slot (and after freezing its checkpoint, if any)
func stateAt(ch *Chain, slot uint64, frozen bool) (served, saved []byte) {
	or, _ := ch.NewOracle()
	m := NewModel(ch)
	for _, b := range ch.Blocks {
		need := ch.needExec(m, b)
		m.Step(ch, b)
		if _, err, o := advance(or, func() *oracle.FullBlock { return ch.Full(b, need) }); err != nil || o.Bad() {
			return nil, nil
		}
		if cp, _ := or.IsCheckpoint(); cp && (b.Slot < slot || frozen) {
			if o := guard(func() { or.FreezeCheckpoint() }); o.Bad() {
				return nil, nil
			}
		}
		if b.Slot == slot {
			st, err := or.StateWithHash()
			if err != nil {
				return nil, nil
			}
			var buf bytes.Buffer
			json.NewEncoder(&buf).Encode(st)
			saved, _ = json.MarshalIndent(st, "", " ")
			return buf.Bytes(), saved
		}
	}
	return nil, nil
}

func commitedUpTo(ref *progRef, slot uint64, frozen bool) (cp uint64, root string) {
	for _, x := range ref.ckpts {
		if x < slot || (x == slot && frozen) {
			cp, root = x, ref.roots[x]
		}
	}
	return
}

func init() {
	register(&Check{ID: "C31", Rule: "the real program started with the state of another oracle (served or saved at any slot, before or after freezing) and with everything that is not one: the slots it goes on with, its final state and files, or its refusal",
		Assumptions: []string{"the program's own pauses are shortened by a factor of 1500"},
		Run:         func(c *Ctx) { c.cases(c.N(48, 800), func(i int, name string) { c31case(c, i, name) }) },
		Timeout:     14 * time.Minute,
		MinEvals:    80, MinCounters: map[string]int64{"continued": 12, "refused": 40, "checkpoint_still_to_freeze": 1, "own_folder_not_empty": 8}})
}

func c31case(c *Ctx, i int, name string) {
	crowd := 0
	if i%16 == 5 {
		crowd = 3000
		if i%48 != 5 {
			crowd = pick(chainRand(c, "C31 crowd", i), 300, 1000)
		}
	}
	pc := newProgCase(c, "C31", name, i, false, crowd)
	if pc == nil {
		return
	}
	defer pc.close()
	r := pc.r
	last := pc.ref.slots[len(pc.ref.slots)-1]
	at := pc.ref.slots[r.Intn(len(pc.ref.slots))]
	frozen := r.Intn(3) > 0
	if i%3 == 0 { // around a checkpoint
		at = pc.ref.ckpts[r.Intn(len(pc.ref.ckpts))] + uint64(r.Intn(2))
		if at > last {
			at = last
		}
		frozen = i%2 == 0
	}
	if crowd > 0 { // when they have joined
		at = last - uint64(r.Intn(3))
	}
	served, saved := stateAt(pc.ch, at, frozen)
	c.R.Max("largest_state_bytes", len(served))
	if served == nil {
		c.R.Count("no_chain", 1)
		return
	}
	pc.dry = r.Intn(3) > 0
	cp, root := commitedUpTo(pc.ref, at, frozen)
	if cp > 0 {
		pc.n.Con.Slot = cp
		pc.n.Con.Root = hash32(root)
	}
	ownFolder := pick(r, "empty", "earlier", "later", "damaged")
	own := filepath.Join(pc.dir, "oracle-data")
	os.MkdirAll(own, 0755)
	put := func(slot uint64) {
		if _, b := stateAt(pc.ch, slot, true); b != nil {
			os.WriteFile(filepath.Join(own, "state.json"), b, 0644)
			os.WriteFile(filepath.Join(own, fmt.Sprintf("state_%d.json", slot)), b, 0644)
		}
	}
	switch ownFolder {
	case "earlier":
		put(pc.ref.slots[r.Intn(len(pc.ref.slots))])
	case "later":
		put(last)
	case "damaged":
		os.WriteFile(filepath.Join(own, "state.json"), saved[:r.Intn(len(saved))], 0644)
	}
	if ownFolder != "empty" {
		c.R.Count("own_folder_not_empty", 1)
	}
	var body atomic.Value
	var status, cut atomic.Int64
	asked := int64(0)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		atomic.AddInt64(&asked, 1)
		b := body.Load().([]byte)
		if q.URL.Path == "/moved" {
			http.Redirect(w, q, "/state", http.StatusFound)
			return
		}
		if cut.Load() > 0 {
			cc, bw, err := w.(http.Hijacker).Hijack()
			if err == nil {
				fmt.Fprintf(bw, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n", len(b))
				bw.Write(b[:int64(len(b))*cut.Load()/1000])
				bw.Flush()
				cc.Close()
			}
			return
		}
		w.WriteHeader(int(status.Load()))
		w.Write(b)
	}))
	defer srv.Close()
	// what is no state of an oracle of this pool
	type bad struct {
		kind        string
		raw         []byte
		status, cut int64
	}
	var bads []bad
	for _, s := range []int64{404, 500, 503, 401} {
		bads = append(bads, bad{fmt.Sprint("status ", s), served, s, 0})
	}
	for _, x := range []int64{1, 500, 999} {
		bads = append(bads, bad{fmt.Sprint("cut at ", x), served, 200, x})
	}
	for _, d := range badDocs(r, pc.ch, saved, 8) {
		if _, why := acceptable(pc.ch, d.raw); why != "" && (d.must || why == "hash" || why == "configuration") {
			bads = append(bads, bad{d.kind, d.raw, 200, 0})
		}
	}
	r.Shuffle(len(bads), func(a, b int) { bads[a], bads[b] = bads[b], bads[a] })
	if n := c.N(4, 10); len(bads) > n {
		bads = bads[:n]
	}
	for _, b := range bads {
		body.Store(b.raw)
		status.Store(b.status)
		cut.Store(b.cut)
		before := folderDigest(own)
		p := pc.begin(nil, "-checkpoint-sync-url", srv.URL+"/state")
		res := pc.await(p)
		c.R.Eval(1)
		if res == "exit" && p.portTaken() {
			c.R.Count("port_taken", 1)
			continue
		}
		if res == "slow" {
			c.R.Inconc("a run took more than 150 s")
			return
		}
		pc.mu.Lock()
		nb := len(pc.blocks)
		pc.mu.Unlock()
		pc.trace = append(pc.trace, "offered: "+b.kind)
		if nb > 0 || res != "exit" {
			pc.fail("bad-state-accepted:"+firstPart(b.kind), fmt.Sprintf("the program goes on (%s, %d slots fetched) although the answer of the checkpoint sync url is no state of this pool (%s)", res, nb, b.kind))
			return
		}
		if code, sg := exitCode(p); code == 0 || sg {
			pc.fail("bad-state-exit", fmt.Sprintf("the program ends with code %d (signal %v) when the checkpoint sync url answers: %s", code, sg, b.kind))
			return
		}
		if folderDigest(own) != before {
			pc.fail("own-files-touched", "the program's own saved files changed although the state offered was refused: "+b.kind)
			return
		}
		c.R.Count("refused", 1)
		c.R.Seen("refused " + firstPart(b.kind))
	}
	// nobody there
	if i%8 == 2 {
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		u := "http://" + l.Addr().String() + "/state"
		l.Close()
		p := pc.begin(nil, "-checkpoint-sync-url", u)
		if res := pc.await(p); res != "exit" {
			pc.fail("unreachable-provider", "the program goes on ("+res+") although nobody answers at the checkpoint sync url")
			return
		}
		c.R.Count("refused", 1)
	}
	// the honest one
	body.Store(served)
	kind := "served"
	if r.Intn(3) == 0 {
		body.Store(saved)
		kind = "saved"
	}
	status.Store(200)
	cut.Store(0)
	u := srv.URL + "/state"
	if r.Intn(4) == 0 {
		u = srv.URL + "/moved"
	}
	p := pc.begin(nil, "-checkpoint-sync-url", u)
	res := pc.await(p)
	pc.trace = append(pc.trace, fmt.Sprintf("started from the %s state of slot %d (frozen %v), own folder: %s", kind, at, frozen, ownFolder))
	c.R.Eval(1)
	switch {
	case res == "exit" && p.portTaken():
		c.R.Count("port_taken", 1)
		return
	case res == "exit":
		code, _ := exitCode(p)
		pc.fail("good-state-refused", fmt.Sprintf("the program ends (code %d) when started from an honest oracle's state: %s", code, lastLines(p.log(), 1)))
		return
	case res == "slow":
		c.R.Inconc("a run took more than 150 s")
		return
	case res == "stalled":
		pc.fail("stalled", "the program makes no request for 60 s")
		return
	}
	pc.judgeTrace(at+1, true)
	if !pc.ok {
		return
	}
	pc.mu.Lock()
	nb := uint64(len(pc.blocks))
	pc.mu.Unlock()
	if nb != last-at {
		pc.fail("slots-left-out", fmt.Sprintf("%d slots processed, %d remained after the state", nb, last-at))
		return
	}
	code, doc := p.get("/state")
	if !pc.stop(p, syscall.SIGTERM) {
		return
	}
	if code != 200 {
		pc.fail("state-endpoint", fmt.Sprintf("the state is not served at the end: %d %s", code, doc))
		return
	}
	if x := contentOf(parseState(doc)); !bytes.Equal(x, pc.ref.bySlot[last]) {
		pc.fail("final-served", "the state served at the end is not the one of an oracle that processed everything itself: "+firstDiff(x, pc.ref.bySlot[last]))
		return
	}
	s, has := pc.stateFile()
	if !has {
		if pc.ok {
			pc.fail("final-not-saved", "no state is saved at the end")
		}
		return
	}
	if x := contentOf(s); !bytes.Equal(x, pc.ref.bySlot[last]) {
		pc.fail("final-saved", "the state saved at the end is not the one of an oracle that processed everything itself: "+firstDiff(x, pc.ref.bySlot[last]))
		return
	}
	if pc.dry && len(pc.n.Sent) > 0 {
		pc.fail("dry-run-sent", "a transaction was sent in dry-run mode")
		return
	}
	c.R.Count("continued", 1)
	if pc.ref.roots[at] != "" && !frozen {
		c.R.Count("checkpoint_still_to_freeze", 1)
	}
	c.R.Seen(fmt.Sprint("continued ", kind, frozen, ownFolder, pc.dry))
}

// ---------------------------------------------------------------- C32

func init() {
	register(&Check{ID: "C32", Rule: "the real program with generated command lines, complete or lacking or contradictory by construction: refused before any request to a node, or started as told",
		Assumptions: []string{"nothing is judged of how a refusal is worded"},
		Run:         func(c *Ctx) { c.cases(c.N(24, 400), func(i int, name string) { c32case(c, i, name) }) },
		Timeout:     14 * time.Minute,
		MinEvals:    150, MinCounters: map[string]int64{"refused": 100, "started": 12, "keys_refused": 10}})
}

func c32case(c *Ctx, i int, name string) {
	pc := newProgCase(c, "C32", name, i, false)
	if pc == nil {
		return
	}
	defer pc.close()
	r := pc.r
	key := keyFile(pc.dir)
	pool := pc.ch.Cfg.PoolAddress
	wr := func(nm string, b []byte) string {
		f := filepath.Join(pc.dir, nm)
		os.WriteFile(f, b, 0600)
		return f
	}
	kb, _ := os.ReadFile(key)
	type flags map[string]string // "" value of dry-run: set
	base := func(dry bool) flags {
		f := flags{"consensus-endpoint": pc.n.CLURL, "execution-endpoint": pc.n.ELURL, "pool-address": pool, "relayers-endpoints": "https://127.0.0.1:1", "num-retries": "2"}
		if dry {
			f["dry-run"] = ""
		} else {
			f["updater-keystore-file"], f["updater-keystore-pass"] = key, "secret"
		}
		return f
	}
	type line struct {
		kind string
		f    flags
		ok   bool
		key  bool // refused because of its key: the nodes may be asked before, nothing may be processed
	}
	var lines []line
	add := func(kind string, dry, ok, key bool, f func(flags)) {
		x := base(dry)
		f(x)
		lines = append(lines, line{kind, x, ok, key})
	}
	hexd := strings.TrimPrefix(pool, "0x")
	any := func() bool { return r.Intn(2) == 0 }
	add("updater", false, true, false, func(f flags) {})
	add("dry run", true, true, false, func(f flags) {})
	add("lower-case pool", true, true, false, func(f flags) { f["pool-address"] = strings.ToLower(pool) })
	add("several relays", any(), true, false, func(f flags) { f["relayers-endpoints"] = "https://a.example,https://b.example:123/path" })
	add("no keystore", false, false, false, func(f flags) { delete(f, "updater-keystore-file") })
	add("no password", false, false, false, func(f flags) { delete(f, "updater-keystore-pass") })
	add("neither keystore nor password", false, false, false, func(f flags) { delete(f, "updater-keystore-pass"); delete(f, "updater-keystore-file") })
	add("dry run with keystore and password", true, false, false, func(f flags) { f["updater-keystore-file"], f["updater-keystore-pass"] = key, "secret" })
	add("dry run with keystore", true, false, false, func(f flags) { f["updater-keystore-file"] = key })
	add("dry run with password", true, false, false, func(f flags) { f["updater-keystore-pass"] = "secret" })
	for _, a := range []string{"", "0x", pool[:len(pool)-1], pool + "0", pool[:len(pool)-1] + "g", "0x" + hexd[:20], " " + pool, pool + ",", "0xg" + hexd[1:], "pool", "0x0x" + hexd[2:]} {
		add("pool address "+fmt.Sprintf("%q", a), any(), false, false, func(f flags) { f["pool-address"] = a })
	}
	add("no pool address", any(), false, false, func(f flags) { delete(f, "pool-address") })
	for _, u := range []string{"", ",", "http://127.0.0.1:1", "https://a.example,http://b.example", "https://a.example,,https://b.example", "https://a.example,", ",https://a.example", "a.example", "https://%zz", "ftp://a.example", "https:/a.example"} {
		add("relays "+fmt.Sprintf("%q", u), any(), false, false, func(f flags) { f["relayers-endpoints"] = u })
	}
	add("no relays", any(), false, false, func(f flags) { delete(f, "relayers-endpoints") })
	add("unknown option", any(), false, false, func(f flags) { f["no-such-option"] = "1" })
	add("retries not a number", any(), false, false, func(f flags) { f["num-retries"] = "many" })
	add("log level", any(), false, false, func(f flags) { f["log-level"] = "loudest" })
	for _, pw := range []string{"Secret", "secret ", "secre", "secrett", "x"} {
		add("password "+pw, false, false, true, func(f flags) { f["updater-keystore-pass"] = pw })
	}
	add("no such keystore", false, false, true, func(f flags) { f["updater-keystore-file"] = filepath.Join(pc.dir, "none.json") })
	add("empty keystore", false, false, true, func(f flags) { f["updater-keystore-file"] = wr("empty.json", nil) })
	add("truncated keystore", false, false, true, func(f flags) { f["updater-keystore-file"] = wr("cut.json", kb[:r.Intn(len(kb)-2)]) })
	add("garbage keystore", false, false, true, func(f flags) { f["updater-keystore-file"] = wr("junk.json", []byte("{\"crypto\":1}")) })
	add("altered keystore", false, false, true, func(f flags) {
		// a digit of the encrypted key
		x := string(kb)
		k := strings.Index(x, "\"ciphertext\":\"") + len("\"ciphertext\":\"") + r.Intn(60)
		d := "0"
		if x[k] == '0' {
			d = "1"
		}
		f["updater-keystore-file"] = wr("altered.json", []byte(x[:k]+d+x[k+1:]))
	})
	add("a folder as keystore", false, false, true, func(f flags) { f["updater-keystore-file"] = pc.dir })
	r.Shuffle(len(lines), func(a, b int) { lines[a], lines[b] = lines[b], lines[a] })
	if n := c.N(22, 40); len(lines) > n {
		lines = lines[:n]
	}
	own := filepath.Join(pc.dir, "oracle-data")
	for li, again := 0, false; li < len(lines); li++ {
		l := lines[li]
		os.RemoveAll(own)
		var args []string
		for k, v := range l.f {
			if k == "dry-run" {
				args = append(args, "-dry-run")
			} else {
				args = append(args, "-"+k+"="+v)
			}
		}
		r.Shuffle(len(args), func(a, b int) { args[a], args[b] = args[b], args[a] })
		pc.n.mu.Lock()
		sent0 := len(pc.n.Sent)
		pc.n.mu.Unlock()
		p := pc.beginArgs(args)
		t0 := time.Now()
		res := ""
		for res == "" {
			select {
			case <-p.done:
				res = "exit"
			case <-time.After(2 * time.Millisecond):
			}
			if pc.idle() {
				res = "idle"
			}
			if time.Since(t0) > 90*time.Second {
				res = "slow"
			}
			pc.mu.Lock()
			if l.ok && len(pc.blocks) > 0 {
				res = "started"
			}
			pc.mu.Unlock()
		}
		pc.mu.Lock()
		reqs, nb := pc.reqs, len(pc.blocks)
		pc.mu.Unlock()
		c.R.Eval(1)
		if res == "exit" && p.portTaken() {
			c.R.Count("port_taken", 1)
			continue
		}
		pc.trace = []string{"options: " + strings.Join(args, " ")}
		if l.ok {
			if res == "slow" {
				c.R.Inconc("a start took more than 90 s")
				p.kill()
				return
			}
			if res == "exit" {
				code, _ := exitCode(p)
				pc.fail("refused", fmt.Sprintf("the program ends (code %d) although its options are complete (%s): %s", code, l.kind, lastLines(p.log(), 1)))
				return
			}
			c.R.Count("started", 1)
			c.R.Seen("started " + l.kind)
			p.kill()
			continue
		}
		if res != "exit" || nb > 0 {
			p.kill()
			pc.fail("accepted", fmt.Sprintf("the program works (%d slots fetched) although its options are not acceptable: %s", nb, l.kind))
			return
		}
		if code, sg := exitCode(p); code == 0 || sg {
			pc.fail("exit-code", fmt.Sprintf("the program ends with code %d (signal %v) on unacceptable options: %s", code, sg, l.kind))
			return
		}
		if !l.key && reqs > 0 && !again {
			// it may have been a late one of the program that was ended before
			again = true
			time.Sleep(500 * time.Millisecond)
			li--
			continue
		}
		if !l.key && reqs > 0 {
			pc.fail("asked-before", fmt.Sprintf("%d requests were made to the nodes before unacceptable options are refused: %s", reqs, l.kind))
			return
		}
		if _, err := os.Stat(own); err == nil {
			pc.fail("wrote-before", "something was saved although the options are not acceptable: "+l.kind)
			return
		}
		pc.n.mu.Lock()
		sent := len(pc.n.Sent) - sent0
		pc.n.mu.Unlock()
		if sent > 0 {
			pc.fail("sent", "a transaction was sent although the options are not acceptable: "+l.kind)
			return
		}
		again = false
		c.R.Count("refused", 1)
		if l.key {
			c.R.Count("keys_refused", 1)
		}
		c.R.Seen("refused " + l.kind)
	}
}

// beginArgs starts the program with just these options (and free ports)
func (pc *progCase) beginArgs(args []string) *prog {
	pc.mu.Lock()
	pc.reqs, pc.byKind, pc.plan, pc.fired, pc.blocks, pc.inLoop, pc.headers, pc.lastReq = 0, map[string]int{}, nil, false, nil, false, 0, time.Now()
	pc.cur = nil
	pc.mu.Unlock()
	p := runProg(pc.dir, args)
	pc.mu.Lock()
	pc.cur = p
	pc.mu.Unlock()
	pc.c.R.Count("starts", 1)
	return p
}

// ---------------------------------------------------------------- C33

func init() {
	register(&Check{ID: "C33", Rule: "the metrics of the real program, read while it runs and at rest, against its state, the finalized slot, the checkpoints of the reference and the requests made",
		Assumptions: []string{"metrics keep their names (oracle_latest_processed_slot, oracle_latest_processed_block, oracle_distance_from_finalized_slot, oracle_known_root_and_slot, oracle_http_requests_total)", "the program's own pauses are shortened by a factor of 1500"},
		Run:         func(c *Ctx) { c.cases(c.N(40, 700), func(i int, name string) { c33case(c, i, name) }) },
		Timeout:     14 * time.Minute,
		MinEvals:    200, MinCounters: map[string]int64{"at_rest": 12, "while_running": 20, "roots_compared": 30, "requests_counted": 100}})
}

var metricLine = regexp.MustCompile(`^(oracle_\w+)(\{.*\})? (\S+)$`)

func (p *prog) metrics() map[string]float64 {
	hc := &http.Client{Timeout: 20 * time.Second}
	defer hc.CloseIdleConnections()
	resp, err := hc.Get(fmt.Sprintf("http://127.0.0.1:%d/metrics", p.met))
	if err != nil {
		return nil
	}
	defer resp.Body.Close()
	if resp.StatusCode != 200 {
		return nil
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil
	}
	out := map[string]float64{}
	sc := bufio.NewScanner(bytes.NewReader(b))
	for sc.Scan() {
		if m := metricLine.FindStringSubmatch(sc.Text()); m != nil {
			v, _ := strconv.ParseFloat(m[3], 64)
			out[m[1]+m[2]] = v
		}
	}
	return out
}

var labelRe = regexp.MustCompile(`(\w+)="([^"]*)"`)

func labels(k string) map[string]string {
	out := map[string]string{}
	for _, m := range labelRe.FindAllStringSubmatch(k, -1) {
		out[m[1]] = m[2]
	}
	return out
}

func c33case(c *Ctx, i int, name string) {
	pc := newProgCase(c, "C33", name, i, i%5 == 1)
	if pc == nil {
		return
	}
	defer pc.close()
	r := pc.r
	pc.dry = r.Intn(3) > 0
	last := pc.ref.slots[len(pc.ref.slots)-1]
	blockOf := map[uint64]uint64{} // latest block after each slot
	var lb uint64
	for _, b := range pc.ch.Blocks {
		if !b.Missed {
			lb = b.Number
		}
		blockOf[b.Slot] = lb
	}
	// finality arrives in steps
	var steps []uint64
	for k, x := 0, pc.ref.slots[0]; k < 1+r.Intn(3); k++ {
		x += uint64(r.Intn(len(pc.ref.slots)))
		if x < last {
			steps = append(steps, x)
		}
	}
	steps = append(steps, last)
	from := pc.ch.Cfg.DeployedSlot - 1
	if i%3 == 2 { // not its first start
		from = pc.ref.slots[r.Intn(len(pc.ref.slots))]
		if _, b := stateAt(pc.ch, from, true); b != nil && from < steps[0] {
			os.MkdirAll(filepath.Join(pc.dir, "oracle-data"), 0755)
			os.WriteFile(filepath.Join(pc.dir, "oracle-data", "state.json"), b, 0644)
			if cp, root := commitedUpTo(pc.ref, from, true); cp > 0 {
				pc.n.Con.Slot, pc.n.Con.Root = cp, hash32(root)
			}
		} else {
			from = pc.ch.Cfg.DeployedSlot - 1
		}
	}
	pc.n.Head = last
	pc.n.Finalized = steps[0]
	p := pc.begin(nil)
	// while it runs: what it says is of a slot it has processed, never less than before
	prev := map[string]float64{}
	stop, finished := make(chan struct{}), make(chan struct{})
	bad := make(chan string, 10)
	go func() {
		defer close(finished)
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(5+rand.Intn(20)) * time.Millisecond):
			}
			pc.mu.Lock()
			fetched := uint64(0)
			if len(pc.blocks) > 0 {
				fetched = pc.blocks[len(pc.blocks)-1]
			}
			pc.mu.Unlock()
			m := p.metrics()
			pc.mu.Lock()
			after := uint64(0)
			if len(pc.blocks) > 0 {
				after = pc.blocks[len(pc.blocks)-1]
			}
			pc.mu.Unlock()
			if m == nil {
				continue
			}
			s := m["oracle_latest_processed_slot"]
			c.R.Count("while_running", 1)
			c.R.Eval(1)
			if s == 0 {
				continue // nothing processed since this start
			}
			// the slot being fetched is processed later, the one before it was processed already
			if uint64(s) > after || (fetched > 0 && uint64(s)+1 < fetched) {
				bad <- fmt.Sprintf("the metrics say slot %d while slots %d to %d are being processed", uint64(s), fetched, after)
				return
			}
			if s < prev["oracle_latest_processed_slot"] || m["oracle_latest_processed_block"] < prev["oracle_latest_processed_block"] {
				bad <- fmt.Sprintf("the metrics go back: %v after %v", s, prev["oracle_latest_processed_slot"])
				return
			}
			prev = m
		}
	}()
	endPoll := func() bool {
		close(stop)
		<-finished
		select {
		case w := <-bad:
			pc.fail("while-running", w)
			return false
		default:
		}
		return true
	}
	made := map[string]int{} // code and path
	for k, fin := range steps {
		pc.n.mu.Lock()
		pc.n.Finalized = fin
		pc.n.mu.Unlock()
		pc.mu.Lock()
		pc.headers = 0
		pc.mu.Unlock()
		res := pc.await(p)
		if res == "idle" { // the finalized slot may have been asked before it changed
			pc.mu.Lock()
			pc.headers = 0
			pc.mu.Unlock()
			res = pc.await(p)
		}
		if res != "idle" {
			endPoll()
			switch {
			case res == "exit" && p.portTaken():
				c.R.Count("port_taken", 1)
			case res == "slow":
				c.R.Inconc("a run took more than 150 s")
			default:
				c.R.Count("stopped_otherwise", 1) // C26's
			}
			return
		}
		if !p.owns(p.met) && !p.exited() {
			// it listens in the background: give it time, unless somebody else has the port
			for try := 0; try < 300 && !p.owns(p.met); try++ {
				time.Sleep(10 * time.Millisecond)
			}
			if !p.owns(p.met) && len(listeners(p.met)) > 0 {
				endPoll()
				c.R.Count("port_taken", 1)
				return
			}
		}
		m := p.metrics()
		if m == nil {
			endPoll()
			pc.fail("no-metrics", "the metrics are not served on the configured port")
			return
		}
		c.R.Eval(1)
		c.R.Count("at_rest", 1)
		at := fin
		if fin <= from {
			at = from
		}
		worked := at > from
		want := func(nm string, x uint64) bool {
			if g := m[nm]; worked && uint64(g) != x || !worked && g != 0 {
				pc.fail("at-rest:"+nm, fmt.Sprintf("%s is %v at rest, %d is right (slot %d processed, finalized %d)", nm, g, x, at, fin))
				return false
			}
			return true
		}
		if !want("oracle_latest_processed_slot", at) || !want("oracle_latest_processed_block", blockOf[at]) || !want("oracle_distance_from_finalized_slot", 0) {
			endPoll()
			return
		}
		known := map[string]string{}
		for key, v := range m {
			if strings.HasPrefix(key, "oracle_known_root_and_slot{") && v == 1 {
				l := labels(key)
				known[l["slot"]] = l["merkle_root"]
			}
		}
		for _, cp := range pc.ref.ckpts {
			if cp > at || cp <= from {
				continue
			}
			if !sameRoot(known[fmt.Sprint(cp)], pc.ref.roots[cp]) {
				endPoll()
				pc.fail("known-root", fmt.Sprintf("checkpoint %d has root %s, the metrics say %q", cp, pc.ref.roots[cp], known[fmt.Sprint(cp)]))
				return
			}
			delete(known, fmt.Sprint(cp))
			c.R.Count("roots_compared", 1)
		}
		if cp, _ := commitedUpTo(pc.ref, from, true); cp > 0 {
			delete(known, fmt.Sprint(cp)) // frozen before this start
		}
		if len(known) > 0 {
			endPoll()
			pc.fail("unknown-root", fmt.Sprintf("the metrics list checkpoints that do not exist: %v", known))
			return
		}
		// requests are counted
		for j := 0; j < 3+r.Intn(8); j++ {
			q := [][2]string{{"/status", "/status"}, {"/config", "/config"}, {"/state", "/state"}, {"/memory/feesinfo", "/memory/feesinfo"}, {"/memory/allblocks", "/memory/allblocks"},
				{"/memory/validator/1", "/memory/validator/{valindex}"}, {"/memory/validator/zz", "/memory/validator/{valindex}"}, {"/memory/validator/77777777777777777777", "/memory/validator/{valindex}"}}[r.Intn(8)]
			if code, _ := p.get(q[0]); code > 0 {
				made[fmt.Sprint(code, " ", q[1])]++
			}
		}
		var got map[string]int
		same := false
		for try := 0; try < 400 && !same; try++ {
			got = map[string]int{}
			for key, v := range p.metrics() {
				if strings.HasPrefix(key, "oracle_http_requests_total{") {
					l := labels(key)
					got[l["code"]+" "+l["path"]] += int(v)
				}
			}
			same = fmt.Sprint(got) == fmt.Sprint(made)
			if !same {
				time.Sleep(10 * time.Millisecond)
			}
		}
		for _, v := range made {
			c.R.Count("requests_counted", v)
		}
		if !same {
			endPoll()
			pc.fail("requests", fmt.Sprintf("requests made: %v, counted: %v", made, got))
			return
		}
		c.R.Seen(fmt.Sprint(k, from >= pc.ch.Cfg.DeployedSlot, pc.dry, len(steps)))
	}
	endPoll()
}
