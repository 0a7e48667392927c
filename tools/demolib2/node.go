package main

// Fake nodes, the client, the API and the program, for the demonstrations.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	stdlog "log"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"time"

	"github.com/dappnode/mev-sp-oracle/api"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/accounts/keystore"
)

// add puts a block on the chain without processing it
func (s *Scene) add(b *BlockSpec) { s.done(b) }

// node serves the blocks of the scene so far
func (s *Scene) node() *Node {
	n := NewNode(s.Chain)
	n.Genesis = 1600000000
	n.Start()
	return n
}

func (s *Scene) client(n *Node) *oracle.Onchain {
	on, err := oracle.NewOnchain(n.Cli(), nil)
	if err != nil {
		s.fail("client: %v", err)
	}
	on.RefreshBeaconValidators()
	return on
}

// serve starts the API in front of the oracle of the scene
func (s *Scene) serve(n *Node, on *oracle.Onchain, relays ...string) func(path string) (int, []byte) {
	stdlog.SetOutput(io.Discard)
	cli := n.Cli()
	cli.ApiPort = freePort()
	cli.RelayersEndpoints = relays
	svc := api.NewApiService(s.OrCfg, cli, s.Or, on)
	go func() {
		defer func() { recover() }()
		svc.StartHTTPServer()
	}()
	get := func(path string) (int, []byte) {
		hc := &http.Client{Timeout: 30 * time.Second}
		r, err := hc.Get(fmt.Sprintf("http://127.0.0.1:%d%s", cli.ApiPort, path))
		if err != nil {
			return 0, []byte(err.Error())
		}
		defer r.Body.Close()
		b, _ := io.ReadAll(r.Body)
		return r.StatusCode, b
	}
	for k := 0; k < 300; k++ {
		if c, _ := get("/"); c == 200 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	return get
}

func obj(b []byte) map[string]interface{} {
	var m map[string]interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	d.Decode(&m)
	return m
}

// program starts the real program, whose pauses demo.sh made shorter
type program struct {
	cmd  *exec.Cmd
	out  *bytes.Buffer
	done chan struct{}
	err  error
	port int
	met  int
}

func (s *Scene) program(n *Node, dir string, dry bool, more ...string) *program {
	p := &program{out: &bytes.Buffer{}, done: make(chan struct{}), port: freePort(), met: freePort()}
	args := []string{"-consensus-endpoint", n.CLURL, "-execution-endpoint", n.ELURL, "-pool-address", s.Cfg.PoolAddress, "-relayers-endpoints", "https://127.0.0.1:1",
		"-num-retries", "3", "-log-level", "info", "-api-port", fmt.Sprint(p.port), "-metrics-port", fmt.Sprint(p.met)}
	if dry {
		args = append(args, "-dry-run")
	} else {
		f := filepath.Join(dir, "updater.json")
		k := &keystore.Key{Address: addr(keyUpdater), PrivateKey: key(keyUpdater).Priv}
		b, _ := keystore.EncryptKey(k, "secret", 2, 1)
		os.WriteFile(f, b, 0600)
		args = append(args, "-updater-keystore-file", f, "-updater-keystore-pass", "secret")
	}
	p.cmd = exec.Command(os.Getenv("DEMO_PROG"), append(args, more...)...)
	p.cmd.Dir = dir
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	if err := p.cmd.Start(); err != nil {
		s.fail("%v", err)
	}
	go func() { p.err = p.cmd.Wait(); close(p.done) }()
	return p
}

// until waits for a condition, for at most sec seconds
func until(sec int, f func() bool) bool {
	for t0 := time.Now(); time.Since(t0) < time.Duration(sec)*time.Second; {
		if f() {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

func (p *program) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}
