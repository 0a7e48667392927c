package main

// The world a chain lives in: validators and their beacon timelines, pending
// consolidations, networks and keys. Pure data, independent of the oracle.

import (
	"crypto/ecdsa"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/oracle"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

type Key struct {
	Priv *ecdsa.PrivateKey
	Addr common.Address
}

var keyCache sync.Map

func key(i int) *Key {
	if k, ok := keyCache.Load(i); ok {
		return k.(*Key)
	}
	h := crypto.Keccak256([]byte(fmt.Sprintf("verif-key-%d", i)))
	p, err := crypto.ToECDSA(h)
	if err != nil {
		panic(err)
	}
	k := &Key{p, crypto.PubkeyToAddress(p.PublicKey)}
	keyCache.Store(i, k)
	return k
}

// key numbers
const (
	keyBuilder0  = 1 // builders used as fee recipients
	keyBuilder1  = 2
	keyWhitelist = 3 // whitelisted builder
	keyDonor0    = 4
	keyDonor1    = 5
	keyUser0     = 10 // withdrawal addresses: 10..
	keyGov       = 90
	keyPoolFees  = 91
	keyPool      = 92
	keyUpdater   = 93
	keyForward   = 94 // a forwarding contract
)

func addr(i int) common.Address { return key(i).Addr }

type ValAt struct {
	From   uint64 // slot
	Status v1.ValidatorState
	EB     uint64 // gwei
}

type WVal struct {
	Index    uint64
	Pub      phase0.BLSPubKey
	Creds    []byte
	Timeline []ValAt // sorted by slot, first entry covers everything before too
}

func (v *WVal) Exec() (string, bool) {
	h := hex.EncodeToString(v.Creds)
	if strings.HasPrefix(h, "010000000000000000000000") || strings.HasPrefix(h, "020000000000000000000000") {
		return "0x" + h[24:], true
	}
	return "", false
}

func (v *WVal) at(slot uint64) ValAt {
	cur := v.Timeline[0]
	for _, t := range v.Timeline {
		if t.From <= slot {
			cur = t
		}
	}
	return cur
}

func (v *WVal) V1(slot uint64) *v1.Validator {
	a := v.at(slot)
	return &v1.Validator{
		Index:   phase0.ValidatorIndex(v.Index),
		Balance: phase0.Gwei(a.EB),
		Status:  a.Status,
		Validator: &phase0.Validator{
			PublicKey:                  v.Pub,
			WithdrawalCredentials:      append([]byte{}, v.Creds...),
			EffectiveBalance:           phase0.Gwei(a.EB),
			ActivationEligibilityEpoch: 1,
			ActivationEpoch:            2,
			ExitEpoch:                  phase0.Epoch(^uint64(0)),
			WithdrawableEpoch:          phase0.Epoch(^uint64(0)),
		},
	}
}

type Consol struct {
	From, Until    uint64 // slots
	Source, Target uint64
}

type World struct {
	Net     string
	ChainID uint64
	Vals    map[uint64]*WVal
	Consols []Consol
	mu      sync.Mutex
	Calls   int
	Fail    func(slot string) error // fault injection
}

func (w *World) Indices() []uint64 {
	var out []uint64
	for k := range w.Vals {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (w *World) At(idx, slot uint64) *v1.Validator {
	v, ok := w.Vals[idx]
	if !ok {
		return nil
	}
	return v.V1(slot)
}

func (w *World) PendingAt(slot uint64) [][2]uint64 {
	var out [][2]uint64
	for _, c := range w.Consols {
		if c.From <= slot && slot < c.Until {
			out = append(out, [2]uint64{c.Source, c.Target})
		}
	}
	return out
}

// GetSet is the beacon node's answer, as the oracle's callback
func (w *World) GetSet(valIndices []phase0.ValidatorIndex, slotStr string, opts ...retry.Option) (map[phase0.ValidatorIndex]*v1.Validator, error) {
	w.mu.Lock()
	w.Calls++
	w.mu.Unlock()
	if w.Fail != nil {
		if err := w.Fail(slotStr); err != nil {
			return nil, err
		}
	}
	slot, err := strconv.ParseUint(slotStr, 10, 64)
	if err != nil {
		return nil, fmt.Errorf("unexpected state id %q", slotStr)
	}
	if len(valIndices) == 0 {
		return nil, errors.New("empty set")
	}
	out := map[phase0.ValidatorIndex]*v1.Validator{}
	for _, i := range valIndices {
		v := w.At(uint64(i), slot)
		if v == nil {
			return nil, fmt.Errorf("validator %d not found", i)
		}
		out[i] = v
	}
	return out, nil
}

func (w *World) GetPending(stateID string, opts ...retry.Option) (*oracle.PendingConsolidationsResponse, error) {
	if w.Fail != nil {
		if err := w.Fail(stateID); err != nil {
			return nil, err
		}
	}
	slot, err := strconv.ParseUint(stateID, 10, 64)
	if err != nil {
		return nil, fmt.Errorf("unexpected state id %q", stateID)
	}
	r := &oracle.PendingConsolidationsResponse{Finalized: true}
	for _, c := range w.PendingAt(slot) {
		r.Data = append(r.Data, oracle.PendingConsolidation{SourceIndex: phase0.ValidatorIndex(c[0]), TargetIndex: phase0.ValidatorIndex(c[1])})
	}
	return r, nil
}

func mkPub(i uint64) phase0.BLSPubKey {
	var p phase0.BLSPubKey
	a := crypto.Keccak256([]byte(fmt.Sprintf("pub-%d", i)))
	b := crypto.Keccak256([]byte(fmt.Sprintf("pub2-%d", i)))
	copy(p[:], append(a, b[:16]...))
	return p
}

func mkCreds(kind string, a common.Address, i uint64) []byte {
	c := make([]byte, 32)
	switch kind {
	case "01":
		c[0] = 1
		copy(c[12:], a[:])
	case "02":
		c[0] = 2
		copy(c[12:], a[:])
	case "bls":
		copy(c, crypto.Keccak256([]byte(fmt.Sprintf("bls-%d", i))))
		c[0] = 0
	case "bad": // 0x01 without the zero padding
		copy(c, crypto.Keccak256([]byte(fmt.Sprintf("bad-%d", i))))
		c[0] = 1
		c[5] = 7
		copy(c[12:], a[:])
	case "03":
		c[0] = 3
		copy(c[12:], a[:])
	}
	return c
}

type Net struct {
	Name    string
	ChainID uint64
}

var nets = map[string]Net{
	"mainnet": {"mainnet", 1},
	"holesky": {"holesky", 17000},
	"hoodi":   {"hoodi", 560048},
}

// independent statement of the fork and fee schedule
type netRules struct {
	fork1   uint64
	electra uint64 // 0: never
	fees    map[uint64]int
}

var rules = map[string]netRules{
	"mainnet": {10188220, 11649024, map[uint64]int{14082460: 500}},
	"holesky": {2720632, 0, nil},
	"hoodi":   {1, 65536, map[uint64]int{2801050: 500}},
}

func big0() *big.Int             { return new(big.Int) }
func bi(x int64) *big.Int        { return big.NewInt(x) }
func bclone(x *big.Int) *big.Int { return new(big.Int).Set(x) }

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }
