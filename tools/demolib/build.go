package main

// Block specifications and their realisation as the oracle's FullBlock: real
// signed transactions, payloads of every fork, receipts, headers and events.

import (
	"fmt"
	"math/big"
	"strings"
	"sync"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/altair"
	"github.com/attestantio/go-eth2-client/spec/bellatrix"
	"github.com/attestantio/go-eth2-client/spec/capella"
	"github.com/attestantio/go-eth2-client/spec/deneb"
	"github.com/attestantio/go-eth2-client/spec/electra"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"
	"github.com/prysmaticlabs/go-bitfield"
)

type TxSpec struct {
	Kind        int // 0..4
	From        int // key
	To          *common.Address
	Value       *big.Int
	Data        []byte
	GasUsed     uint64
	FeeCap      *big.Int // gas price for 0 and 1
	TipCap      *big.Int
	Unprotected bool
}

type EvSpec struct {
	Kind   string // ether sub unsub ban unban fee recipient ckpt coll claim setrec submit consolidated quorum addoracle rmoracle
	Addr   common.Address
	Addr2  common.Address
	Amount *big.Int
	ID     uint64
	Root   [32]byte
	Tx     int
}

type BlockSpec struct {
	Slot     uint64
	Proposer uint64
	Missed   bool
	Number   uint64
	Fork     string
	FeeRec   common.Address
	BaseFee  *big.Int
	Txs      []TxSpec
	Events   []EvSpec
	Note     string // what the generator meant
}

var poolABI abi.ABI

func init() {
	var err error
	poolABI, err = abi.JSON(strings.NewReader(contract.ContractMetaData.ABI))
	if err != nil {
		panic(err)
	}
}

// ---------------------------------------------------------------- transactions

var txCache sync.Map

func buildTx(t TxSpec, nonce uint64, chainID uint64) *types.Transaction {
	k := key(t.From)
	cid := new(big.Int).SetUint64(chainID)
	var inner types.TxData
	gas := t.GasUsed + 1000
	switch t.Kind {
	case 0:
		inner = &types.LegacyTx{Nonce: nonce, GasPrice: t.FeeCap, Gas: gas, To: t.To, Value: t.Value, Data: t.Data}
	case 1:
		inner = &types.AccessListTx{ChainID: cid, Nonce: nonce, GasPrice: t.FeeCap, Gas: gas, To: t.To, Value: t.Value, Data: t.Data,
			AccessList: types.AccessList{{Address: addr(keyDonor0), StorageKeys: []common.Hash{{1}}}}}
	case 2:
		inner = &types.DynamicFeeTx{ChainID: cid, Nonce: nonce, GasTipCap: t.TipCap, GasFeeCap: t.FeeCap, Gas: gas, To: t.To, Value: t.Value, Data: t.Data}
	case 3:
		to := common.Address{}
		if t.To != nil {
			to = *t.To
		}
		inner = &types.BlobTx{ChainID: uint256.MustFromBig(cid), Nonce: nonce, GasTipCap: uint256.MustFromBig(t.TipCap), GasFeeCap: uint256.MustFromBig(t.FeeCap), Gas: gas, To: to,
			Value: uint256.MustFromBig(t.Value), Data: t.Data, BlobFeeCap: uint256.NewInt(7), BlobHashes: []common.Hash{{1, 2}}}
	case 4:
		to := common.Address{}
		if t.To != nil {
			to = *t.To
		}
		auth, err := types.SignSetCode(key(keyDonor1).Priv, types.SetCodeAuthorization{ChainID: *uint256.MustFromBig(cid), Address: addr(keyForward), Nonce: 3})
		if err != nil {
			panic(err)
		}
		inner = &types.SetCodeTx{ChainID: uint256.MustFromBig(cid), Nonce: nonce, GasTipCap: uint256.MustFromBig(t.TipCap), GasFeeCap: uint256.MustFromBig(t.FeeCap), Gas: gas, To: to,
			Value: uint256.MustFromBig(t.Value), Data: t.Data, AuthList: []types.SetCodeAuthorization{auth}}
	}
	var signer types.Signer = types.LatestSignerForChainID(cid)
	if t.Kind == 0 && t.Unprotected {
		signer = types.HomesteadSigner{}
	}
	tx, err := types.SignNewTx(k.Priv, signer, inner)
	if err != nil {
		panic(err)
	}
	return tx
}

// ---------------------------------------------------------------- events

func evName(kind string) string {
	return map[string]string{"ether": "EtherReceived", "sub": "SubscribeValidator", "unsub": "UnsubscribeValidator", "ban": "BanValidator", "unban": "UnbanValidator",
		"fee": "UpdatePoolFee", "recipient": "UpdatePoolFeeRecipient", "ckpt": "UpdateCheckpointSlotSize", "coll": "UpdateSubscriptionCollateral",
		"claim": "ClaimRewards", "setrec": "SetRewardRecipient", "submit": "SubmitReport", "consolidated": "ReportConsolidated", "quorum": "UpdateQuorum",
		"addoracle": "AddOracleMember", "rmoracle": "RemoveOracleMember", "init": "InitSmoothingPool"}[kind]
}

func evArgs(e EvSpec) []interface{} {
	switch e.Kind {
	case "ether":
		return []interface{}{e.Addr, e.Amount}
	case "sub":
		return []interface{}{e.Addr, e.Amount, e.ID}
	case "unsub":
		return []interface{}{e.Addr, e.ID}
	case "ban", "unban", "ckpt", "quorum", "init":
		return []interface{}{e.ID}
	case "fee", "coll":
		return []interface{}{e.Amount}
	case "recipient", "addoracle", "rmoracle":
		return []interface{}{e.Addr}
	case "claim":
		return []interface{}{e.Addr, e.Addr2, e.Amount}
	case "setrec":
		return []interface{}{e.Addr, e.Addr2}
	case "submit":
		return []interface{}{new(big.Int).SetUint64(e.ID), e.Root, e.Addr}
	case "consolidated":
		return []interface{}{new(big.Int).SetUint64(e.ID), e.Root}
	}
	panic("event kind " + e.Kind)
}

func buildLog(e EvSpec, pool common.Address, number uint64, blockHash common.Hash, txHash common.Hash, txIdx, logIdx uint) types.Log {
	ev := poolABI.Events[evName(e.Kind)]
	data, err := ev.Inputs.NonIndexed().Pack(evArgs(e)...)
	if err != nil {
		panic(fmt.Sprint(e.Kind, " ", err))
	}
	return types.Log{Address: pool, Topics: []common.Hash{ev.ID}, Data: data, BlockNumber: number, TxHash: txHash, TxIndex: txIdx, BlockHash: blockHash, Index: logIdx}
}

// ---------------------------------------------------------------- blocks

type Built struct {
	Spec     *BlockSpec
	Duty     *v1.ProposerDuty
	Block    *spec.VersionedSignedBeaconBlock
	Header   *types.Header
	Receipts []*types.Receipt
	Txs      []*types.Transaction
	Logs     []types.Log
	Events   *oracle.Events
}

func blockHashOf(slot, number uint64) common.Hash {
	return crypto.Keccak256Hash([]byte(fmt.Sprintf("block-%d-%d", slot, number)))
}

// build makes the raw chain data of a block
func (c *Chain) build(b *BlockSpec) *Built {
	w := c.World
	o := &Built{Spec: b}
	o.Duty = &v1.ProposerDuty{Slot: phase0.Slot(b.Slot), ValidatorIndex: phase0.ValidatorIndex(b.Proposer)}
	if v, ok := w.Vals[b.Proposer]; ok {
		o.Duty.PubKey = v.Pub
	}
	if b.Missed {
		return o
	}
	bh := blockHashOf(b.Slot, b.Number)
	gas := uint64(0)
	var raw []bellatrix.Transaction
	for i, t := range b.Txs {
		tx := buildTx(t, b.Slot*16+uint64(i), w.ChainID)
		o.Txs = append(o.Txs, tx)
		m, err := tx.MarshalBinary()
		if err != nil {
			panic(err)
		}
		raw = append(raw, bellatrix.Transaction(m))
		gas += t.GasUsed
		o.Receipts = append(o.Receipts, &types.Receipt{Type: uint8(t.Kind), Status: 1, GasUsed: t.GasUsed, CumulativeGasUsed: gas, TxHash: tx.Hash(), BlockHash: bh,
			BlockNumber: new(big.Int).SetUint64(b.Number), TransactionIndex: uint(i), Logs: []*types.Log{}})
	}
	if o.Receipts == nil {
		o.Receipts = []*types.Receipt{}
	}
	o.Header = &types.Header{Number: new(big.Int).SetUint64(b.Number), BaseFee: bclone(b.BaseFee), GasUsed: gas, GasLimit: 36000000, Difficulty: big0(), Time: b.Slot * 12,
		ParentHash: common.Hash{9}, Extra: []byte("verif")}
	pool := common.HexToAddress(c.Cfg.PoolAddress)
	ev := emptyEvents()
	for i, e := range b.Events {
		th := common.Hash{}
		if e.Tx < len(o.Txs) {
			th = o.Txs[e.Tx].Hash()
		}
		l := buildLog(e, pool, b.Number, bh, th, uint(e.Tx), uint(i))
		o.Logs = append(o.Logs, l)
		addEvent(ev, e, l)
	}
	o.Events = ev
	feeRec := bellatrix.ExecutionAddress(b.FeeRec)
	baseLE := [32]byte{}
	bb := b.BaseFee.Bytes()
	for i := range bb {
		baseLE[i] = bb[len(bb)-1-i]
	}
	if b.Fork == "" || b.Fork == "altair" {
		panic("fork")
	}
	eth1 := &phase0.ETH1Data{BlockHash: make([]byte, 32)}
	sync := &altair.SyncAggregate{SyncCommitteeBits: bitfield.NewBitvector512()}
	slot := phase0.Slot(b.Slot)
	prop := phase0.ValidatorIndex(b.Proposer)
	o.Block = &spec.VersionedSignedBeaconBlock{}
	dp := func() *deneb.ExecutionPayload {
		return &deneb.ExecutionPayload{FeeRecipient: feeRec, BlockNumber: b.Number, GasLimit: 36000000, GasUsed: gas, Timestamp: b.Slot * 12, ExtraData: []byte{},
			BaseFeePerGas: uint256.MustFromBig(b.BaseFee), BlockHash: phase0.Hash32(bh), Transactions: raw, Withdrawals: []*capella.Withdrawal{}}
	}
	switch b.Fork {
	case "bellatrix":
		o.Block.Version = spec.DataVersionBellatrix
		o.Block.Bellatrix = &bellatrix.SignedBeaconBlock{Message: &bellatrix.BeaconBlock{Slot: slot, ProposerIndex: prop, Body: &bellatrix.BeaconBlockBody{ETH1Data: eth1,
			ProposerSlashings: []*phase0.ProposerSlashing{}, AttesterSlashings: []*phase0.AttesterSlashing{}, Attestations: []*phase0.Attestation{}, Deposits: []*phase0.Deposit{}, VoluntaryExits: []*phase0.SignedVoluntaryExit{},
			SyncAggregate: sync, ExecutionPayload: &bellatrix.ExecutionPayload{FeeRecipient: feeRec, BlockNumber: b.Number, GasLimit: 36000000, GasUsed: gas, Timestamp: b.Slot * 12, ExtraData: []byte{},
				BaseFeePerGas: baseLE, BlockHash: phase0.Hash32(bh), Transactions: raw}}}}
	case "capella":
		o.Block.Version = spec.DataVersionCapella
		o.Block.Capella = &capella.SignedBeaconBlock{Message: &capella.BeaconBlock{Slot: slot, ProposerIndex: prop, Body: &capella.BeaconBlockBody{ETH1Data: eth1,
			ProposerSlashings: []*phase0.ProposerSlashing{}, AttesterSlashings: []*phase0.AttesterSlashing{}, Attestations: []*phase0.Attestation{}, Deposits: []*phase0.Deposit{}, VoluntaryExits: []*phase0.SignedVoluntaryExit{},
			SyncAggregate: sync, BLSToExecutionChanges: []*capella.SignedBLSToExecutionChange{}, ExecutionPayload: &capella.ExecutionPayload{FeeRecipient: feeRec, BlockNumber: b.Number, GasLimit: 36000000, GasUsed: gas, Timestamp: b.Slot * 12, ExtraData: []byte{},
				BaseFeePerGas: baseLE, BlockHash: phase0.Hash32(bh), Transactions: raw, Withdrawals: []*capella.Withdrawal{}}}}}
	case "deneb":
		o.Block.Version = spec.DataVersionDeneb
		o.Block.Deneb = &deneb.SignedBeaconBlock{Message: &deneb.BeaconBlock{Slot: slot, ProposerIndex: prop, Body: &deneb.BeaconBlockBody{ETH1Data: eth1,
			ProposerSlashings: []*phase0.ProposerSlashing{}, AttesterSlashings: []*phase0.AttesterSlashing{}, Attestations: []*phase0.Attestation{}, Deposits: []*phase0.Deposit{}, VoluntaryExits: []*phase0.SignedVoluntaryExit{},
			SyncAggregate: sync, BLSToExecutionChanges: []*capella.SignedBLSToExecutionChange{}, BlobKZGCommitments: []deneb.KZGCommitment{}, ExecutionPayload: dp()}}}
	case "electra", "fulu":
		eb := &electra.SignedBeaconBlock{Message: &electra.BeaconBlock{Slot: slot, ProposerIndex: prop, Body: &electra.BeaconBlockBody{ETH1Data: eth1,
			ProposerSlashings: []*phase0.ProposerSlashing{}, AttesterSlashings: []*electra.AttesterSlashing{}, Attestations: []*electra.Attestation{}, Deposits: []*phase0.Deposit{}, VoluntaryExits: []*phase0.SignedVoluntaryExit{},
			SyncAggregate: sync, BLSToExecutionChanges: []*capella.SignedBLSToExecutionChange{}, BlobKZGCommitments: []deneb.KZGCommitment{}, ExecutionPayload: dp(),
			ExecutionRequests: &electra.ExecutionRequests{Deposits: []*electra.DepositRequest{}, Withdrawals: []*electra.WithdrawalRequest{}, Consolidations: []*electra.ConsolidationRequest{}}}}}
		if b.Fork == "electra" {
			o.Block.Version = spec.DataVersionElectra
			o.Block.Electra = eb
		} else {
			o.Block.Version = spec.DataVersionFulu
			o.Block.Fulu = eb
		}
	default:
		panic("fork " + b.Fork)
	}
	return o
}

func emptyEvents() *oracle.Events {
	return &oracle.Events{
		EtherReceived: []*contract.ContractEtherReceived{}, SubscribeValidator: []*contract.ContractSubscribeValidator{}, UnsubscribeValidator: []*contract.ContractUnsubscribeValidator{},
		UpdatePoolFee: []*contract.ContractUpdatePoolFee{}, PoolFeeRecipient: []*contract.ContractUpdatePoolFeeRecipient{}, CheckpointSlotSize: []*contract.ContractUpdateCheckpointSlotSize{},
		UpdateSubscriptionCollateral: []*contract.ContractUpdateSubscriptionCollateral{}, BanValidator: []*contract.ContractBanValidator{}, UnbanValidator: []*contract.ContractUnbanValidator{},
	}
}

func addEvent(ev *oracle.Events, e EvSpec, l types.Log) {
	switch e.Kind {
	case "ether":
		ev.EtherReceived = append(ev.EtherReceived, &contract.ContractEtherReceived{Sender: e.Addr, DonationAmount: bclone(e.Amount), Raw: l})
	case "sub":
		ev.SubscribeValidator = append(ev.SubscribeValidator, &contract.ContractSubscribeValidator{Sender: e.Addr, SubscriptionCollateral: bclone(e.Amount), ValidatorID: e.ID, Raw: l})
	case "unsub":
		ev.UnsubscribeValidator = append(ev.UnsubscribeValidator, &contract.ContractUnsubscribeValidator{Sender: e.Addr, ValidatorID: e.ID, Raw: l})
	case "ban":
		ev.BanValidator = append(ev.BanValidator, &contract.ContractBanValidator{ValidatorID: e.ID, Raw: l})
	case "unban":
		ev.UnbanValidator = append(ev.UnbanValidator, &contract.ContractUnbanValidator{ValidatorID: e.ID, Raw: l})
	case "fee":
		ev.UpdatePoolFee = append(ev.UpdatePoolFee, &contract.ContractUpdatePoolFee{NewPoolFee: bclone(e.Amount), Raw: l})
	case "recipient":
		ev.PoolFeeRecipient = append(ev.PoolFeeRecipient, &contract.ContractUpdatePoolFeeRecipient{NewPoolFeeRecipient: e.Addr, Raw: l})
	case "ckpt":
		ev.CheckpointSlotSize = append(ev.CheckpointSlotSize, &contract.ContractUpdateCheckpointSlotSize{NewCheckpointSlotSize: e.ID, Raw: l})
	case "coll":
		ev.UpdateSubscriptionCollateral = append(ev.UpdateSubscriptionCollateral, &contract.ContractUpdateSubscriptionCollateral{NewSubscriptionCollateral: bclone(e.Amount), Raw: l})
	}
}

// Full gives the oracle's FullBlock, made with the same constructor and setters
// the fetcher uses. withExec: header and receipts included.
func (c *Chain) Full(b *BlockSpec, withExec bool) *oracle.FullBlock {
	o := c.build(b)
	return c.fullFrom(o, withExec)
}

func (c *Chain) fullFrom(o *Built, withExec bool) *oracle.FullBlock {
	b := o.Spec
	fb := oracle.NewFullBlock(o.Duty, c.World.At(b.Proposer, b.Slot), c.World.ChainID)
	if b.Missed {
		return fb
	}
	fb.SetConsensusBlock(o.Block)
	fb.SetEvents(o.Events)
	for _, e := range b.Events {
		if e.Kind == "sub" {
			fb.ValidatorsSubs = append(fb.ValidatorsSubs, c.World.At(e.ID, b.Slot))
		}
		if e.Kind == "unsub" {
			fb.ValidatorsUnsubs = append(fb.ValidatorsUnsubs, c.World.At(e.ID, b.Slot))
		}
	}
	if withExec {
		fb.SetHeaderAndReceipts(o.Header, o.Receipts)
	}
	return fb
}
