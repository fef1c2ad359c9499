// Package kit holds what the harnesses of havah share: a world made of the repository's own world
// state, world context, contract context and call context, at a block and in a transaction chosen
// by the harness.
package kit

import (
	"bytes"
	"math/big"
	"os"
	"time"

	"github.com/icon-project/goloop/chain/base"
	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/common/containerdb"
	"github.com/icon-project/goloop/common/crypto"
	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/common/errors"
	"github.com/icon-project/goloop/common/intconv"
	"github.com/icon-project/goloop/common/log"
	"github.com/icon-project/goloop/havah"
	"github.com/icon-project/goloop/havah/hvh"
	"github.com/icon-project/goloop/havah/hvh/hvhstate"
	"github.com/icon-project/goloop/havah/hvhmodule"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/contract"
	"github.com/icon-project/goloop/service/scoredb"
	"github.com/icon-project/goloop/service/state"
	"github.com/icon-project/goloop/service/txresult"
	"github.com/icon-project/goloop/zz/sym"
)

// NewState is an empty state of the platform.
func NewState() *hvhstate.State {
	return hvhstate.NewStateFromSnapshot(hvhstate.NewSnapshot(db.NewMapDB(), nil), false, log.GlobalLogger())
}

func Must(err error) {
	if err != nil {
		panic(err)
	}
}

// Addr is the account address number i.
func Addr(i int) module.Address {
	bs := make([]byte, 20)
	bs[0] = 0xa0
	bs[18] = byte(i >> 8)
	bs[19] = byte(i)
	return common.NewAccountAddress(bs)
}

// Score is the contract address number i.
func Score(i int) module.Address {
	bs := make([]byte, 20)
	bs[0] = 0xb0
	bs[18] = byte(i >> 8)
	bs[19] = byte(i)
	return common.NewContractAddress(bs)
}

// SetVar writes a variable of the platform's state.
func SetVar(s *hvhstate.State, key string, value interface{}) {
	Must(containerdb.NewVarDB(s, containerdb.ToKey(containerdb.HashBuilder, key)).Set(value))
}

// GetVar reads a variable of the platform's state; zero when it is not there.
func GetVar(s *hvhstate.State, key string) *big.Int {
	v := containerdb.NewVarDB(s, containerdb.ToKey(containerdb.HashBuilder, key)).BigInt()
	if v == nil {
		return new(big.Int)
	}
	return v
}

type planetReward struct {
	Total   *big.Int
	LastTN  int64
	Current *big.Int
}

// SetReward writes the reward record of a planet.
func SetReward(s *hvhstate.State, id int64, total *big.Int, last int64, current *big.Int) {
	d := containerdb.NewDictDB(s, 1, containerdb.ToKey(containerdb.HashBuilder, hvhmodule.DictPlanetReward))
	Must(d.Set(id, codec.MustMarshalToBytes(&planetReward{total, last, current})))
}

// Reward reads the reward record of a planet.
func Reward(s *hvhstate.State, id int64) (total *big.Int, last int64, current *big.Int) {
	d := containerdb.NewDictDB(s, 1, containerdb.ToKey(containerdb.HashBuilder, hvhmodule.DictPlanetReward))
	r := &planetReward{new(big.Int), 0, new(big.Int)}
	if v := d.Get(id); v != nil {
		codec.MustUnmarshalFromBytes(v.Bytes(), r)
	}
	return r.Total, r.LastTN, r.Current
}

type planetRecord struct {
	Flags  int
	Owner  *common.Address
	USDT   *big.Int
	Price  *big.Int
	Height int64
}

// SetPlanet writes the record of a planet.
func SetPlanet(s *hvhstate.State, id int64, private, company bool, owner module.Address, usdt, price *big.Int, height int64) {
	d := containerdb.NewDictDB(s, 1, containerdb.ToKey(containerdb.HashBuilder, hvhmodule.DictPlanet))
	flags := 0
	if private {
		flags |= int(hvhstate.Private)
	}
	if company {
		flags |= int(hvhstate.Company)
	}
	Must(d.Set(id, codec.BC.MustMarshalToBytes(&planetRecord{flags, common.AddressToPtr(owner), usdt, price, height})))
}

type txList struct {
	module.TransactionList
	txs []module.Transaction
}

func (l *txList) Get(i int) (module.Transaction, error) {
	if i < 0 || i >= len(l.txs) {
		return nil, errors.ErrNotFound
	}
	return l.txs[i], nil
}

// Planet reads the record of a planet; no owner when there is none.
func Planet(s *hvhstate.State, id int64) (private, company bool, owner module.Address, usdt, price *big.Int, height int64) {
	d := containerdb.NewDictDB(s, 1, containerdb.ToKey(containerdb.HashBuilder, hvhmodule.DictPlanet))
	v := d.Get(id)
	if v == nil {
		return
	}
	r := new(planetRecord)
	codec.BC.MustUnmarshalFromBytes(v.Bytes(), r)
	return r.Flags&int(hvhstate.Private) != 0, r.Flags&int(hvhstate.Company) != 0, r.Owner, r.USDT, r.Price, r.Height
}

// TxList is the list of at most one transaction.
func TxList(tx module.Transaction) module.TransactionList {
	if tx == nil {
		return &txList{}
	}
	return &txList{txs: []module.Transaction{tx}}
}

type block struct {
	height, ts int64
}

func (b block) Height() int64    { return b.height }
func (b block) Timestamp() int64 { return b.ts }

type chain struct {
	module.Chain
}

func (c *chain) CID() int                          { return 1 }
func (c *chain) NID() int                          { return 1 }
func (c *chain) TransactionTimeout() time.Duration { return time.Second * 5 }

// Consensus is what the consensus engine told about the previous block.
type Consensus struct {
	Prop  module.Address
	Vs    module.ValidatorList
	Votes []bool
}

func (c *Consensus) Proposer() module.Address     { return c.Prop }
func (c *Consensus) Voters() module.ValidatorList { return c.Vs }
func (c *Consensus) Voted() []bool                { return c.Votes }

type World struct {
	DB       db.Database
	Plt      base.Platform
	WS       state.WorldState
	CM       contract.ContractManager
	Revision int
	Height   int64
	CSI      module.ConsensusInfo
	Query    bool
	Limit    *big.Int

	WC  state.WorldContext
	Ctx contract.Context
	CC  contract.CallContext
}

// New makes a world whose extension state is what setup leaves; validators are the active ones.
func New(rev int, height int64, validators []module.Address, setup func(s *hvhstate.State)) *World {
	w := &World{DB: db.NewMapDB(), Revision: rev, Height: height, CSI: &Consensus{}}
	plt, err := havah.NewPlatform("", 1)
	Must(err)
	w.Plt = plt
	s := hvhstate.NewStateFromSnapshot(hvhstate.NewSnapshot(w.DB, nil), false, log.GlobalLogger())
	if setup != nil {
		setup(s)
	}
	snap := s.GetSnapshot()
	Must(snap.Flush())
	ess := plt.NewExtensionSnapshot(w.DB, codec.BC.MustMarshalToBytes(snap.Bytes()))
	w.WS = state.NewWorldState(w.DB, nil, ValidatorList(w.DB, validators), ess, nil)
	w.SysVar(state.VarRevision, rev)
	return w
}

// SysVar writes a variable of the system's account.
func (w *World) SysVar(key string, value interface{}) {
	Must(scoredb.NewVarDB(w.WS.GetAccountState(state.SystemID), key).Set(value))
}

func (w *World) SetBalance(a module.Address, v *big.Int) { w.WS.GetAccountState(a.ID()).SetBalance(v) }
func (w *World) Balance(a module.Address) *big.Int       { return w.WS.GetAccountState(a.ID()).GetBalance() }

// Supply is the total supply on record.
func (w *World) Supply() *big.Int {
	v := scoredb.NewVarDB(w.WS.GetAccountState(state.SystemID), state.VarTotalSupply).BigInt()
	if v == nil {
		return new(big.Int)
	}
	return v
}

func (w *World) SetSupply(v *big.Int) { w.SysVar(state.VarTotalSupply, v) }

// ScoreVar is a variable of a contract's account.
func (w *World) ScoreVar(a module.Address, key string) *containerdb.VarDB {
	return scoredb.NewVarDB(w.WS.GetAccountState(a.ID()), key)
}

// Begin makes the contexts of a transaction (or a query) in the world as it is now.
func (w *World) Begin() {
	w.WC = state.NewWorldContext(w.WS, block{w.Height, 1000 * w.Height}, w.CSI, w.Plt)
	if !w.Query {
		w.WC.SetTransactionInfo(&state.TransactionInfo{Hash: []byte{1, 2, 3}, From: Addr(1)})
	}
	w.Ctx = contract.NewContext(w.WC, w.CM, nil, &chain{}, log.GlobalLogger(), nil, 0)
	w.CC = contract.NewCallContext(w.Ctx, w.Limit, w.Query)
}

// From is the platform's call context of a caller.
func (w *World) From(a module.Address) hvhmodule.CallContext {
	if w.CC == nil {
		w.Begin()
	}
	return hvh.NewCallContext(w.CC, a)
}

// Ext is the platform's extension state.
func (w *World) Ext() *hvh.ExtensionStateImpl {
	return hvh.GetExtensionStateFromWorldContext(w.CC, log.GlobalLogger())
}

// State is a view of the platform's state as it is now.
func (w *World) State() *hvhstate.State {
	es := w.WS.GetExtensionState()
	snap := es.GetSnapshot()
	Must(snap.Flush())
	var hash []byte
	codec.BC.MustUnmarshalFromBytes(snap.Bytes(), &hash)
	return hvhstate.NewStateFromSnapshot(hvhstate.NewSnapshot(w.DB, hash), false, log.GlobalLogger())
}

// Var reads a variable of the platform's state.
func (w *World) Var(key string) *big.Int { return GetVar(w.State(), key) }

// Manager is the manager of contracts.
func (w *World) Manager() contract.ContractManager {
	if w.CM == nil {
		dir, err := os.MkdirTemp("", "gosym-cm-")
		Must(err)
		defer os.RemoveAll(dir)
		w.CM, err = w.Plt.NewContractManager(w.DB, dir, log.GlobalLogger())
		Must(err)
	}
	return w.CM
}

// Chain is the system's contract called by a.
func (w *World) Chain(a module.Address) contract.SystemScore {
	w.Manager()
	if w.CC == nil {
		w.Begin()
	}
	s, err := w.CM.GetSystemScore(contract.CID_CHAIN, w.CC, a, new(big.Int))
	Must(err)
	return s
}

// Log is an event.
type Log struct {
	Addr    module.Address
	Indexed [][]byte
	Data    [][]byte
}

type receipt struct {
	txresult.Receipt
	logs []Log
}

func (r *receipt) AddLog(addr module.Address, indexed, data [][]byte) {
	r.logs = append(r.logs, Log{addr, indexed, data})
}

// Events are those of the current frame.
func (w *World) Events() []Log {
	r := &receipt{}
	w.CC.GetEventLogs(r)
	return r.logs
}

// PubKey is the compressed public key number i.
func PubKey(i int) []byte {
	bs := make([]byte, 33)
	bs[0] = 2
	bs[31] = byte(i >> 8)
	bs[32] = byte(i)
	return bs
}

// Node is the address of the public key number i.
func Node(i int) module.Address {
	pk, err := crypto.ParsePublicKey(PubKey(i))
	Must(err)
	return common.NewAccountAddressFromPublicKey(pk)
}

// Status is the status of a validator.
type Status struct {
	Version  int
	Flags    int
	NonVotes int64
	Enabled  int
}

func statusDB(s *hvhstate.State) *containerdb.DictDB {
	return containerdb.NewDictDB(s, 1, containerdb.ToKey(containerdb.HashBuilder, hvhmodule.DictValidatorStatus))
}

// SetStatus writes the status of a validator.
func SetStatus(s *hvhstate.State, owner module.Address, v Status) {
	Must(statusDB(s).Set(string(owner.Bytes()), codec.MustMarshalToBytes(&v)))
}

// GetStatus reads the status of a validator.
func GetStatus(s *hvhstate.State, owner module.Address) *Status {
	v := statusDB(s).Get(string(owner.Bytes()))
	if v == nil {
		return nil
	}
	r := new(Status)
	codec.MustUnmarshalFromBytes(v.Bytes(), r)
	return r
}

// Owners is a list of addresses in the platform's state.
func Owners(s *hvhstate.State, key string) []module.Address {
	d := containerdb.NewArrayDB(s, containerdb.ToKey(containerdb.HashBuilder, key))
	r := []module.Address{}
	for i := 0; i < d.Size(); i++ {
		r = append(r, d.Get(i).Address())
	}
	return r
}

// OwnerOf is the owner of a node on record, or nil.
func OwnerOf(s *hvhstate.State, node module.Address) module.Address {
	v := containerdb.NewDictDB(s, 1, containerdb.ToKey(containerdb.HashBuilder, hvhmodule.DictNodeToOwner)).Get(string(node.Bytes()))
	if v == nil {
		return nil
	}
	return v.Address()
}

// NetStatus is the status of the network.
type NetStatus struct {
	Version, Mode            int
	Period, Allowance, Count int64
}

// SetNetStatus writes the status of the network.
func SetNetStatus(s *hvhstate.State, v NetStatus) {
	SetVar(s, hvhmodule.VarNetworkStatus, codec.BC.MustMarshalToBytes(&v))
}

// GetNetStatus reads the status of the network.
func GetNetStatus(s *hvhstate.State) NetStatus {
	var v NetStatus
	bs := containerdb.NewVarDB(s, containerdb.ToKey(containerdb.HashBuilder, hvhmodule.VarNetworkStatus)).Bytes()
	if bs != nil {
		codec.BC.MustUnmarshalFromBytes(bs, &v)
	}
	return v
}

// ValidatorList makes the list of the validators with the addresses.
func ValidatorList(dbase db.Database, as []module.Address) state.ValidatorSnapshot {
	vl := make([]module.Validator, len(as))
	for i, a := range as {
		v, err := state.ValidatorFromAddress(a)
		Must(err)
		vl[i] = v
	}
	vss, err := state.ValidatorSnapshotFromSlice(dbase, vl)
	Must(err)
	return vss
}

// Validators are the active ones now.
func (w *World) Validators() []module.Address {
	vs := w.WS.GetValidatorState()
	r := []module.Address{}
	for i := 0; i < vs.Len(); i++ {
		v, _ := vs.Get(i)
		r = append(r, v.Address())
	}
	return r
}

// NeedKeys makes keys of BTP necessary for validators.
func (w *World) NeedKeys() {
	Must(scoredb.NewVarDB(w.WS.GetAccountState(state.SystemID), state.ActiveDSAMaskKey).Set(1))
}

// GiveKey gives a node the key of BTP.
func (w *World) GiveKey(node module.Address) {
	Must(scoredb.NewDictDB(w.WS.GetAccountState(state.SystemID), state.PubKeyMaskByNameKey, 1).Set(node, 1))
}

// Find is the data of the events with a signature.
func (w *World) Find(signature string) [][][]byte {
	var r [][][]byte
	for _, l := range w.Events() {
		if string(l.Indexed[0]) == signature {
			r = append(r, l.Data)
		}
	}
	return r
}

// Num is the integer of an event.
func Num(bs []byte) *big.Int { return intconv.BigIntSetBytes(new(big.Int), bs) }

// Image identifies all of the world's state.
type Image struct {
	accounts, ext []byte
	validators    []module.Address
	events        int
}

// Image is that of now.
func (w *World) Image() *Image {
	var s state.WorldSnapshot
	sym.Ordered(func() { s = w.WS.GetSnapshot() })
	return &Image{s.StateHash(), s.ExtensionData(), w.Validators(), len(w.Events())}
}

// Same tells whether two images are those of the same state.
func (i *Image) Same(o *Image) bool {
	r := sym.And(bytes.Equal(i.accounts, o.accounts), bytes.Equal(i.ext, o.ext), len(i.validators) == len(o.validators),
		i.events == o.events)
	for k := range i.validators {
		r = sym.And(r, k < len(o.validators) && i.validators[k].Equal(o.validators[k]))
	}
	return r
}
