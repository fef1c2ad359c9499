// Package ee makes contracts be executed by what a harness says.
package ee

import (
	"math/big"

	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/contract"
	"github.com/icon-project/goloop/service/eeproxy"
	"github.com/icon-project/goloop/service/scoreapi"
	"github.com/icon-project/goloop/service/state"
	"github.com/icon-project/goloop/zz/kit"
)

// ---------------------------------------------------------------- contracts that do what the harness says

// Use makes contracts be executed by p.
func Use(w *kit.World, p eeproxy.Proxy) { w.CM = &manager{w.Manager(), p} }

// manager gives the repository's own handlers with an executor of the harness.
type manager struct {
	contract.ContractManager
	ee eeproxy.Proxy
}

type store struct{}

func (store) WaitResult() (string, error) { return "/code", nil }
func (store) Dispose()                    {}

func (m *manager) PrepareContractStore(state.WorldState, state.ContractState) (contract.ContractStore, error) {
	return store{}, nil
}

func (m *manager) wrap(h contract.ContractHandler, err error) (contract.ContractHandler, error) {
	switch h := h.(type) {
	case *contract.CallHandler:
		return &callHandler{h, m}, err
	case *contract.TransferAndCallHandler:
		return &transferAndCallHandler{h, m}, err
	}
	return h, err
}

func (m *manager) GetHandler(from, to module.Address, value *big.Int, ctype int, data []byte) (contract.ContractHandler, error) {
	return m.wrap(m.ContractManager.GetHandler(from, to, value, ctype, data))
}

func (m *manager) GetCallHandler(from, to module.Address, value *big.Int, ctype int, data *codec.TypedObj) (contract.ContractHandler, error) {
	return m.wrap(m.ContractManager.GetCallHandler(from, to, value, ctype, data))
}

type callHandler struct {
	*contract.CallHandler
	m *manager
}

func (h *callHandler) ExecuteAsync(cc contract.CallContext) error {
	return h.CallHandler.ExecuteAsync(&callContext{cc, h.m})
}

type transferAndCallHandler struct {
	*contract.TransferAndCallHandler
	m *manager
}

func (h *transferAndCallHandler) ExecuteAsync(cc contract.CallContext) error {
	return h.TransferAndCallHandler.ExecuteAsync(&callContext{cc, h.m})
}

type callContext struct {
	contract.CallContext
	m *manager
}

func (cc *callContext) GetProxy(state.EEType) eeproxy.Proxy { return cc.m.ee }

// Deploy makes an account a contract with the methods run, get and fallback and the event Ev(int,int).
func Deploy(w *kit.World, a, owner module.Address, code string) {
	as := w.WS.GetAccountState(a.ID())
	if !as.InitContractAccount(owner) {
		panic("not a new contract")
	}
	_, err := as.DeployContract([]byte(code), state.PythonEE, state.CTAppZip, nil, []byte(code))
	kit.Must(err)
	kit.Must(as.AcceptContract([]byte(code), []byte(code)))
	as.SetAPIInfo(scoreapi.NewInfo([]*scoreapi.Method{
		{Type: scoreapi.Function, Name: "run", Flags: scoreapi.FlagExternal | scoreapi.FlagPayable},
		{Type: scoreapi.Function, Name: "get", Flags: scoreapi.FlagExternal | scoreapi.FlagReadOnly, Outputs: []scoreapi.DataType{scoreapi.Integer}},
		{Type: scoreapi.Fallback, Name: scoreapi.FallbackMethodName, Flags: scoreapi.FlagPayable},
		{Type: scoreapi.Event, Name: "Ev", Indexed: 1, Inputs: []scoreapi.Parameter{
			{Name: "id", Type: scoreapi.Integer}, {Name: "v", Type: scoreapi.Integer}}},
	}))
}
