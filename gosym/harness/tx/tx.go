// Package tx holds the harnesses of transactions: what they cost, and what they leave.
package tx

import (
	"math/big"

	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/contract"
	"github.com/icon-project/goloop/service/scoredb"
	"github.com/icon-project/goloop/service/state"
	"github.com/icon-project/goloop/service/transaction"
	"github.com/icon-project/goloop/service/txresult"
	"github.com/icon-project/goloop/zz/kit"
	"github.com/icon-project/goloop/zz/sym"
)

var Units = map[string]func(){"Transfer": Transfer, "Frames": Frames, "Pay": Pay, "Sharing": Sharing, "Deposits": Deposits}

const bits = 100

var (
	zero  = new(big.Int)
	alice = kit.Addr(1)
	bob   = kit.Addr(2)
)

func num(x int64) *big.Int       { return big.NewInt(x) }
func add(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }
func sub(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }
func mul(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
func eq(x, y *big.Int) bool      { return x.Cmp(y) == 0 }
func le(x, y *big.Int) bool      { return x.Cmp(y) <= 0 }
func same(a, b bool) bool        { return sym.And(sym.Implies(a, b), sym.Implies(b, a)) }

// world is one with costs of steps chosen.
type world struct {
	*kit.World
	price        *big.Int
	def, in, max int64
	call         int64
}

func newWorld() *world {
	w := &world{World: kit.New(int(sym.Arg("rev")), 10, nil, nil)}
	w.price = sym.Big("price", 0, 64)
	w.def = sym.Int("default cost", 0, 1<<40)
	w.in = sym.Int("input cost", 0, 1<<20)
	w.call = sym.Int("call cost", 0, 1<<20)
	w.max = sym.Int("invoke limit", 0, 1<<50)
	w.setup()
	w.ready()
	return w
}

// setup writes the configuration.
func (w *world) setup() {
	w.SysVar(state.VarStepPrice, w.price)
	sys := w.WS.GetAccountState(state.SystemID)
	costs := scoredb.NewDictDB(sys, state.VarStepCosts, 1)
	types := scoredb.NewArrayDB(sys, state.VarStepTypes)
	for _, c := range []struct {
		name string
		v    int64
	}{{state.StepTypeDefault, w.def}, {state.StepTypeInput, w.in}, {state.StepTypeContractCall, w.call}} {
		kit.Must(types.Put(c.name))
		kit.Must(costs.Set(c.name, c.v))
	}
	limits := scoredb.NewDictDB(sys, state.VarStepLimit, 1)
	kit.Must(scoredb.NewArrayDB(sys, state.VarStepLimitTypes).Put(state.StepLimitTypeInvoke))
	kit.Must(limits.Set(state.StepLimitTypeInvoke, w.max))
}

func (w *world) ready() {
	w.Manager()
	w.Begin()
	w.WC.UpdateSystemInfo()
}

// execute is the execution of a transaction.
func (w *world) execute(from, to module.Address, value, limit *big.Int, dataType *string, data []byte) txresult.Receipt {
	h, err := transaction.NewHandler(w.CM, module.TransactionGroupNormal, from, to, value, limit, dataType, data)
	kit.Must(err)
	var wss state.WorldSnapshot
	sym.Ordered(func() { wss = w.WS.GetSnapshot() })
	w.Ctx.SetProperty(contract.PropInitialSnapshot, wss)
	var r txresult.Receipt
	run := func() {
		r, err = h.Execute(w.Ctx, wss, false)
		h.Dispose()
	}
	if sym.Arg("orders") == 1 {
		run()
	} else {
		sym.Ordered(run)
	}
	sym.Check(err == nil, "execution is not possible")
	return r
}

func min(a, b *big.Int) *big.Int { return sym.IfBig(le(a, b), a, b) }
func max(a, b *big.Int) *big.Int { return sym.IfBig(le(a, b), b, a) }

// Transfer sends coins from an account to another.
func Transfer() {
	w := newWorld()
	balA, balB := sym.Big("from has", 0, bits), sym.Big("to has", 0, bits)
	value, limit := sym.Big("value", 0, bits), sym.Big("step limit", 0, 64)
	to := bob
	if sym.Arg("own") == 1 {
		to = alice
		balB = balA
	}
	blocked := false
	w.SetBalance(alice, balA)
	w.SetBalance(to, balB)
	if sym.Arg("blocked") == 1 {
		blocked = true
		w.WS.GetAccountState(alice.ID()).SetBlock(true)
	}
	var dt *string
	var data []byte
	bytes := int64(0)
	if sym.Arg("data") == 1 {
		s := contract.DataTypeMessage
		dt, data, bytes = &s, []byte(`"0x1234" `), 8
	}
	before := w.Image()
	r := w.execute(alice, to, value, limit, dt, data)

	lim := min(limit, num(w.max))
	base := add(num(w.def), num(w.in*bytes))
	used, price := r.StepUsed(), r.StepPrice()
	fee := mul(used, price)
	ok := r.Status() == module.StatusSuccess
	a, b := w.Balance(alice), w.Balance(to)
	if to == bob {
		sym.Check(eq(a, sub(sub(balA, fee), sym.IfBig(ok, value, zero))), "what the sender has")
		sym.Check(eq(b, add(balB, sym.IfBig(ok, value, zero))), "what the receiver has")
	} else {
		sym.Check(eq(a, sub(balA, fee)), "what the sender of coins to itself has")
	}
	sym.Check(le(zero, a), "a balance below zero")
	sym.Check(eq(r.Fee(), fee), "the receipt's fee")
	sym.Check(eq(r.FeeByEOA(), fee), "the receipt's fee by the sender")
	sym.Check(sym.And(le(num(w.def), used), le(used, max(num(w.def), lim))), "steps beyond the limit or below the minimum")
	sym.Check(sym.Or(eq(price, w.price), sym.And(!ok, eq(price, zero))), "the receipt's price")
	enough := le(add(mul(w.price, limit), value), balA)
	sym.Check(same(ok, sym.And(enough, le(base, lim), !blocked, le(mul(base, w.price), sub(balA, value)))), "success")
	sym.Check(sym.Implies(le(mul(used, w.price), balA), eq(price, w.price)), "nothing charged to one who can pay")
	sym.Check(sym.Implies(sym.And(enough, le(base, lim)), eq(used, base)), "the steps")
	if ok {
		sym.Cover("success")
	} else {
		sym.Cover("failure")
	}
	w.SetBalance(alice, balA)
	w.SetBalance(to, balB)
	sym.Check(w.Image().Same(before), "something else has changed")
}
