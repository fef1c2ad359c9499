package tx

import (
	"bytes"
	"math/big"

	"github.com/icon-project/goloop/common/intconv"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/contract"
	"github.com/icon-project/goloop/service/scoredb"
	"github.com/icon-project/goloop/service/state"
	"github.com/icon-project/goloop/zz/kit"
	"github.com/icon-project/goloop/zz/kit/ee"
	"github.com/icon-project/goloop/zz/sym"
)

// payer is a contract that pays a portion of the steps of one of its executions.
type payer struct {
	at      int
	portion int64
	base    *big.Int
	parent  *payer
}

func (p *payer) steps() *big.Int { return floor(mul(p.base, num(p.portion)), num(100)) }

// payers tells who pays for an execution that's over.
func (e *executor) payers(f *frame) {
	if e.share == nil || f == e.root {
		return
	}
	portion := e.share(f.id)
	if !f.ok || f.ro || !e.nested {
		f.subs = nil
		return
	}
	if portion <= 0 {
		return
	}
	own := &payer{at: f.at, portion: int64(portion), base: f.steps}
	for _, p := range f.subs {
		own.base = sub(own.base, p.steps())
		if p.parent == nil {
			p.parent = own
		}
	}
	f.subs = append(f.subs, own)
}

// Sharing is a transaction that contracts pay for.
func Sharing() {
	p := shape(sym.Arg("shape"))
	w := &world{World: kit.New(int(sym.Arg("rev")), 10, nil, nil)}
	price := num(sym.Arg("price"))
	w.price, w.def, w.in = price, 5, 0
	w.call = 7
	w.max = 1 << 40
	e := &executor{w: w, nested: sym.Arg("rev") >= 4}
	portions := []int64{sym.Arg("portion1"), sym.Arg("portion2"), sym.Arg("portion3"), sym.Arg("portion4")}
	e.share = func(id int) int { return int(portions[id-1]) }
	used := p.contracts(map[int]bool{})
	var dep [3]*big.Int
	t := &terms{sharing: true, price: price, height: 1}
	system := sym.Arg("system")
	for i := 0; i < 3; i++ {
		ee.Deploy(w.World, contracts[i], alice, "code"+string(rune('0'+i)))
		as := w.WS.GetAccountState(contracts[i].ID())
		e.m.x[i] = num(int64(100 + i))
		_, err := as.SetValue([]byte("x"), intconv.BigIntToBytes(e.m.x[i]))
		kit.Must(err)
		e.m.bal[i] = num(1000)
		w.SetBalance(contracts[i], e.m.bal[i])
		if used[i] && system>>i&1 == 1 {
			kit.Must(as.SetUseSystemDeposit(true))
		} else if used[i] {
			dep[i] = sym.Big(name("deposit", i), 0, 60)
			kit.Must(as.AddDeposit(t, dep[i]))
		}
	}
	e.m.bal[outside] = num(7)
	w.SetBalance(bob, num(7))
	rich := new(big.Int).Lsh(num(1), 90)
	w.SetBalance(alice, rich)
	w.setup()
	w.SysVar(state.VarServiceConfig, state.SysConfigFee|state.SysConfigFeeSharing)
	ee.Use(w.World, e)
	w.ready()
	limit := sym.Big("limit 1", 0, 40)
	sym.Assume(limit.Cmp(num(w.def)) >= 0)
	first := e.m.copy()
	accepted := dep[p.at] == nil || le(mul(price, num(w.max)), dep[p.at])
	dt := contract.DataTypeCall
	data := []byte(`{"method":"` + p.method + `"}`)
	if !accepted {
		before := w.Image()
		r := w.execute(alice, contracts[p.at], zero, limit, &dt, data)
		sym.Check(r.Status() != module.StatusSuccess && e.runs == 0, "a contract that can't pay is executed")
		sym.Check(eq(r.StepUsed(), num(w.def)) && eq(r.Fee(), mul(r.StepUsed(), price)), "what's paid for a contract that can't pay")
		sym.Check(eq(w.Balance(alice), sub(rich, r.Fee())), "what the sender has")
		w.SetBalance(alice, rich)
		sym.Check(w.Image().Same(before), "something has changed")
		sym.Cover("refused")
		return
	}
	e.root = &frame{}
	root := e.ask(p, alice, -1, false, sub(limit, num(w.def)))
	e.root = root
	e.done = nil
	r := w.execute(alice, contracts[p.at], root.coins, limit, &dt, data)
	ok := r.Status() == module.StatusSuccess
	sym.Check(ok == root.ok, "the result of the transaction")
	sym.Check(eq(r.StepUsed(), add(num(w.def), root.steps)), "the steps of the transaction")
	if !ok {
		e.m = first
	}
	w.checkModel(&e.m, r)

	// who pays
	rest := r.StepUsed()
	var paid [4]*big.Int
	for i := range paid {
		paid[i] = zero
	}
	pay := func(at int, steps *big.Int) *big.Int {
		v, i := steps, 3
		if dep[at] != nil {
			v, i = min(steps, floor(dep[at], price)), at
			dep[at] = sub(dep[at], mul(v, price))
		}
		paid[i] = add(paid[i], v)
		rest = sub(rest, v)
		return v
	}
	if ok {
		for _, q := range root.subs {
			want := q.steps()
			got := pay(q.at, want)
			if q.parent != nil {
				q.parent.base = add(q.parent.base, sub(want, got))
			}
		}
	}
	if portions[0] > 0 && e.runs > 0 {
		pay(p.at, floor(mul(rest, num(portions[0])), num(100)))
	}
	who := append(append([]module.Address{}, contracts[:3]...), state.SystemAddress, alice)
	shared := false
	var byContracts *big.Int = zero
	for i := 0; i < 4; i++ {
		if i < 3 {
			byContracts = add(byContracts, paid[i])
		}
		shared = paid[i].Sign() != 0 || shared
	}
	all := new(big.Int)
	var prev []byte
	for it := r.FeePaymentIterator(); it.Has(); {
		f, err := it.Get()
		kit.Must(err)
		kit.Must(it.Next())
		k := -1
		for i, a := range who {
			if a.Equal(f.Payer()) {
				k = i
			}
		}
		sym.Check(k >= 0, "a payer")
		sym.Check(bytes.Compare(prev, f.Payer().Bytes()) < 0, "the order of payers")
		prev = f.Payer().Bytes()
		if k < 4 {
			sym.Check(eq(f.Amount(), paid[k]), "what a contract pays")
		} else {
			sym.Check(eq(f.Amount(), rest), "what the sender pays")
		}
		all = add(all, f.Amount())
	}
	if shared {
		sym.Check(eq(all, r.StepUsed()), "payments and steps")
		sym.Check(eq(r.Fee(), mul(sub(r.StepUsed(), paid[3]), price)), "the fee")
		sym.Cover("shared")
	} else {
		sym.Check(eq(all, zero) && eq(r.Fee(), mul(r.StepUsed(), price)), "payments of nobody")
	}
	sym.Check(eq(r.FeeByEOA(), mul(rest, price)), "the fee of the sender")
	sym.Check(eq(w.Balance(alice), sub(rich, add(mul(rest, price), sym.IfBig(ok, root.coins, zero)))), "what the sender has")
	use := scoredb.NewVarDB(w.WS.GetAccountState(state.SystemID), state.VarSystemDepositUsage).BigInt()
	if use == nil {
		use = zero
	}
	sym.Check(eq(use, mul(paid[3], price)), "the use of the system's deposit")
	for i := 0; i < 3; i++ {
		if dep[i] != nil {
			v, f, err := w.WS.GetAccountState(contracts[i].ID()).WithdrawDeposit(t, []byte{}, nil)
			sym.Check(err == nil && eq(f, zero), "a deposit isn't given back")
			sym.Check(eq(v, dep[i]), "what is left of a deposit")
		}
	}
	if !ok {
		sym.Cover("failure")
	}
}

func (p *prog) contracts(m map[int]bool) map[int]bool {
	m[p.at] = true
	for _, c := range p.calls {
		c.contracts(m)
	}
	return m
}
