package tx

import (
	"math/big"

	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/common/errors"
	"github.com/icon-project/goloop/common/intconv"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/contract"
	"github.com/icon-project/goloop/service/eeproxy"
	"github.com/icon-project/goloop/service/scoreapi"
	"github.com/icon-project/goloop/service/scoreresult"
	"github.com/icon-project/goloop/service/state"
	"github.com/icon-project/goloop/service/txresult"
	"github.com/icon-project/goloop/zz/kit"
	"github.com/icon-project/goloop/zz/kit/ee"
	"github.com/icon-project/goloop/zz/sym"
)

// ---------------------------------------------------------------- programs

const (
	run  = "run"
	get  = "get"
	none = "" // coins only
)

// prog is what a contract does when it's called: it writes and emits, calls others in turn, writes and
// emits after each of them, and answers.
type prog struct {
	id     int
	at     int // number of the contract, or outside
	method string
	value  bool // coins are sent
	calls  []*prog
}

const outside = 3

var contracts = []module.Address{kit.Score(11), kit.Score(12), kit.Score(13), bob}

// shapes are the calls that are explored.
func shape(i int64) *prog {
	switch i {
	case 0: // one call
		return &prog{1, 0, run, true, nil}
	case 1: // a call in a call
		return &prog{1, 0, run, false, []*prog{{2, 1, run, false, nil}}}
	case 2: // with coins
		return &prog{1, 0, run, false, []*prog{{2, 1, run, true, nil}}}
	case 3: // two calls in turn
		return &prog{1, 0, run, false, []*prog{{2, 1, run, false, nil}, {3, 2, run, false, nil}}}
	case 4: // three deep, back to the first one
		return &prog{1, 0, run, false, []*prog{{2, 1, run, false, []*prog{{3, 0, run, false, nil}}}}}
	case 5: // a query in a call
		return &prog{1, 0, run, false, []*prog{{2, 1, get, false, nil}}}
	case 6: // a query that calls a method which is not one
		return &prog{1, 0, run, false, []*prog{{2, 1, get, false, []*prog{{3, 2, run, false, nil}}}}}
	case 7: // a query that sends coins
		return &prog{1, 0, run, false, []*prog{{2, 1, get, false, []*prog{{3, outside, none, true, nil}}}}}
	case 8: // coins to an account and to a contract
		return &prog{1, 0, run, false, []*prog{{2, outside, none, true, nil}, {3, 1, none, true, nil}}}
	case 9: // the same one again
		return &prog{1, 0, run, false, []*prog{{2, 0, run, true, nil}, {3, 0, get, false, nil}}}
	case 10: // a query with a query, and a call after it
		return &prog{1, 0, run, false, []*prog{{2, 1, get, false, []*prog{{3, 0, get, false, nil}}}, {4, 1, run, false, nil}}}
	case 11: // a query from outside
		return &prog{1, 0, get, false, []*prog{{2, 1, run, false, nil}}}
	case 12: // coins for a query
		return &prog{1, 0, run, false, []*prog{{2, 1, get, true, nil}}}
	case 13: // three deep
		return &prog{1, 0, run, false, []*prog{{2, 1, run, false, []*prog{{3, 2, run, true, nil}, {4, 0, run, false, nil}}}}}
	}
	panic("no such shape")
}

type event struct {
	at   int // contract, or -1 for coins
	id   int64
	data *big.Int
	to   int
}

// model is what the state has to be.
type model struct {
	x   [3]*big.Int
	bal [4]*big.Int
	ev  []event
}

func (m model) copy() model {
	m.ev = append([]event{}, m.ev...)
	return m
}

type frame struct {
	*prog
	ctx    eeproxy.CallContext
	ro     bool
	saved  model
	from   module.Address
	coins  *big.Int
	limit  *big.Int
	next   int
	writes int
	eid    int
	// what the caller has to be told
	ok    bool
	steps *big.Int
	// the latest executions of the codes that are in force
	last map[int]int
	// who pays the fee
	inner *big.Int
	subs  []*payer
}

// executor is the executor: it knows what has to happen.
type executor struct {
	w       *world
	m       model
	stack   []*frame
	pending *frame
	root    *frame
	done    *frame
	eids    int
	runs    int
	nested  bool
	share   func(id int) int // the portion that is set, below zero for none
}

func (e *executor) top() *frame { return e.stack[len(e.stack)-1] }

func name(s string, n int) string { return s + " " + string(rune('0'+n)) }

// ask tells whether the program starts in a frame with the limit; it does what is done before.
func (e *executor) ask(p *prog, from module.Address, at int, ro bool, limit *big.Int) *frame {
	f := &frame{prog: p, from: from, ro: ro, limit: limit, saved: e.m.copy(), coins: zero, inner: zero, last: map[int]int{}}
	call := num(e.w.call)
	f.steps = min(call, limit)
	if p.value {
		f.coins = sym.Big(name("coins", p.id), 0, 40)
	}
	paid := f.coins.Sign() > 0
	if (paid || p.at == outside) && ro {
		return f
	}
	if paid {
		if at >= 0 {
			if f.coins.Cmp(e.m.bal[at]) > 0 {
				return f
			}
			e.m.bal[at] = sub(e.m.bal[at], f.coins)
			e.m.ev = append(e.m.ev, event{-1, int64(at), f.coins, p.at})
		}
		e.m.bal[p.at] = add(e.m.bal[p.at], f.coins)
		if p.method == get {
			e.m = f.saved
			return f
		}
	}
	if p.at == outside {
		if call.Cmp(limit) > 0 {
			e.m = f.saved
			return f
		}
		f.ok = true
		return f
	}
	if p.method != get && ro || call.Cmp(limit) > 0 {
		e.m = f.saved
		return f
	}
	f.ro = ro || p.method == get
	e.pending = f
	return f
}

func (e *executor) Invoke(ctx eeproxy.CallContext, code string, readOnly bool, from, to module.Address, value, limit *big.Int,
	method string, params *codec.TypedObj, cid []byte, eid int, st *eeproxy.CodeState) error {
	f := e.pending
	e.pending = nil
	e.runs++
	if f == nil {
		sym.Fail("an execution that nothing asks for")
		return errors.ErrIllegalArgument
	}
	f.ctx = ctx
	want := f.method
	if want == none {
		want = scoreapi.FallbackMethodName
	}
	sym.Check(sym.And(readOnly == f.ro, from.Equal(f.from), to.Equal(contracts[f.at]), method == want), "what is executed")
	sym.Check(eq(value, f.coins), "the coins told to the contract")
	sym.Check(eq(limit, sub(f.limit, num(e.w.call))), "the limit told to the contract")
	sym.Check(eid > e.eids, "the number of the execution")
	e.eids = eid
	f.eid = eid
	f.last[f.at] = eid
	e.stack = append(e.stack, f)
	if e.share != nil {
		if p := e.share(f.id); p >= 0 {
			f.ctx.OnSetFeeProportion(p)
		}
	}
	e.step(f)
	return nil
}

// write changes the variable and emits an event.
func (e *executor) write(f *frame) {
	f.writes++
	n := f.id*10 + f.writes
	v := num(int64(n))
	if e.share == nil {
		v = sym.Big(name("value", f.id)+string(rune('0'+f.writes)), 1, 40)
	}
	old, err := f.ctx.SetValue([]byte("x"), intconv.BigIntToBytes(v))
	id := intconv.Int64ToBytes(int64(n))
	err2 := f.ctx.OnEvent(contracts[f.at], [][]byte{[]byte("Ev(int,int)"), id}, [][]byte{intconv.BigIntToBytes(v)})
	if f.ro {
		sym.Check(err != nil, "a query writes")
		sym.Check(err2 != nil, "a query emits an event")
	} else {
		sym.Check(sym.And(err == nil, err2 == nil), "a contract can't write")
		sym.Check(eq(intconv.BigIntSetBytes(new(big.Int), old), e.m.x[f.at]), "what was written before")
		e.m.x[f.at] = v
		e.m.ev = append(e.m.ev, event{f.at, int64(n), v, 0})
	}
	now, err := f.ctx.GetValue([]byte("x"))
	sym.Check(err == nil && eq(intconv.BigIntSetBytes(new(big.Int), now), e.m.x[f.at]), "what is read")
	sym.Check(eq(f.ctx.GetBalance(contracts[f.at]), e.m.bal[f.at]), "the balance that is read")
}

func (e *executor) step(f *frame) {
	e.write(f)
	if f.next < len(f.calls) {
		p := f.calls[f.next]
		f.next++
		limit := sym.Big(name("limit", p.id), 0, 50)
		c := e.ask(p, contracts[f.at], f.at, f.ro, limit)
		e.done = nil
		if e.pending == nil {
			e.done = c
		}
		data := map[string]interface{}{"params": []interface{}{}}
		if p.method != none {
			data["method"] = p.method
		}
		f.ctx.OnCall(contracts[f.at], contracts[p.at], c.coins, limit, contract.DataTypeCall, common.MustEncodeAny(data))
		return
	}
	f.ok = sym.Flag(name("succeeds", f.id))
	steps := sym.Big(name("steps", f.id), 0, 50)
	sym.Assume(le(f.inner, steps))
	var status error
	if !f.ok {
		e.m = f.saved
		status = scoreresult.RevertedError.New("reverted")
	}
	f.steps = min(f.limit, add(num(e.w.call), steps))
	e.stack = e.stack[:len(e.stack)-1]
	e.done = f
	e.payers(f)
	f.ctx.OnResult(status, 0, steps, nil)
}

func (e *executor) SendResult(ctx eeproxy.CallContext, status error, steps *big.Int, result *codec.TypedObj, eid int, last int) error {
	f, c := e.top(), e.done
	e.done = nil
	if c == nil {
		sym.Fail("a result of nothing")
		return nil
	}
	sym.Check(ctx == f.ctx, "a result for another execution")
	sym.Check(same(status == nil, c.ok), "the result of a call")
	sym.Check(eq(steps, c.steps), "the steps of a call")
	if c.ok {
		for at, n := range c.last {
			f.last[at] = n
		}
		f.subs = append(f.subs, c.subs...)
	}
	f.inner = add(f.inner, c.steps)
	sym.Check(last == f.last[f.at], "the execution that the state is of")
	sym.Check(eid > e.eids, "the number of the execution")
	e.eids = eid
	f.last[f.at] = eid
	e.step(f)
	return nil
}

func (e *executor) GetAPI(ctx eeproxy.CallContext, code string) error { return errors.ErrUnsupported }
func (e *executor) Release()                                          {}
func (e *executor) Kill() error                                       { return nil }

func balance(w *kit.World, a module.Address) *big.Int { return w.Balance(a) }

// Frames is a transaction that calls contracts which call others.
func Frames() {
	p := shape(sym.Arg("shape"))
	w := &world{World: kit.New(int(sym.Arg("rev")), 10, nil, nil)}
	w.price, w.def, w.in = num(1), 5, 0
	w.call = sym.Int("call cost", 1, 1<<20)
	w.max = 1 << 60
	e := &executor{w: w}
	for i := 0; i < 3; i++ {
		ee.Deploy(w.World, contracts[i], alice, "code"+string(rune('0'+i)))
		e.m.x[i] = num(int64(100 + i))
		_, err := w.WS.GetAccountState(contracts[i].ID()).SetValue([]byte("x"), intconv.BigIntToBytes(e.m.x[i]))
		kit.Must(err)
		e.m.bal[i] = sym.Big(name("balance", i), 1, 40)
		w.SetBalance(contracts[i], e.m.bal[i])
	}
	e.m.bal[outside] = num(7)
	w.SetBalance(bob, num(7))
	rich := new(big.Int).Lsh(num(1), 90)
	w.SetBalance(alice, rich)
	w.setup()
	ee.Use(w.World, e)
	w.ready()
	limit := sym.Big("limit 1", 0, 50)
	sym.Assume(limit.Cmp(num(w.def)) >= 0)
	first := e.m.copy()
	e.root = e.ask(p, alice, -1, false, sub(limit, num(w.def)))
	root := e.root
	asked := e.pending != nil
	e.done = nil
	dt := contract.DataTypeCall
	r := w.execute(alice, contracts[p.at], root.coins, limit, &dt, []byte(`{"method":"`+p.method+`"}`))
	sym.Check(e.pending == nil && (e.runs > 0) == asked && len(e.stack) == 0, "what has been executed")
	ok := r.Status() == module.StatusSuccess
	sym.Check(ok == root.ok, "the result of the transaction")
	sym.Check(eq(r.StepUsed(), add(num(w.def), root.steps)), "the steps of the transaction")
	if !ok {
		sym.Check(len(e.m.ev) == 0, "the model")
		e.m = first
	}
	w.checkModel(&e.m, r)
	spent := add(r.StepUsed(), sym.IfBig(ok, root.coins, zero))
	sym.Check(eq(w.Balance(alice), sub(rich, spent)), "what the sender has")
	if ok {
		sym.Cover("success")
	} else {
		sym.Cover("failure")
	}
}

func (w *world) checkModel(m *model, r txresult.Receipt) {
	for i := 0; i < 4; i++ {
		sym.Check(eq(w.Balance(contracts[i]), m.bal[i]), "a balance afterwards")
		if i < 3 {
			bs, err := w.WS.GetAccountState(contracts[i].ID()).GetValue([]byte("x"))
			sym.Check(err == nil && eq(intconv.BigIntSetBytes(new(big.Int), bs), m.x[i]), "a variable afterwards")
		}
	}
	n := 0
	for it := r.EventLogIterator(); it.Has(); it.Next() {
		l, err := it.Get()
		kit.Must(err)
		if n >= len(m.ev) {
			sym.Fail("an event too much")
			return
		}
		v := m.ev[n]
		n++
		ix, data := l.Indexed(), l.Data()
		if v.at < 0 {
			sym.Check(l.Address().Equal(state.SystemAddress) && string(ix[0]) == txresult.EventLogTransfer &&
				string(ix[1]) == string(contracts[v.id].Bytes()) && string(ix[2]) == string(contracts[v.to].Bytes()), "the event of a transfer")
		} else {
			sym.Check(l.Address().Equal(contracts[v.at]) && len(ix) == 2 && string(ix[1]) == string(intconv.Int64ToBytes(v.id)), "an event")
		}
		sym.Check(len(data) == 1 && eq(kit.Num(data[0]), v.data), "the data of an event")
	}
	sym.Check(n == len(m.ev), "the number of events")
}
