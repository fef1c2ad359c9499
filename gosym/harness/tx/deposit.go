package tx

import (
	"bytes"
	"encoding/hex"
	"math/big"

	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/contract"
	"github.com/icon-project/goloop/service/state"
	"github.com/icon-project/goloop/zz/kit"
	"github.com/icon-project/goloop/zz/kit/ee"
	"github.com/icon-project/goloop/zz/sym"
)

// terms are what a deposit is made and used under.
type terms struct {
	sharing bool
	price   *big.Int
	limit   *big.Int
	height  int64
	term    int64
	id      []byte
}

func (t *terms) FeeSharingEnabled() bool    { return t.sharing }
func (t *terms) StepPrice() *big.Int        { return t.price }
func (t *terms) FeeLimit() *big.Int         { return t.limit }
func (t *terms) BlockHeight() int64         { return t.height }
func (t *terms) DepositTerm() int64         { return t.term }
func (t *terms) DepositIssueRate() *big.Int { return num(8) }
func (t *terms) TransactionID() []byte      { return t.id }

func coins(n int64) *big.Int { return mul(num(n), num(1_000_000_000_000_000_000)) }

var reloads int

// reload writes the account and reads it back.
func reload(w *kit.World, a module.Address) state.AccountState {
	as := w.WS.GetAccountState(a.ID())
	if sym.Arg("reload") == 1 {
		reloads++
		s := as.GetSnapshot()
		s2 := w.WS.GetAccountState(kit.Addr(1000 + reloads).ID()).GetSnapshot()
		kit.Must(s2.Reset(w.DB, s.Bytes()))
		sym.Check(bytes.Equal(s.Bytes(), s2.Bytes()), "an account that is read back")
		kit.Must(as.Reset(s2))
	}
	return as
}

func floor(x, y *big.Int) *big.Int { return new(big.Int).Div(x, y) }

// Pay uses the deposits of a contract up.
func Pay() {
	reloads = 0
	w := kit.New(6, 10, nil, nil)
	c := kit.Score(11)
	ee.Deploy(w, c, alice, "code")
	kinds := sym.Arg("kinds") // a digit for each deposit: 1 with a term, 2 without
	price, price2, price3 := num(sym.Arg("price")), num(sym.Arg("price2")), num(sym.Arg("price3"))
	t := &terms{sharing: true, price: price, height: 1000}
	t.term = sym.Int("term", 1, 1<<40)
	term := t.term
	total := new(big.Int)
	var issued *big.Int = new(big.Int)
	var ids [][]byte
	n := 0
	plain := false
	for k := kinds; k > 0; k /= 10 {
		id := []byte{byte(n + 1)}
		t.id, t.term = id, 0
		var v *big.Int
		if k%10 == 1 {
			t.term = term
			v = sym.Big(name("deposit", n), 0, 77)
			sym.Assume(sym.And(le(coins(5000), v), le(v, coins(100000))))
			issued = add(issued, floor(floor(mul(v, num(8)), num(100)), price))
			ids = append(ids, id)
		} else {
			v = sym.Big(name("deposit", n), 0, 77)
			if !plain {
				ids = append(ids, []byte{})
			}
			plain = true
		}
		kit.Must(w.WS.GetAccountState(c.ID()).AddDeposit(t, v))
		reload(w, c)
		total = add(total, v)
		n++
	}
	as := w.WS.GetAccountState(c.ID())
	// paying
	fees, virtual := new(big.Int), new(big.Int)
	t.price = price2
	for i := 0; i < int(sym.Arg("pays")); i++ {
		h := sym.Int(name("height", i), 0, 1<<41)
		sym.Assume(h >= t.height)
		t.height = h
		steps := sym.Big(name("steps", i), 0, 77)
		paid, fee, err := as.PaySteps(t, steps)
		kit.Must(err)
		if fee == nil {
			fee = zero
		}
		sym.Check(sym.And(le(zero, fee), le(fee, paid), le(paid, steps)), "the steps that are paid")
		expired := h >= 1000+term
		if !plain {
			sym.Check(sym.Implies(expired, eq(paid, zero)), "a deposit pays after its term")
		}
		fees = add(fees, mul(fee, price2))
		virtual = add(virtual, sub(paid, fee))
		if !plain {
			sym.Check(sym.Implies(sym.And(!expired, !eq(paid, steps)), le(sub(total, fees), sub(price2, num(1)))), "deposits that could have paid")
		} else if len(ids) == 1 {
			sym.Check(eq(paid, fee), "steps for free")
			sym.Check(sym.Implies(!eq(paid, steps), le(sub(total, fees), sub(price2, num(1)))), "a deposit that could have paid")
		} else {
			sym.Check(sym.Implies(expired, eq(paid, fee)), "steps for free after the term")
		}
		sym.Check(le(virtual, issued), "more steps for free than there are")
		as = reload(w, c)
	}
	// accepting
	t.limit = sym.Big("fee limit", 0, 77)
	accepts := as.CheckDeposit(t)
	if plain && len(ids) == 1 {
		sym.Check(same(accepts, le(t.limit, sub(total, fees))), "a transaction that can't be paid for")
	}
	t.sharing = false
	sym.Check(as.CheckDeposit(t), "deposits matter when fees aren't shared")
	p, _, err := as.PaySteps(t, num(1000))
	sym.Check(p == nil && err == nil, "deposits are used when fees aren't shared")
	t.sharing = true
	// taking back
	h := sym.Int("height at last", 0, 1<<41)
	sym.Assume(h >= t.height)
	t.height, t.price = h, price3
	_, _, err = as.WithdrawDeposit(t, []byte{99}, nil)
	sym.Check(err != nil, "a deposit that isn't there")
	left := sub(total, fees)
	back, penalties := new(big.Int), new(big.Int)
	for _, id := range ids {
		part := sym.Big("part", 0, 77)
		sym.Assume(part.Sign() > 0)
		v, f, err := as.WithdrawDeposit(t, id, part)
		if err == nil {
			sym.Check(len(id) == 0, "a part of a deposit with a term")
			sym.Check(sym.And(eq(v, part), eq(f, zero)), "what is given back in part")
			back = add(back, v)
			sym.Cover("part")
			as = reload(w, c)
		} else if len(ids) == 1 && len(id) == 0 {
			sym.Check(!le(part, left), "a part is refused")
		}
		v, f, err = as.WithdrawDeposit(t, id, nil)
		sym.Check(err == nil, "a deposit isn't given back")
		if err != nil {
			return
		}
		sym.Check(sym.And(le(zero, v), le(zero, f)), "what is given back")
		back, penalties = add(back, v), add(penalties, f)
		as = reload(w, c)
		_, _, err = as.WithdrawDeposit(t, id, nil)
		sym.Check(err != nil, "given back twice")
	}
	sym.Check(eq(add(back, penalties), left), "what has been deposited isn't what is used and given back")
	sym.Check(sym.Implies(h >= 1000+term, eq(penalties, zero)), "a penalty after the term")
	sym.Check(le(penalties, mul(virtual, price3)), "a penalty beyond the steps for free")
	sym.Check(sym.Implies(sym.And(h < 1000+term, le(mul(num(1), num(1)), back), len(ids) == 1), eq(penalties, mul(virtual, price3))), "the penalty")
	info, err := as.GetDepositInfo(t, module.JSONVersionLast)
	sym.Check(err == nil && info == nil, "deposits left")
	sym.Check(as.CheckDeposit(t), "a contract without deposits")
	sym.Cover("used up")
}

// Deposits is a transaction that adds to the deposits of a contract or takes them back.
func Deposits() {
	w := &world{World: kit.New(int(sym.Arg("rev")), 10, nil, nil)}
	w.price, w.def, w.max = num(3), 5, 1<<40
	w.setup()
	conf := state.SysConfigFee
	if sym.Arg("sharing") == 1 {
		conf |= state.SysConfigFeeSharing
	}
	w.SysVar(state.VarServiceConfig, conf)
	term := sym.Arg("term")
	w.SysVar(state.VarDepositTerm, term)
	c := kit.Score(11)
	ee.Deploy(w.World, c, alice, "code")
	from, to := alice, c
	var value *big.Int = new(big.Int)
	id, plain := []byte{7, 7}, []byte{}
	data, adds := "", false
	switch sym.Arg("action") {
	case 0:
		data, adds = `{"action":"add"}`, true
	case 1:
		data = `{"action":"withdraw"}`
	case 2:
		data = `{"action":"withdraw","id":"0x` + hex.EncodeToString(id) + `"}`
	case 3:
		data, adds = `{"action":"add"}`, true
		from = bob
	case 4:
		data = `{"action":"withdraw","id":"0x` + hex.EncodeToString(id) + `"}`
		from = bob
	case 5:
		data = `{"action":"withdraw","amount":"0x1000000"}`
	case 6:
		data = `{"action":"withdraw","amount":"-0x1"}`
	case 7:
		data, adds = `{"action":"add"}`, true
		to = bob
	case 8:
		data = `{"action":"take"}`
	}
	value = sym.Big("value", 0, 90)
	has := sym.Big("sender has", 0, 90)
	w.SetBalance(from, has)
	w.SetBalance(c, num(9))
	// there is one of each kind already
	t := &terms{price: num(12500), height: 3, term: 100, id: id}
	dep1 := coins(6000)
	as := w.WS.GetAccountState(c.ID())
	kit.Must(as.AddDeposit(t, dep1))
	used := sym.Big("used steps", 0, 70)
	t.sharing = true
	_, spent, err := as.PaySteps(t, used)
	kit.Must(err)
	if spent != nil {
		dep1 = sub(dep1, mul(spent, t.price))
	}
	dep2 := sym.Big("deposit", 0, 90)
	t.term = 0
	kit.Must(as.AddDeposit(t, dep2))
	w.ready()
	treasury := w.Ctx.Treasury()
	before := w.Image()
	limit := num(1 << 30)
	dt := contract.DataTypeDeposit
	r := w.execute(from, to, value, limit, &dt, []byte(data))
	ok := r.Status() == module.StatusSuccess
	fee := r.Fee()
	t.term, t.price, t.height = 100, num(3), w.Height
	bal := w.Balance(from)
	can := sym.And(from == alice, to == c, le(add(value, mul(limit, num(3))), has))
	small := le(coins(5000), value)
	sym.Check(same(eq(fee, zero), !le(mul(r.StepUsed(), num(3)), has)), "the fee")
	if !ok {
		sym.Check(eq(bal, sub(has, fee)), "what a refused one leaves")
		if adds {
			sym.Check(sym.Or(!can, term > 0 && !sym.And(small, le(value, coins(100000))), sym.Arg("sharing") == 0), "a deposit is refused")
		} else if sym.Arg("action") == 1 {
			sym.Check(sym.Or(!can, value.Sign() > 0), "a deposit is kept")
		} else if sym.Arg("action") == 5 {
			sym.Check(sym.Or(!can, value.Sign() > 0, !le(num(0x1000000), dep2)), "a deposit is kept")
		}
		w.SetBalance(from, has)
		sym.Check(w.Image().Same(before), "something has changed")
		sym.Cover("refused")
		return
	}
	sym.Check(can, "deposits are controlled by another one")
	sym.Check(eq(w.Balance(c), num(9)), "what the contract has")
	if adds {
		sym.Check(sym.Arg("sharing") == 1, "a deposit while fees aren't shared")
		sym.Check(eq(bal, sub(sub(has, value), fee)), "what the sender has")
		if term > 0 {
			sym.Check(sym.And(small, le(value, coins(100000))), "the size of a deposit")
			v, f, err := as.WithdrawDeposit(t, w.Ctx.TransactionID(), nil)
			sym.Check(err == nil && eq(f, zero) && eq(v, value), "what has been deposited")
		} else {
			dep2 = add(dep2, value)
		}
		sym.Cover("added")
	} else {
		sym.Check(value.Sign() == 0, "coins go with it")
		back, pen := dep2, zero
		switch sym.Arg("action") {
		case 2:
			f, free := steps6000(used)
			back, pen = sub(dep1, min(dep1, mul(free, num(3)))), min(dep1, mul(free, num(3)))
			_ = f
			dep1 = nil
		case 5:
			back = num(0x1000000)
			dep2 = sub(dep2, back)
		case 1:
			dep2 = nil
		default:
			sym.Fail("it has been accepted")
			return
		}
		sym.Check(eq(bal, sub(add(has, back), fee)), "what the owner has")
		sym.Check(eq(w.Balance(treasury), pen), "the penalty")
		sym.Cover("withdrawn")
	}
	v, _, err := as.WithdrawDeposit(t, plain, nil)
	sym.Check(same(err == nil, dep2 != nil), "the deposit without a term")
	if dep2 != nil && err == nil {
		sym.Check(eq(v, dep2), "what is left of the deposit without a term")
	}
	v, f, err := as.WithdrawDeposit(t, id, nil)
	sym.Check(same(err == nil, dep1 != nil), "the deposit with a term")
	if dep1 != nil && err == nil {
		sym.Check(eq(add(v, f), dep1), "what is left of the deposit with a term")
	}
}

// steps6000 tells what of the steps a deposit of 6000 coins pays for, and which of them it does for free.
func steps6000(used *big.Int) (*big.Int, *big.Int) {
	free := floor(floor(mul(coins(6000), num(8)), num(100)), num(12500))
	return sub(used, min(used, free)), min(used, free)
}
