// Package eco holds the harnesses of the platform's economy: the issue of coins, the rewards of
// planets, the funds and their transfers.
package eco

import (
	"encoding/json"
	"math/big"

	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/havah/hvh"
	"github.com/icon-project/goloop/havah/hvh/hvhstate"
	"github.com/icon-project/goloop/havah/hvhmodule"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/state"
	"github.com/icon-project/goloop/zz/kit"
	"github.com/icon-project/goloop/zz/sym"
)

var Units = map[string]func(){
	"Base": Base, "Platform": Platform, "Issue": Issue, "Garbled": Garbled,
	"Report": Report, "Claim": Claim, "Boundary": Boundary, "Solvency": Solvency, "Money": Money, "Query": Query,
}

const bits = 100

var (
	owner  = kit.Addr(1)
	other  = kit.Addr(2)
	owners = []module.Address{owner, other}
)

// planet is the record of a planet and of its reward.
type planet struct {
	id               int64
	private, company bool
	owner            module.Address
	usdt, price      *big.Int
	height           int64
	total, current   *big.Int
	last             int64
}

// eco is the state of the economy at a block of a term.
type eco struct {
	rev                       int
	period, seq, index, start int64
	height                    int64
	cycle, limit              int64
	amount, budget            *big.Int
	active, working, all      int64
	rewardTotal, remain       *big.Int
	ecoReward, lost           *big.Int
	usdtPrice, activeUSDT     *big.Int
	num, denom                int64
	planets                   []*planet

	pt, hf, sf, es, st, tr *big.Int
	supply                 *big.Int
	missing, refill        *big.Int

	w  *kit.World
	cc hvhmodule.CallContext
	ex *hvh.ExtensionStateImpl
}

func add(xs ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, x := range xs {
		r = new(big.Int).Add(r, x)
	}
	return r
}

func sub(x, y *big.Int) *big.Int           { return new(big.Int).Sub(x, y) }
func mul(x *big.Int, k int64) *big.Int     { return new(big.Int).Mul(x, big.NewInt(k)) }
func div(x *big.Int, k int64) *big.Int     { return new(big.Int).Div(x, big.NewInt(k)) }
func eq(x, y *big.Int) bool                { return x.Cmp(y) == 0 }
func le(x, y *big.Int) bool                { return x.Cmp(y) <= 0 }
func minOf(x, y *big.Int) *big.Int         { return sym.IfBig(x.Cmp(y) <= 0, x, y) }
func maxOf(x, y *big.Int) *big.Int         { return sym.IfBig(x.Cmp(y) >= 0, x, y) }
func when(c bool, x *big.Int) *big.Int     { return sym.IfBig(c, x, new(big.Int)) }
func same(err error, want bool) bool       { return sym.And(sym.Implies(err == nil, want), sym.Implies(want, err == nil)) }
func hex(x *big.Int) *common.HexInt        { return new(common.HexInt).SetValue(x) }
func hex64(x int64) *common.HexInt         { return hex(big.NewInt(x)) }

// fund is a balance or counter: any value from the least on (argument lo), or a constant when the
// case does not vary it.
func fund(vary int64, name string, k int64) *big.Int {
	if vary == 0 {
		return big.NewInt(k)
	}
	return sym.Big(name, sym.Arg("lo"), bits)
}

// mk is an arbitrary state of the economy at an arbitrary block of an arbitrary term.
// Concrete are only the length of a term, the number of planets and the counts of working planets.
func mk(atStart bool, planets int) *eco {
	e := &eco{rev: int(sym.Arg("rev")), period: sym.Arg("period"), cycle: sym.Arg("cycle")}
	e.seq = sym.Int("seq", 0, 1<<40)
	e.start = sym.Int("start", 1, 1<<40)
	if !atStart {
		e.index = sym.Int("index", 0, e.period-1)
	}
	e.height = e.start + e.seq*e.period + e.index
	e.limit = sym.Int("limit", 1, 1<<40)
	e.num, e.denom = sym.Arg("num"), sym.Arg("denom")
	rewards, funds := sym.Arg("rewards"), sym.Arg("funds")
	e.amount = sym.Big("amount", sym.Arg("lo"), bits)
	e.active = sym.Arg("active")
	e.working = int64(sym.Choice("working", int(e.active)+1))
	e.all = 17
	e.rewardTotal = fund(rewards&1, "rewardTotal", 1001)
	e.remain = new(big.Int).Set(e.rewardTotal)
	if e.active > 0 {
		e.remain = sub(e.rewardTotal, mul(div(e.rewardTotal, e.active), e.working))
	}
	e.ecoReward = fund(rewards&2, "ecoReward", 1002)
	e.lost = fund(rewards&4, "lost", 1003)
	e.usdtPrice = big.NewInt(1004)
	e.activeUSDT = new(big.Int).Mul(big.NewInt(sym.Arg("usdt")), big.NewInt(1000000000000000000))
	e.pt = sym.Big("pt", 0, bits+8)
	e.budget = fund(funds&1, "budget", 1006)
	e.hf, e.sf, e.es = fund(funds&2, "hf", 1007), fund(funds&4, "sf", 1008), fund(funds&8, "es", 1009)
	e.st, e.tr = fund(funds&16, "st", 1010), fund(funds&32, "tr", 1011)
	e.missing, e.refill = fund(funds&64, "missing", 1012), fund(funds&128, "refill", 1013)
	e.supply = sym.Big("supply", 1, bits+8)
	for i := 0; i < planets; i++ {
		p := &planet{id: int64(i + 1)}
		p.private, p.company = sym.Arg("private") != 0, sym.Arg("company") != 0
		p.owner = owners[i%2]
		p.usdt, p.price = sym.Big("usdt", 0, 60), sym.Big("price", 0, bits)
		if sym.Arg("poor") != 0 {
			p.usdt = new(big.Int)
		}
		p.height = sym.Int("registered", 0, 1<<50)
		p.total = sym.Big("total", 0, bits)
		p.current = sym.Big("current", 0, bits)
		p.last = sym.Int("last", 0, 1<<41)
		sym.Assume(sym.And(p.current.Cmp(p.total) <= 0, p.last <= e.seq+1, p.height <= e.height))
		e.planets = append(e.planets, p)
	}
	return e
}

// owed is what the public treasury must be able to pay.
func (e *eco) owed() *big.Int {
	r := add(e.ecoReward, e.lost, e.remain)
	for _, p := range e.planets {
		r = add(r, p.current)
	}
	return r
}

func (e *eco) build() *eco {
	w := kit.New(e.rev, e.height, nil, func(s *hvhstate.State) {
		kit.SetVar(s, hvhmodule.VarIssueStart, e.start)
		kit.SetVar(s, hvhmodule.VarTermPeriod, e.period)
		kit.SetVar(s, hvhmodule.VarIssueReductionCycle, e.cycle)
		kit.SetVar(s, hvhmodule.VarIssueLimit, e.limit)
		kit.SetVar(s, hvhmodule.VarIssueAmount, e.amount)
		kit.SetVar(s, hvhmodule.VarHooverBudget, e.budget)
		kit.SetVar(s, hvhmodule.VarActivePlanet, e.active)
		kit.SetVar(s, hvhmodule.VarWorkingPlanet, e.working)
		kit.SetVar(s, hvhmodule.VarAllPlanet, e.all)
		kit.SetVar(s, hvhmodule.VarRewardTotal, e.rewardTotal)
		kit.SetVar(s, hvhmodule.VarRewardRemain, e.remain)
		kit.SetVar(s, hvhmodule.VarEcoReward, e.ecoReward)
		kit.SetVar(s, hvhmodule.VarLost, e.lost)
		kit.SetVar(s, hvhmodule.VarUSDTPrice, e.usdtPrice)
		kit.SetVar(s, hvhmodule.VarActiveUSDTPrice, e.activeUSDT)
		if e.denom != 0 {
			kit.SetVar(s, hvhmodule.VarPrivateClaimableRate, e.num<<16|e.denom)
		}
		for _, p := range e.planets {
			kit.SetPlanet(s, p.id, p.private, p.company, p.owner, p.usdt, p.price, p.height)
			kit.SetReward(s, p.id, p.total, p.last, p.current)
		}
	})
	w.SetBalance(hvhmodule.PublicTreasury, e.pt)
	w.SetBalance(hvhmodule.HooverFund, e.hf)
	w.SetBalance(hvhmodule.SustainableFund, e.sf)
	w.SetBalance(hvhmodule.EcoSystem, e.es)
	w.SetBalance(hvhmodule.ServiceTreasury, e.st)
	w.SetSupply(e.supply)
	kit.Must(w.ScoreVar(hvhmodule.SustainableFund, hvhmodule.VarMissingReward).Set(e.missing))
	kit.Must(w.ScoreVar(hvhmodule.SustainableFund, hvhmodule.VarHooverRefill).Set(e.refill))
	e.w = w
	e.cc = w.From(owner)
	w.SetBalance(e.cc.Treasury(), e.tr)
	e.ex = w.Ext()
	return e
}

func data(x *big.Int) []byte {
	bs, err := json.Marshal(map[string]interface{}{"issueAmount": hex(x)})
	kit.Must(err)
	return bs
}

// scheduled is the amount of the term: reduced by 30% when a cycle of reduction is over.
func (e *eco) scheduled() *big.Int {
	cut := sym.And(e.seq > 0, e.seq%e.cycle == 0)
	return sym.IfBig(cut, sub(e.amount, div(mul(e.amount, 3), 10)), e.amount)
}

// Base: a base transaction creates exactly the scheduled amount, at the start of a term and
// within the limit of terms, and no coin otherwise; it is refused when it declares another amount.
func Base() {
	e := mk(sym.Arg("first") != 0, 0)
	sym.Assume(e.pt.Cmp(e.owed()) >= 0)
	e.build()
	want := e.scheduled()
	x := sym.Big("x", -1<<20, bits)
	err := e.ex.OnBaseTx(e.cc, data(x))
	issues := sym.And(e.index == 0, e.seq < e.limit)
	sym.Check(same(err, sym.Or(!issues, eq(x, want))), "accepted exactly with the scheduled amount")
	if err != nil {
		sym.Cover("refused")
		return
	}
	sym.Cover("accepted")
	created := when(issues, want)
	w := e.w
	sym.Check(eq(w.Supply(), add(e.supply, created)), "supply")
	total := add(w.Balance(hvhmodule.PublicTreasury), w.Balance(hvhmodule.HooverFund), w.Balance(hvhmodule.SustainableFund),
		w.Balance(hvhmodule.EcoSystem), w.Balance(hvhmodule.ServiceTreasury), w.Balance(e.cc.Treasury()))
	sym.Check(eq(total, add(e.pt, e.hf, e.sf, e.es, e.st, e.tr, created)), "balances")
	sym.Check(eq(w.Var(hvhmodule.VarIssueAmount), sym.IfBig(issues, want, e.amount)), "amount on record")
	sym.Observe("supply", w.Supply())
}

// Issue: before its start nothing is issued and no base transaction is accepted; the data of the
// proposed base transaction is what is accepted.
func Issue() {
	e := mk(true, 0)
	e.index = 0
	sym.Assume(e.pt.Cmp(e.owed()) >= 0)
	e.height = sym.Int("height", 0, 1<<50)
	off := e.height - e.start
	sym.Assume(sym.Or(off < 0, sym.And(off%e.period == 0, off/e.period == e.seq)))
	e.build()
	d := e.ex.NewBaseTransactionData(e.height)
	if off < 0 {
		sym.Check(d == nil, "nothing is proposed before the start")
		sym.Check(e.ex.OnBaseTx(e.cc, data(sym.Big("x", 0, bits))) != nil, "refused before the start")
		sym.Check(eq(e.w.Supply(), e.supply), "supply before the start")
		return
	}
	sym.Check(d != nil, "proposed at the start of a term")
	if d == nil {
		return
	}
	bs, err := json.Marshal(d)
	kit.Must(err)
	sym.Check(e.ex.OnBaseTx(e.cc, bs) == nil, "the proposed transaction is accepted")
}

// Platform: the block that carries the proposed base transaction is valid, and so is the block
// without one exactly when none is proposed.
func Platform() {
	e := mk(false, 0)
	e.build()
	tx, err := e.w.Plt.NewBaseTransaction(e.w.WC)
	kit.Must(err)
	with, without := kit.TxList(tx), kit.TxList(nil)
	first := e.index == 0
	if tx != nil {
		sym.Check(e.w.Plt.OnValidateTransactions(e.w.WC, without, with) == nil, "block with the proposal")
		sym.Check(e.w.Plt.OnValidateTransactions(e.w.WC, without, without) != nil, "block without the proposal")
		sym.Check(first, "proposed only at the start of a term")
	} else {
		sym.Check(e.w.Plt.OnValidateTransactions(e.w.WC, without, without) == nil, "block of a term")
	}
}

// Garbled: base transactions with no data, or other data, are refused.
func Garbled() {
	e := mk(sym.Arg("first") != 0, 0)
	e.build()
	for _, d := range []string{"", "null", "{}", "[]", "0x1", "{\"issueAmount\":null}", "{\"issueAmount\":\"0x1\",\"x\":\"0x1\"}", "{\"issueAmount\":[]}"} {
		var bs []byte
		if d != "" {
			bs = []byte(d)
		}
		err := e.ex.OnBaseTx(e.cc, bs)
		sym.Check(sym.Implies(sym.And(e.index == 0, e.seq < e.limit), err != nil), "refused")
		sym.Check(eq(e.w.Supply(), e.supply), "supply")
	}
}

func (e *eco) termStart() int64 { return e.start + e.seq*e.period }

// after is what the state tells now.
type after struct {
	w                                      *kit.World
	pt, hf, sf, es, st, tr                 *big.Int
	remain, total, eco, lost, working, all *big.Int
	planets                                []*planet
}

func (e *eco) after() *after {
	w, s := e.w, e.w.State()
	a := &after{
		w:  w,
		pt: w.Balance(hvhmodule.PublicTreasury), hf: w.Balance(hvhmodule.HooverFund),
		sf: w.Balance(hvhmodule.SustainableFund), es: w.Balance(hvhmodule.EcoSystem),
		st: w.Balance(hvhmodule.ServiceTreasury), tr: w.Balance(e.cc.Treasury()),
		remain: kit.GetVar(s, hvhmodule.VarRewardRemain), total: kit.GetVar(s, hvhmodule.VarRewardTotal),
		eco: kit.GetVar(s, hvhmodule.VarEcoReward), lost: kit.GetVar(s, hvhmodule.VarLost),
		working: kit.GetVar(s, hvhmodule.VarWorkingPlanet), all: kit.GetVar(s, hvhmodule.VarAllPlanet),
	}
	for _, p := range e.planets {
		n := &planet{id: p.id}
		n.total, n.last, n.current = kit.Reward(s, p.id)
		a.planets = append(a.planets, n)
	}
	return a
}

func (a *after) owed() *big.Int {
	r := add(a.eco, a.lost, a.remain)
	for _, p := range a.planets {
		r = add(r, p.current)
	}
	return r
}

// may tells whether the planet may report its work now.
func (e *eco) may(p *planet) bool {
	return sym.And(p.height < e.termStart(), p.last <= e.seq)
}

// share is the reward of a planet which works in the term.
func (e *eco) share() *big.Int {
	if e.active == 0 {
		return new(big.Int)
	}
	return div(e.rewardTotal, e.active)
}

// Report: a planet reports its work once a term and not in the term of its registration, and is
// offered its share of the term and what the hoover fund adds to it.
func Report() {
	e := mk(false, 1)
	p := e.planets[0]
	sym.Assume(sym.Implies(e.may(p), e.working < e.active))
	sym.Assume(e.pt.Cmp(e.owed()) >= 0)
	e.build()
	err := e.ex.ReportPlanetWork(e.cc, p.id)
	sym.Check(same(err, e.may(p)), "accepted once in a later term")
	if err != nil {
		sym.Cover("refused")
		return
	}
	sym.Cover("offered")
	share := e.share()
	room := sub(sub(p.price, p.total), share)
	guide := div(div(div(new(big.Int).Mul(p.usdt, e.activeUSDT), 1000000), 10), 360)
	gap := sub(guide, share)
	some := sym.And(room.Sign() > 0, gap.Sign() > 0, e.hf.Sign() > 0)
	hoover := when(some, minOf(gap, minOf(room, e.hf)))
	reward := add(share, hoover)
	toEco := new(big.Int)
	if p.company {
		toEco = div(mul(reward, 3), 5)
	}
	a := e.after()
	sym.Check(eq(a.pt, add(e.pt, hoover)), "public treasury")
	sym.Check(eq(a.hf, sub(e.hf, hoover)), "hoover fund")
	n := a.planets[0]
	sym.Check(eq(n.current, add(p.current, sub(reward, toEco))), "reward of the planet")
	sym.Check(eq(n.total, add(p.total, reward)), "total of the planet")
	sym.Check(n.last == e.seq+1, "term on record")
	sym.Check(eq(a.eco, add(e.ecoReward, toEco)), "share of the ecosystem")
	sym.Check(eq(a.remain, sub(e.remain, share)), "rest of the term")
	sym.Check(eq(a.total, e.rewardTotal), "total of the term")
	sym.Check(eq(a.working, big.NewInt(e.working+1)), "count of working planets")
	evs := e.w.Find("RewardOffered(int,int,int,int)")
	sym.Check(len(evs) == 1, "one event")
	if len(evs) == 1 {
		d := evs[0]
		sym.Check(sym.And(eq(kit.Num(d[0]), big.NewInt(e.seq)), eq(kit.Num(d[1]), big.NewInt(p.id)),
			eq(kit.Num(d[2]), reward), eq(kit.Num(d[3]), hoover)), "event")
	}
	sym.Check(e.ex.ReportPlanetWork(e.cc, p.id) != nil, "once a term")
	sym.Check(e.ex.ReportPlanetWork(e.cc, 77) != nil, "unknown planet")
	sym.Observe("current", n.current)
}

// Claim: the owner is paid what is not locked, from the public treasury, and nobody else is.
func Claim() {
	e := mk(false, 2)
	caller := owners[sym.Arg("caller")]
	ids := []int64{1, 2}
	switch sym.Arg("ids") {
	case 1:
		ids = []int64{1, 1, 9}
	case 2:
		ids = []int64{2}
	}
	sym.Assume(e.pt.Cmp(e.owed()) >= 0)
	e.build()
	before := sym.Big("before", 0, bits)
	e.w.SetBalance(caller, before)
	cc := e.w.From(caller)
	err := e.ex.ClaimPlanetReward(cc, ids)
	sym.Check(err == nil, "accepted")
	num, denom := e.num, e.denom
	if denom == 0 {
		num, denom = 0, 24
	}
	paid := new(big.Int)
	a := e.after()
	n := 0
	for i, p := range e.planets {
		pay := p.current
		if p.private {
			locked := div(mul(p.total, denom-num), denom)
			pay = maxOf(sub(p.current, locked), new(big.Int))
		}
		asked := false
		for _, id := range ids {
			asked = asked || id == p.id
		}
		if !asked || i != int(sym.Arg("caller")) {
			pay = new(big.Int)
		}
		paid = add(paid, pay)
		if pay.Sign() > 0 {
			n++
		}
		sym.Check(eq(a.planets[i].current, sub(p.current, pay)), "rest of the reward")
		sym.Check(eq(a.planets[i].total, p.total), "total of the planet")
		sym.Check(a.planets[i].last == p.last, "term of the planet")
	}
	sym.Check(eq(a.pt, sub(e.pt, paid)), "paid by the public treasury")
	sym.Check(eq(e.w.Balance(caller), add(before, paid)), "paid to the owner")
	sym.Check(len(e.w.Find("RewardClaimed(Address,int,int,int)")) == n, "events")
	many := make([]int64, 51)
	sym.Check(e.ex.ClaimPlanetReward(cc, many) != nil, "not more than 50")
	sym.Observe("paid", paid)
}

// Boundary: what the end of a term and the start of the next move.
func Boundary() {
	e := mk(true, 0)
	sym.Assume(sym.And(e.seq > 0, e.seq <= e.limit))
	sym.Assume(e.pt.Cmp(e.owed()) >= 0)
	e.build()
	want := e.scheduled()
	issued := when(e.seq < e.limit, want)
	err := e.ex.OnBaseTx(e.cc, data(want))
	sym.Check(err == nil, "accepted")
	if err != nil {
		return
	}
	missed := e.rewardTotal
	if e.active > 0 {
		missed = mul(e.share(), e.active-e.working)
	}
	trEco, stEco := div(e.tr, 5), div(e.st, 5)
	toSF := add(sub(e.tr, trEco), sub(e.st, stEco), missed)
	sf := add(e.sf, toSF)
	refill := minOf(maxOf(sub(e.budget, e.hf), new(big.Int)), sf)
	a := e.after()
	w := e.w
	sym.Check(a.tr.Sign() == 0, "fees of transactions are distributed")
	sym.Check(a.st.Sign() == 0, "fees of services are distributed")
	sym.Check(eq(a.es, add(e.es, trEco, stEco, e.ecoReward)), "ecosystem")
	sym.Check(eq(a.sf, sub(sf, refill)), "sustainable fund")
	sym.Check(eq(a.hf, add(e.hf, refill)), "hoover fund")
	sym.Check(eq(a.pt, add(sub(e.pt, add(e.ecoReward, missed)), issued)), "public treasury")
	sym.Check(a.eco.Sign() == 0, "reward of the ecosystem is paid")
	sym.Check(eq(a.remain, add(sub(e.remain, missed), issued)), "rewards of the new term")
	sym.Check(sym.Implies(e.seq < e.limit, eq(a.total, a.remain)), "total of the new term")
	sym.Check(a.working.Sign() == 0, "no planet has worked")
	sym.Check(eq(w.Var(hvhmodule.VarActivePlanet), sym.IfBig(e.seq < e.limit, big.NewInt(e.all), new(big.Int))), "active planets")
	sym.Check(eq(w.Var(hvhmodule.VarActiveUSDTPrice), when(e.seq < e.limit, e.usdtPrice)), "price of the term")
	sym.Check(eq(a.lost, e.lost), "lost coins")
	val := func(key string) *big.Int {
		v := w.ScoreVar(hvhmodule.SustainableFund, key).BigInt()
		if v == nil {
			return new(big.Int)
		}
		return v
	}
	sym.Check(eq(val(hvhmodule.VarMissingReward), add(e.missing, missed)), "record of missed rewards")
	sym.Check(eq(val(hvhmodule.VarHooverRefill), add(e.refill, refill)), "record of refills")
	sym.Check(eq(val(hvhmodule.VarTxFee), sub(e.tr, trEco)), "record of fees of transactions")
	sym.Check(eq(val(hvhmodule.VarServiceFee), sub(e.st, stEco)), "record of fees of services")
	sym.Observe("sf", a.sf)
}

// Solvency: whatever happens, the public treasury can pay what it owes, and the rest of the term
// covers the shares of the planets that have not reported.
func Solvency() {
	op := sym.Arg("op")
	e := mk(op == 0, int(sym.Arg("planets")))
	for _, p := range e.planets {
		sym.Assume(sym.Implies(e.may(p), e.working < e.active))
	}
	sym.Assume(e.pt.Cmp(e.owed()) >= 0)
	e.build()
	var err error
	active := e.active
	switch op {
	case 0:
		// there is a running term to end after the first start and up to the limit
		sym.Assume(sym.Or(e.active == 0, sym.And(e.seq > 0, e.seq <= e.limit)))
		err = e.ex.OnBaseTx(e.cc, data(e.scheduled()))
		sym.Check(err == nil, "the base transaction succeeds")
		active = -1
	case 1:
		err = e.ex.ReportPlanetWork(e.cc, 1)
	case 2:
		err = e.ex.ClaimPlanetReward(e.cc, []int64{1, 2, 1})
		sym.Check(err == nil, "the claim succeeds")
	case 3:
		err = e.ex.UnregisterPlanet(e.cc, 1)
		sym.Check(err == nil, "unregistered")
	case 4:
		err = e.ex.WithdrawLostTo(e.cc, other)
		sym.Check(err == nil, "withdrawn")
	case 5:
		err = e.ex.RegisterPlanet(e.cc, 9, false, false, owner, big.NewInt(1), big.NewInt(1))
	case 6:
		err = e.ex.SetPlanetOwner(e.cc, 1, other)
	}
	if err != nil {
		sym.Cover("refused")
		return
	}
	sym.Cover("done")
	a := e.after()
	w := e.w
	sym.Check(a.pt.Cmp(a.owed()) >= 0, "the public treasury can pay what it owes")
	if active < 0 {
		n := w.Var(hvhmodule.VarActivePlanet)
		sym.Check(a.working.Sign() == 0, "no planet has worked in the new term")
		sym.Check(sym.Or(eq(a.remain, a.total), n.Sign() == 0), "the new term has its total")
	} else {
		left := a.total
		if active > 0 {
			left = sub(a.total, new(big.Int).Mul(div(a.total, active), a.working))
		}
		sym.Check(eq(a.remain, left), "the rest covers the shares not yet offered")
	}
	for _, p := range a.planets {
		sym.Check(sym.And(p.current.Sign() >= 0, p.current.Cmp(p.total) <= 0), "reward within the total")
	}
	sym.Check(sym.And(a.eco.Sign() >= 0, a.lost.Sign() >= 0, a.remain.Sign() >= 0), "not negative")
	sym.Observe("owed", a.owed())
}

// Money: transfers keep the sum of the balances, and issues and burns change the supply alike; no
// balance gets negative.
func Money() {
	w := kit.New(int(sym.Arg("rev")), 10, nil, nil)
	x, y := owner, other
	if sym.Arg("same") != 0 {
		y = owner
	}
	bx, by := sym.Big("bx", 0, bits), sym.Big("by", 0, bits)
	sys := sym.Big("sys", 0, bits)
	supply := sym.Big("supply", 0, bits)
	w.SetBalance(y, by)
	w.SetBalance(x, bx)
	w.SetBalance(state.SystemAddress, sys)
	w.SetSupply(supply)
	v := sym.Big("v", -1<<62, bits)
	cc := w.From(x)
	one := sym.Arg("same") != 0
	switch sym.Arg("op") {
	case 0:
		err := cc.Transfer(x, y, v, module.Transfer)
		sym.Check(same(err, sym.And(v.Sign() >= 0, sym.Or(one, le(v, bx)))), "transfer accepted")
		if err != nil {
			return
		}
		if one {
			sym.Check(eq(w.Balance(x), bx), "transfer to oneself")
		} else {
			sym.Check(sym.And(eq(w.Balance(x), sub(bx, v)), eq(w.Balance(y), add(by, v))), "transfer")
		}
		sym.Check(eq(w.Supply(), supply), "supply")
	case 1:
		r, err := cc.Issue(y, v)
		sym.Check(same(err, v.Sign() >= 0), "issue accepted")
		if err != nil {
			return
		}
		sym.Check(sym.And(eq(r, add(supply, v)), eq(w.Supply(), add(supply, v))), "supply")
		sym.Check(eq(cc.GetBalance(y), add(sym.IfBig(one, bx, by), v)), "issue")
	case 2:
		r, err := cc.Burn(v)
		sym.Check(same(err, sym.And(v.Sign() >= 0, le(v, supply), le(v, sys))), "burn accepted")
		if err != nil {
			return
		}
		sym.Check(sym.And(eq(r, sub(supply, v)), eq(w.Supply(), sub(supply, v))), "supply")
		sym.Check(eq(cc.GetBalance(state.SystemAddress), sub(sys, v)), "burn")
	}
	sym.Observe("x", w.Balance(x))
}

// Query: what a query does is seen by itself alone.
func Query() {
	e := mk(sym.Arg("first") != 0, 1)
	p := e.planets[0]
	sym.Assume(sym.Implies(e.may(p), e.working < e.active))
	sym.Assume(e.pt.Cmp(e.owed()) >= 0)
	e.build()
	w := e.w
	ob := sym.Big("ob", 0, bits)
	w.SetBalance(owner, ob)
	w.Query, w.CC = true, nil
	w.Begin()
	cc := hvh.NewCallContext(w.CC, owner)
	v := sym.Big("v", 0, bits)
	_, err := cc.Issue(owner, v)
	kit.Must(err)
	b := add(ob, v)
	sym.Check(eq(cc.GetBalance(owner), b), "the query sees its balance")
	sym.Check(eq(cc.GetTotalSupply(), add(e.supply, v)), "the query sees its supply")
	x := sym.Big("x", 0, bits)
	sym.Assume(le(x, b))
	kit.Must(cc.Transfer(owner, other, x, module.Transfer))
	sym.Check(eq(cc.GetBalance(other), x), "the query sees its transfer")
	sym.Check(eq(cc.GetBalance(owner), sub(b, x)), "the query sees its transfer")
	y := sym.Big("y", 0, bits)
	sym.Check(same(cc.Transfer(owner, other, y, module.Transfer), le(y, sub(b, x))), "nothing is spent twice")
	sym.Check(eq(w.Supply(), e.supply), "supply of the world")
	sym.Check(sym.And(eq(w.Balance(owner), ob), w.Balance(other).Sign() == 0), "balances of the world")
}
