// Package blk holds the harnesses of the execution of whole blocks.
package blk

import (
	"math/big"
	"time"

	"github.com/icon-project/goloop/chain/base"
	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/common/errors"
	"github.com/icon-project/goloop/common/log"
	"github.com/icon-project/goloop/havah"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service"
	"github.com/icon-project/goloop/service/contract"
	"github.com/icon-project/goloop/service/scoredb"
	"github.com/icon-project/goloop/service/state"
	"github.com/icon-project/goloop/service/transaction"
	"github.com/icon-project/goloop/service/txresult"
	"github.com/icon-project/goloop/zz/kit"
	"github.com/icon-project/goloop/zz/sym"
)

var Units = map[string]func(){"Block": Block}

var (
	zero     = new(big.Int)
	treasury = common.MustNewAddressFromString("hx1000000000000000000000000000000000000000")
)

func num(x int64) *big.Int       { return big.NewInt(x) }
func add(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }
func sub(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }
func mul(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
func eq(x, y *big.Int) bool      { return x.Cmp(y) == 0 }
func le(x, y *big.Int) bool      { return x.Cmp(y) <= 0 }
func same(a, b bool) bool        { return sym.And(sym.Implies(a, b), sym.Implies(b, a)) }

// chain is a chain of which a node knows this.
type chain struct {
	module.Chain
	level int
	reg   regulator
}

func (c *chain) CID() int                            { return 1 }
func (c *chain) NID() int                            { return 1 }
func (c *chain) TransactionTimeout() time.Duration   { return time.Second * 5 }
func (c *chain) ConcurrencyLevel() int               { return c.level }
func (c *chain) Regulator() module.Regulator         { return &c.reg }

type regulator struct{ module.Regulator }

func (*regulator) OnTxExecution(count int, ed, fd time.Duration)          {}
func (*regulator) SetBlockInterval(interval, timeout time.Duration) {}

// tx is a transaction of which only what the execution looks at is there.
type tx struct {
	transaction.Transaction
	id           string
	from, to     module.Address
	value, limit *big.Int
	version, nid int
	ts           int64
	bad, known   error
	skippable    bool
	do           func(ctx contract.Context)
	trouble      int // how often it has to be executed again
	after        int // 1: the trouble is found after it was executed
	runs         int
}

func (t *tx) Group() module.TransactionGroup { return module.TransactionGroupNormal }
func (t *tx) ID() []byte                     { return []byte(t.id) }
func (t *tx) Timestamp() int64               { return t.ts }
func (t *tx) Bytes() []byte                  { return []byte(t.id) }
func (t *tx) Hash() []byte                   { return []byte(t.id) }
func (t *tx) From() module.Address           { return t.from }
func (t *tx) To() module.Address             { return t.to }
func (t *tx) Nonce() *big.Int                { return nil }
func (t *tx) Version() int                   { return t.version }
func (t *tx) ValidateNetwork(nid int) bool   { return t.nid == nid }
func (t *tx) Verify() error                  { return t.bad }
func (t *tx) IsSkippable() bool              { return t.skippable }
func (t *tx) PreValidate(wc state.WorldContext, update bool) error {
	return t.known
}

func (t *tx) GetHandler(cm contract.ContractManager) (transaction.Handler, error) {
	if t.do != nil {
		return &writer{t.do}, nil
	}
	h, err := transaction.NewHandler(cm, module.TransactionGroupNormal, t.from, t.to, t.value, t.limit, nil, nil)
	return &handler{h, t}, err
}

// handler is the real one; it may have trouble first.
type handler struct {
	transaction.Handler
	t *tx
}

func (h *handler) Execute(ctx contract.Context, wcs state.WorldSnapshot, estimate bool) (txresult.Receipt, error) {
	h.t.runs++
	r, err := h.Handler.Execute(ctx, wcs, estimate)
	if h.t.runs <= h.t.trouble {
		return nil, errors.ExecutionFailError.New("trouble")
	}
	return r, err
}

// writer is the handler of a transaction that sets up the state.
type writer struct {
	do func(ctx contract.Context)
}

func (w *writer) Prepare(ctx contract.Context) (state.WorldContext, error) {
	return ctx.GetFuture([]state.LockRequest{{Lock: state.AccountWriteLock, ID: state.WorldIDStr}}), nil
}

func (w *writer) Execute(ctx contract.Context, wcs state.WorldSnapshot, estimate bool) (txresult.Receipt, error) {
	w.do(ctx)
	r := txresult.NewReceipt(ctx.Database(), ctx.Revision(), kit.Addr(1))
	r.SetResult(module.StatusSuccess, new(big.Int), new(big.Int), nil)
	return r, nil
}

func (w *writer) Dispose() {}

// list is a list of transactions.
type list struct {
	txs []*tx
}

func (l *list) Get(i int) (module.Transaction, error) {
	if i < 0 || i >= len(l.txs) {
		return nil, errors.ErrNotFound
	}
	return l.txs[i], nil
}
func (l *list) Hash() []byte {
	bs := []byte{}
	for _, t := range l.txs {
		bs = append(bs, t.id...)
	}
	return bs
}
func (l *list) Equal(o module.TransactionList) bool { return false }
func (l *list) Flush() error                        { return nil }
func (l *list) Iterator() module.TransactionIterator { return &iterator{l.txs, 0} }

type iterator struct {
	txs []*tx
	at  int
}

func (i *iterator) Has() bool { return i.at < len(i.txs) }
func (i *iterator) Next() error {
	i.at++
	return nil
}
func (i *iterator) Get() (module.Transaction, int, error) { return i.txs[i.at], i.at, nil }

// result is what a transition told.
type result struct {
	validated, executed []error
}

func (r *result) OnValidate(t module.Transition, err error) { r.validated = append(r.validated, err) }
func (r *result) OnExecute(t module.Transition, err error)  { r.executed = append(r.executed, err) }

// node executes blocks.
type node struct {
	db   db.Database
	plt  base.Platform
	ch   *chain
	last module.Transition
}

type consensus struct{ module.ConsensusInfo }

func (consensus) Proposer() module.Address     { return nil }
func (consensus) Voters() module.ValidatorList { return nil }
func (consensus) Voted() []bool                { return nil }

func newNode(level int, setup func(ctx contract.Context)) *node {
	n := &node{db: db.NewMapDB(), ch: &chain{level: level}}
	var err error
	n.plt, err = havah.NewPlatform("", 1)
	kit.Must(err)
	w := &kit.World{DB: n.db, Plt: n.plt}
	n.last, err = service.NewInitTransition(n.db, nil, nil, w.Manager(), nil, n.ch, log.GlobalLogger(), n.plt, service.NewTimestampChecker())
	kit.Must(err)
	var r *result
	n.last, r = n.execute(n.last, 1, []*tx{{id: "setup", ts: 1, from: kit.Addr(1), to: kit.Addr(1), do: setup}}, true)
	sym.Check(len(r.executed) == 1 && r.executed[0] == nil, "the world cannot be set up")
	return n
}

// execute executes a block on top of a transition.
func (n *node) execute(parent module.Transition, height int64, txs []*tx, validated bool) (module.Transition, *result) {
	r := &result{}
	t := n.transition(parent, height, txs, validated)
	_, err := t.Execute(r)
	kit.Must(err)
	time.Sleep(time.Millisecond * 20)
	return t, r
}

func (n *node) transition(parent module.Transition, height int64, txs []*tx, validated bool) module.Transition {
	return service.NewTransition(parent, nil, &list{txs}, common.NewBlockInfo(height, 1000*height), consensus{}, validated)
}

// world is the world after a transition.
func (n *node) world(t module.Transition) state.WorldSnapshot {
	kit.Must(service.FinalizeTransition(t, module.FinalizeResult|module.KeepingParent, false))
	wss, err := service.NewWorldSnapshot(n.db, n.plt, t.Result(), t.NextValidators())
	kit.Must(err)
	return wss
}

func balance(wss state.WorldSnapshot, a module.Address) *big.Int {
	if s := wss.GetAccountSnapshot(a.ID()); s != nil {
		return s.GetBalance()
	}
	return new(big.Int)
}

// configure writes the prices of steps.
func configure(ctx contract.Context, rev int, price *big.Int, def, max int64) {
	as := ctx.GetAccountState(state.SystemID)
	kit.Must(scoredb.NewVarDB(as, state.VarRevision).Set(rev))
	kit.Must(scoredb.NewVarDB(as, state.VarServiceConfig).Set(state.SysConfigFee))
	kit.Must(scoredb.NewVarDB(as, state.VarStepPrice).Set(price))
	kit.Must(scoredb.NewArrayDB(as, state.VarStepTypes).Put(state.StepTypeDefault))
	kit.Must(scoredb.NewDictDB(as, state.VarStepCosts, 1).Set(state.StepTypeDefault, def))
	kit.Must(scoredb.NewArrayDB(as, state.VarStepLimitTypes).Put(state.StepLimitTypeInvoke))
	kit.Must(scoredb.NewDictDB(as, state.VarStepLimit, 1).Set(state.StepLimitTypeInvoke, max))
	kit.Must(scoredb.NewVarDB(as, state.VarTreasury).Set(treasury))
}

// Block executes a block of transfers.
func Block() {
	rev := int(sym.Arg("rev"))
	price, def, max := sym.Big("price", 0, 40), sym.Int("cost", 0, 1<<20), sym.Int("limit of an invocation", 0, 1<<30)
	who := []module.Address{kit.Addr(1), kit.Addr(2), treasury}
	bal := []*big.Int{}
	for range who {
		bal = append(bal, sym.Big("balance", 0, 80))
	}
	n := newNode(int(sym.Arg("level")), func(ctx contract.Context) {
		configure(ctx, rev, price, def, max)
		for i, a := range who {
			ctx.GetAccountState(a.ID()).SetBalance(bal[i])
		}
	})
	txs := []*tx{}
	from, to := []int{}, []int{}
	for i := 0; i < int(sym.Arg("txs")); i++ {
		k := sym.Choice("transfer", 4)
		f, t := []int{0, 1, 0, 1}[k], []int{1, 0, 0, 2}[k]
		from, to = append(from, f), append(to, t)
		x := &tx{id: string(rune('A' + i)), ts: 2000, version: 3, nid: 1, from: who[f], to: who[t],
			value: sym.Big("value", 0, 80), limit: sym.Big("step limit", 0, 40)}
		if sym.Arg("trouble") == 1 {
			x.trouble = sym.Choice("trouble", 4)
		}
		txs = append(txs, x)
	}
	tr, r := n.execute(n.last, 2, txs, sym.Arg("validated") == 1)
	sym.Check(len(r.validated) == 1 && r.validated[0] == nil, "a valid block is not valid")
	sym.Check(len(r.executed) == 1, "how often the end of the execution is told")
	for _, t := range txs {
		if t.trouble > service.RetryCount {
			sym.Check(r.executed[0] != nil, "a block with a transaction that was not executed")
			sym.Check(tr.Result() == nil, "a result without execution")
			sym.Cover("failed")
			return
		}
	}
	sym.Check(r.executed[0] == nil, "a valid block is not executed")
	wss := n.world(tr)
	sum, fees := zero, zero
	rl := tr.NormalReceipts()
	for i, t := range txs {
		o, err := rl.Get(i)
		kit.Must(err)
		rct := o.(txresult.Receipt)
		f, t1 := from[i], to[i]
		lim := sym.IfBig(le(t.limit, num(max)), t.limit, num(max))
		all := add(mul(price, t.limit), t.value)
		enough := le(all, bal[f])
		success := sym.And(enough, le(num(def), lim), le(mul(price, num(def)), sub(bal[f], sym.IfBig(f == t1, zero, t.value))))
		ok := rct.Status() == module.StatusSuccess
		sym.Check(same(ok, success), "which transactions succeed")
		sym.Check(rct.To().Equal(t.to), "the order of receipts")
		used := rct.StepUsed()
		fee := mul(used, rct.StepPrice())
		sym.Check(le(num(def), used), "steps below the minimum")
		sym.Check(eq(rct.Fee(), fee), "the fee of a receipt")
		sum, fees = add(sum, used), add(fees, fee)
		sym.Check(eq(rct.CumulativeStepUsed(), sum), "the cumulative steps")
		moved := sym.IfBig(ok, t.value, zero)
		bal[f] = sub(sub(bal[f], fee), moved)
		bal[t1] = add(bal[t1], moved)
		if ok {
			sym.Cover("success")
		} else {
			sym.Cover("failure")
		}
	}
	_, err := rl.Get(len(txs))
	sym.Check(err != nil, "more receipts than transactions")
	bal[2] = add(bal[2], fees)
	for i, a := range who {
		sym.Check(eq(balance(wss, a), bal[i]), "what the accounts have after the block")
	}
}
