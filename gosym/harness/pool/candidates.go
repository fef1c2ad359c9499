package pool

import (
	"time"

	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/common/errors"
	"github.com/icon-project/goloop/common/log"
	"github.com/icon-project/goloop/common/txlocator"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service"
	"github.com/icon-project/goloop/service/state"
	"github.com/icon-project/goloop/service/transaction"
	"github.com/icon-project/goloop/zz/kit"
	"github.com/icon-project/goloop/zz/sym"
)

// offered is a transaction in the pool.
type offered struct {
	tx
	from   module.Address
	size   int
	err    error
	direct bool
	asked  int
}

func (t *offered) From() module.Address { return t.from }
func (t *offered) Bytes() []byte        { return make([]byte, t.size) }
func (t *offered) PreValidate(wc state.WorldContext, update bool) error {
	t.asked++
	return t.err
}

type watcher struct{ drops []service.TxDrop }

func (w *watcher) OnTxDrops(ds []service.TxDrop)                      { w.drops = append(w.drops, ds...) }
func (w *watcher) OnDropTx(n int, user bool)                          {}
func (w *watcher) OnAddTx(n int, user bool)                           {}
func (w *watcher) OnRemoveTx(n int, user bool)                        {}
func (w *watcher) OnCommit(id []byte, ts time.Time, d time.Duration) {}

func (w *watcher) dropped(id string) error {
	for _, d := range w.drops {
		if string(d.ID) == id {
			return d.Err
		}
	}
	return nil
}

type market struct {
	w    *kit.World
	lm   module.LocatorManager
	tim  service.TXIDManager
	pool *service.TransactionPool
	seen *watcher
	bts  int64
	th   int64
	txs  []*offered // as the pool should have them
	memo service.TXIDCache
}

func newMarket(size int) *market {
	m := &market{seen: &watcher{}, bts: 1 << 50, th: 60000 * 1000}
	m.w = kit.New(6, 1<<30, nil, nil)
	m.w.SysVar(state.VarTimestampThreshold, m.th/1000)
	m.w.Begin()
	m.bts = m.w.WC.BlockTimeStamp()
	var err error
	m.lm, err = txlocator.NewManager(db.NewMapDB(), log.GlobalLogger())
	kit.Must(err)
	m.memo = service.NewTxIDCache(time.Second, 10, log.GlobalLogger())
	m.tim, err = service.NewTXIDManager(m.lm, service.NewTimestampChecker(), m.memo)
	kit.Must(err)
	m.pool = service.NewTransactionPool(module.TransactionGroupNormal, size, m.tim, m.seen, log.GlobalLogger())
	m.pool.SetTxManager(m.seen)
	return m
}

func (m *market) tx(id string, from module.Address, ts int64) *offered {
	return &offered{tx: tx{id: id, ts: ts, group: module.TransactionGroupNormal}, from: from, size: 10}
}

// put has t at its place: behind the others, but before those of the same sender that are later.
func (m *market) put(t *offered) {
	at := len(m.txs)
	for i := len(m.txs) - 1; i >= 0; i-- {
		if o := m.txs[i]; o.from.Equal(t.from) {
			if o.ts > t.ts {
				at = i
			} else {
				break
			}
		}
	}
	m.txs = append(m.txs[:at:at], append([]*offered{t}, m.txs[at:]...)...)
}

func (m *market) remove(t *offered) {
	for i, o := range m.txs {
		if o == t {
			m.txs = append(m.txs[:i:i], m.txs[i+1:]...)
			return
		}
	}
}

func (m *market) check(got []module.Transaction, want []*offered, what string) {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = string(got[i].ID()) == want[i].id
	}
	sym.Check(ok, what)
}

// settle waits until the pool has n transactions.
func (m *market) settle(n int) {
	for i := 0; i < 100 && m.pool.Used() != n; i++ {
		time.Sleep(time.Millisecond)
	}
	sym.Check(m.pool.Used() == n, "how many transactions stay in the pool")
}

var noBalance = transaction.NotEnoughBalanceError.New("no balance")

// Candidates has transactions in the pool of which some cannot get into the block.
func Candidates() {
	m := newMarket(10)
	lg := m.tim.NewLogger(module.TransactionGroupNormal, 9, m.bts-1)
	done := []*tx{}
	for i := 0; i < int(sym.Arg("txs")); i++ {
		t := m.tx(string(rune('A'+i)), kit.Addr(1+i%2), sym.Int("time stamp", m.bts-2*m.th, m.bts+2*m.th))
		t.direct = sym.Choice("direct", 2) == 1
		switch sym.Choice("state", 4) {
		case 1:
			t.err = noBalance
		case 2:
			t.err = errors.IllegalArgumentError.New("not valid")
		case 3:
			done = append(done, &t.tx)
		}
		sym.Check(m.pool.Add(t, t.direct) == nil, "not added")
		m.put(t)
	}
	_, err := lg.Add(&list{txs: done}, true)
	kit.Must(err)
	kit.Must(lg.Commit())
	for round := 0; round < 2; round++ {
		want, stay := []*offered{}, []*offered{}
		drop := map[*offered]bool{}
		for _, t := range m.txs {
			isDone := false
			for _, d := range done {
				isDone = isDone || d == &t.tx
			}
			switch {
			case t.ts <= m.bts-m.th:
				drop[t] = true
			case t.ts > m.bts+m.th:
				stay = append(stay, t)
			case isDone:
				drop[t] = true
			case t.err == noBalance && t.direct:
				stay = append(stay, t)
			case t.err != nil:
				drop[t] = true
			default:
				stay = append(stay, t)
				want = append(want, t)
			}
		}
		got, size := m.pool.Candidate(m.w.WC, 0, 0)
		m.check(got, want, "the candidates are those which are valid, in order")
		sym.Check(size == 10*len(want), "the size of the candidates")
		if len(want) > 0 {
			sym.Cover("candidates")
		}
		m.settle(len(stay))
		for _, t := range m.txs {
			e := m.seen.dropped(t.id)
			sym.Check((e != nil) == drop[t], "those who wait are told of what is dropped and of nothing else")
			sym.Check(m.pool.HasTx(t.ID()) == !drop[t], "what is dropped is not in the pool, the others are")
			never := t.ts > m.bts-m.th && t.ts <= m.bts+m.th && t.err != nil && drop[t] && e != nil
			if never {
				sym.Cover("dropped")
			}
			if m.memo.Contains(t.ID(), t.ts) {
				sym.Check(drop[t] && t.err != nil, "a transaction that was not dropped cannot be sent again")
			}
		}
		m.seen.drops = nil
		m.txs = stay
	}
}

// Order adds and removes transactions of two senders.
func Order() {
	n := int(sym.Arg("txs"))
	m := newMarket(n)
	for i := 0; i < n; i++ {
		from := kit.Addr(1 + sym.Choice("sender", 2))
		t := m.tx(string(rune('A'+i)), from, sym.Int("time stamp", m.bts-m.th+1, m.bts+m.th))
		sym.Check(m.pool.Add(t, true) == nil, "not added")
		sym.Check(m.pool.HasTx(t.ID()), "added but not there")
		sym.Check(m.pool.Add(t, true) != nil, "added twice")
		m.put(t)
	}
	sym.Check(m.pool.Add(m.tx("Z", kit.Addr(1), m.bts), true) != nil, "more than the pool takes")
	for i := 0; i < int(sym.Arg("removed")); i++ {
		if k := sym.Choice("remove", len(m.txs)+1); k < len(m.txs) {
			t := m.txs[k]
			m.pool.RemoveList(&chosen{txs: []*tx{&t.tx}})
			m.remove(t)
			sym.Check(!m.pool.HasTx(t.ID()), "removed but still there")
		} else {
			limit := sym.Int("old", m.bts-m.th, m.bts+m.th)
			m.pool.DropOldTXs(limit)
			for _, t := range append([]*offered{}, m.txs...) {
				if t.ts <= limit {
					m.remove(t)
					sym.Check(m.seen.dropped(t.id) != nil, "those who wait are not told")
				}
			}
		}
	}
	if sym.Arg("again") == 1 {
		t := m.tx("Y", kit.Addr(1), sym.Int("time stamp", m.bts-m.th+1, m.bts+m.th))
		sym.Check((m.pool.Add(t, false) == nil) == (len(m.txs) < n), "room in the pool")
		if len(m.txs) < n {
			m.put(t)
		}
	}
	sym.Check(m.pool.Used() == len(m.txs), "how many are there")
	got, _ := m.pool.Candidate(m.w.WC, 0, 0)
	m.check(got, m.txs, "those of a sender are in order of time, the others as they came")
	sym.Cover("ordered")
}

type chosen struct {
	module.TransactionList
	txs []*tx
}

func (l *chosen) Iterator() module.TransactionIterator { return &iterator{l.txs, 0} }
func (l *chosen) Hash() []byte                         { return []byte("hash") }

// Limits has more transactions than a block takes.
func Limits() {
	m := newMarket(10)
	n := int(sym.Arg("txs"))
	for i := 0; i < n; i++ {
		t := m.tx(string(rune('A'+i)), kit.Addr(1), m.bts)
		t.size = []int{1, 40, 100}[sym.Choice("size", 3)]
		if sym.Choice("invalid", 2) == 1 {
			t.err = errors.IllegalArgumentError.New("not valid")
		}
		kit.Must(m.pool.Add(t, true))
		m.put(t)
	}
	bytes, count := sym.Int("bytes", 1, 1000), sym.Int("count", 1, 10)
	got, size := m.pool.Candidate(m.w.WC, int(bytes), int(count))
	sum := 0
	want := []*offered{}
	for _, t := range m.txs {
		if int64(len(want)) >= count {
			break
		}
		if t.err != nil {
			continue
		}
		if int64(sum+t.size) > bytes {
			break
		}
		sum += t.size
		want = append(want, t)
	}
	m.check(got, want, "as many as the block takes")
	sym.Check(size == sum && int64(size) <= bytes, "bytes of the candidates")
	sym.Cover("limited")
}

// Dropped remembers transactions which were dropped.
func Dropped() {
	c := service.NewTxIDCache(time.Second, int(sym.Arg("slot")), log.GlobalLogger())
	type item struct {
		id   string
		ts   int64
		slot int
	}
	items := []item{}
	const base = 1000
	old := int64(0)
	full := map[int]int{}
	lost := map[int]bool{}
	for i := 0; i < int(sym.Arg("steps")); i++ {
		k := sym.Choice("slot", 3)
		ts := int64(base+k)*1000000 + sym.Int("in slot", 0, 999999)
		switch sym.Choice("do", 2) {
		case 0:
			id := string(rune('A' + sym.Choice("id", 2)))
			known := false
			for _, x := range items {
				known = known || x.id == id && x.slot == k
			}
			c.Add([]byte(id), ts)
			if ts >= old {
				if !known {
					if full[k] == int(sym.Arg("slot")) {
						lost[k] = true
					}
					full[k]++
				}
				items = append(items, item{id, ts, k})
			}
		case 1:
			c.RemoveOldTXsByTS(ts)
			if ts > old {
				old = ts
			}
		}
	}
	for j := 0; j < 2; j++ {
		id := string(rune('A' + j))
		for _, x := range items {
			if x.id == id && !lost[x.slot] {
				sym.Check(c.Contains([]byte(id), x.ts) == (x.ts >= old), "what was dropped is known until it is out of time")
				sym.Cover("known")
			}
		}
		for k := 0; k < 3; k++ {
			in := false
			for _, x := range items {
				in = in || x.id == id && x.slot == k
			}
			if !in {
				sym.Check(!c.Contains([]byte(id), int64(base+k)*1000000+500000), "what was not dropped is not known")
			}
		}
	}
	sym.Check(!c.Contains([]byte("C"), base*1000000), "an unknown one")
}
