// Package pool holds the harnesses of what decides which transactions get into a block: the record
// of those that are in blocks already, the range of time stamps, and the pool of candidates.
package pool

import (
	"time"

	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/common/log"
	"github.com/icon-project/goloop/common/txlocator"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service"
	"github.com/icon-project/goloop/service/transaction"
	"github.com/icon-project/goloop/zz/kit"
	"github.com/icon-project/goloop/zz/sym"
)

var Units = map[string]func(){"Replay": Replay, "Lowered": Lowered, "Crash": Crash,
	"Candidates": Candidates, "Order": Order, "Limits": Limits, "Dropped": Dropped}

func same(a, b bool) bool { return sym.And(sym.Implies(a, b), sym.Implies(b, a)) }

// tx is a transaction of which only what these parts look at is there.
type tx struct {
	transaction.Transaction
	id    string
	ts    int64
	group module.TransactionGroup
}

func (t *tx) Group() module.TransactionGroup { return t.group }
func (t *tx) ID() []byte                     { return []byte(t.id) }
func (t *tx) Timestamp() int64               { return t.ts }
func (t *tx) Bytes() []byte                  { return nil }

// list is a list of transactions.
type list struct {
	module.TransactionList
	txs []*tx
}

func (l *list) Iterator() module.TransactionIterator { return &iterator{l.txs, 0} }

type iterator struct {
	txs []*tx
	at  int
}

func (i *iterator) Has() bool { return i.at < len(i.txs) }
func (i *iterator) Next() error {
	i.at++
	return nil
}
func (i *iterator) Get() (module.Transaction, int, error) { return i.txs[i.at], i.at, nil }

// node is a node that records the transactions of blocks.
type node struct {
	group  module.TransactionGroup
	db     db.Database
	lm     module.LocatorManager
	tim    service.TXIDManager
	tsc    *service.TxTimestampChecker
	chain  []*block // the blocks it agreed to
	final  int      // how many of them are final
	last   service.TXIDLogger
	height int64
	ts     int64
	th     int64
	lost   int // how many of the last blocks may not be in the record as the node ended too early
}

type block struct {
	height, ts, th int64
	txs            []*tx
	logger         service.TXIDLogger
}

const minute = 60 * 1000 * 1000

// store is a database of which the last writes may be lost.
type store struct {
	db.Database
	lose bool
	left int // how many writes there still are when it loses them
}

func (s *store) GetBucket(id db.BucketID) (db.Bucket, error) {
	b, err := s.Database.GetBucket(id)
	return &bucket{b, s}, err
}

type bucket struct {
	db.Bucket
	s *store
}

func (b *bucket) Set(key []byte, value []byte) error {
	if b.s.lose {
		if b.s.left == 0 {
			return nil
		}
		b.s.left--
	}
	return b.Bucket.Set(key, value)
}

// start begins without anything but the database.
func (n *node) start() {
	var err error
	n.lm, err = txlocator.NewManager(n.db, log.GlobalLogger())
	kit.Must(err)
	n.tsc = service.NewTimestampChecker()
	n.tim, err = service.NewTXIDManager(n.lm, n.tsc, nil)
	kit.Must(err)
	n.last = n.tim.NewLogger(n.group, 0, 0)
}

// restart ends the node and starts it as the block manager does: transactions of the last final
// block are recorded once more.
func (n *node) restart() {
	n.lm.Term()
	n.chain = n.chain[:n.final]
	n.start()
	for _, b := range n.chain[:n.final-min(n.final, n.lost)] {
		for i, t := range b.txs {
			n.located(b, i, t)
		}
	}
	if n.final == 0 {
		return
	}
	n.lost = 0
	b := n.chain[n.final-1]
	n.height, n.ts = b.height, b.ts
	if n.group == module.TransactionGroupNormal {
		n.last = n.last.NewLogger(b.height, b.ts, b.th)
		_, err := n.last.Add(&list{txs: b.txs}, true)
		sym.Check(err == nil, "the last block is not recorded again")
		sym.Check(n.last.Commit() == nil, "the last block is not final again")
		time.Sleep(time.Millisecond)
		for i, t := range b.txs {
			n.located(b, i, t)
		}
	}
}

func (n *node) has(t *tx) *block {
	for _, b := range n.chain {
		for _, x := range b.txs {
			if x.id == t.id {
				return b
			}
		}
	}
	return nil
}

// offer offers a block and tells whether the node agrees to it.
func (n *node) offer(txs []*tx) {
	height, ts := n.height+1, n.ts+sym.Int("block time", 1, 1<<40)
	b := &block{height: height, ts: ts, th: n.th, txs: txs}
	b.logger = n.last.NewLogger(height, ts, b.th)
	_, err := b.logger.Add(&list{txs: txs}, false)
	rng := service.NewTimestampRange(ts, b.th)
	twice := false
	for i, t := range txs {
		in := rng.CheckTx(t) == nil
		sym.Check(in == (ts-b.th < t.ts && t.ts <= ts+b.th), "the range of time stamps")
		if !in {
			sym.Cover("out of time")
			return
		}
		twice = twice || n.has(t) != nil
		for _, u := range txs[:i] {
			twice = twice || u.id == t.id
		}
	}
	sym.Check((err == nil) == !twice, "a block is accepted if and only if none of its transactions was in one before")
	if twice {
		sym.Cover("twice")
		return
	}
	n.height, n.ts, n.last = height, ts, b.logger
	n.chain = append(n.chain, b)
}

// finalize makes one more block final.
func (n *node) finalize() {
	sym.Check(n.chain[n.final].logger.Commit() == nil, "a block cannot be made final")
	time.Sleep(time.Millisecond)
	n.final++
	b := n.chain[n.final-1]
	for i, t := range b.txs {
		if n.ts-n.th < t.ts {
			has, err := n.tim.HasRecent(n.group, t.ID(), t.ts)
			sym.Check(err == nil && has, "a transaction of a final block is taken for a new one")
		}
		n.located(b, i, t)
		sym.Cover("final")
	}
}

// located checks where a transaction is told to be.
func (n *node) located(b *block, i int, t *tx) {
	loc, err := n.lm.GetLocator(t.ID())
	sym.Check(err == nil && loc != nil && loc.BlockHeight == b.height && loc.IndexInGroup == i && loc.TransactionGroup == n.group,
		"where a transaction is")
}

func newNode() *node {
	n := &node{db: db.NewMapDB(), group: module.TransactionGroup(sym.Arg("group")), height: 10}
	n.ts = sym.Int("first time", 1<<40, 1<<50)
	n.start()
	return n
}

func (n *node) threshold() {
	if n.group == module.TransactionGroupNormal {
		was := n.th
		n.th = sym.Int("threshold", 1, 1<<38)
		if sym.Arg("changes") == 0 {
			sym.Assume(was <= n.th)
		}
	} else {
		n.th = service.ConfigPatchTimestampThreshold
	}
}

// Replay offers blocks of which some contain the same transactions.
func Replay() {
	n := newNode()
	txs := []*tx{}
	for i := 0; i < int(sym.Arg("txs")); i++ {
		txs = append(txs, &tx{id: string(rune('A' + i)), ts: sym.Int("time stamp", 1<<39, 1<<51), group: n.group})
	}
	n.threshold()
	for i := 0; i < int(sym.Arg("blocks")); i++ {
		if sym.Arg("changes")+sym.Arg("raised") != 0 {
			n.threshold()
		}
		k := sym.Choice("transactions", 1<<len(txs))
		in := []*tx{}
		for j, t := range txs {
			if k&(1<<j) != 0 {
				in = append(in, t)
			}
		}
		if sym.Arg("blocks") == 1 && len(in) == 1 && sym.Choice("same again", 2) == 1 {
			in = append(in, in[0])
		}
		n.offer(in)
		for n.final < len(n.chain) && sym.Choice("final", 2) == 1 {
			n.finalize()
		}
		if sym.Arg("restart") == 1 && sym.Choice("restart", 2) == 1 {
			n.restart()
		}
	}
}


// Lowered has a node start again after the threshold was changed.
func Lowered() {
	n := newNode()
	a := &tx{id: "A", ts: sym.Int("time stamp", 1<<39, 1<<51), group: n.group}
	for i := 0; i < 5; i++ {
		if i < 2 {
			n.th = 0
			n.threshold()
		}
		in := []*tx{}
		if i == 0 || i == 4 {
			in = append(in, a)
		}
		n.offer(in)
		if len(n.chain) > n.final {
			n.finalize()
		}
		if i == 1 {
			n.restart()
		}
	}
}

// Crash has the node end at any time of recording the transactions of a block.
func Crash() {
	n := newNode()
	s := &store{Database: n.db}
	n.db = s
	n.start()
	txs := []*tx{}
	for i := 0; i < 2; i++ {
		txs = append(txs, &tx{id: string(rune('A' + i)), ts: sym.Int("time stamp", 1<<39, 1<<51), group: n.group})
	}
	n.threshold()
	n.offer(txs)
	if len(n.chain) == 0 {
		return
	}
	s.lose, s.left = true, sym.Choice("written", 3)
	sym.Check(n.chain[0].logger.Commit() == nil, "a block cannot be made final")
	time.Sleep(time.Millisecond)
	n.final, n.lost = 1, 1
	s.lose = false
	n.restart()
	sym.Cover("crash")
	if sym.Choice("another", 2) == 1 {
		n.offer(nil)
		if sym.Choice("final", 2) == 1 {
			n.finalize()
			if sym.Choice("restart", 2) == 1 {
				n.restart()
			}
		}
	}
	n.offer(txs[sym.Choice("which", 2):][:1])
}
