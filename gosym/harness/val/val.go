// Package val holds the harnesses of the validators: their registry, the check of their votes and
// the selection of the active ones.
package val

import (
	"encoding/json"
	"math/big"
	"sort"

	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/havah/hvh"
	"github.com/icon-project/goloop/havah/hvh/hvhstate"
	"github.com/icon-project/goloop/havah/hvhmodule"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/state"
	"github.com/icon-project/goloop/zz/kit"
	"github.com/icon-project/goloop/zz/sym"
)

var Units = map[string]func(){
	"Votes": Votes, "Select": Select, "Enable": Enable, "Register": Register, "Unregister": Unregister, "Key": Key,
	"Params": Params,
}

func same(err error, want bool) bool {
	return sym.And(sym.Implies(err == nil, want), sym.Implies(want, err == nil))
}

// member is a registered validator.
type member struct {
	n           int
	owner, node module.Address
	main        bool
	st          kit.Status
	key, active bool
}

// usable tells whether the validator may become active.
func (m *member) usable() bool { return m.st.Flags == 0 && m.key }

// net is a network of validators at a block of a term.
type net struct {
	rev                   int
	period, start, seq, i int64
	check, allowance      int64
	newCheck, newAllow    int64
	count, index          int64
	decentral, needKeys   bool
	ms                    []*member
	activeIdx             []int
	w                     *kit.World
	cc                    hvhmodule.CallContext
	ex                    *hvh.ExtensionStateImpl
}

func mk() *net {
	n := &net{rev: int(sym.Arg("rev")), period: sym.Arg("period"), decentral: sym.Arg("decentral") != 0}
	n.seq = sym.Int("seq", 0, 1<<30)
	n.start = sym.Int("start", 1, 1<<30)
	n.i = sym.Int("index", 0, n.period-1)
	n.check = sym.Arg("check")
	n.allowance = sym.Int("allowance", 0, 1<<30)
	n.newCheck, n.newAllow = sym.Int("newCheck", 0, 1<<30), sym.Int("newAllow", 0, 1<<30)
	n.count = sym.Arg("count")
	n.needKeys = sym.Arg("keys") != 0
	total := int(sym.Arg("main") + sym.Arg("sub"))
	if sym.Arg("sub") > 0 {
		n.index = int64(sym.Choice("svIndex", int(sym.Arg("sub"))+1))
	}
	for i := 0; i < total; i++ {
		m := &member{n: i, owner: kit.Addr(10 + i), node: kit.Node(10 + i), main: int64(i) < sym.Arg("main"), key: true}
		m.st.NonVotes = sym.Int("nonVotes", 0, 1<<30)
		m.st.Enabled = int(sym.Int("enabled", 0, hvhmodule.MaxEnableCount))
		if !m.main && sym.Arg("states") != 0 {
			m.st.Flags = sym.Choice("disabled", 2) * hvhstate.FlagDisabled
		}
		if n.needKeys {
			m.key = sym.Choice("key", 2) == 1
		}
		n.ms = append(n.ms, m)
	}
	// the first ones (argument active) are active
	for i := 0; i < int(sym.Arg("active")); i++ {
		n.activeIdx = append(n.activeIdx, (i+int(sym.Arg("shift")))%total)
		n.ms[n.activeIdx[i]].active = true
	}
	return n
}

func (n *net) grade(m *member) string {
	if m.main {
		return "main"
	}
	return "sub"
}

func (n *net) active() []module.Address {
	r := []module.Address{}
	for _, i := range n.activeIdx {
		r = append(r, n.ms[i].node)
	}
	if sym.Arg("alien") != 0 {
		r = append(r, kit.Node(70)) // nobody's, as those of genesis
	}
	return r
}

func (n *net) build(voters []module.Address, votes []bool) *net {
	w := kit.New(n.rev, n.start+n.seq*n.period+n.i, n.active(), func(s *hvhstate.State) {
		kit.SetVar(s, hvhmodule.VarIssueStart, n.start)
		kit.SetVar(s, hvhmodule.VarTermPeriod, n.period)
		kit.SetVar(s, hvhmodule.VarIssueAmount, 1000)
		kit.SetVar(s, hvhmodule.VarBlockVoteCheckPeriod, n.newCheck)
		kit.SetVar(s, hvhmodule.VarNonVoteAllowance, n.newAllow)
		kit.SetVar(s, hvhmodule.VarUSDTPrice, 1)
		if n.count > 0 {
			kit.SetVar(s, hvhmodule.VarActiveValidatorCount, n.count)
		}
		if n.index > 0 {
			kit.SetVar(s, hvhmodule.VarSubValidatorsIndex, n.index)
		}
		if n.decentral {
			kit.SetNetStatus(s, kit.NetStatus{0, int(hvhstate.NetModeDecentralized), n.check, n.allowance, n.count})
		}
		for _, m := range n.ms {
			kit.Must(s.RegisterValidator(m.owner, kit.PubKey(10+m.n), hvhstate.StringToGrade(n.grade(m)), "name", nil))
			kit.SetStatus(s, m.owner, m.st)
		}
	})
	if voters == nil {
		voters = n.active()
		votes = make([]bool, len(voters))
		for i := range votes {
			votes[i] = true
		}
	}
	w.CSI = &kit.Consensus{Prop: nil, Vs: kit.ValidatorList(w.DB, voters), Votes: votes}
	if n.needKeys {
		w.NeedKeys()
		for _, m := range n.ms {
			if m.key {
				w.GiveKey(m.node)
			}
		}
	}
	w.SetBalance(hvhmodule.PublicTreasury, big.NewInt(1<<60))
	w.SetSupply(big.NewInt(1 << 60))
	n.w = w
	n.cc = w.From(state.SystemAddress)
	n.ex = w.Ext()
	return n
}

func (n *net) base() error {
	bs, err := json.Marshal(n.ex.NewBaseTransactionData(n.w.Height))
	kit.Must(err)
	return n.ex.OnBaseTx(n.cc, bs)
}

func (n *net) by(node module.Address) *member {
	for _, m := range n.ms {
		if m.node.Equal(node) {
			return m
		}
	}
	return nil
}

// next takes up to k validators from the rotation of the sub validators, except the ones in use.
func (n *net) next(use []module.Address, k int) []module.Address {
	var subs []*member
	for _, m := range n.ms {
		if !m.main {
			subs = append(subs, m)
		}
	}
	r := []module.Address{}
	if len(subs) == 0 || k == 0 {
		return r
	}
	at := n.index
	if at >= int64(len(subs)) {
		at = 0
	}
	for i := 0; i < len(subs) && len(r) < k; i++ {
		m := subs[at]
		if m.usable() && !has(use, m.node) {
			r = append(r, m.node)
		}
		at = (at + 1) % int64(len(subs))
	}
	n.index = at
	return r
}

func has(as []module.Address, a module.Address) bool {
	for _, x := range as {
		if x.Equal(a) {
			return true
		}
	}
	return false
}

func alike(a, b []module.Address) bool {
	if len(a) != len(b) {
		return false
	}
	for i, x := range a {
		if !x.Equal(b[i]) {
			return false
		}
	}
	return true
}

// Votes: the votes of the previous block are counted when it is time to, sub validators which
// missed too many lose their places, and validators of the rotation take the places over.
func Votes() {
	n := mk()
	sym.Assume(n.i > 0)
	voters := n.active()
	votes := []bool{}
	for range voters {
		votes = append(votes, sym.Bool("vote"))
	}
	if sym.Arg("stranger") != 0 {
		voters = append([]module.Address{kit.Node(99)}, voters...)
		votes = append([]bool{sym.Bool("vote")}, votes...)
	}
	n.build(voters, votes)
	err := n.base()
	sym.Check(err == nil, "the base transaction succeeds")
	if err != nil {
		return
	}
	n.counted(n.active(), voters, votes, n.decentral && n.check > 0 && n.i%n.check == 0, n.allowance)
}

// counted checks what the votes led to, from the validators that were active right before.
func (n *net) counted(want, voters []module.Address, votes []bool, due bool, allowance int64) {
	s := n.w.State()
	var lost []int
	penalized := 0
	for k, node := range voters {
		m := n.by(node)
		if m == nil {
			continue
		}
		if due && m.st.Flags == 0 {
			m.st.NonVotes = sym.IfInt(votes[k], 0, m.st.NonVotes+1)
			if !m.main && m.st.NonVotes > allowance {
				m.st.Flags = hvhstate.FlagDisabled
				penalized++
				for j, x := range want {
					if x.Equal(node) {
						lost = append(lost, j)
					}
				}
			}
		}
	}
	sort.Ints(lost)
	for _, m := range n.ms {
		g := kit.GetStatus(s, m.owner)
		sym.Check(g.Flags == m.st.Flags, "disabled")
		sym.Check(g.NonVotes == m.st.NonVotes, "count of missed votes")
		sym.Check(g.Enabled == m.st.Enabled, "count of enables")
	}
	add := n.next(want, len(lost))
	var gone []int
	for j, k := range lost {
		if j < len(add) {
			want[k] = add[j]
		} else {
			gone = append(gone, k)
		}
	}
	for j := len(gone) - 1; j >= 0; j-- {
		want = append(want[:gone[j]], want[gone[j]+1:]...)
	}
	sym.Check(alike(n.w.Validators(), want), "active validators")
	sym.Check(kit.GetVar(s, hvhmodule.VarSubValidatorsIndex).Int64() == n.index, "next of the rotation")
	sym.Check(len(n.w.Find("ActiveValidatorPenalized(Address,Address)")) == penalized, "events of penalties")
	if n.i > 0 {
		sym.Check(len(n.w.Find("ActiveValidatorRemoved(Address,Address,str)")) == len(lost), "events of removals")
		sym.Check(len(n.w.Find("ActiveValidatorAdded(Address,Address)")) == len(add), "events of additions")
		sym.Check(len(n.w.Find("ActiveValidatorCountChanged(int,int)")) == min(len(gone), 1), "event of the count")
	}
	if len(lost) > 0 {
		sym.Cover("penalty")
	}
	if len(lost) > 1 {
		sym.Cover("two penalties")
	}
}

// Select: at the start of a term of a decentralized network the active validators are the main
// validators and the ones next in the rotation, as many as configured.
func Select() {
	n := mk()
	sym.Assume(n.i == 0)
	voters := n.active()
	votes := []bool{}
	late := sym.Arg("late") != 0
	for range voters {
		votes = append(votes, !late || sym.Bool("vote"))
	}
	n.build(voters, votes)
	err := n.base()
	sym.Check(err == nil, "the base transaction succeeds")
	if err != nil {
		return
	}
	s := n.w.State()
	old := n.active()
	now := n.decentral || (n.rev >= 4 && n.count >= 1 && int64(len(n.ms)) >= n.count)
	ns := kit.GetNetStatus(s)
	sym.Check((ns.Mode == int(hvhstate.NetModeDecentralized)) == now, "decentralized")
	if !now {
		sym.Check(alike(n.w.Validators(), old), "validators are kept before the decentralization")
		sym.Cover("before")
		return
	}
	sym.Cover("selected")
	sym.Check(sym.And(ns.Period == n.newCheck, ns.Allowance == n.newAllow, ns.Count == n.count), "parameters of the term")
	sym.Check((len(n.w.Find("Decentralized(int)")) == 1) == !n.decentral, "event of the decentralization")
	want := []module.Address{}
	for _, m := range n.ms {
		if m.main && m.key && int64(len(want)) < n.count {
			want = append(want, m.node)
		}
	}
	want = append(want, n.next(nil, int(n.count)-len(want))...)
	if late {
		n.counted(want, voters, votes, n.decentral && n.check > 0, n.newAllow)
		return
	}
	sym.Check(alike(n.w.Validators(), want), "active validators")
	sym.Check(kit.GetVar(s, hvhmodule.VarSubValidatorsIndex).Int64() == n.index, "next of the rotation")
	added, removed := 0, 0
	for _, a := range want {
		if !has(old, a) {
			added++
		}
	}
	for _, a := range old {
		if !has(want, a) && !a.Equal(kit.Node(70)) {
			removed++
		}
	}
	sym.Check(len(n.w.Find("ActiveValidatorRemoved(Address,Address,str)")) == removed, "events of removals")
	sym.Check(len(n.w.Find("ActiveValidatorAdded(Address,Address)")) == added, "events of additions")
	for _, m := range n.ms {
		g := kit.GetStatus(s, m.owner)
		sym.Check(sym.And(g.Flags == m.st.Flags, g.Enabled == m.st.Enabled), "status is kept")
	}
}

// Enable: a disabled validator is enabled by its owner three times at most, or by the governance.
func Enable() {
	n := mk()
	m := n.ms[0]
	m.st.Flags = sym.Choice("flags", 4)
	n.build(nil, nil)
	who := sym.Choice("who", 3)
	from := []module.Address{m.owner, kit.Addr(3), n.w.CC.Governance()}[who]
	s := n.w.Chain(from)
	err := s.(interface{ Ex_enableValidator(module.Address) error }).Ex_enableValidator(m.owner)
	g := kit.GetStatus(n.w.State(), m.owner)
	want := m.st
	disqualified := m.st.Flags&hvhstate.FlagDisqualified != 0
	switch {
	case who == 1 || disqualified:
		sym.Check(err != nil, "refused")
	case m.st.Flags == 0:
		sym.Check(err == nil, "already enabled")
		want.NonVotes = 0
	case who == 2:
		sym.Check(err == nil, "enabled by the governance")
		want.Flags, want.Enabled, want.NonVotes = 0, 0, 0
	default:
		ok := m.st.Enabled < hvhmodule.MaxEnableCount
		sym.Check(same(err, ok), "enabled by the owner three times at most")
		if err == nil {
			want.Flags, want.NonVotes = 0, 0
			want.Enabled++
			sym.Cover("enabled")
		} else {
			sym.Cover("used up")
		}
	}
	sym.Check(sym.And(g.Flags == want.Flags, g.NonVotes == want.NonVotes, g.Enabled == want.Enabled), "status")
}

func text(k int) string {
	bs := make([]byte, k)
	for i := range bs {
		bs[i] = 'a'
	}
	return string(bs)
}

type registrar interface {
	Ex_registerValidator(module.Address, []byte, string, string, *string) error
	Ex_unregisterValidator(module.Address) error
	Ex_setNodePublicKey([]byte) error
	Ex_enableValidator(module.Address) error
}

// intact checks that the registry is consistent: every owner is in one list alone, and every node
// leads to its owner.
func (n *net) intact() {
	s := n.w.State()
	seen := []module.Address{}
	for _, l := range []string{hvhmodule.ArrayMainValidators, hvhmodule.ArraySubValidators, hvhmodule.ArrayDisqualifiedValidators} {
		for _, o := range kit.Owners(s, l) {
			sym.Check(!has(seen, o), "an owner is on one list once")
			seen = append(seen, o)
			st := kit.GetStatus(s, o)
			sym.Check(st != nil, "status of a validator")
			sym.Check((st.Flags&hvhstate.FlagDisqualified != 0) == (l == hvhmodule.ArrayDisqualifiedValidators), "list of the disqualified")
			vi, err := s.GetValidatorInfo(o)
			sym.Check(err == nil, "information of a validator")
			sym.Check(o.Equal(kit.OwnerOf(s, vi.Address())), "owner of the node")
			if st.Flags&hvhstate.FlagDisqualified != 0 {
				sym.Check(!has(n.w.Validators(), vi.Address()), "the unregistered is not active")
			}
		}
	}
}

// Register: only the governance registers; an owner and a node are registered once and for all.
func Register() {
	n := mk().build(nil, nil)
	gov := sym.Choice("gov", 2) == 1
	from := kit.Addr(3)
	if gov {
		from = n.w.CC.Governance()
	}
	o := sym.Choice("owner", 3)
	owner := []module.Address{kit.Addr(50), n.ms[0].owner, n.ms[len(n.ms)-1].owner}[o]
	k := sym.Choice("key", 4)
	key := [][]byte{kit.PubKey(50), kit.PubKey(10), kit.PubKey(10 + len(n.ms) - 1), kit.PubKey(50)[:32]}[k]
	g := sym.Choice("grade", 3)
	grade := []string{"main", "sub", "other"}[g]
	t := sym.Choice("text", 4)
	name, url := text([]int{100, 101, 0, 5}[t]), text([]int{200, 3, 5, 201}[t])
	s := n.w.Chain(from).(registrar)
	err := s.Ex_registerValidator(owner, key, grade, name, &url)
	want := gov && o == 0 && k == 0 && g < 2 && (t == 0 || t == 2)
	sym.Check(same(err, want), "registered once by the governance")
	if err == nil {
		sym.Cover("registered")
		n.intact()
		st := n.w.State()
		l := kit.Owners(st, []string{hvhmodule.ArrayMainValidators, hvhmodule.ArraySubValidators}[g])
		sym.Check(owner.Equal(l[len(l)-1]), "last of the list")
		sym.Check(owner.Equal(kit.OwnerOf(st, kit.Node(50))), "owner of the node")
		v := kit.GetStatus(st, owner)
		sym.Check(v.Flags == 0 && v.NonVotes == 0 && v.Enabled == 0, "status")
		sym.Check(alike(n.w.Validators(), n.active()), "active validators")
	}
}

// Unregister: the owner or the governance unregisters a validator; it is out for good.
func Unregister() {
	n := mk().build(nil, nil)
	i := sym.Choice("which", len(n.ms))
	m := n.ms[i]
	who := sym.Choice("who", 3)
	gov := n.w.CC.Governance()
	from := []module.Address{m.owner, kit.Addr(3), gov}[who]
	err := n.w.Chain(from).(registrar).Ex_unregisterValidator(m.owner)
	sym.Check(same(err, who != 1), "unregistered by the owner or the governance")
	if err != nil {
		return
	}
	sym.Cover("unregistered")
	n.intact()
	s := n.w.State()
	want := []module.Address{}
	for _, a := range n.active() {
		if !a.Equal(m.node) {
			want = append(want, a)
		}
	}
	sym.Check(alike(n.w.Validators(), want), "active validators")
	left := 0
	for _, l := range []string{hvhmodule.ArrayMainValidators, hvhmodule.ArraySubValidators} {
		os := kit.Owners(s, l)
		left += len(os)
		sym.Check(!has(os, m.owner), "off the list")
	}
	sym.Check(left == len(n.ms)-1, "the others are on the lists")
	sym.Check(has(kit.Owners(s, hvhmodule.ArrayDisqualifiedValidators), m.owner), "disqualified")
	g := n.w.Chain(gov).(registrar)
	url := ""
	sym.Check(g.Ex_registerValidator(m.owner, kit.PubKey(50), "sub", "x", &url) != nil, "its owner is not registered again")
	sym.Check(g.Ex_registerValidator(kit.Addr(60), kit.PubKey(10+i), "sub", "x", &url) != nil, "its node is not registered again")
	sym.Check(g.Ex_enableValidator(m.owner) != nil, "not enabled")
	sym.Check(n.w.Chain(m.owner).(registrar).Ex_setNodePublicKey(kit.PubKey(51)) != nil, "no new key")
	n.intact()
}

// Key: the owner changes the key of its node; the new node takes the old one's place among the
// active validators, and no node is taken from another.
func Key() {
	n := mk().build(nil, nil)
	i := sym.Choice("which", len(n.ms))
	m := n.ms[i]
	k := sym.Choice("key", 4+int(sym.Arg("alien")))
	j := (i + 1) % len(n.ms)
	key := [][]byte{kit.PubKey(50), kit.PubKey(10 + i), kit.PubKey(10 + j), {1, 2}, kit.PubKey(70)}[k]
	err := n.w.Chain(m.owner).(registrar).Ex_setNodePublicKey(key)
	sym.Check(same(err, k < 2 || k == 4 && !m.active), "changed to a key of nobody else")
	if err != nil {
		return
	}
	n.intact()
	s := n.w.State()
	want := n.active()
	if k == 0 {
		sym.Cover("changed")
		for x, a := range want {
			if a.Equal(m.node) {
				want[x] = kit.Node(50)
			}
		}
		sym.Check(m.owner.Equal(kit.OwnerOf(s, kit.Node(50))), "owner of the new node")
	}
	sym.Check(m.owner.Equal(kit.OwnerOf(s, m.node)), "owner of the old node")
	sym.Check(alike(n.w.Validators(), want), "active validators")
}

// Params: what the governance sets is in force from the next term on; others set nothing.
func Params() {
	n := mk().build(nil, nil)
	gov := sym.Choice("gov", 2) == 1
	from := kit.Addr(3)
	if gov {
		from = n.w.CC.Governance()
	}
	p, a, c := sym.Big("period", -1<<40, 40), sym.Big("allowance2", -1<<40, 40), sym.Big("count2", -1<<40, 40)
	hex := func(x *big.Int) *common.HexInt { return new(common.HexInt).SetValue(x) }
	s := n.w.Chain(from).(interface {
		Ex_setBlockVoteCheckParameters(period, allowance *common.HexInt) error
		Ex_setActiveValidatorCount(count *common.HexInt) error
	})
	err := s.Ex_setBlockVoteCheckParameters(hex(p), hex(a))
	sym.Check(same(err, sym.And(gov, p.Sign() >= 0, a.Sign() >= 0)), "period and allowance")
	st := n.w.State()
	ns := kit.GetNetStatus(st)
	sym.Check(sym.And(ns.Period == n.check, ns.Allowance == n.allowance, ns.Count == n.count), "parameters of this term")
	if err == nil {
		sym.Check(sym.And(kit.GetVar(st, hvhmodule.VarBlockVoteCheckPeriod).Cmp(p) == 0,
			kit.GetVar(st, hvhmodule.VarNonVoteAllowance).Cmp(a) == 0), "parameters of the next term")
	}
	err = s.Ex_setActiveValidatorCount(hex(c))
	sym.Check(same(err, sym.And(gov, c.Sign() > 0, c.Cmp(big.NewInt(hvhmodule.MaxValidatorCount)) <= 0)), "count")
	if err == nil {
		sym.Check(kit.GetVar(n.w.State(), hvhmodule.VarActiveValidatorCount).Cmp(c) == 0, "count of the next term")
	}
}
