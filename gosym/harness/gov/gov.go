// Package gov holds the harnesses of the system's contract: who may call what, the configuration of
// the network and the registry of planets and of their managers.
package gov

import (
	"math/big"

	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/havah/hvh/hvhstate"
	"github.com/icon-project/goloop/havah/hvhmodule"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/scoredb"
	"github.com/icon-project/goloop/service/scoreresult"
	"github.com/icon-project/goloop/service/state"
	"github.com/icon-project/goloop/zz/kit"
	"github.com/icon-project/goloop/zz/sym"
)

var Units = map[string]func(){
	"Planets": Planets, "Managers": Managers, "Denied": Denied, "Readers": Readers, "Values": Values, "Costs": Costs,
	"Deployers": Deployers, "Grant": Grant, "Owner": Owner, "Revision": Revision,
}

const bits = 100

// the system's contract as its callers see it
type planetScore interface {
	Ex_registerPlanet(id *common.HexInt, private, company bool, owner module.Address, usdt, price *common.HexInt) error
	Ex_unregisterPlanet(id *common.HexInt) error
	Ex_setPlanetOwner(id *common.HexInt, owner module.Address) error
	Ex_getPlanetInfo(id *common.HexInt) (map[string]interface{}, error)
	Ex_reportPlanetWork(id *common.HexInt) error
	Ex_addPlanetManager(address module.Address) error
	Ex_removePlanetManager(address module.Address) error
	Ex_isPlanetManager(address module.Address) (bool, error)
}

type basicScore interface {
	Ex_setRevision(code *common.HexInt) error
	Ex_getRevision() (int64, error)
	Ex_setStepPrice(price *common.HexInt) error
	Ex_getStepPrice() (int64, error)
	Ex_setStepCost(costType string, cost *common.HexInt) error
	Ex_getStepCost(t string) (int64, error)
	Ex_getStepCosts() (map[string]interface{}, error)
	Ex_setMaxStepLimit(contextType string, cost *common.HexInt) error
	Ex_getMaxStepLimit(contextType string) (int64, error)
	Ex_getServiceConfig() (int64, error)
	Ex_getScoreOwner(score module.Address) (module.Address, error)
	Ex_setScoreOwner(score module.Address, owner module.Address) error
	Ex_getRoundLimitFactor() (int64, error)
	Ex_setRoundLimitFactor(f *common.HexInt) error
	Ex_addDeployer(address module.Address) error
	Ex_removeDeployer(address module.Address) error
	Ex_isDeployer(address module.Address) (int, error)
	Ex_getDeployers() ([]interface{}, error)
	Ex_setTimestampThreshold(threshold *common.HexInt) error
	Ex_getTimestampThreshold() (int64, error)
	Ex_grantValidator(address module.Address) error
	Ex_revokeValidator(address module.Address) error
	Ex_getValidators() ([]interface{}, error)
}

type havahScore interface {
	Ex_getUSDTPrice() (*big.Int, error)
	Ex_setUSDTPrice(price *common.HexInt) error
	Ex_getIssueInfo() (map[string]interface{}, error)
	Ex_startRewardIssue(height *common.HexInt) error
	Ex_getRewardInfoOf(id *common.HexInt) (map[string]interface{}, error)
	Ex_getRewardInfosOf(ids []interface{}) (map[string]interface{}, error)
	Ex_getRewardInfo() (map[string]interface{}, error)
	Ex_setPrivateClaimableRate(numerator *common.HexInt, denominator *common.HexInt) error
	Ex_getPrivateClaimableRate() (map[string]interface{}, error)
	Ex_withdrawLostTo(to module.Address) error
	Ex_getLost() (*big.Int, error)
	Ex_setBlockVoteCheckParameters(period, allowance *common.HexInt) error
	Ex_getBlockVoteCheckParameters() (map[string]interface{}, error)
	Ex_registerValidator(owner module.Address, key []byte, grade, name string, url *string) error
	Ex_unregisterValidator(owner module.Address) error
	Ex_enableValidator(owner module.Address) error
	Ex_getNetworkStatus() (map[string]interface{}, error)
	Ex_getValidatorInfo(owner module.Address) (map[string]interface{}, error)
	Ex_getValidatorStatus(owner module.Address) (map[string]interface{}, error)
	Ex_setActiveValidatorCount(count *common.HexInt) error
	Ex_getActiveValidatorCount() (int64, error)
	Ex_getValidatorsOf(grade string) (map[string]interface{}, error)
	Ex_getValidatorsInfo(dataType string) (map[string]interface{}, error)
	Ex_getDisqualifiedValidatorsInfo(dataType string) (map[string]interface{}, error)
	Ex_openBTPNetwork(networkTypeName string, name string, owner module.Address) (int64, error)
	Ex_closeBTPNetwork(id *common.HexInt) error
}

var (
	nft      = hvhmodule.PlanetNFT
	stranger = kit.Addr(9)
	score    = kit.Score(5)
	zero     = new(big.Int)
)

func add(x, y *big.Int) *big.Int    { return new(big.Int).Add(x, y) }
func eq(x, y *big.Int) bool         { return x.Cmp(y) == 0 }
func hex(x *big.Int) *common.HexInt { return new(common.HexInt).SetValue(x) }
func hex64(x int64) *common.HexInt  { return hex(big.NewInt(x)) }

func same(err error, want bool) bool {
	return sym.And(sym.Implies(err == nil, want), sym.Implies(want, err == nil))
}

func denied(err error) bool {
	s, _ := scoreresult.StatusOf(err)
	return err != nil && s == module.StatusAccessDenied
}

// callers are the kinds of those who call the system's contract.
func callers(w *kit.World) []module.Address {
	return []module.Address{w.WC.Governance(), nft, stranger, state.SystemAddress}
}

func boolOf(v interface{}) bool { b, ok := v.(bool); return ok && b }

// ---------------------------------------------------------------- planets

type planet struct {
	id                     int64
	there                  bool
	private, company       bool
	owner                  module.Address
	usdt, price            *big.Int
	height                 int64
	rewarded               bool
	total, current         *big.Int
	last                   int64
}

func (p *planet) check(s *hvhstate.State, what string) {
	private, company, owner, usdt, price, height := kit.Planet(s, p.id)
	sym.Check((owner != nil) == p.there, what+": registered")
	if p.there && owner != nil {
		sym.Check(sym.And(sym.Implies(private, p.private), sym.Implies(p.private, private)), what+": private")
		sym.Check(sym.And(sym.Implies(company, p.company), sym.Implies(p.company, company)), what+": company")
		sym.Check(owner.Equal(p.owner), what+": owner")
		sym.Check(sym.And(eq(usdt, p.usdt), eq(price, p.price), height == p.height), what+": record")
	}
	total, last, current := kit.Reward(s, p.id)
	if !p.rewarded {
		sym.Check(sym.And(eq(total, zero), eq(current, zero), last == 0), what+": no reward")
		return
	}
	sym.Check(sym.And(eq(total, p.total), eq(current, p.current), last == p.last), what+": reward")
}

// Planets: one call about a planet by any caller in a registry of planets.
func Planets() {
	rev := int(sym.Arg("rev"))
	height := sym.Int("height", 1, 1<<40)
	count := sym.Int("count", 2, hvhmodule.MaxPlanetCount)
	lost := sym.Big("lost", 0, bits)
	ps := []*planet{}
	for i := int64(0); i < 3; i++ {
		p := &planet{id: i * sym.Arg("step"), there: i < 2, rewarded: i != 1 || sym.Arg("fresh") == 0,
			owner: kit.Addr(20 + int(i)), usdt: zero, price: zero, total: zero, current: zero}
		if !p.there {
			p.owner = nil
			p.rewarded = sym.Arg("old") != 0
		}
		if p.there {
			p.private, p.company = i == 0, i == 1
			p.usdt, p.price = sym.Big("usdt", 0, bits), sym.Big("price", 0, bits)
			p.height = sym.Int("registered", 0, 1<<40)
		}
		if p.rewarded {
			p.total, p.current, p.last = sym.Big("total", 0, bits), sym.Big("current", 0, bits), sym.Int("last", 0, 1<<40)
		}
		ps = append(ps, p)
	}
	w := kit.New(rev, height, nil, func(s *hvhstate.State) {
		kit.SetVar(s, hvhmodule.VarAllPlanet, count)
		kit.SetVar(s, hvhmodule.VarLost, lost)
		for _, p := range ps {
			if p.there {
				kit.SetPlanet(s, p.id, p.private, p.company, p.owner, p.usdt, p.price, p.height)
			}
			if p.rewarded {
				kit.SetReward(s, p.id, p.total, p.last, p.current)
			}
		}
	})
	w.Begin()
	from := callers(w)[sym.Choice("from", 4)]
	if sym.Choice("by planet's owner", 2) == 1 {
		from = ps[0].owner
	}
	before := w.Image()
	k := sym.Choice("planet", 4)
	id, p := int64(-1), (*planet)(nil)
	if k < 3 {
		id, p = ps[k].id, ps[k]
	}
	ok := nft.Equal(from)
	s := w.Chain(from).(planetScore)
	var err error
	added := int64(0)
	deposited := zero
	owner := kit.Addr(30)
	op := sym.Choice("op", 3)
	switch op {
	case 0:
		private, company := sym.Flag("private"), sym.Flag("company")
		usdt, price := sym.Big("usdt", 0, bits), sym.Big("price", 0, bits)
		err = s.Ex_registerPlanet(hex64(id), private, company, owner, hex(usdt), hex(price))
		if !ok || p == nil || p.there {
			ok = false
		} else {
			free := count < hvhmodule.MaxPlanetCount
			sym.Check(same(err, free), "registration")
			if err == nil {
				sym.Cover("registered")
				q := *p
				q.there, q.private, q.company, q.owner, q.usdt, q.price, q.height = true, private, company, owner, usdt, price, height
				*p = q
				added = 1
			}
			ok = err == nil
		}
	case 1:
		err = s.Ex_unregisterPlanet(hex64(id))
		if ok = ok && p != nil && p.there; ok {
			sym.Cover("unregistered")
			p.there = false
			added = -1
			if rev >= hvhmodule.RevisionPlanetIDReuse {
				if p.rewarded {
					deposited = p.current
				}
				p.rewarded = false
			}
		}
	case 2:
		err = s.Ex_setPlanetOwner(hex64(id), owner)
		if ok = ok && p != nil && p.there; ok {
			sym.Cover("transferred")
			p.owner = owner
		}
	}
	sym.Check((err == nil) == ok, "whether it succeeds")
	if !nft.Equal(from) {
		sym.Check(denied(err), "only the planets' contract")
	}
	if err != nil {
		sym.Check(w.Image().Same(before), "a refused call leaves nothing")
		return
	}
	st := w.State()
	for _, q := range ps {
		q.check(st, "planet")
	}
	sym.Check(eq(kit.GetVar(st, hvhmodule.VarAllPlanet), big.NewInt(count+added)), "number of planets")
	sym.Check(eq(kit.GetVar(st, hvhmodule.VarLost), add(lost, deposited)), "lost coins")
	evs := w.Find("LostDeposited(int,int,str)")
	if rev >= hvhmodule.RevisionLostCoin && deposited.Sign() > 0 {
		sym.Check(len(evs) == 1 && len(w.Events()) == 1, "event")
		if len(evs) == 1 {
			sym.Check(sym.And(eq(kit.Num(evs[0][0]), deposited), eq(kit.Num(evs[0][1]), add(lost, deposited))), "event")
		}
	} else {
		sym.Check(len(w.Events()) == 0, "no event")
	}
	info, err := s.Ex_getPlanetInfo(hex64(id))
	sym.Check((err == nil) == p.there, "planet shown")
	if err == nil && p.there {
		sym.Check(info["owner"].(module.Address).Equal(p.owner), "owner shown")
		sym.Check(sym.And(eq(info["usdtPrice"].(*big.Int), p.usdt), eq(info["havahPrice"].(*big.Int), p.price)), "price shown")
		sym.Check(boolOf(info["isPrivate"]) == p.private && boolOf(info["isCompany"]) == p.company, "kind shown")
	}
}

func managers(s *hvhstate.State) []module.Address { return kit.Owners(s, hvhmodule.ArrayPlanetManager) }

func find(as []module.Address, a module.Address) int {
	for i, x := range as {
		if x.Equal(a) {
			return i
		}
	}
	return -1
}

// Managers: one change of the managers of planets by any caller.
func Managers() {
	n := int(sym.Arg("managers"))
	have := []module.Address{}
	for i := 0; i < n; i++ {
		have = append(have, kit.Addr(40+i))
	}
	w := kit.New(int(sym.Arg("rev")), 100, nil, func(s *hvhstate.State) {
		for _, a := range have {
			kit.Must(s.AddPlanetManager(a))
		}
		kit.SetVar(s, hvhmodule.VarIssueStart, 10)
		kit.SetVar(s, hvhmodule.VarTermPeriod, 7)
		kit.SetPlanet(s, 1, false, false, kit.Addr(20), big.NewInt(1), big.NewInt(1), 1)
	})
	w.Begin()
	who := callers(w)
	who = append(who, kit.Addr(40))
	from := who[sym.Choice("from", len(who))]
	gov := from.Equal(w.WC.Governance())
	before := w.Image()
	s := w.Chain(from).(planetScore)
	k := sym.Choice("whom", n+2)
	var whom module.Address
	switch {
	case k < n:
		whom = have[k]
	case k == n:
		whom = stranger
	}
	at := -1
	if whom != nil {
		at = find(have, whom)
	}
	want := append([]module.Address{}, have...)
	var err error
	ok := gov && whom != nil
	if sym.Choice("op", 2) == 0 {
		err = s.Ex_addPlanetManager(whom)
		if ok = ok && at < 0; ok {
			want = append(want, whom)
			sym.Cover("added")
		}
	} else {
		err = s.Ex_removePlanetManager(whom)
		if ok = ok && at >= 0; ok {
			want = append(want[:at], want[at+1:]...)
			sym.Cover("removed")
		}
	}
	sym.Check((err == nil) == ok, "whether it succeeds")
	if !gov {
		sym.Check(denied(err), "only governance")
	}
	if err != nil {
		sym.Check(w.Image().Same(before), "a refused call leaves nothing")
	}
	got := managers(w.State())
	sym.Check(len(got) == len(want), "number of managers")
	all := append(append([]module.Address{}, have...), stranger, w.WC.Governance(), nft)
	for _, a := range all {
		is := find(want, a) >= 0
		sym.Check((find(got, a) >= 0) == is, "managers")
		b, err := s.Ex_isPlanetManager(a)
		sym.Check(err == nil && b == is, "managers shown")
		r := w.Chain(a).(planetScore).Ex_reportPlanetWork(hex64(1))
		sym.Check(denied(r) == !is, "only managers report work")
	}
}

// ---------------------------------------------------------------- who may call

// all returns the calls of governance.
func calls(w *kit.World, from module.Address) (names []string, fs []func() error) {
	s := w.Chain(from)
	b, h, p := s.(basicScore), s.(havahScore), s.(planetScore)
	def := func(name string, f func() error) {
		names, fs = append(names, name), append(fs, f)
	}
	governed := from != nil && from.Equal(w.WC.Governance())
	i := func() *common.HexInt {
		if governed {
			return hex64(5)
		}
		return hex(sym.Big("value", 0, 40))
	}
	def("setRevision", func() error { return b.Ex_setRevision(hex64(int64(w.Revision))) })
	def("setStepPrice", func() error { return b.Ex_setStepPrice(i()) })
	def("setStepCost", func() error { return b.Ex_setStepCost(state.StepTypeDefault, i()) })
	def("setMaxStepLimit", func() error { return b.Ex_setMaxStepLimit(state.StepLimitTypeInvoke, i()) })
	def("setRoundLimitFactor", func() error { return b.Ex_setRoundLimitFactor(i()) })
	def("addDeployer", func() error { return b.Ex_addDeployer(stranger) })
	def("removeDeployer", func() error { return b.Ex_removeDeployer(stranger) })
	def("setTimestampThreshold", func() error { return b.Ex_setTimestampThreshold(i()) })
	def("grantValidator", func() error { return b.Ex_grantValidator(stranger) })
	def("revokeValidator", func() error { return b.Ex_revokeValidator(kit.Node(1)) })
	def("startRewardIssue", func() error { return h.Ex_startRewardIssue(i()) })
	def("setPrivateClaimableRate", func() error { return h.Ex_setPrivateClaimableRate(i(), i()) })
	def("withdrawLostTo", func() error { return h.Ex_withdrawLostTo(stranger) })
	def("setBlockVoteCheckParameters", func() error { return h.Ex_setBlockVoteCheckParameters(i(), i()) })
	def("registerValidator", func() error { return h.Ex_registerValidator(stranger, kit.PubKey(2), "sub", "name", nil) })
	def("setActiveValidatorCount", func() error { return h.Ex_setActiveValidatorCount(i()) })
	def("addPlanetManager", func() error { return p.Ex_addPlanetManager(stranger) })
	def("removePlanetManager", func() error { return p.Ex_removePlanetManager(kit.Addr(40)) })
	def("openBTPNetwork", func() error { _, err := h.Ex_openBTPNetwork("icon", "name", stranger); return err })
	def("closeBTPNetwork", func() error { return h.Ex_closeBTPNetwork(hex64(1)) })
	def("unregisterValidator", func() error { return h.Ex_unregisterValidator(kit.Addr(11)) })
	def("enableValidator", func() error { return h.Ex_enableValidator(kit.Addr(11)) })
	// the last one is open to everyone before it was corrected
	def("setUSDTPrice", func() error { return h.Ex_setUSDTPrice(i()) })
	return
}

func world() *kit.World {
	lost := sym.Big("lost", 0, 40)
	w := kit.New(int(sym.Arg("rev")), 100, []module.Address{kit.Node(1), kit.Node(3)}, func(s *hvhstate.State) {
		kit.Must(s.AddPlanetManager(kit.Addr(40)))
		kit.SetVar(s, hvhmodule.VarLost, lost)
		kit.SetVar(s, hvhmodule.VarIssueStart, 10)
		kit.SetVar(s, hvhmodule.VarIssueAmount, 1000)
		kit.SetVar(s, hvhmodule.VarUSDTPrice, sym.Big("usdt", 0, 40))
		kit.SetVar(s, hvhmodule.VarTermPeriod, 7)
		kit.SetPlanet(s, 1, false, false, kit.Addr(20), big.NewInt(1), big.NewInt(1), 1)
		kit.SetReward(s, 1, big.NewInt(9), 3, sym.Big("current", 0, 40))
		kit.Must(s.RegisterValidator(kit.Addr(11), kit.PubKey(11), hvhstate.StringToGrade("sub"), "name", nil))
		kit.SetStatus(s, kit.Addr(11), kit.Status{0, hvhstate.FlagDisabled, 3, 1})
		kit.Must(s.RegisterValidator(kit.Addr(12), kit.PubKey(12), hvhstate.StringToGrade("main"), "name", nil))
	})
	w.SetBalance(hvhmodule.PublicTreasury, big.NewInt(1<<60))
	w.SetSupply(big.NewInt(1 << 60))
	w.SysVar(state.VarStepPrice, 12)
	w.Begin()
	kit.Must(scoredb.NewArrayDB(w.WS.GetAccountState(state.SystemID), state.VarDeployers).Put(stranger))
	return w
}

// Denied: nobody but governance may call what governs the network.
func Denied() {
	w := world()
	gov := w.WC.Governance()
	from := []module.Address{gov, nft, stranger, state.SystemAddress, kit.Addr(40), kit.Addr(12), kit.Node(1), nil}[sym.Choice("from", 8)]
	names, fs := calls(w, from)
	n := len(fs)
	if w.Revision < hvhmodule.RevisionFixAccessControl {
		n--
	}
	k := sym.Choice("method", n)
	if from != nil && from.Equal(gov) {
		sym.Check(!denied(fs[k]()), names[k]+" is governance's")
		return
	}
	before := w.Image()
	err := fs[k]()
	owned := names[k] == "unregisterValidator" || names[k] == "enableValidator"
	sym.Check(denied(err) || owned && err != nil, names[k]+" is denied")
	sym.Check(w.Image().Same(before), names[k]+" leaves nothing")
	sym.Cover("denied")
}

// Readers: methods which only tell leave nothing, whoever calls.
func Readers() {
	w := world()
	from := []module.Address{stranger, w.WC.Governance(), nft}[sym.Choice("from", 3)]
	s := w.Chain(from)
	b, h, p := s.(basicScore), s.(havahScore), s.(planetScore)
	fs := []func(){
		func() { b.Ex_getRevision() },
		func() { b.Ex_getStepPrice() },
		func() { b.Ex_getStepCost(state.StepTypeDefault) },
		func() { b.Ex_getStepCosts() },
		func() { b.Ex_getMaxStepLimit(state.StepLimitTypeInvoke) },
		func() { b.Ex_getServiceConfig() },
		func() { b.Ex_getScoreOwner(score) },
		func() { b.Ex_getRoundLimitFactor() },
		func() { b.Ex_isDeployer(stranger) },
		func() { b.Ex_getDeployers() },
		func() { b.Ex_getTimestampThreshold() },
		func() { b.Ex_getValidators() },
		func() { h.Ex_getUSDTPrice() },
		func() { h.Ex_getIssueInfo() },
		func() { h.Ex_getRewardInfoOf(hex64(1)) },
		func() { h.Ex_getRewardInfosOf([]interface{}{hex64(1), hex64(1)}) },
		func() { h.Ex_getRewardInfo() },
		func() { h.Ex_getPrivateClaimableRate() },
		func() { h.Ex_getLost() },
		func() { h.Ex_getBlockVoteCheckParameters() },
		func() { h.Ex_getNetworkStatus() },
		func() { h.Ex_getValidatorInfo(kit.Addr(11)) },
		func() { h.Ex_getValidatorStatus(kit.Addr(11)) },
		func() { h.Ex_getActiveValidatorCount() },
		func() { h.Ex_getValidatorsOf("all") },
		func() { h.Ex_getValidatorsInfo("all") },
		func() { h.Ex_getDisqualifiedValidatorsInfo("all") },
		func() { p.Ex_getPlanetInfo(hex64(1)) },
		func() { p.Ex_isPlanetManager(stranger) },
	}
	before := w.Image()
	k := sym.Choice("method", len(fs))
	fs[k]()
	sym.Check(w.Image().Same(before), "a reading method leaves nothing")
	sym.Cover("read")
}

// ---------------------------------------------------------------- configuration

// Values: what governance sets is what everyone reads, and nothing else changes.
func Values() {
	w := world()
	gov := w.WC.Governance()
	g := w.Chain(gov)
	b, h := g.(basicScore), g.(havahScore)
	r := w.Chain(stranger)
	rb, rh := r.(basicScore), r.(havahScore)
	read := func() []*big.Int {
		var vs []*big.Int
		i := func(v int64, err error) { kit.Must(err); vs = append(vs, big.NewInt(v)) }
		i(rb.Ex_getStepPrice())
		i(rb.Ex_getMaxStepLimit(state.StepLimitTypeInvoke))
		i(rb.Ex_getMaxStepLimit(state.StepLimitTypeQuery))
		i(rb.Ex_getRoundLimitFactor())
		i(rb.Ex_getTimestampThreshold())
		v, err := rh.Ex_getUSDTPrice()
		kit.Must(err)
		return append(vs, v)
	}
	was := read()
	k := sym.Choice("what", len(was))
	v := sym.Big("value", -100, 62)
	var err error
	switch k {
	case 0:
		err = b.Ex_setStepPrice(hex(v))
	case 1:
		err = b.Ex_setMaxStepLimit(state.StepLimitTypeInvoke, hex(v))
	case 2:
		err = b.Ex_setMaxStepLimit(state.StepLimitTypeQuery, hex(v))
	case 3:
		err = b.Ex_setRoundLimitFactor(hex(v))
		sym.Check(same(err, v.Sign() >= 0), "a limit of rounds is not negative")
	case 4:
		err = b.Ex_setTimestampThreshold(hex(v))
	case 5:
		err = h.Ex_setUSDTPrice(hex(v))
		sym.Check(same(err, v.Sign() >= 0), "a price is not negative")
	}
	is := read()
	for j := range is {
		if j == k && err == nil {
			sym.Check(eq(is[j], v), "what was set is read")
		} else {
			sym.Check(eq(is[j], was[j]), "the others stay")
		}
	}
	sym.Cover("set")
}

// Costs: the costs of steps are a map of the known types.
func Costs() {
	types := []string{state.StepTypeDefault, state.StepTypeGet, state.StepTypeSet, "nonsense"}
	w := world()
	n := int(sym.Arg("known"))
	have := map[string]*big.Int{}
	as := w.WS.GetAccountState(state.SystemID)
	for i := 0; i < n; i++ {
		at := i + sym.Choice("place", 3-i)
		types[i], types[at] = types[at], types[i]
		c := sym.Big("cost", 1, 62)
		if sym.Flag("refund") {
			c = new(big.Int).Neg(c)
		}
		have[types[i]] = c
		kit.Must(scoredb.NewArrayDB(as, state.VarStepTypes).Put(types[i]))
		kit.Must(scoredb.NewDictDB(as, state.VarStepCosts, 1).Set(types[i], c))
	}
	b := w.Chain(w.WC.Governance()).(basicScore)
	for j := 0; j < int(sym.Arg("calls")); j++ {
		k := sym.Choice("type", len(types))
		v := zero
		if sym.Flag("set") {
			v = sym.Big("value", 1, 62)
			if sym.Flag("negative") {
				v = new(big.Int).Neg(v)
			}
		}
		err := b.Ex_setStepCost(types[k], hex(v))
		sym.Check((err == nil) == (k < 3), "known types")
		if types[k] != "nonsense" {
			have[types[k]] = v
			sym.Cover("set")
		}
	}
	costs, err := w.Chain(stranger).(basicScore).Ex_getStepCosts()
	sym.Check(err == nil, "costs")
	shown := 0
	for _, t := range types {
		v, ok := have[t]
		if !ok {
			v = zero
		}
		c, err := b.Ex_getStepCost(t)
		sym.Check(err == nil && eq(big.NewInt(c), v), "the cost of a type")
		s, there := costs[t]
		sym.Check(there == (v.Sign() != 0), "types shown")
		if there {
			shown++
			sym.Check(eq(big.NewInt(s.(int64)), v), "costs shown")
		}
	}
	sym.Check(shown == len(costs) && scoredb.NewArrayDB(as, state.VarStepTypes).Size() == shown, "number of types")
}

// Deployers: those who may deploy are a set.
func Deployers() {
	w := world()
	n := int(sym.Arg("deployers"))
	as := w.WS.GetAccountState(state.SystemID)
	list := scoredb.NewArrayDB(as, state.VarDeployers)
	list.Pop()
	in := make([]bool, n+1)
	for i := 0; i < n; i++ {
		kit.Must(list.Put(kit.Addr(50 + i)))
		in[i] = true
	}
	b := w.Chain(w.WC.Governance()).(basicScore)
	for j := 0; j < int(sym.Arg("calls")); j++ {
		k := sym.Choice("whom", n+1)
		if sym.Choice("add", 2) == 1 {
			kit.Must(b.Ex_addDeployer(kit.Addr(50 + k)))
			in[k] = true
		} else {
			kit.Must(b.Ex_removeDeployer(kit.Addr(50 + k)))
			in[k] = false
		}
	}
	r := w.Chain(stranger).(basicScore)
	ds, err := r.Ex_getDeployers()
	kit.Must(err)
	c := 0
	for k := range in {
		f := 0
		for _, d := range ds {
			if d.(module.Address).Equal(kit.Addr(50 + k)) {
				f++
			}
		}
		is, err := r.Ex_isDeployer(kit.Addr(50 + k))
		sym.Check(err == nil && (is == 1) == in[k], "whether it deploys")
		if in[k] {
			c++
			sym.Check(f == 1, "listed once")
		} else {
			sym.Check(f == 0, "not listed")
		}
	}
	sym.Check(c == len(ds), "number of deployers")
	sym.Cover("changed")
}

// Grant: governance adds and removes validators, of which one stays.
func Grant() {
	n := int(sym.Arg("validators"))
	vs := []module.Address{}
	for i := 0; i < n; i++ {
		vs = append(vs, kit.Node(60+i))
	}
	w := kit.New(int(sym.Arg("rev")), 100, vs, nil)
	member := sym.Arg("members") != 0
	as := w.WS.GetAccountState(state.SystemID)
	if member {
		w.SysVar(state.VarServiceConfig, state.SysConfigMembership)
		kit.Must(scoredb.NewArrayDB(as, state.VarMembers).Put(kit.Node(60 + n)))
	}
	w.Begin()
	k := sym.Choice("whom", n+4)
	var whom module.Address
	switch {
	case k < n+2:
		whom = kit.Node(60 + k)
	case k == n+2:
		whom = score
	}
	b := w.Chain(w.WC.Governance()).(basicScore)
	want := append([]module.Address{}, vs...)
	var err error
	ok := k < n+2
	if sym.Choice("grant", 2) == 1 {
		err = b.Ex_grantValidator(whom)
		if member {
			ok = k == n
		}
		if ok && k >= n {
			want = append(want, whom)
			sym.Cover("granted")
		}
	} else {
		err = b.Ex_revokeValidator(whom)
		if ok = k < n && n > 1; ok {
			want = append(want[:k], want[k+1:]...)
			sym.Cover("revoked")
		}
	}
	sym.Check((err == nil) == ok, "whether it succeeds")
	if err != nil {
		return
	}
	got, err := w.Chain(stranger).(basicScore).Ex_getValidators()
	kit.Must(err)
	sym.Check(len(got) == len(want) && len(got) > 0, "number of validators")
	for _, a := range want {
		f := 0
		for _, g := range got {
			if g.(module.Address).Equal(a) {
				f++
			}
		}
		sym.Check(f == 1, "each validator once")
	}
}

// Owner: only the owner of an active contract gives it away.
func Owner() {
	w := world()
	owner := kit.Addr(30)
	a := w.WS.GetAccountState(score.ID())
	deployed := sym.Choice("deployed", 2) == 1
	if deployed {
		a.InitContractAccount(owner)
	}
	blocked, disabled := false, false
	if deployed {
		blocked, disabled = sym.Choice("blocked", 2) == 1, sym.Choice("disabled", 2) == 1
		a.SetBlock(blocked)
		a.SetDisable(disabled)
	}
	from := []module.Address{owner, stranger, w.WC.Governance(), nft, nil}[sym.Choice("from", 5)]
	to := []module.Address{stranger, owner, kit.Score(6), nil}[sym.Choice("to", 4)]
	what := []module.Address{score, kit.Score(7), owner, nil}[sym.Choice("what", 4)]
	before := w.Image()
	err := w.Chain(from).(basicScore).Ex_setScoreOwner(what, to)
	ok := from != nil && from.Equal(owner) && to != nil && what != nil && what.Equal(score) && deployed && !blocked && !disabled
	sym.Check((err == nil) == ok, "whether it succeeds")
	if !ok {
		sym.Check(w.Image().Same(before), "a refused call leaves nothing")
	} else {
		sym.Cover("given")
		owner = to
	}
	o, err := w.Chain(stranger).(basicScore).Ex_getScoreOwner(score)
	sym.Check((err == nil) == deployed, "owner shown")
	if deployed {
		sym.Check(o != nil && o.Equal(owner), "owner shown")
		sym.Check(a.ContractOwner().Equal(owner) && a.IsBlocked() == blocked && a.IsDisabled() == disabled, "the rest stays")
	}
}

// Revision: it never goes back nor beyond what the node knows.
func Revision() {
	w := world()
	b := w.Chain(w.WC.Governance()).(basicScore)
	code := sym.Int("code", -2, hvhmodule.MaxRevision+2)
	err := b.Ex_setRevision(hex64(code))
	ok := sym.And(code >= int64(w.Revision), code <= hvhmodule.MaxRevision)
	sym.Check(same(err, ok), "whether it succeeds")
	r, err2 := b.Ex_getRevision()
	kit.Must(err2)
	if err == nil {
		sym.Check(r == code, "the new revision")
		sym.Cover("changed")
	} else {
		sym.Check(r == int64(w.Revision), "the revision stays")
	}
}
