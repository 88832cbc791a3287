package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// relayRules: the glue of the pipeline target → manager → collector → cache →
// subscribe → client → CLI. What the components do is decided by the rules of
// their own properties, which are run again here (see init).
type relayRules struct{ p *Program }

const collPkg = "cmd/gnmi_collector"

// bound is the function behind a function value and the receiver it is bound
// to, if it is a method value.
func boundTo(t *Term) (fn *ssa.Function, recv *Term) {
	t = asOf(t)
	if t.op != OClosure && t.op != OFunc || t.fn == nil {
		return nil, nil
	}
	fn = unbound(t.fn)
	if fn != t.fn && len(t.args) == 1 {
		recv = t.args[0]
	}
	return fn, recv
}

func (g *relayRules) collector() *ssa.Function {
	p := g.p
	fn := p.mustFn(collPkg, "runCollector")
	if fn == nil {
		return nil
	}
	var update *ssa.Function
	r := &Rule{Unroll: 2}
	r.Prim = func(f *ssa.Function) bool { return p.inRepo(f) && f.Pkg != p.ssa[collPkg] }
	cfgList := func(f string) string { return "target.Configuration." + f }
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		ev := &Event{instr: c.instr}
		switch n := trimMod(c.name); n {
		case "cache.New", "manager.NewManager", "subscribe.NewServer":
			res := st.fresh(c.instr, n, st.x.resType(c))
			obj := res
			if len(res.args) == 2 {
				obj = res.args[0]
				if n == "manager.NewManager" {
					g.config(st, ev, c.args[0], &update)
					return []Outcome{
						{res: mkTuple(obj, mkNil()), do: func(s *State) bool {
							s.SetT("tm", obj)
							return s.assume(mkEq(obj, mkNil()), false)
						}, key: "ok"},
						{res: res, do: func(s *State) bool {
							return s.assume(mkEq(res.args[1], mkNil()), false) && s.assume(mkEq(obj, mkNil()), true)
						}, key: "err"},
					}, true
				}
				p.ob("one-cache", "subscribe server")
				if !g.isCache(st, c.args[0]) {
					p.viol(st, ev, "one-cache", "subscribe server", "the Subscribe server serves %s, not the cache the targets feed", c.args[0])
				}
				st.assume(mkEq(obj, mkNil()), false)
				st.SetT("srv", obj)
				return one(res), true
			}
			if n == "cache.New" {
				if st.T["cache"] != nil {
					p.viol(st, ev, "one-cache", "cache", "a second cache is made")
				}
				st.SetT("cache", res)
			}
			st.assume(mkEq(res, mkNil()), false)
			return one(res), true
		case "(*cache.Cache).SetClient":
			f, recv := boundTo(c.args[1])
			p.ob("feed-wired", "SetClient")
			if f == nil || f != p.fn("subscribe", "Server.Update") || asOf(recv) != asOf(st.T["srv"]) {
				p.viol(st, ev, "feed-wired", "SetClient", "the cache's change feed is %s, not the Subscribe server's Update", c.args[1])
			}
			if !g.isCache(st, c.args[0]) {
				p.viol(st, ev, "feed-wired", "SetClient", "the change feed of %s is set, not of the cache the targets feed", c.args[0])
			}
			st.Set("wired", "1")
		case "(*cache.Cache).Add":
			if g.isCache(st, c.args[0]) {
				st.SetT("known", c.args[1])
			}
		case "(*cache.Cache).Remove":
			st.SetT("known", nil)
		case "(*manager.Manager).Add":
			g.added(st, ev, c, cfgList)
			res := st.fresh(c.instr, "added", st.x.resType(c))
			return []Outcome{
				{res: mkNil(), key: "ok"},
				{res: res, do: func(s *State) bool { return s.assume(mkEq(res, mkNil()), false) }, key: "err"},
			}, true
		case "(*manager.Manager).Remove":
			p.viol(st, ev, "target-added", "targets", "a target is removed again")
		}
		if strings.HasSuffix(c.name, "gnmi.RegisterGNMIServer") && len(c.args) == 2 {
			p.ob("served", "gNMI server")
			v := c.args[1]
			if v.op == OIface {
				v = v.args[0]
			}
			if asOf(v) != asOf(st.T["srv"]) {
				p.viol(st, ev, "served", "gNMI server", "%s is registered as the gNMI server, not the Subscribe server", v)
			}
			st.Set("registered", "1")
			st.SetT("grpc", c.args[0])
		}
		return nil, false
	}
	const serve = "(*google.golang.org/grpc.Server).Serve"
	endIter := func(st *State) {
		if st.R["iter"] == "" {
			return
		}
		st.Set("iter", "")
		k, t := st.T["key"], st.T["tgt"]
		p.ob("target-added", "targets")
		if st.R["added"] == "" && st.R["collected"] == "" && !g.mayskip(st, t) {
			p.report("target-added", "targets", "a configured target is neither known to the cache nor subscribed to on this path ("+k.String()+")", st, nil)
		}
		st.Set("added", "")
		st.SetT("key", nil)
		st.SetT("tgt", nil)
		st.SetT("known", nil)
	}
	isTargets := func(t *Term) bool { return loadOf(t, cfgList("Target")) }
	r.Event = func(st *State, ev *Event) {
		switch ev.kind {
		case EvRange:
			if ev.what == "" && isTargets(ev.args[0]) {
				st.Set("ranged", "1")
			}
			if ev.what == "next" && isTargets(ev.args[0]) {
				endIter(st)
				st.Set("iter", "1")
				st.Set("ranged", "1")
				st.Set("rngblk", ev.instr.Block().String()+ev.instr.Parent().String())
				st.SetT("key", ev.args[1])
				st.SetT("tgt", ev.args[2])
			}
		case EvAppend:
			if st.R["iter"] != "" && ev.res != nil {
				for _, a := range appended(ev.res, ev.args[0]) {
					if a == st.T["key"] {
						st.Set("collected", "1")
					}
				}
			}
		case EvGo:
			f, _ := boundTo(ev.dyn)
			if ev.name == serve || f != nil && (fname(f) == serve || p.reaches(f, false, callsTo(serve))) {
				if st.R["registered"] == "" {
					p.viol(st, ev, "served", "gNMI server", "the server starts serving before the gNMI service is registered")
				}
				st.Set("serving", "1")
			}
		case EvCall:
			if ev.calls(serve) {
				st.Set("serving", "1")
			}
			if st.gor == "" && ev.calls("(*google.golang.org/grpc.Server).Serve") && st.R["registered"] == "" {
				p.viol(st, ev, "served", "gNMI server", "the server starts serving before the gNMI service is registered")
			}
		case EvRecv:
			// the collector runs until its context ends
			p.ob("served", "run")
			for _, w := range [][2]string{{"wired", "the change feed is not forwarded to subscribers"}, {"registered", "no gNMI service is registered"}, {"serving", "the server does not serve"}, {"ranged", "the configured targets are not started"}} {
				if st.R[w[0]] == "" && st.gor == "" && (w[0] != "ranged" || st.R["nothing"] == "") {
					p.viol(st, ev, "served", "run", "the collector runs although %s", w[1])
				}
			}
		}
	}
	r.Back = func(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
		for b := range body {
			if b.String()+b.Parent().String() == st.R["rngblk"] {
				endIter(st)
				return
			}
		}
	}
	r.Exit = func(st *State, res []*Term) {
		if st.R["iter"] != "" && st.gor == "" {
			p.exitViol(st, "target-added", "targets", "starting the configured targets ends before the last one")
		}
	}
	p.explore(r, fn, nil)
	p.need("one-cache", 1)
	p.need("feed-wired", 1)
	p.need("target-added", 2)
	p.need("served", 2)
	p.need("callback", 5)
	return update
}

// mayskip: there is nothing to subscribe to for this target.
func (g *relayRules) mayskip(st *State, t *Term) bool {
	if st.decideNil(t) == yes {
		return true
	}
	isReq := func(a *Term) bool {
		return (a.op == OMapOk || a.op == OMapElem) && loadOf(a.args[0], "target.Configuration.Request")
	}
	for a, v := range st.f.atoms {
		if a.op == OLoad && a.args[0].op == OMapOk && isReq(a.args[0]) && !v {
			return true
		}
		if v && a.op == OBin && a.tok == token.EQL && (a.args[0].op == ONil || a.args[1].op == ONil) && a.containsIf(isReq) {
			return true
		}
	}
	return false
}

func (g *relayRules) isCache(st *State, t *Term) bool {
	c := st.T["cache"]
	return c != nil && asOf(t) == asOf(c) || loadOf(asOf(t), collPkg+".collector.cache") || loadOf(asOf(t), "main.collector.cache")
}

func (g *relayRules) added(st *State, ev *Event, c *Call, f func(string) string) {
	p := g.p
	p.ob("target-added", "manager.Add")
	if asOf(c.args[0]) != asOf(st.T["tm"]) && !loadOf(asOf(c.args[0]), "main.collector.tm") {
		p.viol(st, ev, "target-added", "manager.Add", "%s is not the manager that feeds the cache", c.args[0])
	}
	id := c.args[1]
	if st.T["known"] != id {
		p.viol(st, ev, "known-first", "manager.Add", "the target's subscription starts before the cache knows the target: what it streams is dropped")
	}
	p.ob("known-first", "manager.Add")
	if st.R["wired"] == "" {
		p.viol(st, ev, "feed-wired", "manager.Add", "the target's subscription starts before the change feed is in place: subscribers may miss updates")
	}
	if st.R["iter"] != "" {
		if id != st.T["key"] {
			p.viol(st, ev, "target-added", "manager.Add", "the target is added as %s, not under its configured name", id)
		}
		if asOf(c.args[2]) != asOf(st.T["tgt"]) {
			p.viol(st, ev, "target-added", "manager.Add", "%s is added, not the configured target", c.args[2])
		}
	}
	q := asOf(c.args[3])
	if st.R["iter"] == "" && q.containsIf(func(t *Term) bool { return t.op == OOpaque && strings.Contains(t.sym, ";loop.") }) {
		// joined over the rounds of a loop that is not the one over the targets
		st.Set("added", "1")
		return
	}
	if q.op != OLoad || q.args[0].op != OMapElem || !loadOf(q.args[0].args[0], f("Request")) || asOf(q.args[0].args[1]) != asOf(st.get(c.args[2], "Request")) {
		p.viol(st, ev, "target-added", "manager.Add", "the target is subscribed to with %s, not with the request its configuration names", c.args[3])
	}
	st.Set("added", "1")
}

// config: the callbacks the target manager is given act on the cache.
func (g *relayRules) config(st *State, ev *Event, cfg *Term, update **ssa.Function) {
	p := g.p
	for _, n := range []string{"Reset", "Sync", "Connect", "ConnectError"} {
		v := st.fieldOf(cfg, n)
		f, recv := boundTo(v)
		p.ob("callback", n)
		if f == nil {
			p.viol(st, ev, "callback", n, "Config.%s is %s: the cache does not learn of it", n, v)
			continue
		}
		if recv == nil {
			// a function of the collector: it must reach the cache's operation
			if !p.reaches(f, false, callsTo("(*"+module+"/cache.Cache)."+n)) {
				p.viol(st, ev, "callback", n, "Config.%s does not reach the cache's %s", n, n)
			}
		} else if f != p.fn("cache", "Cache."+n) || !g.isCache(st, recv) {
			p.viol(st, ev, "callback", n, "Config.%s is %s, not %s of the cache", n, trimMod(fname(f)), n)
		}
	}
	v := st.fieldOf(cfg, "Update")
	p.ob("callback", "Update")
	f, _ := boundTo(v)
	if f == nil || len(f.Blocks) == 0 {
		p.viol(st, ev, "callback", "Update", "Config.Update is %s: what targets stream is not stored", v)
		return
	}
	*update = f
}

// stamp: every received notification goes into the cache once, under the name
// the target is configured with, its origin defaulted, otherwise unchanged.
func (g *relayRules) stamp(fn *ssa.Function) {
	p := g.p
	const name = "Update callback"
	r := &Rule{}
	r.Prim = func(f *ssa.Function) bool { return p.inRepo(f) && f.Pkg != fn.Pkg && !p.generated(f) }
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		if trimMod(c.name) != "(*cache.Cache).GnmiUpdate" {
			return nil, false
		}
		ev := &Event{instr: c.instr}
		p.ob("stamp", name)
		st.Count("stored")
		n := asOf(c.args[1])
		v := st.T["v"]
		if uncloned(n) != v {
			p.viol(st, ev, "stamp", name, "%s is stored, not the received notification", n)
			return nil, false
		}
		pre := st.get(n, "Prefix")
		if st.decideNil(pre) == yes {
			p.viol(st, ev, "stamp", name, "a notification without prefix is passed on: the cache rejects it")
			return nil, false
		}
		if t := st.get(pre, "Target"); t != st.T["target"] && st.decide(mkEq(t, st.T["target"])) != yes {
			p.viol(st, ev, "stamp", name, "a notification is stored under target %s, not under the name of the target it came from", t)
		}
		o, o0 := st.get(pre, "Origin"), st.T["origin"]
		oc := mkStr("openconfig")
		had := st.decideNil(st.T["prefix"]).not()
		empty := st.decide(mkEq(o0, mkStr("")))
		if empty == unknown {
			if e := st.decide(mkEq(mkLen(o0), mkInt(0))); e != unknown {
				empty = e
			}
		}
		ok := false
		switch {
		case had == no || empty == yes:
			ok = o == oc
		case had == yes && empty == no:
			ok = uncloned(o) == o0
		}
		if !ok {
			p.viol(st, ev, "stamp", name, "a notification's origin becomes %s: a given origin is kept, an empty one is openconfig", o)
		}
		for _, f := range []string{"Update", "Delete", "Timestamp", "Atomic"} {
			if x := st.get(n, f); uncloned(x) != st.T["v."+f] {
				p.viol(st, ev, "stamp", name, "%s of a notification is changed before it is stored (%s)", f, x)
			}
		}
		if had != no {
			for _, f := range []string{"Elem", "Element"} {
				if x := st.get(pre, f); uncloned(x) != st.T["p."+f] {
					p.viol(st, ev, "stamp", name, "the prefix path of a notification is changed before it is stored (%s)", x)
				}
			}
		}
		return nil, false
	}
	r.Exit = func(st *State, res []*Term) {
		if st.gor != "" {
			return
		}
		if st.R["stored"] != "1" {
			p.exitViol(st, "stamp", name, "a received notification is passed to the cache %s times on this path", map[bool]string{true: "no", false: "several"}[st.R["stored"] == ""])
		}
	}
	r.Go = func(st *State, ev *Event) bool {
		p.viol(st, ev, "stamp", name, "notifications are stored by a goroutine of their own: their order is lost")
		return true
	}
	p.explore(r, fn, func(st *State, ps []*Term) {
		for _, q := range ps {
			if isString(q.typ) {
				st.SetT("target", q)
			} else if strings.HasSuffix(typeKey(q.typ), "gnmi.Notification") {
				st.SetT("v", q)
				st.assume(mkEq(q, mkNil()), false)
				pre := st.get(q, "Prefix")
				st.SetT("prefix", pre)
				st.SetT("origin", st.get(pre, "Origin"))
				for _, f := range []string{"Elem", "Element"} {
					st.SetT("p."+f, st.get(pre, f))
				}
				for _, f := range []string{"Update", "Delete", "Timestamp", "Atomic"} {
					st.SetT("v."+f, st.get(q, f))
				}
			}
		}
	})
	p.need("stamp", 1)
}

// session: what the manager receives reaches its callbacks.
func (g *relayRules) session() {
	p := g.p
	isRecv := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Recv"
	}
	hands := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok || c.Common().IsInvoke() {
			return false
		}
		u, ok := c.Common().Value.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && lastPart(fieldAddrName(fa)) == "update"
	}
	roots := map[*ssa.Function]bool{}
	var order []*ssa.Function
	for _, fn := range p.repoFuncs() {
		if fn.Pkg != p.ssa["manager"] {
			continue
		}
		hit := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				hit = hit || isRecv(in)
			}
		}
		if !hit {
			continue
		}
		// from where a message is received to where it is handed on
		seen := map[*ssa.Function]bool{}
		var climb func(f *ssa.Function)
		climb = func(f *ssa.Function) {
			for f.Parent() != nil {
				f = f.Parent()
			}
			if seen[f] {
				return
			}
			seen[f] = true
			up := 0
			if !p.reaches(f, false, hands) {
				for _, c := range p.repoFuncs() {
					if c.Pkg == f.Pkg && c != f && p.reaches(c, false, func(in ssa.Instruction) bool {
						k, ok := in.(ssa.CallInstruction)
						return ok && in.Parent() == c && k.Common().StaticCallee() == f
					}) {
						up++
						climb(c)
					}
				}
			}
			if up == 0 && !roots[f] {
				roots[f] = true
				order = append(order, f)
			}
		}
		climb(fn)
	}
	for _, f := range order {
		g.receive(f)
	}
	p.need("relayed", 1)
}

func (g *relayRules) receive(fn *ssa.Function) {
	p := g.p
	name := "manager." + fn.Name()
	updT := types.NewPointer(p.namedType("proto/gnmi", "SubscribeResponse_Update"))
	syncT := types.NewPointer(p.namedType("proto/gnmi", "SubscribeResponse_SyncResponse"))
	r := &Rule{}
	r.Prim = func(f *ssa.Function) bool { return p.inRepo(f) && f.Pkg != fn.Pkg && !p.generated(f) }
	done := func(st *State, ev *Event, in ssa.Instruction) {
		resp := st.T["resp"]
		if resp == nil {
			return
		}
		st.SetT("resp", nil)
		body := st.get(resp, "Response")
		switch {
		case st.R["up"] == "" && st.decide(mkTypeIs(body, updT)) != no && st.decideNil(body) != yes && !g.noCallback(st, "update"):
			p.report("relayed", name, "a received update is not handed on on this path", st, in)
		case st.R["sy"] == "" && st.decide(mkTypeIs(body, syncT)) != no && st.decideNil(body) != yes && !g.noCallback(st, "sync"):
			p.report("relayed", name, "a received sync is not handed on on this path", st, in)
		}
		st.Set("up", "")
		st.Set("sy", "")
	}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		ev := &Event{instr: c.instr}
		if c.invoke && strings.HasSuffix(c.name, ".Recv") {
			p.ob("relayed", name)
			done(st, ev, c.instr)
			res := st.fresh(c.instr, "recv", st.x.resType(c))
			return []Outcome{
				{res: mkTuple(res.args[0], mkNil()), do: func(s *State) bool {
					s.SetT("resp", res.args[0])
					return s.assume(mkEq(res.args[0], mkNil()), false)
				}, key: "msg"},
				{res: res, do: func(s *State) bool { return s.assume(mkEq(res.args[1], mkNil()), false) }, key: "err"},
			}, true
		}
		if c.dyn != nil {
			switch f, _ := asOf(c.dyn).loadedField(); lastPart(f) {
			case "update":
				if st.R["up"] != "" {
					p.viol(st, ev, "relayed", name, "one received update is handed on twice")
				}
				st.Set("up", "1")
			case "sync":
				st.Set("sy", "1")
			}
		}
		return nil, false
	}
	r.Exit = func(st *State, res []*Term) {
		if st.gor == "" {
			done(st, nil, nil)
		}
	}
	p.explore(r, fn, nil)
}

// noCallback: there is nobody to hand the message to.
func (g *relayRules) noCallback(st *State, field string) bool {
	for a, v := range st.f.atoms {
		if v && a.op == OBin && a.tok == token.EQL && (a.args[0].op == ONil || a.args[1].op == ONil) && a.containsIf(func(t *Term) bool {
			f, _ := t.loadedField()
			return strings.HasPrefix(f, "manager.") && lastPart(f) == field
		}) {
			return true
		}
	}
	return false
}

// decode: every update and delete of a received message becomes one
// notification with the full path, the value and the time.
func (g *relayRules) decode() {
	p := g.p
	const name = "Client.defaultRecv"
	fn := p.mustFn("client/gnmi", name)
	if fn == nil {
		return
	}
	updT := p.namedType("client", "Update")
	delT := p.namedType("client", "Delete")
	synT := p.namedType("client", "Sync")
	isOf := func(t *Term, T types.Type) bool { return t.op == OIface && types.Identical(t.typ, T) }
	r := &Rule{Unroll: 2}
	r.Prim = func(f *ssa.Function) bool { return p.inRepo(f) && f.Pkg != fn.Pkg && !p.generated(f) }
	r.Pure = func(n string) bool { return trimMod(n) == "path.ToStrings" }
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		ev := &Event{instr: c.instr}
		switch {
		case trimMod(c.name) == "path.ToStrings" && c.args[1] == mkBool(true):
			st.Set("pre", "1") // a list of its own
		case trimMod(c.name) == "value.ToScalar":
			v := st.fresh(c.instr, "scalar", st.x.resType(c))
			val := mkPure("scalar", v.args[0].typ, c.args[0])
			return []Outcome{{res: mkTuple(val, mkNil()), key: "ok"}, {res: v, do: func(s *State) bool { return s.assume(mkEq(v.args[1], mkNil()), false) }, key: "err"}}, true
		case c.name == "encoding/json.Unmarshal":
			st.SetT("json", c.args[0])
		}
		if c.dyn == nil || len(c.args) != 1 {
			return nil, false
		}
		if f, _ := asOf(c.dyn).loadedField(); lastPart(f) != "handler" {
			return nil, false
		}
		n := c.args[0]
		noti := st.T["n"]
		full := func(what string, v *Term, pp *Term) {
			path := st.fieldOf(v, "Path")
			ps, base := st.listParts(path)
			if base != nil && base.op != OAlloc && base.op != ONil {
				ps = append([]*Term{spread(base)}, ps...)
			}
			var got []*Term
			for _, q := range ps {
				if q.op == OPure && q.sym == "spread" {
					q = q.args[0]
				}
				got = append(got, asOf(q))
			}
			if len(got) != 2 || !g.toStr(got[0], st.get(noti, "Prefix"), true) || !g.toStr(got[1], pp, false) {
				p.viol(st, ev, "decoded", name, "%s is reported at %s, not at the message's prefix and its own path", what, termList(got))
			}
			if b := listRoot(path); !freshCell(path) && (b.op != OPure || st.R["pre"] == "" || got[0] != asOf(b)) {
				p.viol(st, ev, "decoded", name, "the path reported shares memory with another one (%s)", path)
			}
			st.Set("pre", "")
			ts := st.fieldOf(v, "TS")
			if ts.op != OTime || asOf(ts.args[0]) != st.get(noti, "Timestamp") {
				p.viol(st, ev, "decoded", name, "%s is reported with time %s, not the message's", what, ts)
			}
		}
		switch {
		case isOf(n, updT):
			p.ob("decoded", "update")
			v := n.args[0]
			up := g.owner(st, st.fieldOf(v, "Path"))
			if up == nil {
				p.viol(st, ev, "decoded", name, "an update is reported that none of the message's updates accounts for (%s)", v)
				return nil, false
			}
			full("an update", v, st.get(up, "Path"))
			val := st.fieldOf(v, "Val")
			if val.op == OIface {
				val = val.args[0]
			}
			uv, old := st.get(up, "Val"), st.get(up, "Value")
			hasVal := st.decideNil(uv).not()
			switch {
			case hasVal == yes && (val.op != OPure || val.sym != "scalar" || val.args[0] != uv):
				p.viol(st, ev, "decoded", name, "an update is reported with %s, not with its value", val)
			case hasVal == unknown:
				p.viol(st, ev, "decoded", name, "an update is reported without looking at its value")
			case hasVal == no && val != st.get(old, "Value") && st.T["json"] != st.get(old, "Value"):
				p.viol(st, ev, "decoded", name, "an update is reported with %s, not with its (deprecated) value", val)
			}
			st.coverNext("upd", st.get(noti, "Update"), up)
		case isOf(n, delT):
			p.ob("decoded", "delete")
			v := n.args[0]
			d := g.delPath(st, v)
			if d == nil {
				p.viol(st, ev, "decoded", name, "a delete is reported that none of the message's deletes accounts for (%s)", v)
				return nil, false
			}
			full("a delete", v, d)
			st.coverNext("del", st.get(noti, "Delete"), d)
		case isOf(n, synT):
			p.ob("decoded", "sync")
			st.Set("synced", "1")
		case st.isNilT(n):
			// an update without a value
			st.coverNext("upd", st.get(noti, "Update"), nil)
		}
		return nil, false
	}
	r.Exit = func(st *State, res []*Term) {
		if st.gor != "" || st.decideNil(res[0]) != yes {
			// a message that is not understood, or the end of the answer
			return
		}
		body := st.get(st.T["resp"], "Response")
		u := types.NewPointer(p.namedType("proto/gnmi", "SubscribeResponse_Update"))
		if st.decide(mkTypeIs(body, u)) == yes {
			for _, k := range [][2]string{{"upd", "Update"}, {"del", "Delete"}} {
				if !st.coverDone(k[0], st.get(st.T["n"], k[1])) {
					p.exitViol(st, "decoded", name, "a message is accepted although not every entry of its %s list was reported", k[1])
				}
			}
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) {
		respT := types.NewPointer(p.namedType("proto/gnmi", "SubscribeResponse"))
		u := types.NewPointer(p.namedType("proto/gnmi", "SubscribeResponse_Update"))
		resp := mkPure("as:"+typeKey(respT), respT, ps[1])
		st.SetT("resp", resp)
		body := st.get(resp, "Response")
		w := mkPure("as:"+typeKey(u), u, body)
		st.SetT("n", st.get(w, "Update"))
	})
	p.need("decoded", 3)
}

func listRoot(t *Term) *Term {
	for t.op == OAppend || t.op == OSlice {
		t = t.args[0]
	}
	return t
}

func (g *relayRules) toStr(t, path *Term, prefix bool) bool {
	return t.op == OPure && trimMod(t.sym) == "path.ToStrings" && len(t.args) == 2 && asOf(t.args[0]) == asOf(path) && t.args[1] == mkBool(prefix)
}

// owner: the update whose path a reported path ends with.
func (g *relayRules) owner(st *State, path *Term) *Term {
	if q := g.lastPath(st, path); q != nil {
		if f, b := q.loadedField(); f == "gnmi.Update.Path" {
			return b
		}
	}
	return nil
}

func (g *relayRules) delPath(st *State, v *Term) *Term { return g.lastPath(st, st.fieldOf(v, "Path")) }

func (g *relayRules) lastPath(st *State, path *Term) *Term {
	ps, _ := st.listParts(path)
	if len(ps) == 0 {
		return nil
	}
	q := ps[len(ps)-1]
	if q.op == OPure && q.sym == "spread" {
		q = q.args[0]
	}
	q = asOf(q)
	if q.op == OPure && trimMod(q.sym) == "path.ToStrings" {
		return asOf(q.args[0])
	}
	return nil
}

// cached: the caching client keeps what it is told.
func (g *relayRules) cached() {
	p := g.p
	const name = "CacheClient.defaultHandler"
	fn := p.mustFn("client", name)
	if fn == nil {
		return
	}
	updT, delT := p.namedType("client", "Update"), p.namedType("client", "Delete")
	tv := p.namedType("client", "TreeVal")
	r := &Rule{Prim: func(q *ssa.Function) bool { return q.Pkg != fn.Pkg }}
	r.Event = func(st *State, ev *Event) {
		if ev.kind != EvCall {
			return
		}
		n := st.T["n"]
		switch trimMod(ev.name) {
		case "(*ctree.Tree).Add":
			p.ob("cached", "update")
			u := mkPure("as:"+typeKey(updT), updT, n)
			st.Count("add")
			if asOf(ev.args[1]) != asOf(st.fieldOf(u, "Path")) {
				p.viol(st, ev, "cached", name, "an update is kept at %s, not at its path", ev.args[1])
			}
			v := ev.args[2]
			if v.op != OIface || !types.Identical(v.typ, tv) {
				p.viol(st, ev, "cached", name, "an update is kept as %s: Leaves does not find it", v)
			} else {
				for _, f := range []string{"TS", "Val"} {
					if x := st.fieldOf(v.args[0], f); asOf(x) != asOf(st.fieldOf(u, f)) {
						p.viol(st, ev, "cached", name, "an update is kept with %s %s, not its own", f, x)
					}
				}
			}
		case "(*ctree.Tree).Delete":
			p.ob("cached", "delete")
			st.Count("del")
			if asOf(ev.args[1]) != asOf(st.fieldOf(mkPure("as:"+typeKey(delT), delT, n), "Path")) {
				p.viol(st, ev, "cached", name, "a delete removes %s, not its path", ev.args[1])
			}
		}
	}
	r.Exit = func(st *State, res []*Term) {
		if st.gor != "" {
			return
		}
		n := st.T["n"]
		u, d := st.decide(mkTypeIs(n, updT)), st.decide(mkTypeIs(n, delT))
		isNil := st.decideNil(n) == yes
		switch {
		case u != no && !isNil && d != yes && st.R["add"] != "1":
			p.exitViol(st, "cached", name, "an update is not kept on this path")
		case d != no && !isNil && u != yes && st.R["del"] != "1" && u == no:
			p.exitViol(st, "cached", name, "a delete does not remove anything on this path")
		case u == no && st.R["add"] != "" || d == no && st.R["del"] != "":
			p.exitViol(st, "cached", name, "the cached leaves change although no update or delete was received")
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) { st.SetT("n", ps[1]) })
	p.need("cached", 2)
}

// asked: the gNMI client sends the request it was given, or the one made from
// the query, once, and reports to the query's handler.
func (g *relayRules) asked() {
	p := g.p
	const name = "Client.Subscribe"
	fn := p.mustFn("client/gnmi", name)
	if fn == nil {
		return
	}
	r := &Rule{Prim: func(q *ssa.Function) bool {
		return q.Pkg != fn.Pkg || strings.Contains(strings.ToLower(q.Name()), "subscribe")
	}}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		ev := &Event{instr: c.instr}
		if (c.fn != nil && p.inRepo(c.fn) && c.fn.Pkg == fn.Pkg || c.dyn != nil) && c.sig.Results().Len() == 2 {
			if len(c.args) == 1 && asOf(st.fieldOf(c.args[0], "Queries")) == asOf(st.fieldOf(st.T["q"], "Queries")) {
				res := st.fresh(c.instr, "made", st.x.resType(c))
				return []Outcome{{res: mkTuple(res.args[0], mkNil()), do: func(s *State) bool { s.SetT("made", res.args[0]); return true }, key: "ok"},
					{res: res, do: func(s *State) bool { return s.assume(mkEq(res.args[1], mkNil()), false) }, key: "err"}}, true
			}
			return nil, false
		}
		if c.invoke && strings.HasSuffix(c.name, ".Send") {
			p.ob("asked", name)
			st.Count("sent")
			sub := st.fieldOf(st.T["q"], "SubReq")
			a := asOf(c.args[1])
			given := st.decideNil(sub).not()
			if !(given == yes && a == asOf(sub) || given == no && st.T["made"] != nil && a == st.T["made"]) {
				p.viol(st, ev, "asked", name, "%s is sent, not the query's request", a)
			}
		}
		return nil, false
	}
	r.Exit = func(st *State, res []*Term) {
		if st.gor != "" || st.decideNil(res[0]) == no {
			return
		}
		if st.R["sent"] != "1" {
			p.exitViol(st, "asked", name, "subscribing succeeds although the request was not sent exactly once")
		}
		q := st.T["q"]
		ph := st.fieldOf(q, "ProtoHandler")
		h, rv := st.get(st.T["c"], "handler"), st.get(st.T["c"], "recv")
		if st.decideNil(ph) != no {
			f, _ := boundTo(rv)
			if asOf(h) != asOf(st.fieldOf(q, "NotificationHandler")) || f == nil || f.Name() != "defaultRecv" {
				p.exitViol(st, "asked", name, "messages are not decoded for the query's handler (%s)", h)
			}
		} else if asOf(rv) != asOf(ph) {
			p.exitViol(st, "asked", name, "messages are not handed to the query's handler of raw messages (%s)", rv)
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) {
		st.SetT("c", ps[0])
		st.SetT("q", ps[len(ps)-1])
	})
	p.need("asked", 1)
}

// query: the query made from a request asks for the same.
func (g *relayRules) query() {
	p := g.p
	const name = "NewQuery"
	fn := p.mustFn("client", name)
	if fn == nil {
		return
	}
	subT := types.NewPointer(p.namedType("proto/gnmi", "SubscribeRequest_Subscribe"))
	r := &Rule{Unroll: 2}
	r.Pure = func(n string) bool { return trimMod(n) == "path.ToStrings" }
	r.Event = func(st *State, ev *Event) {
		add := func(a *Term) {
			a = asOf(a)
			if a.op != OPure || trimMod(a.sym) != "path.ToStrings" || a.args[1] != mkBool(false) {
				p.viol(st, ev, "converted", name, "%s is asked for, which is not a path of the request", a)
				return
			}
			if f, b := a.args[0].loadedField(); f == "gnmi.Subscription.Path" {
				if m := st.coverNext("subs", st.get(st.T["s"], "Subscription"), b); m != "" {
					p.viol(st, ev, "converted", name, "%s", m)
				}
			} else {
				p.viol(st, ev, "converted", name, "%s is asked for, which is not a path of the request", a)
			}
		}
		switch {
		case ev.kind == EvAppend && ev.res != nil && strings.HasSuffix(typeKey(ev.res.typ), "client.Path"):
			for _, a := range appended(ev.res, ev.args[0]) {
				add(a)
			}
		case ev.kind == EvStore && ev.addr.op == OIndex && strings.HasSuffix(typeKey(pointee(ev.addr)), "client.Path") && !varargs(ev):
			add(ev.val)
		}
	}
	r.Exit = func(st *State, res []*Term) {
		if st.decideNil(res[1]) == no {
			sub := st.T["s"]
			if st.decide(mkTypeIs(st.get(st.T["sr"], "Request"), subT)) == yes && st.decideNil(sub) == no && st.decideNil(st.get(sub, "Prefix")) == no {
				p.exitViol(st, "converted", name, "a well-formed request is rejected")
			}
			return
		}
		p.ob("converted", name)
		q, s := res[0], st.T["s"]
		if v := st.fieldOf(q, "SubReq"); asOf(v) != st.T["sr"] {
			p.exitViol(st, "converted", name, "the query's request is %s, not the one given", v)
		}
		if v := st.fieldOf(q, "Target"); asOf(v) != st.get(st.get(s, "Prefix"), "Target") {
			p.exitViol(st, "converted", name, "the query's target is %s, not the request's", v)
		}
		for _, f := range []string{"UpdatesOnly", "Encoding"} {
			if v := st.fieldOf(q, f); asOf(v) != st.get(s, f) {
				p.exitViol(st, "converted", name, "the query's %s is %s, not the request's", f, v)
			}
		}
		for _, m := range [][2]string{{"ONCE", "Once"}, {"POLL", "Poll"}, {"STREAM", "Stream"}} {
			if v, w := p.constInt("proto/gnmi", "SubscriptionList_"+m[0]), p.constInt("client", m[1]); v != nil && w != nil {
				if st.decide(mkEq(st.get(s, "Mode"), v)) == yes {
					k, ok := st.fieldOf(q, "Type").intVal()
					if n, _ := w.intVal(); !ok || k != n {
						p.exitViol(st, "converted", name, "a %s request becomes a query of type %s", m[0], st.fieldOf(q, "Type"))
					}
				}
			}
		}
		if !st.coverDone("subs", st.get(s, "Subscription")) {
			p.exitViol(st, "converted", name, "subscriptions of the request are left out")
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) {
		st.SetT("sr", ps[0])
		st.SetT("s", st.get(mkPure("as:"+typeKey(subT), subT, st.get(ps[0], "Request")), "Subscribe"))
	})
	p.need("converted", 1)
}

// flagVar is the variable a command-line flag is bound to.
func (g *relayRules) flagVar(pkg, flag string) *ssa.Global {
	sp := g.p.ssa[pkg]
	if sp == nil {
		return nil
	}
	f := sp.Func("init")
	if f == nil {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			gl, ok := st.Addr.(*ssa.Global)
			if !ok {
				continue
			}
			if c, ok := st.Val.(*ssa.Call); ok && len(c.Call.Args) > 0 {
				if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == flag {
					return gl
				}
			}
		}
	}
	return nil
}

// command: the subscription asked for on the command line is the one made,
// however it is given.
func (g *relayRules) command() {
	p := g.p
	const pk, name = "cmd/gnmi_cli", "executeSubscribe"
	fn := p.mustFn(pk, name)
	if fn == nil {
		return
	}
	file, text, kind := g.flagVar(pk, "proto_file"), g.flagVar(pk, "proto"), g.flagVar(pk, "query_type")
	if file == nil || text == nil || kind == nil {
		p.report("anchor", pk, "the flags -proto, -proto_file and -query_type no longer exist", nil, nil)
		return
	}
	isFlag := func(t *Term, gl *ssa.Global) bool {
		t = asOf(t)
		return t.op == OLoad && t.args[0].op == OLoad && t.args[0].args[0].op == OGlobal && t.args[0].args[0].sym == gl.String()
	}
	r := &Rule{Unroll: 2}
	r.Prim = func(f *ssa.Function) bool { return p.inRepo(f) && f.Pkg != fn.Pkg }
	flagVal := func(st *State, gl *ssa.Global) *Term {
		v := st.load(tab.get(Term{op: OGlobal, sym: gl.String(), glob: gl, typ: gl.Type()}), deref(gl.Type()))
		return st.load(v, types.Typ[types.String])
	}
	// empty: whether the flag is unset
	empty := func(st *State, gl *ssa.Global) tri {
		v := flagVal(st, gl)
		if r := st.decide(mkEq(mkLen(v), mkInt(0))); r != unknown {
			return r
		}
		return st.decide(mkEq(v, mkStr("")))
	}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		ev := &Event{instr: c.instr}
		switch n := trimMod(c.name); {
		case n == "os.ReadFile" || n == "io/ioutil.ReadFile":
			if !isFlag(c.args[0], file) {
				p.viol(st, ev, "command", name, "%s is read, not the file named by -proto_file", c.args[0])
			}
			res := st.fresh(c.instr, "file", st.x.resType(c))
			return []Outcome{{res: mkTuple(res.args[0], mkNil()), do: func(s *State) bool { s.SetT("file", res.args[0]); return true }, key: "ok"},
				{res: res, do: func(s *State) bool { return s.assume(mkEq(res.args[1], mkNil()), false) }, key: "err"}}, true
		case n == "cli.ParseSubscribeProto":
			p.ob("command", "-proto")
			a := asOf(c.args[0])
			fe, te := empty(st, file), empty(st, text)
			switch {
			case st.T["file"] != nil:
				if !a.contains(st.T["file"]) {
					p.viol(st, ev, "command", name, "%s is asked for, not the contents of -proto_file", a)
				}
			case fe != yes:
				p.viol(st, ev, "command", name, "-proto_file is ignored on this path")
			case !isFlag(a, text):
				p.viol(st, ev, "command", name, "%s is asked for, not the request given by -proto", a)
			}
			_ = te
			res := st.fresh(c.instr, "parsed", st.x.resType(c))
			return []Outcome{{res: mkTuple(res.args[0], mkNil()), do: func(s *State) bool { s.SetT("parsed", res.args[0]); return true }, key: "ok"},
				{res: res, do: func(s *State) bool { return s.assume(mkEq(res.args[1], mkNil()), false) }, key: "err"}}, true
		case strings.HasSuffix(n, "gnmi_cli.parseQuery") || n == "main.parseQuery":
			if m := st.coverNext("paths", g.queryList(c.args[0]), nil); m != "" {
				p.viol(st, ev, "command", name, "%s", m)
			}
			st.SetT("paths", g.queryList(c.args[0]))
			res := st.fresh(c.instr, "query", st.x.resType(c))
			return []Outcome{{res: mkTuple(res.args[0], mkNil()), do: func(s *State) bool { s.SetT("query", res.args[0]); return true }, key: "ok"},
				{res: res, do: func(s *State) bool { return s.assume(mkEq(res.args[1], mkNil()), false) }, key: "err"}}, true
		case n == "cli.QueryType":
			if !isFlag(c.args[0], kind) {
				p.viol(st, ev, "command", name, "the type of the query is taken from %s, not from -query_type", c.args[0])
			}
			res := st.fresh(c.instr, "kind", st.x.resType(c))
			st.SetT("kind", res)
			return one(res), true
		case n == "cli.QueryDisplay":
			p.ob("command", "displayed")
			st.Count("asked")
			q := c.args[1]
			if pq := st.T["parsed"]; pq != nil {
				for _, f := range []string{"SubReq", "Queries", "Target", "Type", "UpdatesOnly", "Encoding"} {
					if v := st.fieldOf(q, f); asOf(v) != asOf(st.fieldOf(pq, f)) {
						p.viol(st, ev, "command", name, "%s of the given request becomes %s", f, v)
					}
				}
				for _, f := range []string{"Addrs", "Credentials", "TLS", "Timeout"} {
					if a := st.fieldOf(q, f); asOf(a) == asOf(st.fieldOf(pq, f)) {
						p.viol(st, ev, "command", name, "a request given as a proto is made without the %s given by flags", f)
					}
				}
			} else {
				for _, gl := range []*ssa.Global{file, text} {
					if f := st.T["file"]; f != nil && st.proves(mkEq(mkLen(f), mkInt(0)), true) {
						break // an empty file asks for nothing
					}
					if empty(st, gl) != yes {
						p.viol(st, ev, "command", name, "the request given by %s is ignored on this path", gl.Name())
					}
				}
				p.ob("command", "-query")
				if v := st.fieldOf(q, "Type"); st.T["kind"] == nil || asOf(v) != st.T["kind"] {
					p.viol(st, ev, "command", name, "the query's type is %s, not the one given by -query_type", v)
				}
				if l := st.T["paths"]; l == nil || !st.coverDone("paths", l) || st.R["cov.paths"] != st.R["kept"] {
					p.viol(st, ev, "command", name, "paths given by -query are left out")
				}
				for _, f := range []string{"SubReq", "ProtoHandler"} {
					_ = f
				}
			}
			res := st.fresh(c.instr, "shown", st.x.resType(c))
			st.SetT("shown", res)
			return one(res), true
		}
		return nil, false
	}
	r.Event = func(st *State, ev *Event) {
		kept := func(a *Term) {
			if asOf(a) != st.T["query"] {
				p.viol(st, ev, "command", name, "%s is asked for, which is not a parsed -query path", a)
				return
			}
			st.Set("kept", st.R["cov.paths"])
		}
		if ev.kind == EvAppend && ev.res != nil && strings.HasSuffix(typeKey(ev.res.typ), "client.Path") {
			for _, a := range appended(ev.res, ev.args[0]) {
				kept(a)
			}
		}
	}
	r.Exit = func(st *State, res []*Term) {
		if st.gor != "" || st.decideNil(res[0]) == no && res[0] != st.T["shown"] {
			return
		}
		if st.R["asked"] != "1" || res[0] != st.T["shown"] && st.decideNil(st.T["shown"]) != yes {
			p.exitViol(st, "command", name, "the command succeeds although the query was not run once and its error returned")
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) {
		st.SetT("-proto", flagVal(st, text))
		st.SetT("-proto_file", flagVal(st, file))
	})
	p.need("command", 3)

	// the -proto text
	const pn = "ParseSubscribeProto"
	fn = p.mustFn("cli", pn)
	if fn == nil {
		return
	}
	r = &Rule{Prim: func(f *ssa.Function) bool { return p.inRepo(f) }}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		ev := &Event{instr: c.instr}
		switch n := trimMod(c.name); {
		case strings.HasSuffix(n, "prototext.Unmarshal") || strings.HasSuffix(n, "prototext.UnmarshalOptions).Unmarshal"):
			k := len(c.args) - 2
			if !c.args[k].contains(st.T["p"]) {
				p.viol(st, ev, "command", pn, "%s is parsed, not the given text", c.args[k])
			}
			m := c.args[k+1]
			if m.op == OIface {
				m = m.args[0]
			}
			e := st.fresh(c.instr, "err", st.x.resType(c))
			return []Outcome{{res: mkNil(), do: func(s *State) bool { s.SetT("m", m); return true }, key: "ok"},
				{res: e, do: func(s *State) bool { return s.assume(mkEq(e, mkNil()), false) }, key: "err"}}, true
		case n == "client.NewQuery":
			p.ob("command", pn)
			if asOf(c.args[0]) != st.T["m"] {
				p.viol(st, ev, "command", pn, "%s is turned into a query, not the parsed request", c.args[0])
			}
			res := st.fresh(c.instr, "query", st.x.resType(c))
			st.SetT("nq", res)
			return one(res), true
		}
		return nil, false
	}
	r.Exit = func(st *State, res []*Term) {
		nq := st.T["nq"]
		if st.T["m"] == nil && st.decideNil(res[1]) == no {
			return
		}
		if nq == nil || res[0] != nq.args[0] || res[1] != nq.args[1] && st.decideNil(res[1]) != st.decideNil(nq.args[1]) {
			p.exitViol(st, "command", pn, "the request's query is not what is returned")
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) { st.SetT("p", ps[0]) })
}

// queryList is the list an element is taken from.
func (g *relayRules) queryList(t *Term) *Term {
	t = asOf(t)
	if t.op == OLoad && t.args[0].op == OIndex {
		return t.args[0].args[0]
	}
	return t
}

// shown: what the CLI walks or is told in a stream reaches its display.
func (g *relayRules) shown() {
	p := g.p
	const name = "displayWalk"
	fn := p.mustFn("cli", name)
	if fn == nil {
		return
	}
	tvT := p.namedType("client", "TreeVal")
	r := &Rule{Unroll: 1}
	r.Prim = func(f *ssa.Function) bool {
		return p.inRepo(f) && f.Pkg != fn.Pkg || f.Pkg == fn.Pkg && f != fn && f.Parent() == nil && f.Signature.Recv() != nil
	}
	isDisplay := func(c *Call) bool {
		if c.dyn == nil {
			return false
		}
		f, _ := asOf(c.dyn).loadedField()
		return f == "cli.Config.Display"
	}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		ev := &Event{instr: c.instr}
		switch n := trimMod(c.name); {
		case n == "(*ctree.Tree).WalkSorted" || n == "(*ctree.Tree).Walk":
			p.ob("shown", name)
			cb := asOf(c.args[1])
			var ts []*Term
			ps := under(cb.typ).(*types.Signature).Params()
			for i := 0; i < ps.Len(); i++ {
				ts = append(ts, st.fresh(c.instr, "walk"+itoa(i), ps.At(i).Type()))
			}
			st.Set("walked", "1")
			st.Set("leaf", "")
			st.SetT("path", ts[0])
			st.SetT("value", ts[2])
			return []Outcome{{run: &Invocation{fn: cb, args: ts}, key: "leaf", cont: func(x *Ex, s *State, ret *Term) {
				if s.decide(mkTypeIs(ts[2], tvT)) != no && s.R["leaf"] == "" {
					p.viol(s, ev, "shown", name, "a leaf the client holds is left out of the output on this path")
				}
				x.finish(s, c.instr, st.fresh(c.instr, "walkerr", st.x.resType(c)), c.isDef)
			}}, {res: st.fresh(c.instr, "walkerr", st.x.resType(c)), key: "none"}}, true
		case isDisplay(c):
			st.Set("disp", "1")
		}
		return nil, false
	}
	r.Event = func(st *State, ev *Event) {
		if ev.kind != EvCall && ev.kind != EvEnter || st.T["path"] == nil {
			return
		}
		at, val := false, false
		v := st.fieldOf(mkPure("as:"+typeKey(tvT), tvT, st.T["value"]), "Val")
		for _, a := range ev.args {
			if a == st.T["path"] || asOf(a) == st.T["path"] {
				at = true
			}
			if a.contains(v) {
				val = true
			} else if a.op == OIface && a.args[0].op == OAlloc {
				// a map of the value and its time
				for _, w := range st.store {
					val = val || w.contains(v)
				}
			}
		}
		if at && val && (ev.fn != nil && p.inRepo(ev.fn) || strings.Contains(ev.name, "cli.")) {
			st.Set("leaf", "1")
		}
	}
	r.Exit = func(st *State, res []*Term) {
		if st.gor == "" && (st.R["walked"] == "" || st.R["disp"] == "") {
			p.exitViol(st, "shown", name, "what the client holds is not displayed")
		}
	}
	p.explore(r, fn, nil)
	p.need("shown", 1)

	// the handlers of streams
	updT, delT, synT := p.namedType("client", "Update"), p.namedType("client", "Delete"), p.namedType("client", "Sync")
	for _, f := range p.repoFuncs() {
		if f.Pkg != p.ssa["cli"] || f.Parent() == nil || len(f.Params) != 1 || typeKey(f.Params[0].Type()) != module+"/client.Notification" {
			continue
		}
		nm := trimMod(fname(f.Parent()))
		walks := false
		for _, fv := range f.FreeVars {
			walks = walks || strings.Contains(typeKey(fv.Type()), "client.CacheClient")
		}
		r := &Rule{}
		r.Prim = func(h *ssa.Function) bool {
			return p.inRepo(h) && (h.Pkg != fn.Pkg || h == fn || h.Signature.Recv() != nil)
		}
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			if isDisplay(c) {
				st.Set("disp", "1")
			} else if c.dyn != nil && st.T["n"] != nil {
				// the function that formats one notification, handed in
				u := mkPure("as:"+typeKey(updT), updT, st.T["n"])
				d := mkPure("as:"+typeKey(delT), delT, st.T["n"])
				for _, a := range c.args {
					if a == st.fieldOf(u, "Path") || a == st.fieldOf(d, "Path") {
						st.Set("disp", "1")
					}
				}
			}
			return nil, false
		}
		r.Event = func(st *State, ev *Event) {
			if ev.calls("cli.displayWalk") {
				st.Set("walked", "1")
			}
		}
		r.Exit = func(st *State, res []*Term) {
			n := st.T["n"]
			if st.gor != "" || st.decideNil(n) == yes {
				return
			}
			for _, T := range []types.Type{updT, delT} {
				if st.decide(mkTypeIs(n, T)) == yes && st.R["disp"] == "" && !g.filtered(st) {
					p.exitViol(st, "shown", nm, "a received %s is not displayed on this path", trimMod(typeKey(T)))
				}
			}
			if walks && st.decide(mkTypeIs(n, synT)) == yes && st.R["walked"] == "" {
				p.exitViol(st, "shown", nm, "the state at the sync is not displayed")
			}
		}
		p.ob("shown", nm)
		p.explore(r, f, func(st *State, ps []*Term) { st.SetT("n", ps[0]) })
	}
	p.need("shown", 3)
}

// filtered: a condition the user set keeps the notification from the output.
func (g *relayRules) filtered(st *State) bool {
	hit := func(t *Term) bool {
		return t.containsIf(func(u *Term) bool {
			f, _ := u.loadedField()
			return strings.HasPrefix(f, "cli.Config.Filter")
		})
	}
	for a := range st.f.atoms {
		if hit(a) {
			return true
		}
	}
	return false
}

// components: the rules of what the glue connects, as far as they say that
// nothing is lost, added or stale.
func (g *relayRules) components() {
	p := g.p
	drop := map[string]bool{"guarded": true, "refresh": true, "latest-ts": true, "total": true, "closed-error": true, "insert-exit": true, "insert-count": true,
		"isclosed": true, "len": true, "handler-wait": true, "sender-exit": true, "walker-exit": true, "fresh-target": true, "close-after-sync": true,
		"refresh-all": true, "lifecycle": true, "backoff": true, "sub-context": true, "remove-deadlock": true, "own-goroutine": true, "lock-balance": true, "finish": true, "key": true, "silence": true, "size": true, "metadata-map": true}
	p.judged = func(rule, construct string) bool {
		if rule == "vacuous" {
			rule = construct
		}
		return !drop[rule]
	}
	defer func() { p.judged = nil }()
	runIngest(p, "feed", "ts", "own")
	runTarget(p, "feed", "ts", "own", "query")
	if s := newSubRules(p, "stream", "snap", "reg"); s != nil {
		s.run()
		s.feeds()
	}
	matchTrie(p)
	treeCheck("map")(p)
	c11(p)
	valueCheck(p)
	for r, n := range map[string]int{"unit-accept": 2, "feed": 1, "stored-value": 2, "register": 1, "walk": 1, "send-update": 1, "sender-loop": 1, "feed-insert": 1, "delete-noti": 1} {
		p.need(r, n)
	}
}

func init() {
	checks["C01"] = &propCheck{run: func(p *Program) {
		g := &relayRules{p: p}
		if fn := g.collector(); fn != nil {
			g.stamp(fn)
		}
		g.session()
		g.decode()
		g.cached()
		g.asked()
		g.query()
		g.command()
		g.shown()
		if os.Getenv("GNMICHECK_GLUE") == "" {
			g.components()
		}
	}, explanation: "Reduction along the pipeline. Glue, decided here on every path: the collector makes each configured target known to the cache before its subscription is started, with the request its configuration names and after the change feed is wired to the one Subscribe server, which serves the same cache; the Update callback stores every notification once, under the configured name, with its origin kept or defaulted and otherwise unchanged; the manager hands on each received update and sync; the gNMI client sends the request it is given (or makes from the query) and reports each update and delete of a message at prefix plus path with its value and time; the caching client keeps or removes just that; the CLI makes the subscription given by flags, -proto or -proto_file, and displays each leaf held and each notification streamed. Components: the rules of the cache's ingest and feed, Subscribe, trie, tree, queue and conversions that say nothing is lost, added or left stale are run again.",
		assumptions: []string{"gRPC delivers messages of a stream in order and unchanged", "ygot.StringToPath, prototext and the flag package do what they document", "the equality at quiescence follows from these obligations by argument, it is not decided separately", "a target's stream that ends is followed by a reset (rules of C13, C14)"}}
}
