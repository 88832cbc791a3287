package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// subRules: typestate of one Subscribe RPC: the handler, its walker and its
// sender, followed path by path through goroutines and callbacks.
type subRules struct {
	p       *Program
	m       *cacheModel
	want    map[string]bool // acl, stall, stream, snap, reg, end, delete
	fn      *ssa.Function
	markers map[types.Type]bool
	phase   int
	errSend map[*Term]bool
	errRecv map[*Term]bool
	queueT  types.Type
	clients map[types.Type]*Term // registered match clients: type -> queue field check done
}

const subC = "Server.Subscribe"

func (g *subRules) bad(st *State, ev *Event, group, rule, f string, a ...any) {
	if g.phase == 1 {
		return
	}
	for _, x := range strings.Fields(group) {
		if g.want[x] {
			if ev != nil {
				g.p.viol(st, ev, rule, subC, f, a...)
			} else {
				g.p.exitViol(st, rule, subC, f, a...)
			}
			return
		}
	}
}

func (g *subRules) ob(group, rule, c string) {
	for _, x := range strings.Fields(group) {
		if g.want[x] {
			g.p.ob(rule, c)
		}
	}
}

// sub is the SubscriptionList of the request.
func (g *subRules) sub(st *State) *Term {
	if k := st.T["k.sub"]; k != nil {
		return k
	}
	sr := st.T["sr"]
	if sr == nil {
		return mkNil()
	}
	rt := g.p.namedType("proto/gnmi", "SubscribeRequest_Subscribe")
	if rt == nil {
		return mkNil()
	}
	pt := types.NewPointer(rt)
	req := st.get(sr, "Request")
	return st.get(tab.get(Term{op: OPure, sym: "as:" + typeKey(pt), args: []*Term{req}, typ: pt}), "Subscribe")
}

// mode is the subscription mode as far as the path knows it.
func (g *subRules) mode(st *State) string {
	if m := st.R["mode"]; m != "" {
		return m
	}
	sub := g.sub(st)
	if sub.op == ONil {
		return ""
	}
	mt := st.get(sub, "Mode")
	for i, n := range []string{"STREAM", "ONCE", "POLL"} {
		if st.decide(mkEq(mt, mkInt(int64(i)))) == yes {
			st.Set("mode", n)
			return n
		}
	}
	return ""
}

func (g *subRules) uo(st *State) tri {
	switch st.R["uo"] {
	case "y":
		return yes
	case "n":
		return no
	}
	sub := g.sub(st)
	if sub.op == ONil {
		return unknown
	}
	d := st.decide(st.get(sub, "UpdatesOnly"))
	switch d {
	case yes:
		st.Set("uo", "y")
	case no:
		st.Set("uo", "n")
	}
	return d
}

func (g *subRules) subs(st *State) *Term { return st.get(g.sub(st), "Subscription") }

func (g *subRules) target(st *State) *Term {
	return st.get(st.get(g.sub(st), "Prefix"), "Target")
}

// the notification an update response carries, nil if it is a sync response
func (g *subRules) respNoti(st *State, r *Term) (noti *Term, sync, known bool) {
	r = strip(r)
	if r.op == OLoad && r.args[0].op == OGlobal {
		return nil, g.syncGlobal(r.args[0].glob), true
	}
	b := st.get(r, "Response")
	if b.op == OIface {
		switch ownerNameP(b.args[0].typ) {
		case "gnmi.SubscribeResponse_Update":
			return strip(st.get(b.args[0], "Update")), false, true
		case "gnmi.SubscribeResponse_SyncResponse":
			return nil, st.get(b.args[0], "SyncResponse").isTrue(), true
		}
	}
	return nil, false, false
}

func ownerNameP(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := under(t).(*types.Pointer); ok {
		return ownerName(p.Elem())
	}
	return ""
}

// syncGlobal: a package variable initialised to a true sync response and never
// written again.
func (g *subRules) syncGlobal(gl *ssa.Global) bool {
	if gl.Pkg == nil {
		return false
	}
	good, stores := false, 0
	for _, f := range g.p.repoFuncs() {
		if f.Pkg != gl.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(gl) {
					stores++
				}
			}
		}
	}
	if in := gl.Pkg.Func("init"); in != nil {
		inner := map[ssa.Value]bool{}
		for _, b := range in.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					switch fieldKey(structOf(deref(fa.X.Type())), fa.Field) {
					default:
						if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && c.Value.String() == "true" && ownerNameP(fa.X.Type()) == "gnmi.SubscribeResponse_SyncResponse" {
							inner[fa.X] = true
						}
						if mi, ok := s.Val.(*ssa.MakeInterface); ok && inner[mi.X] && ownerNameP(fa.X.Type()) == "gnmi.SubscribeResponse" {
							inner[fa.X] = true
						}
					}
				}
				if s.Addr == ssa.Value(gl) && inner[s.Val] {
					good = true
				}
			}
		}
	}
	return good && stores <= 1
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (g *subRules) prim(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	switch fn.Pkg.Pkg.Name() {
	case "cache", "match", "coalesce", "ctree", "path":
		return true
	}
	// statistics
	if r := fn.Signature.Recv(); r != nil && strings.HasSuffix(ownerNameP(r.Type()), "subscribe.stats") {
		return true
	}
	return false
}

func isErrChan(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	c, ok := under(t.typ).(*types.Chan)
	return ok && types.TypeString(c.Elem(), nil) == "error"
}

func (g *subRules) isQueue(st *State, q *Term) bool { return strip(q) == st.T["queue"] }

func (g *subRules) model(st *State, c *Call) ([]Outcome, bool) {
	n := trimMod(c.name)
	x := st.x
	emit := func(s *State, name string, ok tri, args ...*Term) {
		x.emit(s, &Event{kind: EvCall, name: name, args: args, instr: c.instr, ok: ok})
	}
	rt := x.resType(c)
	if c.dyn != nil && g.want["reg"] {
		for _, k := range []string{"0", "1"} {
			if r := st.T["rm"+k]; r != nil && asOf(c.dyn) == r {
				st.Set("rmd"+k, "1")
				return one(nil), true
			}
		}
	}
	switch {
	case c.invoke && c.args[0] == st.T["stream"] && strings.HasSuffix(n, ".Recv"):
		emit(st, "stream.recv", yes, c.args...)
		r := st.fresh(c.instr, "recv", rt)
		sr, er := r.args[0], r.args[1]
		return []Outcome{
			{res: mkTuple(sr, mkNil()), do: func(s *State) bool {
				s.assume(mkEq(sr, mkNil()), false)
				emit(s, "stream.received", yes, sr)
				return true
			}},
			{res: mkTuple(mkNil(), er), do: func(s *State) bool { return s.assume(mkEq(er, mkNil()), false) }},
		}, true
	case c.invoke && c.args[0] == st.T["stream"] && strings.HasSuffix(n, ".Send"):
		emit(st, "stream.send", yes, c.args...)
		er := st.fresh(c.instr, "sendErr", rt)
		return []Outcome{
			{res: mkNil(), do: func(s *State) bool { emit(s, "stream.sent", yes, c.args...); return true }},
			{res: er, do: func(s *State) bool {
				s.assume(mkEq(er, mkNil()), false)
				emit(s, "stream.sent", no, c.args...)
				return true
			}},
		}, true
	case c.invoke && strings.HasSuffix(n, ".NewRPCACL"):
		r := st.fresh(c.instr, "rpcacl", rt)
		return []Outcome{
			{res: mkTuple(r.args[0], mkNil()), do: func(s *State) bool {
				s.assume(mkEq(r.args[0], mkNil()), false)
				s.SetT("acl", r.args[0])
				emit(s, "acl.new", yes)
				return true
			}},
			{res: mkTuple(mkNil(), r.args[1]), do: func(s *State) bool {
				s.assume(mkEq(r.args[1], mkNil()), false)
				s.Set("aclfail", "1")
				return true
			}},
		}, true
	case c.invoke && strings.HasSuffix(n, "RPCACL.Check"):
		set := func(s *State, v string) bool {
			if c.args[0] != s.T["acl"] {
				v = "?"
			}
			if s.gor == "" {
				s.Set("gate", v)
				s.SetT("gateT", c.args[1])
			} else {
				s.Set("chk", v)
				s.SetT("chkT", uncloned(c.args[1]))
			}
			return true
		}
		return []Outcome{
			{res: mkBool(true), do: func(s *State) bool { return set(s, "y") }},
			{res: mkBool(false), do: func(s *State) bool { return set(s, "n") }},
		}, true
	case n == "coalesce.NewQueue":
		q := st.freshAlloc(c.instr, "queue", rt)
		st.SetT("queue", q)
		return one(q), true
	case n == "(*coalesce.Queue).Insert":
		emit(st, "queue.insert", yes, c.args...)
		r := st.fresh(c.instr, "insert", rt)
		it := strip(c.args[1])
		return []Outcome{
			{res: mkTuple(r.args[0], mkNil()), do: func(s *State) bool { emit(s, "queue.inserted", yes, strip(c.args[0]), it); return true }},
			{res: mkTuple(mkBool(false), r.args[1]), do: func(s *State) bool {
				s.assume(mkEq(r.args[1], mkNil()), false)
				s.Set("refused", "1")
				return true
			}},
		}, true
	case n == "(*coalesce.Queue).Next":
		emit(st, "queue.next", yes, c.args...)
		r := st.fresh(c.instr, "next", rt)
		any := r.args[0].typ
		leafPtr := types.NewPointer(g.p.namedType("ctree", "Leaf"))
		leaf := st.fresh(c.instr, "leaf", leafPtr)
		outs := []Outcome{
			{res: mkTuple(mkIface(leaf, any), r.args[1], mkNil()), do: func(s *State) bool {
				s.assume(mkEq(leaf, mkNil()), false)
				s.SetT("item", leaf)
				s.SetT("dup", r.args[1])
				emit(s, "queue.got", yes, leaf)
				return true
			}},
			{res: mkTuple(mkNil(), mkInt(0), r.args[2]), do: func(s *State) bool {
				s.assume(mkEq(r.args[2], mkNil()), false)
				emit(s, "queue.ended", yes, r.args[2])
				return true
			}},
		}
		outs[0].res = mkTuple(mkIface(leaf, leafPtr), r.args[1], mkNil())
		for t := range g.markers {
			mk := mkIface(zeroOf(t), t)
			outs = append(outs, Outcome{res: mkTuple(mk, r.args[1], mkNil()), do: func(s *State) bool {
				s.SetT("item", nil)
				emit(s, "queue.gotmark", yes, mk)
				return true
			}})
		}
		return outs, true
	case n == "coalesce.IsClosedQueue":
		if st.isNilT(c.args[0]) {
			return one(mkBool(false)), true
		}
		return []Outcome{
			{res: mkBool(true), do: func(s *State) bool { s.Set("ended", "closed"); return true }},
			{res: mkBool(false), do: func(s *State) bool { s.Set("ended", "error"); return true }},
		}, true
	case n == "path.CompletePath":
		r := st.fresh(c.instr, "cpath", rt)
		sub := mkNil()
		if nm, b := c.args[1].loadedField(); nm == "gnmi.Subscription.Path" {
			sub = b
		}
		set := func(s *State) {
			s.SetT("cp.path", r.args[0])
			s.SetT("cp.pre", c.args[0])
			s.SetT("cp.sub", sub)
		}
		return []Outcome{
			{res: mkTuple(r.args[0], mkNil()), do: func(s *State) bool { set(s); return true }},
			{res: mkTuple(mkNil(), r.args[1]), do: func(s *State) bool { return s.assume(mkEq(r.args[1], mkNil()), false) }},
		}, true
	case n == "(*coalesce.Queue).Close":
		emit(st, "queue.close", yes, strip(c.args[0]))
		return one(nil), true
	case n == "(*coalesce.Queue).IsClosed":
		return one(nil), true
	case n == "(*match.Match).AddQuery":
		emit(st, "match.add", yes, c.args...)
		r := st.freshAlloc(c.instr, "removeq", rt)
		st.assume(mkEq(r, mkNil()), false)
		if g.want["reg"] {
			for _, k := range []string{"0", "1"} {
				if st.T["rm"+k] == nil {
					st.SetT("rm"+k, r)
					break
				}
			}
		}
		return one(r), true
	case n == "(*cache.Cache).Query":
		return g.query(st, c), true
	case n == "(*cache.Cache).HasTarget":
		emit(st, "cache.has", yes, c.args...)
		return one(mkPure("hastarget", types.Typ[types.Bool], c.args[1])), true
	}
	return g.m.model(st, c)
}

// query applies the callback to 0, 1 or 2 leaves, as Cache.Query does.
func (g *subRules) query(st *State, c *Call) []Outcome {
	x := st.x
	leafPtr := types.NewPointer(g.p.namedType("ctree", "Leaf"))
	emit := func(s *State, name string, args ...*Term) {
		x.emit(s, &Event{kind: EvCall, name: name, args: args, instr: c.instr, ok: yes})
	}
	emit(st, "walk", c.args...)
	f := c.args[3]
	visit := func(s *State, tag string) *Invocation {
		l := s.fresh(c.instr, "wleaf"+tag, leafPtr)
		s.assume(mkEq(l, mkNil()), false)
		emit(s, "walk.visit", l)
		pth := s.fresh(c.instr, "wpath"+tag, types.NewSlice(types.Typ[types.String]))
		v := s.fresh(c.instr, "wval"+tag, types.Universe.Lookup("any").Type())
		return &Invocation{fn: f, args: []*Term{pth, l, v}}
	}
	end := func(s *State, r *Term) {
		emit(s, "walk.end")
		x.finish(s, c.instr, r, c.isDef)
	}
	var again func(tag string) func(x *Ex, s *State, ret *Term)
	again = func(tag string) func(x *Ex, s *State, ret *Term) {
		return func(x *Ex, s *State, ret *Term) {
			if ret != nil && s.decideNil(ret) != yes {
				if s.decideNil(ret) == unknown {
					o := s.clone()
					o.assume(mkEq(ret, mkNil()), false)
					emit(o, "walk.stopped")
					end(o, ret)
					x.fork(o)
					s.assume(mkEq(ret, mkNil()), true)
				} else {
					emit(s, "walk.stopped")
					end(s, ret)
					return
				}
			}
			emit(s, "walk.visited")
			if tag == "a" {
				o := s.clone()
				end(o, mkNil())
				x.fork(o)
				x.invoke(s, c.instr, visit(s, "b"), again("b"), "wb", c.isDef)
				return
			}
			end(s, mkNil())
		}
	}
	o := st.clone()
	end(o, mkNil())
	x.fork(o)
	u := st.clone()
	e := u.fresh(c.instr, "qerr", x.resType(c))
	u.assume(mkEq(e, mkNil()), false)
	end(u, e)
	x.fork(u)
	return []Outcome{{run: visit(st, "a"), cont: again("a"), key: "wa"}}
}

var blockingCalls = []string{"time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait"}

func (g *subRules) blocking(st *State, ev *Event, what string) {
	if len(st.locks) > 0 {
		g.bad(st, ev, "stall", "block-locked", "%s while %s is held: other subscribers and the ingest of updates would wait for this one", what, st.locks[0].addr)
	}
	if st.R["inwalk"] != "" {
		g.bad(st, ev, "stall", "block-walk", "%s inside a cache query: the cache's locks are held meanwhile", what)
	}
}

func (g *subRules) event(st *State, ev *Event) {
	switch ev.kind {
	case EvUnlock:
		if ev.ok == no {
			g.bad(st, ev, "stall", "lock-balance", "unlock of a mutex that is not held")
		}
	case EvSend:
		g.blocking(st, ev, "sends on a channel")
		g.errcSend(st, ev)
	case EvRecv:
		g.blocking(st, ev, "receives from a channel")
		if st.gor == "" && isErrChan(ev.addr) {
			g.mainWait(st, ev)
		}
		g.timerFired(st, ev)
	case EvSelect:
		if ev.ok == yes {
			g.blocking(st, ev, "blocks in a select")
		}
	case EvArm:
		if ev.what == "send" {
			g.errcSend(st, ev)
		}
		if ev.what == "recv" {
			if st.gor == "" && isErrChan(ev.addr) {
				g.mainWait(st, ev)
			}
			g.timerFired(st, ev)
		}
	case EvStore:
		if ev.name == "gnmi.Update.Duplicates" {
			if i := indexOf(ev.addr); i == mkInt(0) {
				st.SetT("dupset", ev.val)
			}
		}
		if strings.HasPrefix(ev.name, "gnmi.") && rootAlloc(ev.addr) == nil {
			if !ev.addr.containsIf(func(t *Term) bool { return t.op == OPure && t.sym == "copyof" }) {
				g.ob("stall", "shared-store", ev.name)
				g.bad(st, ev, "stall stream", "shared-message", "a message shared with the cache and other subscribers is modified (%s)", ev.name)
			}
		}
	case EvGo:
		g.spawn(st, ev)
	case EvCall:
		g.call(st, ev)
	}
}

// timerFired: the send timer's expiry must end the RPC with an error.
func (g *subRules) timerFired(st *State, ev *Event) {
	if t := st.T["timer"]; t != nil && ev.addr == st.get(t, "C") {
		st.Set("fired", "1")
	}
}

func (g *subRules) errcSend(st *State, ev *Event) {
	if !isErrChan(ev.addr) {
		return
	}
	g.errSend[ev.addr] = true
	v := ev.val
	isNil := st.decideNil(v)
	st.Count("errs")
	if isNil != yes {
		st.Set("errsent", "1")
		if isNil == unknown && g.want["snap"] && false {
			g.bad(st, ev, "snap", "status", "unknown")
		}
	} else {
		// a clean end
		if st.R["role"] == "sender" {
			switch {
			case st.R["ended"] == "closed":
			case st.R["sentleaf"] == "1":
				g.targetDeleteEnd(st, ev)
			case st.R["pending"] == "leaf" && g.denied(st):
				st.SetT("sentval", g.m.asNoti(g.m.value(st, st.T["item"])))
				st.Set("pending", "")
				g.targetDeleteEnd(st, ev)
			default:
				g.bad(st, ev, "snap stream end", "clean-end", "the stream ends without an error although neither the queue was closed nor the target deleted")
			}
		}
	}
	if st.R["role"] == "sender" && st.R["ended"] == "error" && isNil == yes {
		g.bad(st, ev, "snap stream", "clean-end", "the stream ends without an error although waiting for the next item failed")
	}
	if st.R["ended"] == "closed" && isNil == no {
		g.bad(st, ev, "snap", "closed-status", "a drained and closed queue ends the stream with an error")
	}
}

// tdFacts collects what the path knows about the last sent notification being
// the deletion of the whole target.
func (g *subRules) tdFacts(st *State) (oneDel, noOrigin, star, single tri) {
	n := st.T["sentval"]
	if n == nil {
		return
	}
	oneDel = st.decide(mkEq(mkLen(st.get(n, "Delete")), mkInt(1)))
	pre := st.get(n, "Prefix")
	switch st.decideNil(pre) {
	case yes:
		noOrigin = yes
	case no:
		noOrigin = st.decide(mkEq(st.get(pre, "Origin"), mkStr("")))
	}
	fromDel := func(t *Term) bool {
		return t.containsIf(func(u *Term) bool { return u.op == OPure && strings.HasSuffix(u.sym, "path.ToStrings") })
	}
	star = no
	for a, c := range st.f.eqc {
		if s, ok := c.strVal(); ok && s == "*" && fromDel(a) {
			star = yes
		}
	}
	single = st.decide(mkEq(g.target(st), mkStr("*"))).not()
	return
}

func (g *subRules) targetDeleteEnd(st *State, ev *Event) {
	g.ob("end", "target-delete", "end")
	oneDel, noOrigin, star, single := g.tdFacts(st)
	if oneDel != yes || noOrigin != yes || star != yes {
		g.bad(st, ev, "end stream", "early-end", "the stream is ended after a notification that is not known to delete the whole target")
	}
	if single != yes {
		g.bad(st, ev, "end stream", "early-end", "an all-targets stream is ended because one target was deleted")
	}
}

func (g *subRules) spawn(st *State, ev *Event) {
	if ev.dyn == nil || ev.dyn.fn == nil {
		return
	}
	f := ev.dyn.fn
	p := g.p
	if p.reaches(f, false, callsTo("(*coalesce.Queue).Next")) {
		st.Set("sender", st.R["sender"]+"1")
		if len(st.R["sender"]) > 1 {
			g.bad(st, ev, "stream snap", "one-sender", "two goroutines send on one stream")
		}
	}
	if p.reaches(f, false, callsTo("(*cache.Cache).Query")) {
		g.startWalk(st, ev)
		st.Set("walker", "1")
	}
	if p.reaches(f, false, func(in ssa.Instruction) bool {
		fa, ok := in.(*ssa.FieldAddr)
		return ok && ownerNameP(fa.X.Type()) == "time.Timer"
	}) {
		st.Set("watch", "1")
	}
	if st.gor == "" && st.T["sr"] != nil {
		g.gate(st, ev, "a goroutine is started")
	}
	g.mode(st)
	g.uo(st)
}

// gate: nothing happens for a single target the ACL denies.
func (g *subRules) gate(st *State, ev *Event, what string) {
	g.ob("acl", "gate", ev.name)
	if st.T["acl"] == nil {
		// no ACL installed
		if !g.noACL(st) {
			g.bad(st, ev, "acl", "gate", "%s although an ACL is installed and was not asked for this call", what)
		}
		return
	}
	t := g.target(st)
	if st.decide(mkEq(t, mkStr("*"))) == yes {
		return
	}
	if st.R["gate"] != "y" || st.T["gateT"] != t {
		g.bad(st, ev, "acl", "gate", "%s for a single target that the ACL is not known to allow", what)
	}
}

func (g *subRules) noACL(st *State) bool {
	return st.R["noacl"] == "1"
}

// startWalk: streaming subscriptions are registered before the cache is read.
func (g *subRules) startWalk(st *State, ev *Event) {
	if g.mode(st) != "STREAM" {
		return
	}
	g.ob("stream", "register-first", "walk")
	if !st.coverDone("reg", g.subs(st)) {
		g.bad(st, ev, "stream", "register-first", "the cache is read before every subscription is registered for updates: changes in between are lost")
	}
}

func (g *subRules) mainWait(st *State, ev *Event) {
	g.errRecv[ev.addr] = true
	g.ob("stream snap", "handler-wait", g.mode(st))
	st.Set("waited", "1")
	if st.R["sender"] == "" {
		g.bad(st, ev, "stream snap", "no-sender", "the handler waits for its end without anything sending queued items")
	}
	m := g.mode(st)
	switch m {
	case "ONCE", "POLL":
		if st.R["walker"] == "" && st.R["walked"] == "" {
			g.bad(st, ev, "snap", "no-walk", "a %s subscription does not read the cache", m)
		}
	case "STREAM":
		if !st.coverDone("reg", g.subs(st)) {
			g.bad(st, ev, "stream reg", "register", "not every subscription is registered for updates")
		}
		if g.uo(st) != yes && st.R["walker"] == "" && st.R["walked"] == "" {
			g.bad(st, ev, "stream", "no-walk", "a STREAM subscription does not read the cache")
		}
		if g.uo(st) == yes && st.R["mark"] != "1" {
			g.bad(st, ev, "stream", "sync-first", "an updates_only subscription gets %s sync responses", or0(st.R["mark"]))
		}
	default:
		g.bad(st, ev, "snap stream", "mode", "a subscription of unknown mode is served")
	}
}

func (g *subRules) call(st *State, ev *Event) {
	for _, b := range blockingCalls {
		if ev.name == b {
			g.blocking(st, ev, b)
		}
	}
	switch ev.name {
	case "stream.recv":
		g.blocking(st, ev, "receives from the stream")
		if st.T["sr"] != nil {
			// another poll: the previous request must have been served
			g.ob("snap", "poll-served", "recv")
			if st.R["mark"] != "1" && st.R["errsent"] == "" {
				g.bad(st, ev, "snap", "poll-served", "the next poll is awaited although the previous one was not answered by a sync response")
			}
		}
	case "stream.received":
		if st.T["sr"] == nil {
			st.SetT("sr", ev.args[0])
			sub := g.sub(st)
			st.SetT("k.sub", sub)
		} else {
			st.Set("mark", "")
			st.Set("cov.walk", "")
			st.Set("errsent", "")
			st.Set("refused", "")
			st.Set("walked", "")
			st.Set("polled", "1")
			g.ob("snap", "poll", "trigger")
		}
	case "queue.insert":
		if !g.isQueue(st, ev.args[0]) {
			g.bad(st, ev, "snap stream", "queue", "inserts into another queue than the subscription's")
		}
		it := ev.args[1]
		if it.op == OIface && it.typ != nil && !strings.HasSuffix(typeKey(it.typ), "ctree.Leaf") {
			if g.phase == 1 {
				g.markers[it.typ] = true
			}
			g.marker(st, ev)
		} else {
			g.leafInsert(st, ev)
		}
		g.gate(st, ev, "an item is queued")
	case "queue.close":
		if g.isQueue(st, ev.args[0]) {
			if st.gor != "" && st.R["role"] != "sender" {
				g.ob("snap", "close-after-sync", "close")
				if st.R["mark"] != "1" && st.R["errsent"] == "" && st.R["refused"] == "" {
					g.bad(st, ev, "snap", "close-after-sync", "the queue is closed before the snapshot's sync response is in it")
				}
				if g.mode(st) != "ONCE" && st.R["errsent"] == "" && st.R["refused"] == "" {
					g.bad(st, ev, "snap stream", "close-mode", "the queue of a %s subscription is closed after the snapshot", g.mode(st))
				}
				st.Set("qclosed", "1")
			} else if st.gor == "" && st.R["waited"] == "" && st.R["sender"] != "" {
				g.bad(st, ev, "snap stream", "close-early", "the queue is closed while the subscription is running")
			}
		}
	case "match.add":
		g.register(st, ev)
		g.gate(st, ev, "the subscription is registered for updates")
	case "walk":
		g.walk(st, ev)
	case "walk.visit":
		st.Set("inwalk", "1")
		st.Set("ins", "")
		st.SetT("visit", ev.args[0])
	case "walk.visited":
		// an insertion must have been tried unless an earlier one failed
		if st.R["ins"] != "1" && st.R["refused"] == "" {
			g.bad(st, ev, "snap stream", "walk-insert", "a matching leaf is not queued")
		}
	case "walk.stopped":
		if st.R["refused"] == "" {
			g.bad(st, ev, "snap stream", "walk-stop", "the snapshot stops early although nothing failed")
		}
	case "walk.end":
		st.Set("inwalk", "")
		st.SetT("visit", nil)
	case "queue.next":
		g.next(st, ev)
	case "queue.got":
		st.Set("pending", "leaf")
		st.Set("sentleaf", "")
		st.SetT("sentval", nil)
		st.Set("ended", "")
	case "queue.gotmark":
		st.Set("pending", "mark")
		st.Set("sentleaf", "")
		st.SetT("sentval", nil)
		st.Set("ended", "")
	case "queue.ended":
		st.Set("pending", "")
		st.Set("sentleaf", "")
		st.SetT("enderr", ev.args[0])
	case "stream.send":
		g.send(st, ev)
	case "stream.sent":
		if st.R["timer"] == "" && false {
			break
		}
		if ev.ok == yes {
			if st.R["pending"] == "leaf" {
				st.Set("sentleaf", "1")
				st.SetT("sentval", g.m.asNoti(g.m.value(st, st.T["item"])))
			}
			st.Set("pending", "")
		} else {
			st.Set("senderr", "1")
		}
	case "time.NewTimer":
		st.Set("armed", "1")
		st.Set("watch", "")
	case "(*time.Timer).Stop":
		if strip(ev.args[0]) == st.T["timer"] {
			st.Set("armed", "")
		}
	case "(*time.Timer).Reset":
		t := strip(ev.args[0])
		if t == st.T["timer"] {
			st.Set("armed", "1")
			g.timeout(st, ev, ev.args[1])
		}
	}
	if ev.name == "tree.value" {
		return
	}
}

func (g *subRules) timeout(st *State, ev *Event, d *Term) {
	g.ob("stall", "timeout", ev.name)
	if nm, _ := d.loadedField(); !strings.HasSuffix(nm, ".timeout") {
		g.bad(st, ev, "stall", "timeout", "the send timer is set to %s, not to the configured timeout", d)
	}
}

func (g *subRules) marker(st *State, ev *Event) {
	g.ob("stream snap", "sync-mark", g.mode(st)+st.gor)
	m := g.mode(st)
	st.Count("mark")
	if st.R["mark"] != "1" {
		g.bad(st, ev, "stream snap", "sync-once", "more than one sync response is queued for one snapshot")
	}
	if st.R["errsent"] != "" {
		g.bad(st, ev, "snap stream", "sync-error", "a sync response is queued although the snapshot failed")
	}
	if m == "STREAM" && g.uo(st) == yes {
		if st.R["cov.reg"] != "" {
			g.bad(st, ev, "stream", "sync-first", "an updates_only subscription is registered before its sync response is queued: an update may precede it")
		}
		return
	}
	if st.R["inwalk"] != "" {
		g.bad(st, ev, "snap stream", "sync-after-walk", "a sync response is queued during the snapshot")
	}
	if g.uo(st) == no && !st.coverDone("walk", g.subs(st)) {
		g.bad(st, ev, "snap stream", "sync-after-walk", "a sync response is queued before every subscription has been read from the cache")
	}
	if st.R["refused"] == "1" && st.R["wantstop"] == "" && false {
		g.bad(st, ev, "snap", "x", "x")
	}
}

func (g *subRules) leafInsert(st *State, ev *Event) {
	v := st.T["visit"]
	it := strip(ev.args[1])
	if v == nil {
		return
	}
	g.ob("snap stream", "walk-insert", "leaf")
	if it != v {
		g.bad(st, ev, "snap stream", "walk-insert", "the snapshot queues %s, not the leaf it visits", it)
	}
	st.Set("ins", "1")
}

// register: each subscription's query, in order, for this stream's queue.
func (g *subRules) register(st *State, ev *Event) {
	g.ob("reg stream", "register", g.mode(st))
	if g.mode(st) != "STREAM" {
		g.bad(st, ev, "stream snap", "register-mode", "a %s subscription is registered for updates", g.mode(st))
	}
	if g.uo(st) == yes && st.R["mark"] != "1" {
		g.bad(st, ev, "stream", "sync-first", "an updates_only subscription is registered before its sync response is queued: an update may precede it")
	}
	q := ev.args[1]
	subs := g.subs(st)
	// which subscription: its path is what the query ends with
	ps := parts(q)
	var sub *Term
	if n := len(ps); n > 0 && ps[n-1].op == OPure && ps[n-1].sym == "spread" {
		if t := ps[n-1].args[0]; t.op == OPure && strings.HasSuffix(t.sym, "path.ToStrings") && t.args[1].isFalse() {
			if nm, b := t.args[0].loadedField(); nm == "gnmi.Subscription.Path" {
				sub = b
			} else if st.R["subnilpath"] == "1" {
				sub = nil
			}
		}
	}
	var path *Term
	if sub != nil {
		path = st.get(sub, "Path")
		if m := st.coverNext("reg", subs, sub); m != "" {
			g.bad(st, ev, "reg stream", "register-order", "subscriptions are not registered one by one: %s", m)
		}
	} else {
		// an absent path selects the whole prefix
		st.coverNext("reg", subs, nil)
		path = mkNil()
	}
	pre := st.get(g.sub(st), "Prefix")
	tos := func(p *Term, t bool) *Term {
		for _, x := range ps {
			if x.op == OPure && x.sym == "spread" && x.args[0].op == OPure && strings.HasSuffix(x.args[0].sym, "path.ToStrings") && x.args[0].args[0] == p && x.args[0].args[1] == mkBool(t) {
				return x
			}
		}
		return mkNil()
	}
	want := []*Term{tos(pre, true)}
	if path.op != ONil && st.decideNil(path) != yes {
		o := st.get(path, "Origin")
		po := st.get(pre, "Origin")
		pe, oe := st.decide(mkEq(po, mkStr(""))), st.decide(mkEq(o, mkStr("")))
		if pe == yes && oe == no {
			want = append(want, o)
		} else if !(pe == no || oe == yes) {
			want = append(want, mkStr("<undecided origin>"))
		}
		want = append(want, tos(path, false))
	} else if len(ps) > 1 {
		want = append(want, ps[len(ps)-1])
	}
	if !sameTerms(ps, want) {
		g.bad(st, ev, "reg stream", "register-path", "a subscription is registered under %s, not under its prefix (target first, with the origin) and path", termList(ps))
	}
	// the client
	c := ev.args[2]
	if c.op != OIface {
		g.bad(st, ev, "reg stream", "register-client", "%s is registered for updates", c)
		return
	}
	obj := c.args[0]
	okq := false
	if s := structOf(deref(obj.typ)); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if strings.HasSuffix(typeKey(s.Field(i).Type()), "coalesce.Queue") && obj.op == OAlloc {
				if st.get(obj, s.Field(i).Name()) == st.T["queue"] {
					okq = true
				}
			}
		}
	}
	if !okq {
		g.bad(st, ev, "reg stream", "register-client", "the client registered for updates does not feed the subscription's queue")
	}
	g.clients[c.typ] = nil
}

// walk: one cache query.
func (g *subRules) walk(st *State, ev *Event) {
	g.blockFree(st, ev)
	g.ob("snap stream", "walk", g.mode(st))
	st.Set("walked", "1")
	if st.gor == "" {
		g.startWalk(st, ev)
	}
	if !sameVal(ev.args[1], g.target(st)) {
		g.bad(st, ev, "snap stream", "walk-target", "the snapshot queries target %s, not the one the prefix names", ev.args[1])
	}
	q := ev.args[2]
	subs := g.subs(st)
	var sub *Term
	if q == st.T["cp.path"] {
		if st.T["cp.pre"] != st.get(g.sub(st), "Prefix") {
			g.bad(st, ev, "snap stream", "walk-path", "the snapshot's path is completed with %s, not with the request's prefix", st.T["cp.pre"])
		}
		sub = st.T["cp.sub"]
		if sub != nil && sub.op == ONil {
			g.bad(st, ev, "snap stream", "walk-path", "the snapshot's path is not a subscription's path")
		}
	} else {
		g.bad(st, ev, "snap stream", "walk-path", "the snapshot queries %s, not the subscription's completed path", q)
	}
	for _, k := range []string{"cp.path", "cp.pre", "cp.sub"} {
		defer st.SetT(k, nil)
	}
	if m := st.coverNext("walk", subs, sub); m != "" {
		g.bad(st, ev, "snap stream", "walk-order", "subscriptions are not read one by one: %s", m)
	}
}

func (g *subRules) blockFree(st *State, ev *Event) {
	if len(st.locks) > 0 {
		g.bad(st, ev, "stall", "block-locked", "queries the cache while %s is held", st.locks[0].addr)
	}
}

func sameVal(a, b *Term) bool { return a == b }

// next: the sender takes the next item; the previous one must be dealt with.
func (g *subRules) next(st *State, ev *Event) {
	g.blocking(st, ev, "waits for the next item")
	st.Set("role", "sender")
	if !g.isQueue(st, ev.args[0]) {
		g.bad(st, ev, "snap stream", "queue", "takes items from another queue than the subscription's")
	}
	g.ob("stream snap acl stall", "sender-loop", "next")
	g.settled(st, ev)
	if st.R["senderr"] != "" {
		g.bad(st, ev, "stall stream", "send-error", "the stream goes on after a send failed")
	}
	if st.R["armed"] != "" {
		g.bad(st, ev, "stall stream", "timer-idle", "the send timer runs while waiting for the next item: an idle subscriber would be cut off")
	}
	if st.R["sentleaf"] == "1" {
		a, b, c, d := g.tdFacts(st)
		if a == yes && b == yes && c == yes && d != no {
			g.bad(st, ev, "end", "target-delete", "a stream for a single target goes on after the target was deleted")
		}
	}
	st.Set("sentleaf", "")
	st.SetT("sentval", nil)
	if it := st.T["item"]; it != nil {
		st.dropFacts(func(t *Term) bool { return t.contains(it) || st.T["dup"] != nil && t.contains(st.T["dup"]) })
	}
	st.SetT("item", nil)
	st.SetT("dup", nil)
	st.SetT("dupset", nil)
	st.Set("chk", "")
	st.SetT("chkT", nil)
	st.SetT("code", nil)
	st.SetT("codeErr", nil)
	st.SetT("enderr", nil)
}

// denied: the ACL refused the target of the dequeued leaf.
func (g *subRules) denied(st *State) bool {
	if st.T["acl"] == nil || st.T["item"] == nil || st.R["chk"] != "n" {
		return false
	}
	n := g.m.asNoti(g.m.value(st, st.T["item"]))
	return st.T["chkT"] == st.get(st.get(n, "Prefix"), "Target")
}

// settled: the dequeued item was sent, or withheld because the ACL denies it.
func (g *subRules) settled(st *State, ev *Event) {
	switch st.R["pending"] {
	case "mark":
		g.bad(st, ev, "stream snap", "sync-sent", "a dequeued sync marker is not sent")
	case "leaf":
		if !g.denied(st) {
			g.bad(st, ev, "stream snap acl", "item-dropped", "a dequeued leaf is neither sent nor denied by the ACL")
		}
	}
	st.Set("pending", "")
}

func (g *subRules) send(st *State, ev *Event) {
	g.blocking(st, ev, "sends on the stream")
	g.ob("stall", "send-armed", ev.instr.Parent().Name())
	if st.T["timer"] == nil || st.R["armed"] == "" {
		g.bad(st, ev, "stall", "send-armed", "a send is not covered by the send timeout")
	}
	if st.R["watch"] == "" {
		g.bad(st, ev, "stall", "send-watch", "nothing watches the send timer")
	}
	noti, sync, known := g.respNoti(st, ev.args[1])
	if !known {
		g.bad(st, ev, "stream snap acl", "response", "sends %s", ev.args[1])
		return
	}
	if sync {
		g.ob("stream snap", "send-sync", "sync")
		if st.R["pending"] != "mark" {
			g.bad(st, ev, "stream snap", "sync-order", "a sync response is sent although the next item is not the sync marker")
		}
		return
	}
	if noti == nil {
		g.bad(st, ev, "stream snap", "response", "a response that is neither an update nor a true sync response is sent")
		return
	}
	g.ob("stream snap acl stall", "send-update", "update")
	if st.R["pending"] != "leaf" {
		g.bad(st, ev, "stream snap", "send-item", "an update is sent although no leaf was dequeued")
		return
	}
	val := g.m.asNoti(g.m.value(st, st.T["item"]))
	base := noti
	clone := false
	if noti.op == OAlloc {
		clone = true
		u := st.get(noti, "Update")
		if u.op == OPure && u.sym == "copyof" {
			if _, b := u.args[0].loadedField(); b != nil {
				base = b
			}
		}
	}
	if base != val {
		g.bad(st, ev, "stream snap", "send-value", "the value sent (%s) is not the current value of the dequeued leaf", base)
	}
	if clone {
		for _, f := range []string{"Timestamp", "Prefix", "Delete", "Atomic", "Update"} {
			if uncloned(st.get(noti, f)) != st.get(val, f) {
				g.bad(st, ev, "stream snap", "send-value", "the response's %s differs from the cached one", f)
			}
		}
	}
	// duplicates
	dup := st.T["dup"]
	ups := st.get(val, "Update")
	some := st.decide(mkEq(mkLen(ups), mkInt(0))).not()
	pos := st.decide(mkEq(dup, mkInt(0))).not()
	var got *Term
	if clone {
		got = st.T["dupset"]
	}
	if got == nil || got != dup {
		off := false
		for a, v := range st.f.atoms {
			if nm, _ := a.loadedField(); v && strings.HasSuffix(nm, "noDupReport") {
				off = true
			}
		}
		if !(off || pos == no || some == no) {
			g.bad(st, ev, "stall", "dup-report", "an update is sent without its duplicate count although it may have been coalesced")
		}
	}
	if got != nil && got != dup {
		g.bad(st, ev, "stall", "dup-report", "an update is sent with duplicate count %s instead of %s", got, dup)
	}
	// ACL
	if st.T["acl"] == nil {
		if !g.noACL(st) {
			g.bad(st, ev, "acl", "acl-send", "an update is sent although an ACL is installed and no per-call ACL was made")
		}
		return
	}
	g.ob("acl", "acl-send", "update")
	pre := st.get(val, "Prefix")
	if st.decideNil(pre) == yes {
		return
	}
	tgt := st.get(pre, "Target")
	if st.R["chk"] != "y" || st.T["chkT"] != tgt {
		g.bad(st, ev, "acl", "acl-send", "an update is sent without the ACL having allowed its target")
	}
}

func (g *subRules) exit(st *State, res []*Term) {
	if len(st.locks) > 0 {
		g.bad(st, nil, "stall", "lock-balance", "ends with %s held", st.locks[0].addr)
	}
	if st.gor == "" {
		e := st.decideNil(res[0])
		if st.R["aclfail"] == "1" {
			g.ob("acl", "acl-fail", "exit")
			if e != no || st.T["code"] == nil || !codeIs(st, res[0], 16) {
				g.bad(st, nil, "acl", "unauthenticated", "the call is not rejected as unauthenticated although no per-call ACL could be made")
			}
			if st.R["waited"] != "" || st.T["sr"] != nil && st.R["sender"] != "" {
				g.bad(st, nil, "acl", "unauthenticated", "the call is served although no per-call ACL could be made")
			}
			return
		}
		if st.R["waited"] == "" {
			if st.R["sender"] != "" || st.R["walker"] != "" {
				g.bad(st, nil, "snap stream", "handler-wait", "the handler returns without waiting for the subscription's end")
			}
			// rejected: with an error, unless the peer closed
			if st.T["acl"] != nil && st.T["sr"] != nil {
				t := g.target(st)
				if st.R["gate"] == "n" && st.T["gateT"] == t {
					g.ob("acl", "denied", "exit")
					if e != no || !codeIs(st, res[0], 7) {
						g.bad(st, nil, "acl", "denied", "a single target the ACL denies is not rejected with a permission error")
					}
				}
			}
			if st.T["sr"] != nil && e != no {
				g.bad(st, nil, "snap stream acl", "reject-error", "a subscription that is not served ends without an error")
			}
			return
		}
		// the registration is undone
		if k := st.R["cov.reg"]; k == "1" || k == "2" {
			g.ob("reg", "deregister", "exit")
			for _, k := range []string{"0", "1"} {
				if st.T["rm"+k] != nil && st.R["rmd"+k] == "" {
					g.bad(st, nil, "reg", "deregister", "the call ends without having removed its registration: the trie keeps the client for ever")
				}
			}
		}
		return
	}
	if st.R["fired"] == "1" {
		g.ob("stall", "timer-fires", "exit")
		if st.R["errsent"] == "" {
			g.bad(st, nil, "stall", "send-timeout", "the expiry of the send timer does not end the subscription with an error")
		}
		return
	}
	if st.R["role"] == "sender" {
		g.ob("stream snap", "sender-exit", "exit")
		if st.R["errs"] == "" {
			g.bad(st, nil, "stream snap stall", "sender-exit", "the sender ends without telling the handler: the call never ends")
		}
		if st.R["senderr"] != "" && st.R["errsent"] == "" {
			g.bad(st, nil, "stall stream", "send-error", "a failed send does not end the stream with an error")
		}
		if st.R["pending"] != "" && st.R["errsent"] == "" && st.R["senderr"] == "" {
			g.settled(st, nil)
			g.bad(st, nil, "stream snap", "sender-exit", "the sender ends with an unsent item and without an error")
		}
		return
	}
	if st.R["walked"] != "" || st.R["mark"] != "" || st.R["polled"] != "" || st.R["errs"] != "" {
		g.ob("snap stream", "walker-exit", g.mode(st))
		if st.R["mark"] == "" && st.R["errs"] == "" && st.R["refused"] == "" {
			g.bad(st, nil, "snap stream", "walker-exit", "the snapshot ends with neither a sync response nor an error")
		}
		if g.mode(st) == "ONCE" && st.R["qclosed"] == "" && st.R["errs"] == "" {
			g.bad(st, nil, "snap", "once-close", "a ONCE snapshot does not close the queue: the call never ends")
		}
		if g.mode(st) == "POLL" && st.R["errs"] == "" {
			g.bad(st, nil, "snap", "poll-exit", "the poll loop ends without telling the handler")
		}
	}
}

// codeIs: the error was made with the given status code.
func codeIs(st *State, e *Term, code int64) bool {
	c := st.T["code"]
	if c == nil || st.T["codeErr"] != e {
		return false
	}
	v, ok := c.intVal()
	return ok && v == code
}

func (g *subRules) rule() *Rule {
	r := &Rule{Prim: g.prim, Event: g.event, Exit: g.exit, DeepClone: true, Unroll: 2}
	r.Pure = func(n string) bool { return g.m.pure(n) && !strings.HasSuffix(n, "path.CompletePath") }
	r.Started = func(st *State, fn *ssa.Function) {
		g.mode(st)
		g.uo(st)
		st.Set("code", "")
		sub := g.sub(st)
		list := g.subs(st)
		sender := g.p.reaches(fn, false, callsTo("(*coalesce.Queue).Next"))
		if sender {
			for k := range st.R {
				if k != "noacl" {
					st.Set(k, "")
				}
			}
		}
		tgt := g.target(st)
		st.dropFacts(func(t *Term) bool {
			if t.contains(list) && list.op != ONil {
				return true
			}
			if t.op == OPure && t.sym == "hastarget" || t.containsIf(func(u *Term) bool { return u.op == OPure && strings.HasSuffix(u.sym, ".String") }) {
				return true
			}
			return sender && sub.op != ONil && t.contains(sub) && !t.contains(tgt)
		})
		if sender {
			st.assume(mkEq(sub, mkNil()), false)
			st.Set("mode", "?")
			st.Set("uo", "?")
		}
		for _, k := range []string{"code", "codeErr"} {
			st.SetT(k, nil)
		}
	}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		n := trimMod(c.name)
		switch n {
		case "google.golang.org/grpc/status.Error", "google.golang.org/grpc/status.Errorf":
			r := st.fresh(c.instr, "statusErr", st.x.resType(c))
			st.assume(mkEq(r, mkNil()), false)
			st.SetT("code", c.args[0])
			st.SetT("codeErr", r)
			return one(r), true
		case "time.NewTimer":
			t := st.freshAlloc(c.instr, "timer", st.x.resType(c))
			if ts := structOf(deref(t.typ)); ts != nil {
				for i := 0; i < ts.NumFields(); i++ {
					if ct, ok := under(ts.Field(i).Type()).(*types.Chan); ok {
						ch := st.freshAlloc(c.instr, "timerC", ct)
						st.storeTo(mkField(t, ts, ownerName(deref(t.typ)), i), ch, ct, "")
					}
				}
			}
			st.SetT("timer", t)
			st.x.emit(st, &Event{kind: EvCall, name: n, args: c.args, instr: c.instr})
			g.timeout(st, &Event{kind: EvCall, name: n, args: c.args, instr: c.instr}, c.args[0])
			return one(t), true
		}
		if strings.HasPrefix(n, "(*subscribe.stats)") {
			return nil, false
		}
		return g.model(st, c)
	}
	return r
}

func newSubRules(p *Program, groups ...string) *subRules {
	m := newCacheModel(p)
	if m == nil {
		return nil
	}
	g := &subRules{p: p, m: m, want: map[string]bool{}, markers: map[types.Type]bool{}, errSend: map[*Term]bool{}, errRecv: map[*Term]bool{}, clients: map[types.Type]*Term{}}
	for _, x := range groups {
		g.want[x] = true
	}
	g.fn = p.mustFn("subscribe", "Server.Subscribe")
	return g
}

func (g *subRules) run() {
	p := g.p
	if g.fn == nil {
		return
	}
	aclF := p.field("subscribe", "options", "acl", nil)
	_ = aclF
	for g.phase = 1; g.phase <= 2; g.phase++ {
		for _, sc := range []string{"noacl", "acl"} {
			if g.phase == 1 && sc == "acl" {
				continue
			}
			p.explore(g.rule(), g.fn, func(st *State, ps []*Term) {
				st.SetT("srv", ps[0])
				st.SetT("stream", ps[1])
				o := fieldAddrByPath(st, ps[0], aclF)
				if o == nil {
					return
				}
				if ops, on := p.fieldsOf("subscribe", "options"); ops != nil {
					for i := 0; i < ops.NumFields(); i++ {
						if _, ok := under(ops.Field(i).Type()).(*types.Signature); ok {
							if a := fieldAddrByPath(st, ps[0], on+"."+ops.Field(i).Name()); a != nil {
								st.assume(mkEq(st.load(a, ops.Field(i).Type()), mkNil()), true)
							}
						}
					}
				}
				v := st.load(o, nil)
				if sc == "noacl" {
					st.Set("noacl", "1")
					st.assume(mkEq(v, mkNil()), true)
				} else {
					st.assume(mkEq(v, mkNil()), false)
				}
			})
		}
	}
	if len(g.markers) != 1 {
		p.report("sync-mark", subC, "the queue does not carry exactly one kind of sync marker", nil, nil)
	}
	for c := range g.errSend {
		if !g.errRecv[c] && (g.want["snap"] || g.want["stream"] || g.want["stall"]) {
			p.report("handler-wait", subC, "errors are sent to "+c.String()+" on which the handler does not wait", nil, nil)
		}
	}
}

// fieldAddrByPath finds the address of owner.field inside the object at ptr,
// through nested structs.
func fieldAddrByPath(st *State, ptr *Term, field string) *Term {
	s := structOf(deref(ptr.typ))
	if s == nil {
		return nil
	}
	var find func(base *Term, t types.Type, depth int) *Term
	find = func(base *Term, t types.Type, depth int) *Term {
		s := structOf(t)
		if s == nil || depth > 3 {
			return nil
		}
		on := ownerName(t)
		for i := 0; i < s.NumFields(); i++ {
			a := mkField(base, s, on, i)
			if on+"."+s.Field(i).Name() == field {
				return a
			}
			if _, ok := under(s.Field(i).Type()).(*types.Struct); ok {
				if r := find(a, s.Field(i).Type(), depth+1); r != nil {
					return r
				}
			}
		}
		return nil
	}
	return find(ptr, deref(ptr.typ), 0)
}

// feeds: the registered clients put the item they are offered into the queue.
func (g *subRules) feeds() {
	p := g.p
	for t := range g.clients {
		m := p.prog.LookupMethod(t, nil, "Update")
		if m == nil {
			continue
		}
		// look through the pointer wrapper
		if m.Synthetic != "" {
			if d := p.prog.LookupMethod(deref(t), nil, "Update"); d != nil {
				m = d
			}
		}
		name := trimMod(fname(m))
		r := &Rule{Prim: g.prim}
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			if trimMod(c.name) == "(*coalesce.Queue).Insert" {
				st.x.emit(st, &Event{kind: EvCall, name: "queue.insert", args: c.args, instr: c.instr, ok: yes})
				return nil, false
			}
			return nil, false
		}
		r.Event = func(st *State, ev *Event) {
			switch ev.kind {
			case EvCall:
				if ev.name != "queue.insert" {
					return
				}
				p.ob("feed-insert", name)
				st.Count("ins")
				if asOf(ev.args[1]) != st.T["n"] {
					p.viol(st, ev, "feed-insert", name, "queues %s, not the item offered", ev.args[1])
				}
				if q := strip(ev.args[0]); !q.contains(st.T["c"]) {
					p.viol(st, ev, "feed-insert", name, "queues into %s, not into the subscription's queue", q)
				}
			}
		}
		r.Exit = func(st *State, res []*Term) {
			if st.R["ins"] == "1" {
				return
			}
			// an earlier insertion failed: the subscription is ending
			bad := true
			for a, v := range st.f.atoms {
				if t := eqNilOf(a); !v && t.contains(st.T["c"]) && t.typ != nil && types.TypeString(t.typ, nil) == "error" {
					bad = false
				}
			}
			if bad || st.R["ins"] != "" {
				p.exitViol(st, "feed-insert", name, "an item offered is queued %s times", or0(st.R["ins"]))
			}
		}
		p.explore(r, m, func(st *State, ps []*Term) {
			st.SetT("c", ps[0])
			st.SetT("n", ps[1])
		})
	}
}

// eqNilOf: the term compared with nil by an atom, nil term if none.
func eqNilOf(a *Term) *Term {
	if a.op == OBin && a.tok == token.EQL {
		if a.args[1].op == ONil {
			return a.args[0]
		}
		if a.args[0].op == ONil {
			return a.args[1]
		}
	}
	return mkNil()
}

const subLevel = "typestate of one Subscribe RPC: every path of the handler and of the goroutines it starts is followed through an abstract state (mode, ACL verdicts, registrations, snapshot progress, pending item, send timer)"

func init() {
	run := func(min map[string]int, groups ...string) func(p *Program) {
		return func(p *Program) {
			if g := newSubRules(p, groups...); g != nil {
				g.run()
				if g.want["stream"] || g.want["reg"] || g.want["stall"] {
					g.feeds()
				}
			}
			if groups[0] == "snap" {
				runTarget(p, "query")
			}
			for r, n := range min {
				p.need(r, n)
			}
		}
	}
	checks["C07"] = &propCheck{run: run(map[string]int{"gate": 1, "acl-send": 1, "acl-fail": 1, "denied": 1, "send-update": 1, "sender-loop": 1}, "acl"),
		explanation: subLevel + "; obligations: a single target is only served after the per-call ACL allowed it, else PermissionDenied; every update sent was allowed for its own target; a dequeued item is only withheld when the ACL denied its target; a failed per-call ACL ends the call as Unauthenticated"}
	checks["C05"] = &propCheck{run: run(map[string]int{"walk": 1, "walk-insert": 1, "sync-mark": 1, "send-update": 1, "send-sync": 1, "close-after-sync": 1, "poll": 1, "poll-served": 1, "walker-exit": 1, "handler-wait": 2, "query-arg": 1, "query-all": 1, "query-result": 1}, "snap"),
		explanation: subLevel + "; obligations: each poll or call reads every subscription's completed path from the cache once, queues every visited leaf, then one sync marker, then (ONCE) closes the queue; the sender sends each dequeued item's current value"}
	checks["C04"] = &propCheck{run: run(map[string]int{"register": 1, "register-first": 1, "walk": 1, "sync-mark": 1, "send-update": 1, "send-sync": 1, "sender-loop": 1, "feed-insert": 1}, "stream"),
		explanation: subLevel + "; obligations: every subscription is registered before the cache is read, the walk queues every visited leaf before exactly one sync marker (first for updates_only), dequeued leaves are sent with the leaf's value at send time"}
	checks["C06"] = &propCheck{run: func(p *Program) {
		matchTrie(p)
		run(map[string]int{"register": 1, "deregister": 1, "feed-insert": 1}, "reg")(p)
		p.need("register", 1)
	}, explanation: "The subscription trie is followed for one arbitrary node, with an arbitrary but fixed client W and child K; what a recursive call does for the rest of the path is the induction hypothesis. Update and UpdateOnce, in each relation of the path's first element to K (path ended, wildcard, K a wildcard, equal, different): every client registered at the node is offered the item once unless already recorded, and is recorded when it is; K is visited exactly once with the rest of the path if and only if the elements agree; nothing is changed; everything happens under the read lock in the calling goroutine. AddQuery walks from the root element by element, links every new node, replaces nothing, registers the client once at the end, under the write lock, and returns a removal function that owns its copy of the query. The removal function takes exactly that client out of exactly that node and prunes only what it knows to be empty. One notification is matched once per update and delete, under prefix plus path, with one set of clients already offered it. A Subscribe call registers each subscription under prefix, origin and path, and has run every removal function when it ends. Closed world: nothing else writes the trie.", assumptions: []string{"map and mutex semantics", "ctree.Query meets C09 for the comparison with queries", "path.ToStrings is deterministic (C19)"}}
	checks["C08"] = &propCheck{run: func(p *Program) {
		run(map[string]int{"send-armed": 1, "timeout": 1, "timer-fires": 1, "send-update": 1, "sender-loop": 1, "feed-insert": 1}, "stall")(p)
		nonBlocking(p, p.mustFn("subscribe", "Server.Update"), p.mustFn("cache", "Cache.GnmiUpdate"), p.mustFn("cache", "Cache.Reset"), p.mustFn("cache", "Cache.Remove"), p.mustFn("coalesce", "Queue.Insert"), p.mustFn("match", "Match.UpdateOnce"), p.mustFn("match", "Match.Update"))
		p.need("ingest-nonblocking", 7)
	}, explanation: subLevel + "; obligations: nothing that waits happens under a lock or inside a cache query, every send is covered by the armed and watched send timer whose expiry ends the RPC with an error, duplicate counts are reported on a copy; plus a call-graph rule: nothing reachable from accepting an update may wait for another goroutine"}
}
