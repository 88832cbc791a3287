package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = &propCheck{run: func(p *Program) { managerRules(p, "session") }, explanation: "Session typestate of manager.Manager, rooted at Add and followed through the monitoring goroutine (and the goroutines it starts): Connect only after a message of the stream, updates and syncs only of the last received message, once, in order, between Connect and Reset; Reset exactly once per ended stream before the next is opened or the goroutine ends; no callback from a goroutine Remove does not wait for, none after the completion signal; the goroutine ends only when the target's own context is done; each attempt waits for the backoff delay and runs under a live sub-context of the target whose cancel function is what Reconnect calls. Remove: unknown refused without effect; cancels, waits for completion, and forgets, without letting the name be added meanwhile. Add: duplicates refused without effect; one goroutine per registered target. The monitoring goroutine takes no lock Remove waits under.", assumptions: []string{"callbacks are non-nil", "context, timer, select and mutex semantics", "the backoff library never stops when MaxElapsedTime is 0"}}
}

type mgrRules struct {
	p       *Program
	want    map[string]bool
	kind    map[string]string // manager field -> Config field
	fTarg   string
	fMu     string
	entry   string
	fCancel string
	fFin    string
	fReconn string
	fName   string
	updT    types.Type
	syncT   types.Type
	noUpd   bool
	waitLck bool // Remove waits for completion with the manager's mutex held
	isRecv  map[*ssa.Function]bool
	dull    map[*ssa.Function]bool
}

func (g *mgrRules) bad(st *State, ev *Event, grp, rule, construct, f string, a ...any) {
	if g.want[grp] {
		g.p.viol(st, ev, rule, construct, f, a...)
	}
}
func (g *mgrRules) badExit(st *State, grp, rule, construct, f string, a ...any) {
	if g.want[grp] {
		g.p.exitViol(st, rule, construct, f, a...)
	}
}
func (g *mgrRules) ob(grp, rule, c string) {
	if g.want[grp] {
		g.p.ob(rule, c)
	}
}
func (g *mgrRules) need(grp, rule string, n int) {
	if g.want[grp] {
		g.p.need(rule, n)
	}
}

const ctxDone = "ctxdone"

// ctxTag distinguishes the ways a context is derived.
func ctxTag(name string) string {
	switch name {
	case "context.WithCancel", "context.WithCancelCause":
		return "cancel"
	case "context.WithTimeout", "context.WithDeadline", "context.WithTimeoutCause", "context.WithDeadlineCause":
		return "timeout"
	case "context.WithValue", "google.golang.org/grpc/metadata.NewOutgoingContext", "google.golang.org/grpc/metadata.AppendToOutgoingContext":
		return "value"
	}
	return ""
}

// derived contexts: a pure term over the parent. Contexts derived the same way
// from the same parent are one term; which of them is live is the rule's state.
func mkCtx(t types.Type, parent *Term, tag string) *Term {
	return mkPure("derivedctx", t, asOf(parent), mkStr(tag))
}

func ctxParent(t *Term) *Term {
	t = asOf(t)
	if t.op == OPure && t.sym == "derivedctx" {
		return t.args[0]
	}
	return nil
}

func derivesFrom(t, root *Term) bool {
	for t != nil {
		t = asOf(t)
		if t == root {
			return true
		}
		t = ctxParent(t)
	}
	return false
}

// cancelOf is the context a cancel function cancels.
func cancelOf(t *Term) *Term {
	if t = asOf(t); t.op == OPure && t.sym == "cancelfn" {
		return t.args[0]
	}
	return nil
}

// ctxModel: contexts as derivation chains, Done channels and cancel functions
// as functions of them. err says what is known of the context's end and is
// told what Err reveals.
func ctxModel(st *State, c *Call, err func(s *State, ctx *Term, over tri) tri) ([]Outcome, bool) {
	tag := ctxTag(c.name)
	switch {
	case tag == "value":
		x := mkCtx(c.sig.Results().At(0).Type(), c.args[0], tag)
		st.assume(mkEq(x, mkNil()), false)
		return one(x), true
	case tag != "":
		tup := c.sig.Results()
		x := mkCtx(tup.At(0).Type(), c.args[0], tag)
		cf := mkPure("cancelfn", tup.At(1).Type(), x)
		st.assume(mkEq(cf, mkNil()), false)
		st.assume(mkEq(x, mkNil()), false)
		return one(mkTuple(x, cf)), true
	case c.name == "context.Context.Done":
		t := mkPure(ctxDone, c.sig.Results().At(0).Type(), asOf(c.args[0]))
		st.assume(mkEq(t, mkNil()), false)
		return one(t), true
	case c.name == "context.Context.Err":
		e := st.fresh(c.instr, "ctxErr", c.sig.Results().At(0).Type())
		if err == nil {
			return one(e), true
		}
		ctx := asOf(c.args[0])
		known := err(st, ctx, unknown)
		var outs []Outcome
		if known != yes {
			outs = append(outs, Outcome{res: e, do: func(s *State) bool { err(s, ctx, no); return s.assume(mkEq(e, mkNil()), true) }})
		}
		if known != no {
			outs = append(outs, Outcome{res: e, do: func(s *State) bool { err(s, ctx, yes); return s.assume(mkEq(e, mkNil()), false) }})
		}
		return outs, true
	}
	return nil, false
}

func doneOf(ch *Term) *Term {
	ch = asOf(ch)
	if ch.op == OPure && ch.sym == ctxDone {
		return asOf(ch.args[0])
	}
	return nil
}

func managerRules(p *Program, groups ...string) {
	const pk = "manager"
	g := &mgrRules{p: p, want: map[string]bool{}, kind: map[string]string{}}
	for _, x := range groups {
		g.want[x] = true
	}
	g.fTarg = p.field(pk, "Manager", "targets", isMap)
	g.entry = p.entryType(pk, "Manager", g.fTarg)
	if g.entry == "" {
		p.report("anchor", pk+".Manager", "the manager no longer maps names to managed targets", nil, nil)
		return
	}
	g.fMu = p.field(pk, "Manager", "mu", nil)
	isFn := func(t types.Type) bool { _, ok := under(t).(*types.Signature); return ok }
	g.fCancel = p.field(pk, g.entry, "cancel", nil)
	g.fFin = p.field(pk, g.entry, "finished", isChan)
	g.fReconn = p.field(pk, g.entry, "reconnect", isFn)
	g.fName = p.field(pk, g.entry, "name", isString)
	ptr := func(n string) types.Type {
		t := p.namedType("proto/gnmi", n)
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	g.updT, g.syncT = ptr("SubscribeResponse_Update"), ptr("SubscribeResponse_SyncResponse")
	if g.updT == nil || g.syncT == nil {
		p.report("anchor", "SubscribeResponse", "the response variants no longer exist", nil, nil)
		return
	}

	// which manager field holds which callback
	if fn := p.mustFn(pk, "NewManager"); fn != nil {
		p.explore(&Rule{Exit: func(st *State, res []*Term) {
			if st.decideNil(res[1]) != yes {
				return
			}
			s, owner := p.fieldsOf(pk, "Manager")
			for i := 0; i < s.NumFields(); i++ {
				v := st.load(mkField(res[0], s, owner, i), s.Field(i).Type())
				n, _ := v.loadedField()
				if n == "" && v.op == OFieldVal {
					n = "manager.Config." + fieldValName(v)
				}
				if strings.HasPrefix(n, "manager.Config.") {
					g.kind[owner+"."+s.Field(i).Name()] = strings.TrimPrefix(n, "manager.Config.")
				}
			}
		}}, fn, nil)
		have := map[string]bool{}
		for _, k := range g.kind {
			have[k] = true
		}
		for _, k := range []string{"Connect", "Reset", "Sync", "Update", "ConnectError", "MonitorError", "ConnectionManager"} {
			g.ob("session", "wiring", k)
			if !have[k] && g.want["session"] {
				p.report("wiring", "Config."+k, "the manager does not take over Config."+k, nil, nil)
			}
		}
	}

	if g.want["session"] {
		g.remove(pk)
		g.reconnect(pk)
	}
	g.add(pk)
	if g.want["session"] {
		p.closedWorld("target-writer", []string{g.fTarg, g.fCancel, g.fFin, g.fReconn})
	}
}

// fieldValName is the field an opaque struct value's part comes from.
func fieldValName(t *Term) string {
	if t.ftyp != nil && t.n < t.ftyp.NumFields() {
		return t.ftyp.Field(t.n).Name()
	}
	if s := structOf(t.args[0].typ); s != nil && t.n < s.NumFields() {
		return s.Field(t.n).Name()
	}
	return t.sym
}

// cb is the Config callback a dynamic call invokes.
func (g *mgrRules) cb(d *Term) string {
	if d == nil {
		return ""
	}
	n, _ := asOf(d).loadedField()
	return g.kind[n]
}

func (g *mgrRules) setup(st *State, ps []*Term) {
	m := ps[0]
	s, owner := g.p.fieldsOf("manager", "Manager")
	for i := 0; i < s.NumFields(); i++ {
		if g.kind[owner+"."+s.Field(i).Name()] != "" && nillable(s.Field(i).Type()) {
			st.assume(mkEq(st.load(mkField(m, s, owner, i), s.Field(i).Type()), mkNil()), false)
		}
	}
}

// ---- Remove ----

func (g *mgrRules) remove(pk string) {
	p := g.p
	fn := p.mustFn(pk, "Manager.Remove")
	if fn == nil {
		return
	}
	r := &Rule{}
	// tgt: the object is the target the name is registered with
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		if outs, ok := ctxModel(st, c, nil); ok {
			return outs, true
		}
		if c.dyn != nil {
			n, b := asOf(c.dyn).loadedField()
			switch {
			case n == g.fCancel:
				p.ob("remove-cancel", "call")
				if t := st.T["t"]; t == nil || b != t {
					p.report("remove-cancel", "Remove", "cancels another target than the removed one", st, c.instr)
				}
				st.Set("cancelled", "1")
				return one(nil), true
			case g.cb(c.dyn) != "" && g.cb(c.dyn) != "ConnectionManager":
				p.report("silence", "Remove", "Remove invokes the callback Config."+g.cb(c.dyn), st, c.instr)
			}
		}
		return nil, false
	}
	r.Event = func(st *State, ev *Event) {
		switch ev.kind {
		case EvUnlock:
			if ev.ok == no {
				p.viol(st, ev, "lock-balance", "Remove", "unlock of a mutex that is not held")
			}
			if st.R["deleted"] != "" && st.R["waited"] == "" {
				p.viol(st, ev, "remove-order", "Remove", "the name becomes available again before its session has finished: a target added under it would overlap with the old session")
			}
		case EvMapGet, EvMapDel, EvMapSet, EvRange:
			if len(ev.args) == 0 || !loadOf(ev.args[0], g.fTarg) {
				break
			}
			p.ob("guarded", "Remove "+p.posOf(ev.instr))
			if len(st.locks) == 0 {
				p.viol(st, ev, "guarded", "targets", "the table of targets is accessed without the manager's mutex")
			}
			if ev.kind == EvRange {
				break
			}
			if asOf(ev.args[1]) != st.T["name"] {
				p.viol(st, ev, "key", "Remove", "touches %s, not the named target", ev.args[1])
			}
			switch ev.kind {
			case EvMapGet:
				if st.R["waited"] != "" {
					st.SetT("again", st.load(mkMapElem(ev.addr, ev.args[1], nil), nil))
					break
				}
				st.SetT("t", st.load(mkMapElem(ev.addr, ev.args[1], nil), nil))
				st.SetT("tm", ev.addr)
			case EvMapSet:
				p.viol(st, ev, "remove-order", "Remove", "Remove registers a target")
			case EvMapDel:
				p.ob("remove-forget", "delete")
				el := st.load(mkMapElem(ev.addr, ev.args[1], nil), nil)
				if st.R["waited"] != "" && (st.T["t"] == nil || el != st.T["t"] && st.decide(mkEq(el, st.T["t"])) != yes) {
					p.viol(st, ev, "remove-order", "Remove", "the entry forgotten is not known to be the target waited for: another one may have been added under the name")
				}
				st.Set("deleted", "1")
			}
		case EvRecv, EvArm:
			if ev.kind == EvArm && ev.what != "recv" {
				break
			}
			n, b := ev.addr0().loadedField()
			if n == g.fFin {
				p.ob("remove-wait", "recv")
				if st.T["t"] == nil || b != st.T["t"] {
					p.viol(st, ev, "remove-wait", "Remove", "waits for another target than the removed one")
				}
				if st.R["cancelled"] == "" {
					p.viol(st, ev, "remove-wait", "Remove", "waits for a session that was not cancelled")
				}
				if len(st.locks) > 0 {
					g.waitLck = true
				}
				st.Set("waited", "1")
			}
		case EvGo:
			p.viol(st, ev, "remove-wait", "Remove", "leaves part of the removal to a goroutine Remove does not wait for")
		}
	}
	r.Exit = func(st *State, res []*Term) {
		if len(st.locks) > 0 {
			p.exitViol(st, "lock-balance", "Remove", "returns with a mutex held")
		}
		e := st.decideNil(res[0])
		c, w, d := st.R["cancelled"], st.R["waited"], st.R["deleted"]
		switch {
		case st.T["t"] == nil:
			if e != no {
				p.exitViol(st, "remove-known", "Remove", "succeeds without looking the target up")
			}
		case g.absent(st):
			p.ob("remove-exit", "unknown")
			if e != no || c+w+d != "" {
				p.exitViol(st, "remove-known", "Remove", "removing an unknown target must be refused without effect")
			}
		default:
			p.ob("remove-exit", "known")
			if e != yes {
				p.exitViol(st, "remove-known", "Remove", "removing a managed target reports %s", res[0])
			}
			if c == "" || w == "" {
				p.exitViol(st, "remove-wait", "Remove", "returns without having cancelled the session and waited for it to finish: callbacks can still follow")
			}
			if d == "" && !(st.T["again"] != nil && st.decide(mkEq(st.T["again"], st.T["t"])) == no) {
				p.exitViol(st, "remove-forget", "Remove", "the removed target stays registered: it cannot be added again")
			}
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) {
		g.setup(st, ps)
		st.SetT("name", ps[1])
	})
	p.need("remove-cancel", 1)
	p.need("remove-wait", 1)
	p.need("remove-forget", 1)
	p.need("remove-exit", 2)
}

// ---- Reconnect ----

func (g *mgrRules) reconnect(pk string) {
	p := g.p
	fn := p.mustFn(pk, "Manager.Reconnect")
	if fn == nil {
		return
	}
	r := &Rule{}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		if c.dyn != nil {
			n, b := asOf(c.dyn).loadedField()
			switch {
			case n == g.fReconn:
				p.ob("reconnect", "call")
				if st.T["t"] == nil || b != st.T["t"] {
					p.report("reconnect", "Reconnect", "reconnects another target than the named one", st, c.instr)
				}
				st.Set("called", "1")
				return one(nil), true
			case n == g.fCancel:
				p.report("reconnect", "Reconnect", "a forced reconnect cancels the target's management: it is never retried", st, c.instr)
			case g.cb(c.dyn) != "":
				p.report("silence", "Reconnect", "Reconnect invokes the callback Config."+g.cb(c.dyn), st, c.instr)
			}
		}
		return nil, false
	}
	r.Event = func(st *State, ev *Event) {
		switch ev.kind {
		case EvMapGet, EvMapDel, EvMapSet:
			if !loadOf(ev.args[0], g.fTarg) {
				break
			}
			if len(st.locks) == 0 {
				p.viol(st, ev, "guarded", "targets", "the table of targets is accessed without the manager's mutex")
			}
			if ev.kind != EvMapGet {
				p.viol(st, ev, "reconnect", "Reconnect", "a forced reconnect changes which targets are managed")
			}
			if asOf(ev.args[1]) != st.T["name"] {
				p.viol(st, ev, "key", "Reconnect", "touches %s, not the named target", ev.args[1])
			}
			st.SetT("t", st.load(mkMapElem(ev.addr, ev.args[1], nil), nil))
			st.SetT("tm", ev.addr)
		case EvLoad, EvStore:
			if ev.name == g.fReconn {
				p.ob("guarded", "reconnect")
				if ev.addr.op == OField && len(st.locks) == 0 {
					p.viol(st, ev, "guarded", g.fReconn, "the reconnect function is accessed without a mutex")
				}
				if ev.kind == EvLoad {
					st.SetT("fn", st.load(ev.addr, nil))
				}
			}
		}
	}
	r.Exit = func(st *State, res []*Term) {
		if len(st.locks) > 0 {
			p.exitViol(st, "lock-balance", "Reconnect", "returns with a mutex held")
		}
		if g.absent(st) {
			p.ob("reconnect-exit", "unknown")
			if st.decideNil(res[0]) != no {
				p.exitViol(st, "reconnect", "Reconnect", "reconnecting an unknown target is not refused")
			}
			return
		}
		p.ob("reconnect-exit", "known")
		if st.R["called"] == "" && !(st.T["fn"] != nil && st.decideNil(st.T["fn"]) == yes) {
			p.exitViol(st, "reconnect", "Reconnect", "a forced reconnect does not end the current attempt")
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) { g.setup(st, ps); st.SetT("name", ps[1]) })
	p.need("reconnect", 1)
	p.need("reconnect-exit", 2)
}

// ---- Add and the monitoring goroutine ----

func (g *mgrRules) add(pk string) {
	p := g.p
	fn := p.mustFn(pk, "Manager.Add")
	if fn == nil {
		return
	}
	session := g.want["session"]
	g.isRecv = map[*ssa.Function]bool{}
	g.dull = map[*ssa.Function]bool{}
	isRecvCall := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Recv"
	}
	reachesRecv := func(in ssa.Instruction) bool {
		if isRecvCall(in) {
			return true
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return false
		}
		f := c.Common().StaticCallee()
		if f == nil || !p.inRepo(f) {
			return false
		}
		v, ok := g.isRecv[f]
		if !ok {
			v = p.reaches(f, false, isRecvCall)
			g.isRecv[f] = v
		}
		return v
	}
	nested := func(st *State) bool { return strings.Contains(st.gor, ">") }
	// checked: the last received message was delivered if it had to be
	checked := func(st *State, ev *Event, in ssa.Instruction) {
		resp := st.T["resp"]
		if resp == nil {
			return
		}
		st.SetT("resp", nil)
		if st.R["deliv"] != "" {
			return
		}
		body := st.get(resp, "Response")
		upd := st.decide(mkTypeIs(body, g.updT))
		syn := st.decide(mkTypeIs(body, g.syncT))
		if upd == yes && st.decideNil(st.get(mkPure("as:"+typeKey(g.updT), g.updT, body), "Update")) == yes {
			return
		}
		if st.decideNil(body) == yes {
			return
		}
		if upd != no && session {
			p.report("deliver", "Recv", "a received update is not passed to the Update callback on this path", st, in)
		} else if syn != no && session {
			p.report("deliver", "Recv", "a received sync is not passed to the Sync callback on this path", st, in)
		}
	}
	ended := func(st *State, ev *Event, what string) {
		s := st.R["s"]
		if s == "live" || s == "got" || s == "ended" {
			g.bad(st, ev, "session", "reset-once", "session", "%s although the stream that ended was not followed by a Reset", what)
		}
	}
	r := &Rule{}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		if outs, ok := ctxModel(st, c, func(s *State, ctx *Term, over tri) tri {
			return g.ctxOver(s, ctx, over)
		}); ok {
			if ctxTag(c.name) == "cancel" {
				x := outs[0].res.args[0]
				switch {
				case st.gor == "" && st.T["rootctx"] == nil:
					st.SetT("rootctx", x)
				case st.gor != "" && g.isSub(st, x) && st.R["hold"] == "" && !nested(st):
					st.Set("newsub", "1")
				}
			}
			return outs, true
		}
		if g.opaque(c) {
			return one(st.fresh(c.instr, "opaque", st.x.resType(c))), true
		}
		res := c.sig.Results()
		// the delay before the next attempt
		if strings.HasSuffix(c.name, ".NextBackOff") {
			d := st.fresh(c.instr, "delay", res.At(0).Type())
			st.SetT("delay", d)
			if st.R["forever"] == "" {
				g.bad(st, &Event{instr: c.instr}, "session", "retry-forever", "backoff", "the backoff stops after its maximum elapsed time: failed sessions are then retried without any delay")
			}
			return one(d), true
		}
		switch c.name {
		case "(*time.Timer).Reset", "time.NewTimer", "time.After", "time.Sleep":
			isDelay := false
			for _, a := range c.args {
				isDelay = isDelay || st.T["delay"] != nil && asOf(a) == st.T["delay"]
			}
			var t, ret *Term
			switch c.name {
			case "time.NewTimer", "time.After":
				ret = st.fresh(c.instr, "timer", res.At(0).Type())
				st.assume(mkEq(ret, mkNil()), false)
				t = ret
			case "time.Sleep":
				if isDelay {
					g.pause(st)
				}
				return one(nil), true
			default:
				t = asOf(c.args[0])
				ret = st.fresh(c.instr, "timerActive", res.At(0).Type())
			}
			if isDelay {
				st.Set("armed", "1")
				st.SetT("timer", t)
			} else if st.T["timer"] == t {
				st.Set("armed", "")
				st.SetT("timer", nil)
			}
			return one(ret), true
		}
		if c.name == "google.golang.org/grpc.Invoke" {
			return nil, false
		}
		// a connection for the attempt
		isConn := c.invoke && res.Len() == 3 && types.TypeString(res.At(0).Type(), nil) == "*google.golang.org/grpc.ClientConn"
		if isConn {
			g.ob("hold", "hold", "acquire")
			g.attempt(st, c, nested(st))
			if st.R["hold"] != "" {
				g.bad(st, &Event{instr: c.instr}, "hold", "hold-released", "Connection", "another connection is requested while the previous one is still held: its release function is lost and it is never closed")
			}
			rr := st.fresh(c.instr, "conn", res)
			return []Outcome{
				{res: rr, do: func(s *State) bool {
					s.Set("hold", "1")
					s.SetT("conn", rr.args[0])
					s.SetT("done", rr.args[1])
					return s.assume(mkEq(rr.args[2], mkNil()), true) && s.assume(mkEq(rr.args[0], mkNil()), false) && s.assume(mkEq(rr.args[1], mkNil()), false)
				}},
				{res: rr, do: func(s *State) bool {
					s.SetT("faildone", rr.args[1])
					return s.assume(mkEq(rr.args[2], mkNil()), false) && s.assume(mkEq(rr.args[1], mkNil()), false)
				}},
			}, true
		}
		// a stream on it
		isStream := res.Len() == 2 && strings.Contains(types.TypeString(res.At(0).Type(), nil), "SubscribeClient") || res.Len() == 2 && strings.Contains(types.TypeString(res.At(0).Type(), nil), "BidiStreamingClient")
		if isStream {
			g.ob("session", "stream", "open")
			ended(st, &Event{instr: c.instr}, "a new stream is opened")
			if st.R["opened"] != "" {
				g.bad(st, &Event{instr: c.instr}, "session", "backoff", "Subscribe", "a stream that ended is reopened without waiting for the backoff delay")
			}
			st.Set("opened", "1")
			if nested(st) {
				g.bad(st, &Event{instr: c.instr}, "session", "own-goroutine", "Subscribe", "a stream is opened by a goroutine Remove does not wait for")
			}
			for _, a := range c.args {
				a = asOf(a)
				if a == st.T["conn"] && nested(st) {
					g.bad(st, &Event{instr: c.instr}, "hold", "hold-use", "Subscribe", "the connection is used by a goroutine its release does not wait for: it may be closed")
				}
				if a == st.T["conn"] && st.R["hold"] == "" {
					g.bad(st, &Event{instr: c.instr}, "hold", "hold-use", "Subscribe", "the connection is used after it was released: it may be closed")
				}
				if strings.HasSuffix(types.TypeString(a.typ, nil), "context.Context") && st.T["rootctx"] != nil {
					if !g.liveCtx(st, a) {
						g.bad(st, &Event{instr: c.instr}, "session", "sub-context", "Subscribe", "the stream does not run under the context that Reconnect cancels: a forced reconnect does not end it")
					}
				}
			}
			rr := st.fresh(c.instr, "stream", res)
			return []Outcome{
				{res: rr, do: func(s *State) bool {
					s.SetT("stream", rr.args[0])
					s.Set("s", "open")
					s.SetT("resp", nil)
					return s.assume(mkEq(rr.args[1], mkNil()), true) && s.assume(mkEq(rr.args[0], mkNil()), false)
				}},
				{res: rr, do: func(s *State) bool {
					s.Set("s", "")
					return s.assume(mkEq(rr.args[1], mkNil()), false)
				}},
			}, true
		}
		if c.invoke && st.T["stream"] != nil && len(c.args) > 0 && asOf(c.args[0]) == st.T["stream"] {
			switch {
			case strings.HasSuffix(c.name, ".Recv"):
				g.ob("session", "recv", p.posOf(c.instr))
				checked(st, nil, c.instr)
				if st.R["s"] == "ended" {
					g.bad(st, &Event{instr: c.instr}, "session", "recv-ended", "Recv", "reads again from a stream that has ended instead of retrying with backoff")
				}
				if nested(st) {
					g.bad(st, &Event{instr: c.instr}, "session", "own-goroutine", "Recv", "the stream is read by a goroutine Remove does not wait for")
				}
				if st.R["hold"] == "" {
					g.bad(st, &Event{instr: c.instr}, "hold", "hold-use", "Recv", "the stream is read after its connection was released: it may be closed")
				}
				rr := st.fresh(c.instr, "recv", res)
				return []Outcome{
					{res: rr, do: func(s *State) bool {
						s.SetT("resp", rr.args[0])
						s.Set("deliv", "")
						if s.R["s"] == "open" {
							s.Set("s", "got")
						}
						return s.assume(mkEq(rr.args[1], mkNil()), true) && s.assume(mkEq(rr.args[0], mkNil()), false)
					}},
					{res: rr, do: func(s *State) bool {
						s.Set("s", "ended")
						return s.assume(mkEq(rr.args[1], mkNil()), false)
					}},
				}, true
			case strings.HasSuffix(c.name, ".Send"):
				g.ob("session", "send", "request")
				e := st.fresh(c.instr, "senderr", res.At(0).Type())
				return one(e), true
			}
		}
		if c.dyn != nil {
			d := asOf(c.dyn)
			n, _ := d.loadedField()
			switch {
			case st.T["done"] != nil && d == st.T["done"]:
				g.ob("hold", "release", p.posOf(c.instr))
				st.Set("hold", "")
				st.SetT("conn", nil)
				return one(nil), true
			case st.T["faildone"] != nil && d == st.T["faildone"]:
				return one(nil), true
			case n == g.fCancel:
				g.bad(st, &Event{instr: c.instr}, "session", "retry-forever", "cancel", "a target's management is cancelled by something other than Remove")
				return one(nil), true
			case n == g.fReconn:
				return one(nil), true
			case cancelOf(d) != nil:
				switch x := cancelOf(d); {
				case x == st.T["rootctx"]:
					g.bad(st, &Event{instr: c.instr}, "session", "retry-forever", "cancel", "the target's management is cancelled by something other than Remove")
				case g.isSub(st, x):
					st.Set("sub", "dead")
				}
				return one(nil), true
			case g.cb(d) != "" && g.cb(d) != "ConnectionManager":
				g.callback(st, c, g.cb(d), nested(st))
				return one(nil), true
			}
		}
		return nil, false
	}
	r.Event = func(st *State, ev *Event) {
		switch ev.kind {
		case EvLock:
			if ev.name == g.fMu && st.gor != "" && !nested(st) && g.waitLck && st.R["finished"] == "" {
				g.bad(st, ev, "session", "remove-deadlock", "mutex", "the monitoring goroutine waits for the manager's mutex before signalling completion, while Remove holds it waiting for that signal")
			}
		case EvUnlock:
			if ev.ok == no {
				g.bad(st, ev, "session", "lock-balance", "unlock", "unlock of a mutex that is not held")
			}
		case EvMapGet, EvMapSet, EvMapDel:
			if !loadOf(ev.args[0], g.fTarg) {
				break
			}
			if len(st.locks) == 0 {
				g.bad(st, ev, "session", "guarded", "targets", "the table of targets is accessed without the manager's mutex")
			}
			if st.gor != "" {
				if ev.kind != EvMapGet {
					g.bad(st, ev, "session", "register", "targets", "the monitoring goroutine changes which targets are managed")
				}
				break
			}
			if asOf(ev.args[1]) != st.T["name"] {
				g.bad(st, ev, "session", "key", "Add", "touches %s, not the named target", ev.args[1])
			}
			switch ev.kind {
			case EvMapDel:
				if st.R["registered"] != "" && st.R["started"] == "" {
					st.Set("registered", "")
				} else {
					g.bad(st, ev, "session", "register", "Add", "Add forgets a managed target")
				}
			case EvMapSet:
				g.ob("session", "register", "mapset")
				if st.decide(st.load(mkMapOk(ev.addr, ev.args[1]), types.Typ[types.Bool])) != no && st.decideNil(st.load(mkMapElem(ev.addr, ev.args[1], nil), nil)) != yes {
					g.bad(st, ev, "session", "register", "Add", "a target is registered without having found, in the same critical section, that the name is free: the session running under it can no longer be removed")
				}
				if rootAlloc(ev.val) == nil {
					g.bad(st, ev, "session", "register", "Add", "registers %s, not a new target", ev.val)
				}
				st.Set("registered", "1")
				st.SetT("ta", ev.val)
			}
		case EvStore:
			switch {
			case ev.name == g.fReconn && st.gor != "":
				if x := cancelOf(ev.val); x != nil && g.isSub(st, x) {
					if st.R["newsub"] != "" {
						st.Set("sub", "fresh")
						st.Set("newsub", "")
					}
				} else if st.decideNil(ev.val) != yes {
					g.bad(st, ev, "session", "sub-context", g.fReconn, "the reconnect function is set to %s, which does not cancel a sub-context of the target", ev.val)
				}
				if len(st.locks) == 0 {
					g.bad(st, ev, "session", "guarded", g.fReconn, "the reconnect function is set without a mutex")
				}
			case strings.HasSuffix(ev.name, "ExponentialBackOff.MaxElapsedTime"):
				v, ok := ev.val.intVal()
				if ok && v == 0 {
					st.Set("forever", "1")
				} else {
					st.Set("forever", "")
				}
			}
		case EvArm, EvRecv:
			ch := ev.addr0()
			if ev.kind == EvArm && ev.n == -1 {
				// default arm: none of the channels was ready
				if st.R["selsub"] != "" && st.R["sub"] != "" {
					st.Set("sub", "ok")
				}
				break
			}
			if c := doneOf(ch); c != nil {
				g.ctxOver(st, c, yes)
			} else if st.R["armed"] != "" && ev.what != "send" {
				n, base := asOf(ch).loadedField()
				if t := st.T["timer"]; t != nil && (asOf(ch) == t || n == "time.Timer.C" && asOf(base) == t) {
					g.pause(st)
				}
			}
		case EvSelect:
			st.Set("selsub", "")
			for _, a := range ev.args {
				if c := doneOf(a); c != nil && g.isSub(st, c) {
					st.Set("selsub", "1")
				}
			}
		case EvClose:
			n, b := ev.addr0().loadedField()
			fin := n == g.fFin
			if !fin && st.T["ta"] != nil && ev.addr0() == st.get(st.T["ta"], g.fFin[strings.LastIndex(g.fFin, ".")+1:]) {
				fin, b = true, st.T["ta"]
			}
			if !fin {
				break
			}
			g.ob("session", "finish", "close")
			if st.gor == "" || nested(st) || st.T["ta"] != nil && b != st.T["ta"] {
				g.bad(st, ev, "session", "finish", "finished", "completion is signalled by something other than the target's monitoring goroutine")
			}
			if st.R["finished"] != "" {
				g.bad(st, ev, "session", "finish", "finished", "completion is signalled twice: the second close panics")
			}
			checked(st, ev, ev.instr)
			ended(st, ev, "completion is signalled")
			st.Set("finished", "1")
		case EvGo:
			if st.gor == "" && st.R["failedgo"] == "" {
				st.Count("started")
				if st.R["registered"] == "" {
					g.bad(st, ev, "session", "register", "Add", "monitoring is started before the target is registered")
				}
			}
		}
	}
	r.Back = func(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
		if st.T["resp"] == nil {
			return
		}
		for b := range body {
			for _, in := range b.Instrs {
				if reachesRecv(in) {
					checked(st, nil, nil)
					return
				}
			}
		}
	}
	r.Exit = func(st *State, res []*Term) {
		if len(st.locks) > 0 {
			g.badExit(st, "session", "lock-balance", "exit", "returns with a mutex held")
		}
		if nested(st) {
			return
		}
		if st.gor != "" {
			g.ob("session", "monitor-exit", "exit")
			if st.R["finished"] == "" {
				g.badExit(st, "session", "finish", "finished", "monitoring ends without signalling completion: Remove never returns")
			}
			if st.R["rootdone"] == "" {
				g.badExit(st, "session", "retry-forever", "monitor", "monitoring ends on a path that did not find the target removed: a failed session is not retried")
			}
			if st.R["hold"] != "" {
				g.badExit(st, "hold", "hold-released", "monitor", "monitoring ends while its connection is still held: it is never closed")
			}
			return
		}
		e := st.decideNil(res[0])
		reg, start := st.R["registered"], st.R["started"]
		switch e {
		case yes:
			g.ob("session", "add", "ok")
			if reg == "" || start != "1" {
				g.badExit(st, "session", "add", "Add", "Add succeeds having registered the target %s times and started %s monitoring goroutines", or0(reg), or0(start))
			}
			ta := st.T["ta"]
			if ta != nil && session {
				last := func(f string) string { return f[strings.LastIndex(f, ".")+1:] }
				if cf := st.get(ta, last(g.fCancel)); cancelOf(cf) != st.T["rootctx"] {
					g.badExit(st, "session", "add", "Add", "the registered target's cancel function is not that of its monitoring context: Remove cannot end it")
				}
				if st.decideNil(st.get(ta, last(g.fFin))) != no {
					g.badExit(st, "session", "add", "Add", "the registered target has no completion signal")
				}
			}
		case no:
			g.ob("session", "add", "refused")
			if reg != "" || start != "" {
				g.badExit(st, "session", "add", "Add", "a refused Add registers the target or starts monitoring it")
			}
		default:
			g.badExit(st, "session", "add", "Add", "whether Add succeeds is not decided")
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) {
		g.setup(st, ps)
		st.SetT("name", ps[1])
	})
	g.need("session", "add", 2)
	g.need("session", "stream", 1)
	g.need("session", "recv", 1)
	g.need("session", "finish", 1)
	g.need("session", "monitor-exit", 1)
	g.need("session", "register", 1)
	g.need("session", "callback", 6)
	g.need("session", "attempt", 1)
	g.need("hold", "hold", 1)
	g.need("hold", "release", 1)
}

// absent: the name looked up is known not to be managed.
func (g *mgrRules) absent(st *State) bool {
	t, m := st.T["t"], st.T["tm"]
	if t == nil {
		return false
	}
	if st.decideNil(t) == yes {
		return true
	}
	return st.R["deleted"] == "" && st.R["waited"] == "" && st.R["cancelled"] == "" && st.decide(st.load(mkMapOk(m, st.T["name"]), types.Typ[types.Bool])) == no
}

// isSub: a cancellable context derived directly from the target's own.
func (g *mgrRules) isSub(st *State, c *Term) bool {
	c = asOf(c)
	r := st.T["rootctx"]
	return r != nil && ctxParent(c) == r && c.args[1] == mkStr("cancel")
}

// liveCtx: the context derives from the sub-context Reconnect cancels.
func (g *mgrRules) liveCtx(st *State, c *Term) bool {
	if st.R["sub"] == "" || st.R["newsub"] != "" {
		return false
	}
	for c != nil {
		c = asOf(c)
		if g.isSub(st, c) {
			return true
		}
		c = ctxParent(c)
	}
	return false
}

// ctxOver notes that a context was found ended (or not), and says what is known.
func (g *mgrRules) ctxOver(st *State, c *Term, over tri) tri {
	for c = asOf(c); ctxParent(c) != nil && c.args[1] == mkStr("value"); {
		c = ctxParent(c)
	}
	if strings.Contains(st.gor, ">") {
		return unknown
	}
	switch {
	case c == st.T["rootctx"]:
		if over == yes {
			st.Set("rootdone", "1")
		}
		if st.R["rootdone"] != "" {
			return yes
		}
	case g.isSub(st, c) && st.R["sub"] != "":
		switch over {
		case yes:
			st.Set("sub", "dead")
		case no:
			st.Set("sub", "ok")
		}
		if st.R["sub"] == "dead" || st.R["rootdone"] != "" {
			return yes
		}
	default:
		if over == yes {
			st.Set("cdone"+itoa(c.id), "1")
		}
		if st.R["cdone"+itoa(c.id)] != "" {
			return yes
		}
	}
	return unknown
}

// pause: the delay before the next attempt has passed. What is known of the
// attempt before it no longer matters.
func (g *mgrRules) pause(st *State) {
	g.attemptOver(st)
	st.Set("paused", "1")
	st.Set("opened", "")
	st.Set("armed", "")
	st.SetT("timer", nil)
	st.SetT("delay", nil)
	if st.R["hold"] != "" {
		return
	}
	st.SetT("done", nil)
	if s := st.R["s"]; s == "" || s == "over" || s == "open" {
		st.SetT("stream", nil)
		st.SetT("resp", nil)
		st.Set("deliv", "")
		if s == "open" {
			st.Set("s", "")
		}
	}
	st.dropFacts(func(t *Term) bool {
		return t.containsIf(func(u *Term) bool { return u.op == OOpaque && !strings.Contains(u.sym, "context.Background") })
	})
}

// attemptOver: the current attempt has ended.
func (g *mgrRules) attemptOver(st *State) {
	if st.R["att"] == "" {
		return
	}
	st.Set("att", "")
	for k := range st.R {
		if strings.HasPrefix(k, "cdone") {
			st.Set(k, "")
		}
	}
	st.SetT("faildone", nil)
	st.Set("paused", "")
	st.Set("armed", "")
	if s := st.R["sub"]; s == "fresh" || s == "ok" {
		st.Set("sub", "stale")
	}
}

// opaque: a helper that does nothing the session rules look at.
func (g *mgrRules) opaque(c *Call) bool {
	if c.fn == nil || c.fn.Blocks == nil || c.fn.Pkg != g.p.ssa["manager"] {
		return false
	}
	v, ok := g.dull[c.fn]
	if !ok {
		v = !g.p.reaches(c.fn, true, g.relevant)
		g.dull[c.fn] = v
	}
	return v
}

func fieldAddrName(fa *ssa.FieldAddr) string {
	pt, ok := under(fa.X.Type()).(*types.Pointer)
	if !ok {
		return ""
	}
	s, ok := under(pt.Elem()).(*types.Struct)
	if !ok {
		return ""
	}
	return ownerName(pt.Elem()) + "." + s.Field(fa.Field).Name()
}

func (g *mgrRules) relevant(in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.Select, *ssa.Send:
		return true
	case *ssa.UnOp:
		return i.Op == token.ARROW
	case *ssa.Store:
		if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
			n := fieldAddrName(fa)
			return n == g.fReconn || n == g.fCancel || n == g.fFin || n == g.fTarg || strings.HasSuffix(n, ".MaxElapsedTime")
		}
	case *ssa.FieldAddr:
		return fieldAddrName(i) == g.fTarg
	case ssa.CallInstruction:
		c := i.Common()
		if c.IsInvoke() {
			switch c.Method.Name() {
			case "Connection", "Recv", "Send", "Done", "Err", "Subscribe":
				return true
			}
			return false
		}
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			return v.Name() == "close"
		case *ssa.Function:
			n := v.String()
			return ctxTag(n) != "" || strings.HasPrefix(n, "time.New") || strings.HasPrefix(n, "(*time.Timer)") || n == "time.After" || n == "time.Sleep" || strings.Contains(n, "sync.") || strings.Contains(n, "backoff")
		}
		return true
	}
	return false
}

// attempt: a connection is requested.
func (g *mgrRules) attempt(st *State, c *Call, nested bool) {
	ev := &Event{instr: c.instr}
	g.ob("session", "attempt", "connect")
	if st.gor == "" || nested {
		g.bad(st, ev, "session", "own-goroutine", "Connection", "a session is started by a goroutine Remove does not wait for")
	}
	ctx := c.args[1]
	for _, a := range c.args {
		if strings.HasSuffix(types.TypeString(a.typ, nil), "context.Context") {
			ctx = a
		}
	}
	if st.T["rootctx"] != nil && !derivesFrom(ctx, st.T["rootctx"]) {
		g.bad(st, ev, "session", "sub-context", "Connection", "the attempt does not run under the target's context: Remove cannot end it")
	}
	if !g.liveCtx(st, ctx) {
		g.bad(st, ev, "session", "sub-context", "Connection", "the attempt does not run under the context that Reconnect cancels")
	} else {
		switch st.R["sub"] {
		case "dead":
			if st.R["att"] == "" {
				g.bad(st, ev, "session", "sub-context", "Connection", "an attempt runs under a context known to be cancelled: after a forced reconnect no session can ever succeed")
			}
		case "stale":
			if st.R["att"] == "" {
				g.bad(st, ev, "session", "sub-context", "Connection", "an attempt reuses the previous context without checking that no reconnect was forced: no session can ever succeed again")
			}
		}
	}
	if st.R["attempted"] != "" && st.R["att"] == "" && st.R["paused"] == "" {
		g.bad(st, ev, "session", "backoff", "Connection", "a failed session is retried without waiting for the backoff delay")
	}
	st.Set("att", "1")
	st.Set("attempted", "1")
}

// callback: one of the configured callbacks runs.
func (g *mgrRules) callback(st *State, c *Call, kind string, nested bool) {
	ev := &Event{instr: c.instr}
	g.ob("session", "callback", kind)
	if st.gor == "" || nested {
		g.bad(st, ev, "session", "own-goroutine", kind, "Config.%s is invoked by a goroutine Remove does not wait for", kind)
	}
	if st.R["finished"] != "" {
		g.bad(st, ev, "session", "silence", kind, "Config.%s is invoked after completion was signalled: Remove may have returned", kind)
	}
	if len(c.args) > 0 && isString(c.args[0].typ) {
		n, _ := asOf(c.args[0]).loadedField()
		if asOf(c.args[0]) != st.T["name"] && n != g.fName {
			g.bad(st, ev, "session", "callback-name", kind, "Config.%s is invoked for %s, not for the managed target", kind, c.args[0])
		}
	}
	s := st.R["s"]
	switch kind {
	case "Connect":
		if s != "got" && !(s == "live" && false) {
			g.bad(st, ev, "session", "connect-first", kind, "Connect is reported %s", map[string]string{"": "without a stream", "open": "before the first message of the stream", "live": "twice for one stream", "ended": "after the stream ended", "over": "after the session was reset"}[s])
		}
		st.Set("s", "live")
	case "Update", "Sync":
		if s != "live" {
			g.bad(st, ev, "session", "session-order", kind, "Config.%s is invoked outside a session (before Connect or after the Reset that ends it)", kind)
		}
		if st.T["resp"] == nil || st.R["deliv"] != "" {
			g.bad(st, ev, "session", "deliver", kind, "Config.%s is invoked twice for one received message", kind)
		} else {
			body := st.get(st.T["resp"], "Response")
			t := g.updT
			if kind == "Sync" {
				t = g.syncT
			}
			if st.decide(mkTypeIs(body, t)) != yes {
				g.bad(st, ev, "session", "deliver", kind, "Config.%s is invoked for a message that is not known to be one", kind)
			}
			if kind == "Update" && !(len(c.args) > 1 && c.args[1].contains(st.T["resp"])) {
				g.bad(st, ev, "session", "deliver", kind, "Config.Update is given %s, not the received notification", c.args[len(c.args)-1])
			}
		}
		st.Set("deliv", "1")
	case "Reset":
		switch s {
		case "ended", "live", "got", "open":
			if st.T["resp"] != nil && s != "ended" {
				st.Set("deliv", "1")
			}
		default:
			g.bad(st, ev, "session", "reset-once", kind, "Reset is invoked %s", map[string]string{"": "without a stream having ended", "over": "twice for one ended stream"}[s])
		}
		st.Set("s", "over")
		g.attemptOver(st)
	case "MonitorError", "ConnectError":
		g.attemptOver(st)
	}
}
