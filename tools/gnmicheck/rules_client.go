package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C18"] = &propCheck{run: clientRules, explanation: "Typestate of the client library, rooted at its exported operations and followed on every path. Reconnect: the cancel function and the completion channel are published, and the close latch read, in one critical section before the first attempt; Close sets the latch and takes both in one critical section, cancels, closes the inner client and only then waits; so exactly one side cancels, for any relative timing. Every attempt runs under the cancelled context without the mutex held; between two attempts lie exactly one disconnect, a check that the context is alive, the backoff delay and exactly one reset; Subscribe ends only on a path that found the context over, and signals completion exactly once, last. Nothing else in the two calls can block. Base client: each new stream is installed and the close flag cleared in one critical section; the flag is read under the lock after every received message and a set flag ends the loop; Close sets it and closes the stream. getFirst: producers can never be stuck, the collector waits only while results are outstanding, and every goroutine gets the caller's context. gNMI client: Connected precedes every other notification of a stream; messages are passed on one by one in order, in the receiving goroutine; Impl: one receive per call. Closed world: nothing else writes the handshake state.", assumptions: []string{"an Impl's Subscribe and Recv return once their context is cancelled or the Impl is closed (gRPC's contract)", "callbacks return", "one Subscribe call at a time", "context and sync library semantics"}}
}

type clientRulesT struct {
	p                       *Program
	fInner, fDisc, fReset   string
	fCancel, fClosed, fDone string
	bImpl, bClosed          string
}

func clientRules(p *Program) {
	const pk = "client"
	g := &clientRulesT{p: p}
	isFn := func(t types.Type) bool { _, ok := under(t).(*types.Signature); return ok }
	g.fInner = p.field(pk, "ReconnectClient", "Client", nil)
	g.fDisc = p.field(pk, "ReconnectClient", "disconnect", nil)
	g.fReset = p.field(pk, "ReconnectClient", "reset", nil)
	g.fCancel = p.field(pk, "ReconnectClient", "cancel", isFn)
	g.fClosed = p.field(pk, "ReconnectClient", "closed", isBool)
	g.fDone = p.field(pk, "ReconnectClient", "subscribeDone", isChan)
	g.bImpl = p.field(pk, "BaseClient", "clientImpl", nil)
	g.bClosed = p.field(pk, "BaseClient", "closed", isBool)
	g.reconnectNew(pk)
	g.reconnectSubscribe(pk)
	g.reconnectClose(pk)
	g.base(pk)
	g.first(pk)
	g.cacheClient(pk)
	g.gnmi()
	p.closedWorld("handshake-writer", []string{g.fCancel, g.fClosed, g.fDone, g.bImpl, g.bClosed})
}

func lastPart(f string) string { return f[strings.LastIndex(f, ".")+1:] }

// section counts critical sections of one root.
func section(st *State, ev *Event) {
	if ev.kind == EvLock {
		if n := atoi(st.R["sec"]); n < 6 {
			st.Set("sec", itoa(n+1))
		}
	}
}

// ctxArgs checks that every context handed on derives from the caller's.
func (g *clientRulesT) ctxArgs(st *State, c *Call, root *Term) {
	if root == nil || ctxTag(c.name) != "" || strings.HasPrefix(c.name, "context.Context.") {
		return
	}
	for _, a := range c.args {
		if a.typ == nil || types.TypeString(a.typ, nil) != "context.Context" {
			continue
		}
		g.p.ob("context", c.name)
		if !derivesFrom(a, root) {
			g.p.viol(st, &Event{instr: c.instr}, "context", c.name, "is called with a context that is not derived from the caller's: cancelling does not end it")
		}
	}
}

// ---- Reconnect ----

func (g *clientRulesT) reconnectNew(pk string) {
	p := g.p
	fn := p.mustFn(pk, "Reconnect")
	if fn == nil {
		return
	}
	r := &Rule{}
	r.Event = func(st *State, ev *Event) {
		if ev.kind == EvStore && strings.HasSuffix(ev.name, "ExponentialBackOff.MaxElapsedTime") {
			st.Set("forever", "")
			if v, ok := ev.val.intVal(); ok && v == 0 {
				st.Set("forever", "1")
			}
		}
	}
	r.Exit = func(st *State, res []*Term) {
		p.ob("wiring", "Reconnect")
		if st.R["forever"] == "" {
			p.exitViol(st, "backoff", "Reconnect", "the backoff ends after its maximum elapsed time: attempts then follow each other without any delay")
		}
		for _, f := range []struct {
			field, param string
		}{{g.fInner, "inner"}, {g.fDisc, "disc"}, {g.fReset, "reset"}} {
			if v := st.get(res[0], lastPart(f.field)); asOf(v) != st.T[f.param] {
				p.exitViol(st, "wiring", f.field, "holds %s, not what the caller gave", v)
			}
		}
		if v := st.get(res[0], lastPart(g.fClosed)); !v.isFalse() {
			p.exitViol(st, "handshake", g.fClosed, "a new client is not open")
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) {
		st.SetT("inner", ps[0])
		st.SetT("disc", ps[1])
		st.SetT("reset", ps[2])
	})
	p.need("wiring", 1)
}

func (g *clientRulesT) reconnectSubscribe(pk string) {
	p := g.p
	fn := p.mustFn(pk, "ReconnectClient.Subscribe")
	if fn == nil {
		return
	}
	r := &Rule{}
	ours := func(st *State, c *Term) bool { x := st.T["ctx"]; return x != nil && derivesFrom(c, x) }
	over := func(st *State, c *Term, o tri) tri {
		if c = asOf(c); ours(st, c) && c != st.T["ctx"] && ctxTagOf(c) != "value" {
			return unknown // an own timeout or the like
		}
		if !ours(st, c) {
			if st.T["ctx"] != nil && derivesFrom(st.T["ctx"], c) && o == yes {
				st.Set("over", "1")
			}
			return unknown
		}
		switch o {
		case yes:
			st.Set("over", "1")
		case no:
			if st.R["att"] != "" {
				st.Set("alive", "1")
			}
		}
		if st.R["over"] != "" {
			return yes
		}
		return unknown
	}
	// between: what must lie between an attempt and what follows it
	discDone := func(st *State, ev *Event, what string) {
		if st.R["att"] == "" || st.R["disc"] == "1" {
			return
		}
		if st.decideNil(st.get(st.T["p"], lastPart(g.fDisc))) == yes {
			return
		}
		p.viol(st, ev, "disconnect-once", "disconnect", "%s although the attempt that ended was not followed by the disconnect callback", what)
	}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		ev := &Event{instr: c.instr}
		if outs, ok := ctxModel(st, c, func(s *State, ctx *Term, o tri) tri { return over(s, ctx, o) }); ok {
			return outs, true
		}
		res := c.sig.Results()
		if strings.HasSuffix(c.name, ".NextBackOff") {
			d := st.fresh(c.instr, "delay", res.At(0).Type())
			st.SetT("delay", d)
			return one(d), true
		}
		switch c.name {
		case "time.Sleep":
			if st.T["delay"] != nil && asOf(c.args[0]) == st.T["delay"] {
				st.Set("paused", "1")
				st.SetT("delay", nil)
			} else {
				p.viol(st, ev, "block", "Sleep", "sleeps for %s, which is not the backoff interval", c.args[0])
			}
			return one(nil), true
		case "time.NewTimer", "time.After", "(*time.Timer).Reset":
			isDelay := false
			for _, a := range c.args {
				isDelay = isDelay || st.T["delay"] != nil && asOf(a) == st.T["delay"]
			}
			ret := st.fresh(c.instr, "timer", res.At(0).Type())
			t := ret
			if c.name == "(*time.Timer).Reset" {
				t = asOf(c.args[0])
			} else {
				st.assume(mkEq(ret, mkNil()), false)
			}
			if isDelay {
				st.SetT("timer", t)
			}
			return one(ret), true
		}
		if c.invoke && strings.HasSuffix(c.name, ".Subscribe") && loadOf(c.args[0], g.fInner) {
			p.ob("retry", "attempt")
			if st.gor != "" {
				p.viol(st, ev, "own-goroutine", "Subscribe", "an attempt is made by a goroutine Close does not wait for")
			}
			if len(st.locks) > 0 {
				p.viol(st, ev, "locked-wait", "Subscribe", "an attempt is made with the mutex held: Close cannot get through to end it")
			}
			if !ours(st, c.args[1]) {
				p.viol(st, ev, "handshake", "Subscribe", "the attempt does not run under the context whose cancel function Close was given")
			}
			if st.R["pub"] != "1" {
				p.viol(st, ev, "handshake", g.fCancel, "the first attempt is made before the cancel function was published under the mutex")
			}
			if st.R["latch"] == "" {
				p.viol(st, ev, "handshake", g.fClosed, "the close latch is not read in the critical section that publishes the cancel function: a Close that came before is lost")
			}
			if cl := st.T["closed"]; cl != nil && st.decide(cl) != no && st.R["selfcancel"] == "" && st.R["over"] == "" {
				p.viol(st, ev, "handshake", g.fClosed, "a client closed before Subscribe is neither cancelled nor refused")
			}
			if st.R["donepub"] == "" {
				p.viol(st, ev, "handshake", g.fDone, "no completion channel was published before the first attempt: Close does not wait for the attempts to end")
			}
			if st.R["signalled"] != "" {
				p.viol(st, ev, "handshake", g.fDone, "an attempt is made after completion was signalled")
			}
			discDone(st, ev, "the next attempt is made")
			if st.R["att"] != "" {
				if st.R["alive"] == "" {
					p.viol(st, ev, "retry", "ctx", "the next attempt is made without having checked that the context is not cancelled: a closed client keeps resubscribing")
				}
				if st.R["over"] != "" {
					p.viol(st, ev, "retry", "ctx", "another attempt is made although the context was found cancelled")
				}
				if st.R["paused"] == "" {
					p.viol(st, ev, "retry", "backoff", "the next attempt is made without waiting for the backoff interval")
				}
				if st.R["rst"] != "1" && st.decideNil(st.get(st.T["p"], lastPart(g.fReset))) != yes {
					p.viol(st, ev, "reset-once", "reset", "a retry is made without the reset callback before it")
				}
			}
			for _, k := range []string{"disc", "rst", "alive", "paused"} {
				st.Set(k, "")
			}
			st.SetT("delay", nil)
			st.SetT("timer", nil)
			st.Set("att", "1")
			return one(st.fresh(c.instr, "suberr", res.At(0).Type())), true
		}
		if c.dyn != nil {
			d := asOf(c.dyn)
			n, _ := d.loadedField()
			kind := ""
			switch {
			case n == g.fDisc:
				kind = "disconnect"
			case n == g.fReset:
				kind = "reset"
			case n == g.fCancel || cancelOf(d) != nil && cancelOf(d) == st.T["ctx"]:
				// cancelling is for Close, or for a client found closed, or at the end
				if cl := st.T["closed"]; st.R["over"] == "" && (cl == nil || st.decide(cl) != yes) && !st.top().isDef && st.R["ending"] == "" {
					p.viol(st, ev, "retry", "cancel", "Subscribe cancels its own context although the client is not known to be closed")
				}
				st.Set("selfcancel", "1")
				return one(nil), true
			}
			if kind == "" {
				return nil, false
			}
			p.ob(kind+"-once", "call")
			if len(st.locks) > 0 {
				p.viol(st, ev, "locked-wait", kind, "the %s callback runs with the mutex held", kind)
			}
			if st.gor != "" {
				p.viol(st, ev, "own-goroutine", kind, "the %s callback runs in a goroutine of its own: its order is lost", kind)
			}
			if st.R["signalled"] != "" {
				p.viol(st, ev, "handshake", g.fDone, "the %s callback runs after completion was signalled", kind)
			}
			if kind == "disconnect" {
				if st.R["att"] == "" || st.R["disc"] != "" {
					p.viol(st, ev, "disconnect-once", "disconnect", "the disconnect callback runs although no attempt ended since the last one")
				}
				st.Set("disc", "1")
			} else {
				discDone(st, ev, "the reset callback runs")
				if st.R["att"] == "" || st.R["rst"] != "" {
					p.viol(st, ev, "reset-once", "reset", "the reset callback runs although no retry follows the last one")
				}
				st.Set("rst", "1")
			}
			return one(nil), true
		}
		return nil, false
	}
	r.Event = func(st *State, ev *Event) {
		section(st, ev)
		switch ev.kind {
		case EvLoad:
			if ev.name == g.fClosed {
				if len(st.locks) == 0 {
					p.viol(st, ev, "guarded", g.fClosed, "the close latch is read without the mutex")
				}
				st.SetT("closed", st.load(ev.addr, nil))
				st.Set("latchsec", st.R["sec"])
				if st.R["cancelsec"] == st.R["sec"] && st.R["sec"] != "" {
					st.Set("latch", "1")
				}
			}
		case EvStore:
			switch ev.name {
			case g.fClosed:
				p.viol(st, ev, "handshake", g.fClosed, "Subscribe changes the close latch: a Close that came before is lost")
			case g.fCancel:
				p.ob("handshake", "publish")
				if len(st.locks) == 0 {
					p.viol(st, ev, "guarded", g.fCancel, "the cancel function is published without the mutex")
				}
				x := cancelOf(ev.val)
				if x == nil || !derivesFrom(x, st.T["callerctx"]) {
					if st.R["over"] != "" || st.decideNil(ev.val) == yes && st.R["att"] != "" {
						break
					}
					p.viol(st, ev, "handshake", g.fCancel, "is set to %s, which does not cancel a context derived from the caller's", ev.val)
					break
				}
				st.SetT("ctx", x)
				st.Set("pub", "1")
				st.Set("cancelsec", st.R["sec"])
				if st.R["latchsec"] == st.R["sec"] && st.R["sec"] != "" {
					st.Set("latch", "1")
				}
			case g.fDone:
				if len(st.locks) == 0 {
					p.viol(st, ev, "guarded", g.fDone, "the completion channel is published without the mutex")
				}
				if st.decideNil(ev.val) != no {
					break
				}
				if st.R["pub"] != "" && st.R["cancelsec"] != st.R["sec"] {
					p.viol(st, ev, "handshake", g.fDone, "the completion channel and the cancel function are published in different critical sections: a Close in between does not wait")
				}
				st.Set("donepub", st.R["sec"])
				st.SetT("done", ev.val)
			}
		case EvUnlock:
			if ev.ok == no {
				p.viol(st, ev, "lock-balance", "Subscribe", "unlock of a mutex that is not held")
			}
			if st.R["pub"] == "1" && st.R["donepub"] == "" && len(st.locks) == 0 {
				p.viol(st, ev, "handshake", g.fDone, "the cancel function is published without a completion channel: a Close that gets it does not wait")
			}
		case EvClose:
			n, _ := ev.addr0().loadedField()
			if n != g.fDone && (st.T["done"] == nil || ev.addr0() != st.T["done"]) {
				break
			}
			p.ob("handshake", "signal")
			if st.R["signalled"] != "" {
				p.viol(st, ev, "handshake", g.fDone, "completion is signalled twice: the second close panics")
			}
			discDone(st, ev, "completion is signalled")
			st.Set("signalled", "1")
		case EvArm:
			if ev.n == -1 {
				if x := st.R["selours"]; x != "" {
					over(st, st.T["ctx"], no)
				}
				break
			}
			ch := ev.addr0()
			if c := doneOf(ch); c != nil {
				over(st, c, yes)
			} else if t := st.T["timer"]; t != nil {
				n, base := asOf(ch).loadedField()
				if asOf(ch) == t || n == "time.Timer.C" && asOf(base) == t {
					st.Set("paused", "1")
					st.SetT("timer", nil)
					if st.R["selours"] != "" {
						over(st, st.T["ctx"], no)
					}
				}
			}
		case EvSelect:
			st.Set("selours", "")
			for _, a := range ev.args {
				if c := doneOf(a); c != nil && c == st.T["ctx"] {
					st.Set("selours", "1")
				}
			}
			g.selectBlock(st, ev)
		case EvRecv:
			ch := ev.addr0()
			if c := doneOf(ch); c != nil {
				p.viol(st, ev, "block", "Subscribe", "waits for the context to end instead of retrying")
				over(st, c, yes)
				break
			}
			if t := st.T["timer"]; t != nil {
				n, base := asOf(ch).loadedField()
				if asOf(ch) == t || n == "time.Timer.C" && asOf(base) == t {
					st.Set("paused", "1")
					st.SetT("timer", nil)
					break
				}
			}
			p.viol(st, ev, "block", "Subscribe", "waits on %s, which neither the backoff interval nor Close ends", ch)
		case EvSend:
			p.viol(st, ev, "block", "Subscribe", "a send on %s may block for ever", ev.addr0())
		}
	}
	r.Exit = func(st *State, res []*Term) {
		if st.gor != "" {
			return
		}
		if len(st.locks) > 0 {
			p.exitViol(st, "lock-balance", "Subscribe", "returns with the mutex held")
		}
		if st.R["pub"] != "" && st.R["signalled"] == "" {
			p.exitViol(st, "handshake", g.fDone, "Subscribe returns without signalling completion: Close never returns")
		}
		if st.R["att"] == "" {
			p.ob("retry", "refused")
			if st.R["pub"] != "" && st.R["over"] == "" && st.R["selfcancel"] == "" {
				p.exitViol(st, "retry", "Subscribe", "gives up before the first attempt although the client is not closed")
			}
			return
		}
		p.ob("retry", "ended")
		if st.R["over"] == "" {
			p.exitViol(st, "retry", "Subscribe", "stops resubscribing on a path that did not find the context cancelled")
		}
		if st.R["disc"] != "1" && st.decideNil(st.get(st.T["p"], lastPart(g.fDisc))) != yes && st.R["rst"] == "" {
			p.exitViol(st, "disconnect-once", "disconnect", "Subscribe returns without the disconnect callback for the attempt that ended")
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) {
		st.SetT("p", ps[0])
		st.SetT("callerctx", ps[1])
	})
	p.need("retry", 3)
	p.need("handshake", 2)
	p.need("disconnect-once", 1)
	p.need("reset-once", 1)
}

func ctxTagOf(c *Term) string {
	if ctxParent(c) != nil && len(c.args) > 1 {
		for _, t := range []string{"value", "cancel", "timeout", "deadline"} {
			if c.args[1] == mkStr(t) {
				return t
			}
		}
	}
	return ""
}

// selectBlock: a select without default must wait for the context's end, too.
func (g *clientRulesT) selectBlock(st *State, ev *Event) {
	if ev.n == -1 || selHasDefault(ev) {
		return
	}
	for _, a := range ev.args {
		if c := doneOf(a); c != nil {
			return
		}
		if t := st.T["timer"]; t != nil {
			n, base := asOf(a).loadedField()
			if asOf(a) == t || n == "time.Timer.C" && asOf(base) == t {
				return
			}
		}
	}
	g.p.viol(st, ev, "block", "select", "waits for something neither the backoff interval nor Close ends")
}

func selHasDefault(ev *Event) bool {
	s, ok := ev.instr.(*ssa.Select)
	return ok && !s.Blocking
}

func (g *clientRulesT) reconnectClose(pk string) {
	p := g.p
	fn := p.mustFn(pk, "ReconnectClient.Close")
	if fn == nil {
		return
	}
	r := &Rule{}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		ev := &Event{instr: c.instr}
		if c.dyn != nil {
			if n, _ := asOf(c.dyn).loadedField(); n == g.fCancel {
				st.Set("cancelled", "1")
				return one(nil), true
			}
		}
		if c.invoke && strings.HasSuffix(c.name, ".Close") && loadOf(c.args[0], g.fInner) {
			if len(st.locks) > 0 {
				p.viol(st, ev, "locked-wait", "Close", "the inner client is closed with the mutex held: Subscribe may be waiting for it")
			}
			if st.R["csec"] == "" {
				p.viol(st, ev, "handshake", "Close", "the inner client is closed before the close latch is set")
			}
			st.Set("inner", "1")
			return one(st.fresh(c.instr, "closeerr", c.sig.Results().At(0).Type())), true
		}
		if c.name == "time.Sleep" {
			p.viol(st, ev, "block", "Close", "sleeps")
		}
		return nil, false
	}
	r.Event = func(st *State, ev *Event) {
		section(st, ev)
		switch ev.kind {
		case EvLoad:
			switch ev.name {
			case g.fCancel, g.fDone, g.fClosed:
				if len(st.locks) == 0 {
					p.viol(st, ev, "guarded", ev.name, "is read without the mutex")
				}
				st.Set("ld."+ev.name, st.R["sec"])
				st.SetT("ld."+ev.name, st.load(ev.addr, nil))
			}
		case EvStore:
			switch ev.name {
			case g.fClosed:
				if len(st.locks) == 0 {
					p.viol(st, ev, "guarded", g.fClosed, "the close latch is set without the mutex")
				}
				if !ev.val.isTrue() {
					p.viol(st, ev, "handshake", g.fClosed, "Close sets the close latch to %s", ev.val)
				}
				st.Set("csec", st.R["sec"])
			case g.fCancel, g.fDone:
				p.viol(st, ev, "handshake", ev.name, "Close replaces it")
			}
		case EvUnlock:
			if ev.ok == no {
				p.viol(st, ev, "lock-balance", "Close", "unlock of a mutex that is not held")
			}
		case EvClose:
			p.viol(st, ev, "handshake", "Close", "Close closes a channel that Subscribe closes")
		case EvRecv, EvArm:
			if ev.n == -1 && ev.kind == EvArm {
				break
			}
			n, _ := ev.addr0().loadedField()
			if n != g.fDone {
				if ev.kind == EvRecv {
					p.viol(st, ev, "block", "Close", "waits on %s, which Subscribe's end does not signal", ev.addr0())
				}
				break
			}
			if len(st.locks) > 0 {
				p.viol(st, ev, "locked-wait", "Close", "waits for Subscribe with the mutex held")
			}
			if st.decideNil(ev.addr0()) != no {
				p.viol(st, ev, "block", "Close", "waits on the completion channel although it may be nil: a client that never subscribed cannot be closed")
			}
			if k := st.T["ld."+g.fCancel]; st.R["cancelled"] == "" && (k == nil || st.decideNil(k) != yes) {
				p.viol(st, ev, "handshake", "Close", "waits for Subscribe to end before cancelling its context")
			}
			if st.R["inner"] == "" {
				p.viol(st, ev, "handshake", "Close", "waits for Subscribe to end before closing the inner client")
			}
			st.Set("waited", "1")
		case EvSend:
			p.viol(st, ev, "block", "Close", "a send on %s may block for ever", ev.addr0())
		}
	}
	r.Exit = func(st *State, res []*Term) {
		if st.gor != "" {
			return
		}
		p.ob("close", "exit")
		if len(st.locks) > 0 {
			p.exitViol(st, "lock-balance", "Close", "returns with the mutex held")
		}
		cs := st.R["csec"]
		if cs == "" {
			// already closed: the Close that set the latch does the rest
			if c := st.T["ld."+g.fClosed]; c == nil || st.decide(c) != yes {
				p.exitViol(st, "handshake", g.fClosed, "Close returns without having set the close latch")
			}
		}
		k := st.T["ld."+g.fCancel]
		if cs != "" {
			if k == nil || st.R["ld."+g.fCancel] != cs {
				p.exitViol(st, "handshake", g.fCancel, "the cancel function is not looked up in the critical section that sets the close latch: a Subscribe in between is never cancelled")
			} else if st.R["cancelled"] == "" && st.decideNil(k) != yes {
				p.exitViol(st, "handshake", g.fCancel, "Close returns without having cancelled the running Subscribe")
			}
		}
		if st.R["inner"] == "" {
			p.exitViol(st, "close", "Close", "Close returns without having closed the inner client")
		}
		d := st.T["ld."+g.fDone]
		switch {
		case d == nil || cs != "" && st.R["ld."+g.fDone] != cs:
			p.exitViol(st, "handshake", g.fDone, "the completion channel is not looked up in the critical section that sets the close latch")
		case st.R["waited"] == "" && st.decideNil(d) != yes:
			p.exitViol(st, "close", "Close", "Close returns without waiting for Subscribe to end: notifications follow after it")
		}
	}
	p.explore(r, fn, nil)
	p.need("close", 1)
}

// ---- BaseClient ----

func (g *clientRulesT) base(pk string) {
	p := g.p
	first := p.fn(pk, "getFirst")
	for _, name := range []string{"Subscribe", "Poll", "Close"} {
		name := name
		fn := p.mustFn(pk, "BaseClient."+name)
		if fn == nil {
			continue
		}
		r := &Rule{}
		// afterMessage: the flag was read since the last message and is not set
		afterMessage := func(st *State) tri {
			cl := st.T["closed"]
			if cl == nil {
				return unknown
			}
			return st.decide(cl).not()
		}
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			ev := &Event{instr: c.instr}
			g.ctxArgs(st, c, st.T["ctx"])
			if outs, ok := ctxModel(st, c, nil); ok {
				return outs, true
			}
			if first != nil && c.fn == first {
				var fnT, ctx, in *Term
				for i, a := range c.args {
					switch t := c.sig.Params().At(i).Type(); {
					case isCtx(t):
						ctx = a
					case isFuncType(t):
						fnT = a
					default:
						if _, ok := under(t).(*types.Interface); ok {
							in = a
						}
					}
				}
				if fnT == nil || ctx == nil || in == nil {
					return nil, false
				}
				typ := st.fresh(c.instr, "type", types.Typ[types.String])
				return []Outcome{{run: &Invocation{fn: fnT, args: []*Term{ctx, typ, in}}, cont: func(x *Ex, s *State, ret *Term) {
					x.finish(s, c.instr, ret, c.isDef)
				}}}, true
			}
			if c.invoke && strings.HasSuffix(c.name, ".Recv") && len(c.args) == 1 {
				p.ob("run", name+" recv")
				if len(st.locks) > 0 {
					p.viol(st, ev, "locked-wait", "Recv", "a message is awaited with the mutex held: Close cannot get through")
				}
				if st.gor != "" {
					p.viol(st, ev, "own-goroutine", "Recv", "messages are received by a goroutine of their own: their order and the end of the call are lost")
				}
				if im := st.T["impl"]; im != nil && asOf(c.args[0]) != im {
					p.viol(st, ev, "run", "Recv", "messages are received from %s, not from the stream Close would close", c.args[0])
				}
				if name == "Subscribe" && st.T["impl"] == nil {
					p.viol(st, ev, "run", "Recv", "messages are received from a stream that Close cannot see yet")
				}
				if st.R["got"] == "1" && afterMessage(st) != yes {
					p.viol(st, ev, "close-flag", "Recv", "the next message is received without having found, since the last one, that the client is not closed")
				}
				if st.R["got"] == "err" {
					p.viol(st, ev, "run", "Recv", "receives again after a receive failed")
				}
				st.SetT("closed", nil)
				e := st.fresh(c.instr, "recverr", c.sig.Results().At(0).Type())
				return []Outcome{
					{res: e, do: func(s *State) bool { s.Set("got", "1"); return s.assume(mkEq(e, mkNil()), true) }},
					{res: e, do: func(s *State) bool { s.Set("got", "err"); return s.assume(mkEq(e, mkNil()), false) }},
				}, true
			}
			if c.invoke && strings.HasSuffix(c.name, ".Close") && len(c.args) == 1 {
				if loadOf(c.args[0], g.bImpl) || st.T["impl0"] != nil && asOf(c.args[0]) == st.T["impl0"] {
					st.Set("implclosed", "1")
				}
				if im := st.T["impl"]; im != nil && asOf(c.args[0]) == im && st.R["got"] != "err" && (st.R["got"] == "" || afterMessage(st) != no) {
					p.viol(st, ev, "run", "Close", "the stream is closed although neither it nor the client has ended")
				}
				return one(st.fresh(c.instr, "closeerr", c.sig.Results().At(0).Type())), true
			}
			if c.invoke && (strings.HasSuffix(c.name, ".Subscribe") || strings.HasSuffix(c.name, ".Poll")) && c.sig.Results().Len() == 1 {
				if len(st.locks) > 0 {
					p.viol(st, ev, "locked-wait", name, "a connection is awaited with the mutex held: Close cannot get through")
				}
				e := st.fresh(c.instr, "err", c.sig.Results().At(0).Type())
				return one(e), true
			}
			if c.fn != nil && c.fn == p.fn(pk, "NewImpl") {
				if len(st.locks) > 0 {
					p.viol(st, ev, "locked-wait", name, "a connection is awaited with the mutex held: Close cannot get through")
				}
				rr := st.fresh(c.instr, "newimpl", c.sig.Results())
				return []Outcome{
					{res: rr, do: func(s *State) bool {
						return s.assume(mkEq(rr.args[1], mkNil()), true) && s.assume(mkEq(rr.args[0], mkNil()), false)
					}},
					{res: rr, do: func(s *State) bool {
						return s.assume(mkEq(rr.args[1], mkNil()), false) && s.assume(mkEq(rr.args[0], mkNil()), true)
					}},
				}, true
			}
			return nil, false
		}
		r.Event = func(st *State, ev *Event) {
			section(st, ev)
			switch ev.kind {
			case EvLoad:
				switch ev.name {
				case g.bClosed:
					if len(st.locks) == 0 {
						p.viol(st, ev, "guarded", g.bClosed, "the close flag is read without the mutex")
					}
					st.SetT("closed", st.load(ev.addr, nil))
				case g.bImpl:
					if len(st.locks) == 0 {
						p.viol(st, ev, "guarded", g.bImpl, "the current stream is read without the mutex")
					}
					st.SetT("impl0", st.load(ev.addr, nil))
				}
			case EvStore:
				switch ev.name {
				case g.bClosed:
					if len(st.locks) == 0 {
						p.viol(st, ev, "guarded", g.bClosed, "the close flag is set without the mutex")
					}
					switch {
					case name == "Close" && ev.val.isTrue():
						st.Set("csec", st.R["sec"])
					case name == "Subscribe" && ev.val.isFalse():
						st.Set("csec", st.R["sec"])
						if st.R["isec"] != "" && st.R["isec"] != st.R["sec"] {
							p.viol(st, ev, "close-flag", g.bClosed, "the close flag is cleared after the new stream was installed: a Close in between is lost")
						}
					default:
						p.viol(st, ev, "close-flag", g.bClosed, "%s sets the close flag to %s", name, ev.val)
					}
				case g.bImpl:
					if len(st.locks) == 0 {
						p.viol(st, ev, "guarded", g.bImpl, "the current stream is replaced without the mutex")
					}
					if name != "Subscribe" {
						p.viol(st, ev, "run", g.bImpl, "%s replaces the current stream", name)
						break
					}
					st.SetT("impl", asOf(ev.val))
					st.Set("isec", st.R["sec"])
				}
			case EvUnlock:
				if ev.ok == no {
					p.viol(st, ev, "lock-balance", name, "unlock of a mutex that is not held")
				}
				if st.R["isec"] != "" && len(st.locks) == 0 && st.R["got"] == "" && st.R["csec"] != st.R["isec"] {
					p.viol(st, ev, "close-flag", g.bClosed, "the close flag is not cleared in the critical section that installs the new stream")
				}
			case EvRecv, EvSend:
				p.viol(st, ev, "block", name, "waits on %s, which neither the stream nor Close ends", ev.addr0())
			case EvSelect:
				if !selHasDefault(ev) {
					p.viol(st, ev, "block", name, "waits for something neither the stream nor Close ends")
				}
			}
		}
		r.Exit = func(st *State, res []*Term) {
			if st.gor != "" {
				return
			}
			if len(st.locks) > 0 {
				p.exitViol(st, "lock-balance", name, "returns with the mutex held")
			}
			p.ob("run", name+" exit")
			if name == "Close" {
				i := st.T["impl0"]
				switch {
				case i == nil:
					p.exitViol(st, "close", "BaseClient.Close", "the current stream is not looked up")
				case st.decideNil(i) == yes:
					return
				case st.R["implclosed"] == "":
					p.exitViol(st, "close", "BaseClient.Close", "returns without having closed the current stream")
				case st.R["csec"] == "":
					p.exitViol(st, "close-flag", "BaseClient.Close", "returns without having set the close flag: buffered notifications follow")
				}
				return
			}
			switch st.R["got"] {
			case "":
				if st.decideNil(res[0]) != no && afterMessage(st) != no {
					p.exitViol(st, "run", name, "returns no error although nothing was received")
				}
			case "1":
				if afterMessage(st) != no {
					p.exitViol(st, "run", name, "stops receiving although neither the stream nor the client ended")
				}
			}
		}
		p.explore(r, fn, func(st *State, ps []*Term) {
			if name == "Subscribe" {
				st.SetT("ctx", ps[1])
			}
		})
	}
	p.need("run", 4)
}

func isCtx(t types.Type) bool { return types.TypeString(t, nil) == "context.Context" }

func isFuncType(t types.Type) bool { _, ok := under(t).(*types.Signature); return ok }

// ---- getFirst, NewImpl ----

func (g *clientRulesT) first(pk string) {
	p := g.p
	if fn := p.fn(pk, "getFirst"); fn != nil {
		r := &Rule{}
		implT := p.namedType(pk, "Impl")
		isImplChan := func(ch *Term) bool {
			c, ok := under(ch.typ).(*types.Chan)
			return ok && implT != nil && types.Identical(c.Elem(), implT)
		}
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			g.ctxArgs(st, c, st.T["ctx"])
			if c.dyn != nil && asOf(c.dyn) == st.T["fn"] {
				p.ob("first", "attempt")
				rr := st.fresh(c.instr, "impl", c.sig.Results())
				return []Outcome{
					{res: rr, do: func(s *State) bool {
						s.Set("made", "impl")
						s.SetT("impl", rr.args[0])
						return s.assume(mkEq(rr.args[1], mkNil()), true) && s.assume(mkEq(rr.args[0], mkNil()), false)
					}},
					{res: rr, do: func(s *State) bool {
						s.Set("made", "err")
						return s.assume(mkEq(rr.args[1], mkNil()), false)
					}},
				}, true
			}
			if c.invoke && strings.HasSuffix(c.name, ".Close") && st.T["impl"] != nil && asOf(c.args[0]) == st.T["impl"] {
				st.Set("out", "closed")
				return one(st.fresh(c.instr, "e", c.sig.Results().At(0).Type())), true
			}
			if c.fn != nil && strings.HasSuffix(c.name, ".Add") && strings.Contains(c.name, "errlist") {
				st.Set("pend", "1")
				if st.R["fails"] == "" {
					st.Set("fails", "1")
				} else {
					st.Set("fails", "many")
				}
				st.SetT("list", nil)
				return one(nil), true
			}
			if c.fn != nil && strings.HasSuffix(c.name, ".Errors") && strings.Contains(c.name, "errlist") {
				l := st.fresh(c.instr, "errs", c.sig.Results().At(0).Type())
				st.SetT("list", l)
				return one(l), true
			}
			if c.fn != nil && strings.Contains(c.name, "errlist") && c.sig.Results().Len() == 1 {
				e := st.fresh(c.instr, "err", c.sig.Results().At(0).Type())
				st.assume(mkEq(e, mkNil()), false)
				return one(e), true
			}
			return nil, false
		}
		// waiting again after a failed attempt needs to know that not all failed
		again := func(st *State, ev *Event) {
			if st.R["pend"] == "" || st.gor != "" {
				return
			}
			st.Set("pend", "")
			types := mkLen(st.T["types"])
			switch l := st.T["list"]; {
			case l != nil:
				if st.decide(mkEq(mkLen(l), types)) != no {
					p.viol(st, ev, "block", "getFirst", "waits for another result although it is not known that not all attempts have failed")
				}
			case st.R["fails"] == "1" && st.decide(mkEq(types, mkInt(1))) == no, st.comparedTo(types):
			default:
				p.viol(st, ev, "block", "getFirst", "waits for another result after a failed attempt without having compared the number of failures with the number of attempts")
			}
		}
		r.Back = func(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
			again(st, &Event{instr: h.Instrs[0]})
		}
		r.Event = func(st *State, ev *Event) {
			switch ev.kind {
			case EvCall:
				if ev.name == "make(chan)" {
					st.SetT("cap"+itoa(ev.res.id), ev.args[0])
				}
			case EvSend:
				if st.gor == "" {
					p.viol(st, ev, "block", "getFirst", "the collector itself sends on %s", ev.addr0())
					break
				}
				ch := ev.addr0()
				switch {
				case isImplChan(ch):
					p.viol(st, ev, "block", "getFirst", "a connection is offered to a collector that may be gone")
				default:
					if n := st.T["cap"+itoa(ch.id)]; n == nil || !st.provesLeq(mkLen(st.T["types"]), mkArith(token.ADD, n, mkInt(1), n.typ)) {
						p.viol(st, ev, "block", "getFirst", "the channel of errors does not hold one error of each producer: those of the others block for ever")
					}
					st.Set("out", "err")
				}
			case EvArm:
				if st.gor == "" && ev.n != -1 {
					if isImplChan(ev.addr0()) {
						st.Set("got", "impl")
					}
				}
				if st.gor != "" && ev.what == "send" && ev.n != -1 {
					st.Set("out", "sent")
				}
			case EvSelect:
				if st.gor == "" && !selHasDefault(ev) {
					p.ob("first", "collect")
					again(st, ev)
				}
			case EvClose:
				st.Set("doneclosed", "1")
			case EvRecv:
				if st.gor == "" {
					break
				}
				p.viol(st, ev, "block", "getFirst", "a producer waits on %s", ev.addr0())
			}
		}
		r.Exit = func(st *State, res []*Term) {
			if st.gor != "" {
				p.ob("first", "producer")
				switch st.R["made"] + "/" + st.R["out"] {
				case "impl/sent", "impl/closed", "err/err":
				case "impl/err", "err/sent", "impl/", "err/":
					p.exitViol(st, "first", "getFirst", "a producer ends without having handed on, or closed, what it made (%q): the collector waits for ever or a connection leaks", st.R["made"])
				default:
					p.exitViol(st, "first", "getFirst", "a producer ends without an attempt")
				}
				return
			}
			if st.decideNil(res[1]) == yes && st.R["got"] != "impl" {
				p.exitViol(st, "first", "getFirst", "returns no error without a connection")
			}
		}
		p.explore(r, fn, func(st *State, ps []*Term) {
			for _, a := range ps {
				switch {
				case isCtx(a.typ):
					st.SetT("ctx", a)
				case isFuncType(a.typ):
					st.SetT("fn", a)
				default:
					if _, ok := under(a.typ).(*types.Slice); ok {
						st.SetT("types", a)
					}
				}
			}
		})
		p.need("first", 3)
	}
	// contexts are handed on
	for _, f := range []struct{ pkg, name string }{{pk, "NewImpl"}, {"client/gnmi", "New"}, {"client/gnmi", "NewFromConn"}, {"client/gnmi", "Client.Subscribe"}} {
		fn := p.mustFn(f.pkg, f.name)
		if fn == nil {
			continue
		}
		r := &Rule{Prim: func(q *ssa.Function) bool { return q.Pkg != p.ssa[f.pkg] || q.Name() == "getFirst" }}
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			g.ctxArgs(st, c, st.T["ctx"])
			return ctxModel(st, c, nil)
		}
		p.explore(r, fn, func(st *State, ps []*Term) {
			for _, a := range ps {
				if isCtx(a.typ) {
					st.SetT("ctx", a)
				}
			}
		})
	}
	p.need("context", 6)
}

// comparedTo: something is known about another quantity relative to t.
func (st *State) comparedTo(t *Term) bool {
	for _, i := range st.f.iv {
		if i.lin.ts[t] != 0 && len(i.lin.ts) > 1 {
			return true
		}
	}
	hit := func(a *Term) bool {
		return a.contains(t) && a.op == OBin && a.args[0].op != OConst && a.args[1].op != OConst
	}
	for a := range st.f.atoms {
		if hit(a) {
			return true
		}
	}
	for a := range st.f.eqc {
		if hit(a) {
			return true
		}
	}
	return false
}

// ---- CacheClient ----

func (g *clientRulesT) cacheClient(pk string) {
	p := g.p
	fh := p.field(pk, "CacheClient", "clientHandler", nil)
	fn := p.mustFn(pk, "CacheClient.defaultHandler")
	if fn == nil {
		return
	}
	r := &Rule{Prim: func(q *ssa.Function) bool { return q.Pkg != p.ssa[pk] }}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		if c.dyn == nil {
			return nil, false
		}
		if n, _ := asOf(c.dyn).loadedField(); n != fh {
			return nil, false
		}
		p.ob("pass-on", "CacheClient")
		if asOf(c.args[0]) != st.T["n"] && c.args[0] != st.T["n"] {
			p.viol(st, &Event{instr: c.instr}, "pass-on", "CacheClient", "the application's handler is given %s, not the notification received", c.args[0])
		}
		if st.gor != "" {
			p.viol(st, &Event{instr: c.instr}, "own-goroutine", "CacheClient", "the application's handler runs in a goroutine of its own: order is lost")
		}
		st.Count("passed")
		e := st.fresh(c.instr, "he", c.sig.Results().At(0).Type())
		st.SetT("he", e)
		return one(e), true
	}
	r.Exit = func(st *State, res []*Term) {
		if st.gor != "" {
			return
		}
		n := st.R["passed"]
		if n != "" && n != "1" {
			p.exitViol(st, "pass-on", "CacheClient", "a notification is passed on more than once")
		}
		if n == "" && st.decideNil(st.get(st.T["c"], lastPart(fh))) != yes && st.decideNil(res[0]) != no {
			p.exitViol(st, "pass-on", "CacheClient", "a notification is accepted without passing it on to the application's handler")
		}
		if n == "1" && res[0] != st.T["he"] && st.decide(mkEq(res[0], st.T["he"])) != yes {
			p.exitViol(st, "pass-on", "CacheClient", "the handler's verdict is not returned")
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) { st.SetT("c", ps[0]); st.SetT("n", ps[1]) })
	p.need("pass-on", 1)
}

// ---- gNMI client ----

func (g *clientRulesT) gnmi() {
	p := g.p
	const pk = "client/gnmi"
	fRecv := p.field(pk, "Client", "recv", nil)
	fSub := p.field(pk, "Client", "sub", nil)
	fConn := p.field(pk, "Client", "connected", isBool)
	if fn := p.mustFn(pk, "Client.Recv"); fn != nil {
		r := &Rule{}
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			ev := &Event{instr: c.instr}
			if c.invoke && strings.HasSuffix(c.name, ".Recv") && loadOf(c.args[0], fSub) {
				p.ob("recv", "message")
				if st.R["got"] != "" {
					p.viol(st, ev, "recv", "Recv", "receives a second message: the close flag is not checked in between")
				}
				rr := st.fresh(c.instr, "msg", c.sig.Results())
				return []Outcome{
					{res: rr, do: func(s *State) bool {
						s.Set("got", "1")
						s.SetT("msg", rr.args[0])
						return s.assume(mkEq(rr.args[1], mkNil()), true) && s.assume(mkEq(rr.args[0], mkNil()), false)
					}},
					{res: rr, do: func(s *State) bool {
						s.Set("got", "err")
						return s.assume(mkEq(rr.args[1], mkNil()), false)
					}},
				}, true
			}
			if c.dyn != nil {
				if n, _ := asOf(c.dyn).loadedField(); n == fRecv {
					p.ob("recv", "handle")
					if st.R["got"] != "1" || st.R["handled"] != "" || asOf(c.args[0]) != st.T["msg"] {
						p.viol(st, ev, "recv", "Recv", "the handler is given %s, not the one message just received", c.args[0])
					}
					if st.gor != "" {
						p.viol(st, ev, "own-goroutine", "Recv", "a message is handled in a goroutine of its own: order is lost and messages are delivered after Close")
					}
					st.Set("handled", "1")
					e := st.fresh(c.instr, "he", c.sig.Results().At(0).Type())
					st.SetT("he", e)
					return one(e), true
				}
			}
			return nil, false
		}
		r.Exit = func(st *State, res []*Term) {
			if st.gor != "" {
				return
			}
			switch st.R["got"] {
			case "1":
				if st.R["handled"] == "" {
					p.exitViol(st, "recv", "Recv", "a received message is not handled")
				} else if res[0] != st.T["he"] && st.decide(mkEq(res[0], st.T["he"])) != yes {
					p.exitViol(st, "recv", "Recv", "the handler's verdict is not returned: the end of the subscription is missed")
				}
			case "err":
				if st.decideNil(res[0]) != no {
					p.exitViol(st, "recv", "Recv", "a failed receive is not reported")
				}
			default:
				p.exitViol(st, "recv", "Recv", "returns without receiving")
			}
		}
		p.explore(r, fn, nil)
		p.need("recv", 2)
	}
	g.connected(pk, "defaultRecv", "handler")
	g.connected("client/fake", "Recv", "Handler")
	p.need("connected", 3)
	// Subscribe starts a stream: Connected is still to come
	p.closedWorld("connected-writer", []string{fConn})
}

// connected: Connected precedes all other notifications of a stream.
func (g *clientRulesT) connected(pk, name, handler string) {
	p := g.p
	fConn := p.field(pk, "Client", "connected", isBool)
	fHandler := p.field(pk, "Client", handler, nil)
	fn := p.mustFn(pk, "Client."+name)
	if fn == nil {
		return
	}
	connT := p.namedType("client", "Connected")
	r := &Rule{Unroll: 2, Pure: func(n string) bool { return strings.HasSuffix(n, "path.ToStrings") }, Prim: func(q *ssa.Function) bool { return q.Pkg != p.ssa[pk] }}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		if c.dyn == nil {
			return nil, false
		}
		if n, _ := asOf(c.dyn).loadedField(); n != fHandler {
			return nil, false
		}
		ev := &Event{instr: c.instr}
		if st.gor != "" {
			p.viol(st, ev, "own-goroutine", name, "a notification is delivered by a goroutine of its own: order is lost")
		}
		isConn := st.decide(mkTypeIs(c.args[0], connT))
		if c.args[0].op == OIface && c.args[0].typ != nil {
			isConn = no
			if types.Identical(c.args[0].typ, connT) {
				isConn = yes
			}
		}
		if isConn == yes {
			p.ob("connected", "first")
			if st.R["conn"] != "" || st.R["other"] != "" || st.decide(st.T["was"]) != no {
				p.viol(st, ev, "connected", name, "Connected is delivered although it is not known that nothing was delivered on this stream before")
			}
			st.Set("conn", "1")
		} else {
			p.ob("connected", "other")
			if st.R["conn"] == "" && st.decide(st.T["was"]) != yes {
				p.viol(st, ev, "connected", name, "a notification is delivered on a stream for which Connected was not delivered before")
			}
			st.Set("other", "1")
			g.order(st, ev, c.args[0])
		}
		return one(st.fresh(c.instr, "he", c.sig.Results().At(0).Type())), true
	}
	r.Exit = func(st *State, res []*Term) {
		if st.gor != "" {
			return
		}
		p.ob("connected", "exit")
		if st.R["conn"] != "" && st.decide(st.get(st.T["c"], lastPart(fConn))) != yes {
			p.exitViol(st, "connected", name, "Connected was delivered but not recorded: it is delivered again")
		}
		if st.R["conn"] == "" && st.decideNil(st.get(st.T["c"], handler)) != yes && st.decide(st.T["was"]) != yes && st.decide(st.get(st.T["c"], lastPart(fConn))) != no {
			p.exitViol(st, "connected", name, "Connected is recorded as delivered but was not")
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) {
		st.SetT("c", ps[0])
		st.SetT("was", st.get(ps[0], lastPart(fConn)))
	})
}

// order: updates in the order of the message, each once, then deletes.
func (g *clientRulesT) order(st *State, ev *Event, n *Term) {
	p := g.p
	var el *Term
	list := ""
	find := func(u *Term) bool {
		if el == nil && u.op == OLoad && u.args[0].op == OIndex {
			switch nm, _ := u.args[0].args[0].loadedField(); nm {
			case "gnmi.Notification.Update", "gnmi.Notification.Delete":
				el, list = u, lastPart(nm)
			}
		}
		return el != nil
	}
	for _, t := range st.deepParts(n) {
		if t.containsIf(find) {
			break
		}
	}
	if el == nil {
		return
	}
	p.ob("order", list)
	if list == "Update" && st.R["last.Delete"] != "" {
		p.viol(st, ev, "order", "Recv", "an update is delivered after a delete of the same message")
	}
	idx := el.args[0].args[1]
	i, ok := idx.intVal()
	if !ok {
		if !idx.containsIf(func(t *Term) bool { return t.op == OOpaque && strings.Contains(t.sym, ";loop.") }) {
			p.viol(st, ev, "order", "Recv", "element %s is delivered out of the order of the message", idx)
		}
		st.Set("last."+list, "n")
		return
	}
	if l := st.R["last."+list]; l != "" && (l == "n" || int(i) <= atoi(l)) {
		p.viol(st, ev, "order", "Recv", "element %d is delivered after element %s", i, l)
	}
	st.Set("last."+list, itoa(int(i)))
}

func atoi(s string) int {
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

// deepParts: the value, and what a struct it holds is made of, lists taken apart.
func (st *State) deepParts(v *Term) []*Term {
	v = asOf(strip(v))
	out := []*Term{v}
	if v.op == OIface {
		out = append(out, st.deepParts(v.args[0])...)
	}
	if v.op == OStruct {
		for _, a := range v.args {
			out = append(out, a)
			out = append(out, parts(a)...)
		}
	}
	return out
}
