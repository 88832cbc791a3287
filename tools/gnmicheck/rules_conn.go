package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C16"] = &propCheck{run: c16, explanation: "Path-sensitive typestate of one connection entry, rooted at connection.Manager.Connection, followed through the dial goroutine it starts and through the release function it hands out (called once, and again): the entry is created and dialled exactly on a miss, in the critical section of the lookup; the holder is counted in that critical section, before waiting; the outcome (connection or error, and the removal of a failed entry) is published before ready is closed, exactly once; what is returned is that outcome; a release decrements once, and closes and forgets the connection in one critical section exactly when no holder is left; a second release, and a release after a failed request, change nothing. Closed world: no other function writes the entry's fields. Holder discipline of manager.Manager: the connection obtained for a session is released exactly once, after its last use.", assumptions: []string{"go channel, mutex, sync.Once and sync/atomic semantics", "a dial function that returns no error returns a connection", "every holder counts once, so the count a release finds is at least one and its entry is still registered (established by the rules themselves)"}}
}

func c16(p *Program) {
	connRules(p)
	managerRules(p, "hold")
}

func connRules(p *Program) {
	const pk = "connection"
	isErr := func(t types.Type) bool { return types.TypeString(t, nil) == "error" }
	isCC := func(t types.Type) bool {
		return types.TypeString(t, nil) == "*google.golang.org/grpc.ClientConn"
	}
	fConns := p.field(pk, "Manager", "conns", func(t types.Type) bool {
		m, ok := under(t).(*types.Map)
		return ok && !isDialMap(m)
	})
	fDialers := p.field(pk, "Manager", "d", func(t types.Type) bool {
		m, ok := under(t).(*types.Map)
		return ok && isDialMap(m)
	})
	// the entry type is the element type of the connection map
	entry := p.entryType(pk, "Manager", fConns)
	if entry == "" {
		p.report("anchor", pk+".Manager", "the manager no longer maps addresses to connection entries", nil, nil)
		return
	}
	fRef := p.field(pk, entry, "ref", func(t types.Type) bool { return isInt(t) })
	fC := p.field(pk, entry, "c", isCC)
	fErr := p.field(pk, entry, "err", isErr)
	fReady := p.field(pk, entry, "ready", isChan)
	es, eo := p.fieldsOf(pk, entry)
	entryField := func(base *Term, f string) (*Term, types.Type) {
		for i := 0; i < es.NumFields(); i++ {
			if eo+"."+es.Field(i).Name() == f {
				return mkField(base, es, eo, i), es.Field(i).Type()
			}
		}
		return mkNil(), nil
	}
	ent := func(st *State, base *Term, f string) *Term {
		a, t := entryField(base, f)
		return st.load(a, t)
	}
	// same: the object is the entry this path is about
	same := func(st *State, b *Term) bool {
		c := st.T["conn"]
		return c != nil && (b == c || st.decide(mkEq(b, c)) == yes)
	}
	locked := func(st *State) bool { return len(st.locks) > 0 }
	isClose := func(n string) bool { return n == "(*google.golang.org/grpc.ClientConn).Close" }
	fn := p.mustFn(pk, "Manager.Connection")
	if fn == nil {
		return
	}
	// the field in which an entry records its address
	idField := ""
	p.explore(&Rule{Event: func(st *State, ev *Event) {
		if ev.kind == EvMapSet && loadOf(ev.args[0], fConns) {
			for i := 0; i < es.NumFields(); i++ {
				v := st.load(mkField(ev.val, es, eo, i), es.Field(i).Type())
				if isString(es.Field(i).Type()) && asOf(v) == asOf(ev.args[1]) {
					idField = eo + "." + es.Field(i).Name()
				}
			}
		}
	}}, fn, nil)
	// keyOK: the key is the requested address (or the entry's record of it)
	keyOK := func(st *State, k *Term) bool {
		k = asOf(k)
		if k == st.T["addr"] {
			return true
		}
		n, b := k.loadedField()
		return b != nil && n != "" && n == idField && same(st, b)
	}

	r := &Rule{}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		if c.dyn != nil && c.name != "" {
			d := asOf(c.dyn)
			// a value of the dialer map
			isDial := d.op == OLoad && d.args[0].op == OMapElem && loadOf(d.args[0].args[0], fDialers)
			if !isDial {
				isDial = isDialSig(c.sig)
			}
			if isDial {
				p.ob("dial", "call "+p.posOf(c.instr))
				if st.R["phase"] != "" {
					p.report("dial-once", "Connection", "releasing a connection dials", st, c.instr)
				}
				if st.R["made"] == "" {
					p.report("dial-once", "Connection", "an address is dialled on a path that did not create its entry: a dial for it may already be in flight, or its connection be shared", st, c.instr)
				}
				if st.R["dialed"] != "" {
					p.report("dial-once", "Connection", "one request dials the address twice", st, c.instr)
				}
				if len(c.args) > 1 && asOf(c.args[1]) != st.T["addr"] {
					p.report("dial-addr", "Connection", "dials "+c.args[1].String()+", not the requested address", st, c.instr)
				}
				if d.op == OLoad && d.args[0].op == OMapElem && asOf(d.args[0].args[1]) != st.T["dialer"] {
					p.report("dial-addr", "Connection", "dials with the dialer named "+d.args[0].args[1].String()+", not the requested one", st, c.instr)
				}
				if locked(st) {
					p.ob("dial-locked", "no")
				}
				res := st.fresh(c.instr, "dial", c.sig.Results())
				cc, err := res.args[0], res.args[1]
				return []Outcome{
					{res: res, do: func(s *State) bool {
						s.Set("dialed", "ok")
						s.SetT("dialcc", cc)
						return s.assume(mkEq(err, mkNil()), true) && s.assume(mkEq(cc, mkNil()), false)
					}},
					{res: res, do: func(s *State) bool {
						s.Set("dialed", "fail")
						s.SetT("dialcc", cc)
						return s.assume(mkEq(err, mkNil()), false)
					}},
				}, true
			}
		}
		if c.name == "(*sync.Once).Do" && st.R["phase"] == "release" && rootAlloc(c.args[0]) != nil && st.R["once"] == "" {
			// a guard made for this request has not run yet
			st.Set("once", "1")
			st.assume(mkPure("oncedone", types.Typ[types.Bool], c.args[0]), false)
		}
		if c.name == "context.Context.Err" {
			e := st.fresh(c.instr, "ctxErr", c.sig.Results().At(0).Type())
			if st.R["ctxdone"] != "" {
				st.assume(mkEq(e, mkNil()), false)
			}
			return one(e), true
		}
		if isClose(c.name) {
			cc := asOf(c.args[0])
			p.ob("close", "call "+p.posOf(c.instr))
			switch {
			case st.R["phase"] == "release":
				st.Count("d.closed")
				n, b := cc.loadedField()
				if !(n == fC && b != nil && same(st, b)) && !(st.T["cc"] != nil && st.decide(mkEq(cc, st.T["cc"])) == yes) {
					p.report("close-own", "done", "a release closes "+cc.String()+", not the connection it was handed out for", st, c.instr)
				}
				if !locked(st) && st.R["d.removed"] == "" {
					p.report("close-own", "done", "a release closes the connection before it is forgotten, outside the critical section: it can be handed out closed", st, c.instr)
				}
			case st.R["phase"] != "":
				p.report("release-idempotent", st.R["phase"], "releasing again, or after a failed request, closes a connection", st, c.instr)
			case st.R["dialed"] == "fail" && cc == st.T["dialcc"]:
			default:
				n, b := cc.loadedField()
				if n == fC && b != nil && same(st, b) && st.R["failing"] == "1" {
					break // an entry that failed and was never handed out
				}
				p.report("close-held", "Connection", "a request closes a connection although holders may exist", st, c.instr)
			}
			return one(nil), true
		}
		return nil, false
	}
	r.Event = func(st *State, ev *Event) {
		ph := st.R["phase"]
		inert := ph != "" && ph != "release" // second release, release after failure
		switch ev.kind {
		case EvLock:
			if len(st.locks) > 0 && ev.addr == st.locks[0].addr {
				p.viol(st, ev, "self-deadlock", "lock", "the manager's mutex is acquired while it is held")
			}
		case EvUnlock:
			if ev.ok == no {
				p.viol(st, ev, "lock-balance", "unlock", "unlock of a mutex that is not held on this path")
			}
			if ph == "release" && (st.R["d.dec"] != "" || st.R["d.removed"] != "") && (st.R["d.dec"] == "" || st.R["d.removed"] == "") {
				st.Set("d.left", "1")
			}
			if ph == "" && st.gor == "" && st.R["made"] == "1" && st.R["inc"] == "" {
				// the constructor may have counted the first holder
				if v, ok := ent(st, st.T["conn"], fRef).intVal(); ok && v == 1 {
					st.Set("inc", "1")
				}
			}
		case EvMapGet, EvMapSet, EvMapDel, EvRange:
			if len(ev.args) == 0 || !loadOf(ev.args[0], fConns) {
				break
			}
			p.ob("guarded", p.posOf(ev.instr))
			if !locked(st) {
				p.viol(st, ev, "guarded", "conns", "the connection table is accessed without the manager's mutex")
			}
			switch ev.kind {
			case EvMapGet:
				if ph == "" && st.gor == "" && st.T["conn"] == nil && asOf(ev.args[1]) != st.T["addr"] {
					p.viol(st, ev, "key", "Connection", "looks up %s, not the requested address", ev.args[1])
				}
				if (ph == "release" || st.gor != "") && keyOK(st, ev.args[1]) && st.R["d.removed"] == "" && st.R["removed"] == "" {
					// this holder's (or dial's) entry is registered
					st.ownStore()
					st.store[mkMapOk(ev.addr, ev.args[1])] = mkBool(true)
					st.store[mkMapElem(ev.addr, ev.args[1], st.T["conn"].typ)] = st.T["conn"]
				}
			case EvMapSet:
				p.ob("create", "mapset")
				if ph != "" || st.gor != "" {
					p.viol(st, ev, "create-miss", "conns", "an entry is registered outside a request")
					break
				}
				if asOf(ev.args[1]) != st.T["addr"] {
					p.viol(st, ev, "key", "Connection", "registers an entry under %s, not under the requested address", ev.args[1])
				}
				had := st.decide(st.load(mkMapOk(ev.addr, ev.args[1]), types.Typ[types.Bool]))
				if had != no && st.decideNil(st.load(mkMapElem(ev.addr, ev.args[1], nil), nil)) != yes {
					p.viol(st, ev, "create-miss", "Connection", "an entry is registered without having found, in the same critical section, that the address has none: two dials of one address, or a live connection forgotten")
				}
				if rootAlloc(ev.val) == nil {
					p.viol(st, ev, "create-miss", "Connection", "registers %s, not a new entry", ev.val)
				}
				st.Set("made", "1")
				st.SetT("conn", ev.val)
				if idField != "" {
					a, t := entryField(ev.val, idField)
					if st.load(a, t) != st.T["addr"] {
						p.viol(st, ev, "key", "Connection", "the entry records another address than the one it is registered under")
					}
				}
				if st.decideNil(ent(st, ev.val, fReady)) != no {
					p.viol(st, ev, "ready", "Connection", "the new entry has no channel to wait on")
				}
			case EvMapDel:
				p.ob("forget", p.posOf(ev.instr))
				switch {
				case inert:
					p.viol(st, ev, "release-idempotent", ph, "releasing again, or after a failed request, forgets an entry")
				case !keyOK(st, ev.args[1]):
					p.viol(st, ev, "key", "conns", "forgets %s, not the entry's own address", ev.args[1])
				case ph == "release":
					st.Count("d.removed")
					if st.R["d.left"] != "" {
						p.viol(st, ev, "last-release", "done", "the entry is forgotten in another critical section than the one that found no holder left: a request in between is handed a connection about to be closed")
					}
				case st.R["failing"] == "1" || st.R["dialed"] == "fail" || st.R["dialed"] == "" && st.gor != "":
					st.Set("removed", "1")
				default:
					p.viol(st, ev, "forget-held", "Connection", "an entry is forgotten although it may be held or its dial may be in flight: the next request dials a second time")
				}
			}
		case EvLoad, EvStore:
			if ev.addr == nil || ev.addr.op != OField {
				break
			}
			base := ev.addr.args[0]
			switch ev.name {
			case fConns:
				if ev.kind == EvStore {
					p.viol(st, ev, "guarded", "conns", "the connection table is replaced")
				}
			case fRef:
				private := rootAlloc(base) != nil && st.R["made"] == ""
				if private {
					break
				}
				if !locked(st) {
					p.viol(st, ev, "guarded", "ref", "the holder count is accessed without the manager's mutex")
				}
				if ev.kind == EvLoad {
					break
				}
				old := ent(st, base, fRef)
				d := linDiff(ev.val, old)
				switch {
				case inert:
					p.viol(st, ev, "release-idempotent", ph, "releasing again, or after a failed request, changes the holder count")
				case len(d.ts) != 0 || d.c != 1 && d.c != -1:
					p.viol(st, ev, "ref-step", "ref", "the holder count becomes %s, not one more or one less", ev.val)
				case d.c == -1 && ph == "release" && st.R["d.left"] != "" && st.R["d.removed"] != "":
					p.viol(st, ev, "last-release", "done", "the entry is forgotten before its holder is uncounted, in another critical section")
				case d.c == 1:
					p.ob("count", "inc")
					if ph != "" || st.gor != "" {
						p.viol(st, ev, "ref-step", "ref", "the holder count is increased outside a request")
						break
					}
					st.Count("inc")
					if st.R["made"] == "" {
						// joined: must be the entry registered for the address now
						conns := st.T["conns"]
						ok := false
						if conns != nil {
							el := st.load(mkMapElem(conns, st.T["addr"], base.typ), base.typ)
							ok = (st.decide(st.load(mkMapOk(conns, st.T["addr"]), types.Typ[types.Bool])) == yes || st.decideNil(el) == no) && (el == base || st.decide(mkEq(el, base)) == yes)
						}
						if !ok {
							p.viol(st, ev, "join-counted", "Connection", "a holder is counted on an entry not known, in this critical section, to be the registered one: it may already have been closed and forgotten")
						}
						st.SetT("conn", base)
					} else if !same(st, base) {
						p.viol(st, ev, "join-counted", "Connection", "a holder is counted on another entry")
					}
					if st.R["waited"] != "" {
						p.viol(st, ev, "join-counted", "Connection", "the holder is counted only after waiting: the connection may already have been closed")
					}
				default:
					p.ob("count", "dec")
					if ph == "release" {
						if !same(st, base) {
							p.viol(st, ev, "ref-step", "done", "a release uncounts another entry")
						}
						st.Count("d.dec")
						st.SetT("d.new", ev.val)
						st.assume(mkLess(mkInt(0), old, nil), true)
						st.SetT("d.lock", st.locks0())
					} else {
						st.Count("dec")
					}
				}
			case fC, fErr:
				if rootAlloc(base) != nil && st.R["made"] == "" {
					break // constructor
				}
				if ev.kind == EvStore {
					p.ob("publish", ev.name)
					if ph != "" {
						p.viol(st, ev, "publish", ev.name, "the published outcome is changed by a release")
						break
					}
					if st.R["closedReady"] != "" {
						p.viol(st, ev, "publish", ev.name, "the dial outcome is written after the waiting requesters were released")
					}
					if !same(st, base) || st.R["made"] == "" {
						p.viol(st, ev, "publish", ev.name, "the outcome of an entry is written by a request that did not create it")
					}
					if ev.name == fC {
						st.SetT("cc", ev.val)
					} else {
						st.SetT("err", ev.val)
						if st.decideNil(ev.val) == no {
							st.Set("failing", "1")
						}
					}
				} else if ph == "" && st.gor == "" && !locked(st) && st.R["waited"] == "" {
					p.viol(st, ev, "publish", ev.name, "the outcome is read before the dial has published it")
				}
			default:
				if ev.kind == EvStore && ev.name != "" && len(ev.name) > len(eo) && ev.name[:len(eo)+1] == eo+"." && (rootAlloc(base) == nil || st.R["made"] != "") {
					p.viol(st, ev, "entry-fixed", ev.name, "%s changes after the entry was registered", ev.name)
				}
			}
			if ev.kind == EvLoad && ev.name == fConns {
				st.SetT("conns", st.load(ev.addr, nil))
			}
		case EvRecv, EvSelect, EvArm:
			chans := ev.args
			if ev.kind == EvRecv || ev.kind == EvArm {
				chans = []*Term{ev.addr0()}
			}
			blocking := ev.kind == EvRecv || ev.kind == EvSelect && ev.ok == yes
			if blocking && locked(st) {
				p.viol(st, ev, "wait-unlocked", "ready", "waits for another goroutine while holding the manager's mutex: the dial cannot publish its failure, and every request and release stalls")
			}
			if ev.kind != EvSelect {
				for _, c := range chans {
					if c.op == OOpaque && strings.Contains(c.sym, "context.Context.Done") {
						st.Set("ctxdone", "1")
					}
					n, b := c.loadedField()
					isReady := n == fReady
					if st.T["conn"] != nil && c == ent(st, st.T["conn"], fReady) {
						isReady, b = true, st.T["conn"]
					}
					if isReady && ph == "" && st.gor == "" {
						p.ob("wait", "ready")
						if st.R["inc"] == "" {
							p.viol(st, ev, "join-counted", "Connection", "waits for the dial without having been counted as a holder: the connection may be closed meanwhile")
						}
						if !same(st, b) {
							p.viol(st, ev, "ready", "Connection", "waits for another entry's dial")
						}
						st.Set("waited", "1")
						// the dial goroutine wrote the outcome meanwhile
						for _, f := range []string{fC, fErr} {
							a, _ := entryField(b, f)
							st.bump(a, "ready")
							st.ownStore()
							delete(st.store, a)
						}
						if r := rootAlloc(b); r != nil {
							st.setWeak(r)
						}
					}
				}
			}
		case EvClose:
			c := ev.addr0()
			n, b := c.loadedField()
			isReady := n == fReady
			if st.T["conn"] != nil && c == ent(st, st.T["conn"], fReady) {
				isReady, b = true, st.T["conn"]
			}
			if !isReady {
				break
			}
			p.ob("ready-close", "close")
			st.Count("closedReady")
			if ph != "" || st.R["made"] == "" || !same(st, b) {
				p.viol(st, ev, "ready", "ready", "closed by a path that did not create the entry: a second close panics")
				break
			}
			if st.R["closedReady"] != "1" {
				p.viol(st, ev, "ready", "ready", "closed twice")
			}
			e := st.T["err"]
			switch {
			case e != nil && st.decideNil(e) == no:
				if st.R["removed"] == "" {
					p.viol(st, ev, "fail-forget", "dial", "a failed dial is published without its entry having been forgotten: later requests are handed the stale failure and never dial again")
				}
			case e == nil || st.decideNil(e) == yes:
				if st.R["dialed"] != "ok" {
					p.viol(st, ev, "publish", "dial", "waiting requesters are released without a connection and without an error")
				} else if st.T["cc"] == nil || st.T["cc"] != st.T["dialcc"] {
					p.viol(st, ev, "publish", "dial", "waiting requesters are released before the dialled connection is published")
				}
				if st.R["removed"] != "" {
					p.viol(st, ev, "forget-held", "dial", "a successful dial is forgotten: the connection is never reused and its holders cannot release it")
				}
			default:
				if st.R["dialed"] != "" {
					p.viol(st, ev, "publish", "dial", "the published error is %s", e)
				}
			}
		case EvGo:
			if ev.kind == EvGo && locked(st) {
				p.ob("spawn", p.posOf(ev.instr))
			}
			if ph == "" && st.gor == "" {
				st.Count("spawned")
			}
		}
	}
	r.Started = func(st *State, fn *ssa.Function) {
		if st.R["made"] == "" {
			st.Set("stray", "1")
		}
	}
	var exit func(st *State, res []*Term)
	exit = func(st *State, res []*Term) {
		ph := st.R["phase"]
		if len(st.locks) > 0 {
			p.exitViol(st, "lock-balance", "exit", "returns with the manager's mutex held")
		}
		if ph == "release" {
			p.ob("release", "exit")
			switch {
			case st.R["d.dec"] == "":
				p.exitViol(st, "release-counts", "done", "a release does not uncount its holder: the connection is never closed")
			case st.R["d.dec"] != "1":
				p.exitViol(st, "release-counts", "done", "a release uncounts more than one holder")
			default:
				last := st.decide(mkLess(mkInt(0), st.T["d.new"], nil)).not()
				rm, cl := st.R["d.removed"], st.R["d.closed"]
				switch {
				case last == yes && (rm != "1" || cl != "1"):
					// a connection that is nil cannot have been handed out
					if rm == "1" && cl == "" && st.decideNil(ent(st, st.T["conn"], fC)) == yes {
						break
					}
					p.exitViol(st, "last-release", "done", "the last release must forget the entry and close the connection exactly once (forgotten %s times, closed %s times)", or0(rm), or0(cl))
				case last == no && (rm != "" || cl != ""):
					p.exitViol(st, "close-held", "done", "a release forgets or closes a connection other holders still use")
				case last == unknown:
					p.exitViol(st, "last-release", "done", "whether this was the last holder is not decided (forgotten %s times, closed %s times)", or0(rm), or0(cl))
				}
			}
			x := st.x
			st.Set("d.dec", "")
			x.after(st, st.T["donefn"], nil, "second release")
			return
		}
		if ph != "" {
			p.ob("release-inert", ph)
			return
		}
		if st.gor != "" {
			if st.R["stray"] != "" {
				return
			}
			p.ob("dial-exit", st.R["dialed"])
			if st.R["closedReady"] == "" && st.R["spawned"] == "1" {
				p.exitViol(st, "ready", "dial", "the dial ends without releasing the waiting requesters")
			}
			return
		}
		// Connection itself
		if len(res) != 3 {
			p.exitViol(st, "result", "Connection", "unexpected results")
			return
		}
		e := st.decideNil(res[2])
		if e == unknown {
			for _, v := range []bool{true, false} {
				s := st.clone()
				s.ownFacts()
				if s.assume(mkEq(res[2], mkNil()), v) {
					exit(s, res)
				}
			}
			return
		}
		inc, dec := st.R["inc"], st.R["dec"]
		st.SetT("donefn", res[1])
		if e == yes {
			p.ob("grant", "exit")
			if st.R["waited"] == "" {
				p.exitViol(st, "result", "Connection", "returns without having waited for the dial")
				return
			}
			if inc != "1" || dec != "" {
				p.exitViol(st, "join-counted", "Connection", "hands out a connection counting %s holders", or0(inc))
			}
			c := st.T["conn"]
			n, b := asOf(res[0]).loadedField()
			if n != fC || b == nil || !same(st, b) {
				p.exitViol(st, "result", "Connection", "hands out %s, not the connection of the entry it counted", res[0])
			}
			if c != nil && st.decideNil(ent(st, c, fErr)) != yes {
				p.exitViol(st, "result", "Connection", "reports success although the shared dial may have failed")
			}
			st.assume(mkEq(asOf(res[0]), mkNil()), false)
			st.SetT("cc", asOf(res[0]))
			if !st.x.after(st, res[1], nil, "release") {
				p.exitViol(st, "result", "Connection", "hands out %s as the release function", res[1])
			}
			return
		}
		p.ob("refuse", "exit "+st.R["waited"])
		if st.R["made"] == "1" && st.R["spawned"] == "" && st.R["closedReady"] == "" {
			p.exitViol(st, "ready", "Connection", "an entry is registered that nobody dials: later requesters wait for ever")
		}
		failed := st.R["waited"] != "" && st.T["conn"] != nil && st.decideNil(ent(st, st.T["conn"], fErr)) == no
		if !failed && or0(inc) != or0(dec) {
			p.exitViol(st, "refused-counted", "Connection", "a refused request stays counted as a holder: the connection is never closed")
		}
		if st.decideNil(res[1]) != no {
			p.exitViol(st, "result", "Connection", "a refused request returns no release function to call")
			return
		}
		st.x.after(st, res[1], nil, "release after a failed request")
	}
	r.Exit = exit
	p.explore(r, fn, func(st *State, ps []*Term) {
		for _, q := range ps[1:] {
			if isString(q.typ) {
				if st.T["addr"] == nil {
					st.SetT("addr", q)
				} else {
					st.SetT("dialer", q)
				}
			}
		}
	})
	p.need("dial", 1)
	p.need("create", 1)
	p.need("count", 2)
	p.need("wait", 1)
	p.need("ready-close", 1)
	p.need("release", 1)
	p.need("release-inert", 2)
	p.need("grant", 1)
	p.need("refuse", 2)
	p.need("close", 1)

	// constructor: the table exists
	for _, n := range []string{"NewManagerCustom", "NewManager"} {
		ctor := p.mustFn(pk, n)
		if ctor == nil {
			continue
		}
		p.explore(&Rule{Exit: func(st *State, res []*Term) {
			if st.decideNil(res[1]) == yes {
				p.ob("new", n)
				s, owner := p.fieldsOf(pk, "Manager")
				for i := 0; i < s.NumFields(); i++ {
					if owner+"."+s.Field(i).Name() == fConns && st.decideNil(st.load(mkField(res[0], s, owner, i), s.Field(i).Type())) != no {
						p.exitViol(st, "new", n, "the connection table is not created")
					}
				}
			}
		}}, ctor, nil)
	}
	p.need("new", 2)
	p.closedWorld("entry-writer", []string{fConns, fRef, fC, fErr, fReady})
}

func (st *State) locks0() *Term {
	if len(st.locks) == 0 {
		return mkNil()
	}
	return st.locks[0].addr
}

func isDialSig(s *types.Signature) bool {
	return s.Results().Len() == 2 && types.TypeString(s.Results().At(0).Type(), nil) == "*google.golang.org/grpc.ClientConn" && types.TypeString(s.Results().At(1).Type(), nil) == "error"
}

func isDialMap(m *types.Map) bool {
	s, ok := under(m.Elem()).(*types.Signature)
	return ok && isDialSig(s)
}

// entryType is the name of the struct a map field of a type points to.
func (p *Program) entryType(pkg, typ, field string) string {
	s, owner := p.fieldsOf(pkg, typ)
	if s == nil {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if owner+"."+s.Field(i).Name() != field {
			continue
		}
		if m, ok := under(s.Field(i).Type()).(*types.Map); ok {
			if q, ok := under(m.Elem()).(*types.Pointer); ok {
				if n, ok := types.Unalias(q.Elem()).(*types.Named); ok {
					return n.Obj().Name()
				}
			}
		}
	}
	return ""
}

// closedWorld reports functions that write one of the named fields but lie
// outside what the rules explored.
func (p *Program) closedWorld(rule string, fields []string) {
	want := map[string]bool{}
	for _, f := range fields {
		want[f] = true
	}
	for _, fn := range p.repoFuncs() {
		if p.fns[fn] || p.deadFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var a ssa.Value
				switch i := in.(type) {
				case *ssa.Store:
					a = i.Addr
				case *ssa.MapUpdate:
					a = i.Map
				case ssa.CallInstruction:
					if bi, ok := i.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "close" || bi.Name() == "clear") {
						a = i.Common().Args[0]
					}
				}
				if a == nil {
					continue
				}
				if u, ok := a.(*ssa.UnOp); ok {
					a = u.X
				}
				fa, ok := a.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := under(fa.X.Type()).(*types.Pointer)
				if !ok {
					continue
				}
				s, ok := under(pt.Elem()).(*types.Struct)
				if !ok {
					continue
				}
				n := ownerName(pt.Elem()) + "." + s.Field(fa.Field).Name()
				if _, local := fa.X.(*ssa.Alloc); !local && want[n] {
					p.report(rule, n, "written by "+fn.String()+", which no analysed operation reaches", nil, in)
				}
			}
		}
	}
	p.ob(rule, "scan")
}

// deadFn: an unexported function nothing in the repository refers to.
func (p *Program) deadFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Object(); o == nil || o.Exported() || fn.Name() == "init" || fn.Name() == "main" {
		return false
	}
	if p.refd == nil {
		p.refd = map[*ssa.Function]bool{}
		p.refNames = map[string]bool{}
		for _, f := range p.repoFuncs() {
			top := f
			for top.Parent() != nil {
				top = top.Parent()
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
						p.refNames[c.Common().Method.Name()] = true
					}
					for _, o := range in.Operands(nil) {
						if g, ok := (*o).(*ssa.Function); ok && g != top {
							p.refd[unbound(g)] = true
						}
					}
				}
			}
		}
	}
	return !p.refd[fn] && !p.refNames[fn.Name()]
}
