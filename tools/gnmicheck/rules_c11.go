package main

import (
	"go/types"
)

func init() {
	checks["C11"] = &propCheck{run: c11, explanation: "Path-sensitive critical-section analysis of coalesce.Queue rooted at its exported methods: guarded-field lockset; closed-check and insertion in one critical section; insert outcome table (closed / pending / new) against stores to the FIFO and the duplicate map; dequeue takes index 0 of the list that inserts append to, returns its duplicate count and forgets it; closed is reported only after an emptiness check that follows the observation of the closed channel; the wait has wake-up arms for insertion, close and context; the wake-up send cannot block and cannot be lost (buffered channel).", assumptions: []string{"go channel, select and mutex semantics"}}
}

func c11(p *Program) {
	const pk = "coalesce"
	fQueue := p.field(pk, "Queue", "queue", isSlice)
	fMap := p.field(pk, "Queue", "coalesced", isMap)
	fClosed := p.field(pk, "Queue", "closed", nil)
	fIns := p.field(pk, "Queue", "inserted", nil)

	isQueueCh := func(t *Term, f string) bool { return loadOf(t, f) }

	// common events: lockset, closed observation, effects of one critical section
	common := func(root string) *Rule {
		r := &Rule{}
		r.Event = func(st *State, ev *Event) {
			switch ev.kind {
			case EvLock:
				st.Set("cs", "in")
				st.Set("open", "")
				st.Set("empty", "")
				st.Set("deq", st.R["deq"])
			case EvUnlock:
				if ev.ok == no {
					p.viol(st, ev, "lock-balance", root, "unlock of a mutex that is not held on this path")
				}
				st.Set("cs", "")
				st.Set("open", "")
			case EvLoad, EvStore:
				if ev.name == fQueue || ev.name == fMap {
					p.ob("guarded", root+ev.name)
					if rootAlloc(ev.addr) == nil && st.lockMode(lockAddrFor(st, ev.addr)) == 0 && len(st.locks) == 0 {
						p.viol(st, ev, "guarded", ev.name, "%s is accessed without the queue's mutex", ev.name)
					}
				}
			case EvArm:
				if isQueueCh(ev.addr0(), fClosed) && ev.what == "recv" {
					st.Set("sawclosed", "1")
					st.Set("emptyAfterClosed", "")
					st.Set("open", "closed")
				} else if ev.n == -1 {
					if st.R["selClosed"] == "1" && len(st.locks) > 0 {
						st.Set("open", "1")
					}
				}
			case EvRecv:
				if isQueueCh(ev.addr, fClosed) {
					st.Set("sawclosed", "1")
				}
			case EvSelect:
				st.Set("selClosed", "")
				for _, a := range ev.args {
					if isQueueCh(a, fClosed) {
						st.Set("selClosed", "1")
					}
				}
				if ev.ok == yes && len(st.locks) > 0 {
					p.viol(st, ev, "no-block-locked", root, "blocking select while the queue's mutex is held")
				}
			}
		}
		return r
	}

	// ---- Insert ----
	if fn := p.mustFn(pk, "Queue.Insert"); fn != nil {
		r := common("Insert")
		base := r.Event
		r.Event = func(st *State, ev *Event) {
			base(st, ev)
			item := st.T["item"]
			switch ev.kind {
			case EvStore:
				if ev.name == fQueue {
					p.ob("insert-append", "store")
					if st.R["open"] != "1" {
						p.viol(st, ev, "closed-check", "Insert", "an item is appended without having checked in the same critical section that the queue is not closed")
					}
					v := ev.val
					okv := v.op == OAppend && len(v.args) == 2 && asOf(v.args[1]) == asOf(item)
					if okv {
						b := v.args[0]
						if b.op == OSlice && false {
							okv = false
						}
						if !loadOf(b, fQueue) {
							okv = false
						}
					}
					if !okv {
						p.viol(st, ev, "fifo", "Insert", "the pending list becomes %s instead of the list with the new item appended at its end", v)
					}
					st.Count("append")
				}
			case EvMapSet:
				if ev.name == fMap {
					p.ob("insert-count", "mapset")
					if st.R["open"] != "1" {
						p.viol(st, ev, "closed-check", "Insert", "the duplicate count changes without having checked in the same critical section that the queue is not closed")
					}
					if asOf(ev.args[1]) != asOf(item) {
						p.viol(st, ev, "dup-key", "Insert", "duplicate count recorded under %s, not under the inserted item", ev.args[1])
					}
					had := st.decide(st.load(mkMapOk(ev.addr, ev.args[1]), types.Typ[types.Bool]))
					old := st.load(mkMapElem(ev.addr, ev.args[1], types.Typ[types.Uint32]), types.Typ[types.Uint32])
					switch had {
					case yes:
						d := linDiff(ev.val, old)
						if len(d.ts) != 0 || d.c != 1 {
							p.viol(st, ev, "dup-count", "Insert", "re-insertion of a pending item sets its duplicate count to %s instead of one more than before", ev.val)
						}
						if st.R["append"] == "" {
							st.Count("incr")
						}
					case no:
						if v, ok := ev.val.intVal(); !ok || v != 0 {
							p.viol(st, ev, "dup-count", "Insert", "a first insertion starts with duplicate count %s instead of 0", ev.val)
						}
						st.Count("init")
					default:
						p.viol(st, ev, "dup-count", "Insert", "the duplicate count is written without knowing whether the item is already pending")
					}
				}
			case EvMapDel:
				if ev.name == fMap {
					p.viol(st, ev, "dup-key", "Insert", "an insertion forgets a pending item")
				}
			case EvArm:
				if ev.what == "send" && isQueueCh(ev.addr, fIns) || ev.n == -1 && st.R["selIns"] == "1" {
					if st.R["append"] != "" {
						st.Set("woke", "1")
					}
				}
			case EvSelect:
				st.Set("selIns", "")
				for _, a := range ev.args {
					if isQueueCh(a, fIns) {
						p.ob("wake", "select")
						st.Set("selIns", "1")
						if ev.ok == yes {
							p.viol(st, ev, "wake-nonblocking", "Insert", "the wake-up of the consumer can block the producer")
						}
					}
				}
			case EvSend:
				if isQueueCh(ev.addr, fIns) {
					p.viol(st, ev, "wake-nonblocking", "Insert", "the wake-up of the consumer can block the producer")
				}
			case EvClose:
				p.viol(st, ev, "close", "Insert", "an insertion closes a channel")
			}
		}
		r.Exit = func(st *State, res []*Term) {
			p.ob("insert-exit", res[0].String()+res[1].String())
			if len(st.locks) > 0 {
				p.exitViol(st, "lock-balance", "Insert", "returns with the mutex held")
			}
			a, i, n := st.R["append"], st.R["incr"], st.R["init"]
			e := st.decideNil(res[1])
			switch {
			case a == "" && i == "" && n == "":
				if e != no {
					p.exitViol(st, "insert-lost", "Insert", "an insertion returns without an error although the item is neither pending nor counted")
				}
				if st.R["sawclosed"] == "" {
					p.exitViol(st, "insert-refused", "Insert", "an insertion into an open queue is refused")
				}
				if st.decide(res[0]) != no {
					p.exitViol(st, "insert-result", "Insert", "a refused insertion reports success")
				}
			case a == "1" && n == "1" && i == "":
				if e != yes || st.decide(res[0]) != yes {
					p.exitViol(st, "insert-result", "Insert", "a first insertion must return (true, nil), not (%s, %s)", res[0], res[1])
				}
				if st.R["woke"] == "" {
					p.exitViol(st, "wake", "Insert", "an item was appended but a waiting consumer is not woken")
				}
			case a == "" && n == "" && i == "1":
				if e != yes || st.decide(res[0]) != no {
					p.exitViol(st, "insert-result", "Insert", "a coalesced insertion must return (false, nil), not (%s, %s)", res[0], res[1])
				}
			default:
				p.exitViol(st, "insert-table", "Insert", "an insertion appended %s, initialised %s and incremented %s times: list and duplicate map disagree", or0(a), or0(n), or0(i))
			}
		}
		p.explore(r, fn, func(st *State, ps []*Term) { st.SetT("item", ps[1]) })
		p.need("insert-append", 1)
		p.need("insert-count", 1)
		p.need("wake", 1)
	}

	// ---- Next ----
	if fn := p.mustFn(pk, "Queue.Next"); fn != nil {
		r := common("Next")
		base := r.Event
		r.Event = func(st *State, ev *Event) {
			base(st, ev)
			switch ev.kind {
			case EvStore:
				if ev.name == fQueue {
					p.ob("next-dequeue", "store")
					v := ev.val
					cur := st.T["list"]
					switch {
					case v.op == OSlice && loadOf(v.args[0], fQueue) && cur == nil:
						lo, ok := v.args[1].intVal()
						if !ok || lo != 1 || mkLen(v) != mkArith(subTok, mkLen(v.args[0]), mkInt(1), types.Typ[types.Int]) {
							p.viol(st, ev, "fifo", "Next", "the pending list becomes %s instead of losing exactly its first item", v)
						}
						st.SetT("list", v.args[0])
						st.Count("deq")
					case v.op == ONil || mkLen(v).isZero():
						// reset of an emptied list
						q := st.load(ev.addr, nil)
						if cur == nil {
							// consumed without slicing: only right for a single item
							if !st.proves(mkEq(mkLen(q), mkInt(1)), true) {
								p.viol(st, ev, "fifo", "Next", "the pending list is dropped although it may hold more than one item")
							}
							st.SetT("list", q)
							st.Count("deq")
						} else if !st.proves(mkEq(mkLen(q), mkInt(0)), true) {
							p.viol(st, ev, "fifo", "Next", "the pending list is dropped although it may not be empty")
						}
					default:
						p.viol(st, ev, "fifo", "Next", "the pending list becomes %s", v)
					}
				}
				if ev.name == fMap {
					q := st.load(queueAddr(ev.addr, fQueue), nil)
					if q == nil || !st.proves(mkEq(mkLen(q), mkInt(0)), true) {
						p.viol(st, ev, "dup-map", "Next", "the duplicate map is replaced although items may be pending")
					}
					if ev.val.op != OAlloc {
						p.viol(st, ev, "dup-map", "Next", "the duplicate map is replaced by %s, not by an empty map", ev.val)
					}
					st.Set("forgot", "1")
				}
			case EvMapDel:
				if ev.name == fMap {
					p.ob("next-forget", "delete")
					st.Set("forgot", "1")
					st.SetT("forgotten", asOf(ev.args[1]))
				}
			case EvMapSet:
				if ev.name == fMap {
					p.viol(st, ev, "dup-map", "Next", "dequeueing changes a duplicate count")
				}
			case EvSelect:
				if ev.ok != yes {
					break
				}
				p.ob("next-wait", "select")
				var hasIns, hasClosed, hasCtx bool
				for _, a := range ev.args {
					switch {
					case isQueueCh(a, fIns):
						hasIns = true
					case isQueueCh(a, fClosed):
						hasClosed = true
					default:
						hasCtx = true
					}
				}
				if !hasIns || !hasClosed || !hasCtx {
					p.viol(st, ev, "wake-arms", "Next", "a waiting consumer is not woken by every one of insertion, close and context cancellation")
				}
				if st.R["deq"] != "" {
					p.viol(st, ev, "deliver", "Next", "an item was taken off the list and the consumer waits again instead of returning it")
				}
				if st.R["tried"] == "" {
					p.viol(st, ev, "wait-checked", "Next", "the consumer waits without having found the list empty")
				}
			case EvRecv:
				p.viol(st, ev, "wake-arms", "Next", "a waiting consumer is not woken by every one of insertion, close and context cancellation")
			case EvArm:
				if ev.what == "recv" && ev.ok == yes {
					st.Set("tried", "")
					switch {
					case isQueueCh(ev.addr, fIns), isQueueCh(ev.addr, fClosed):
						st.Set("ctx", "")
					default:
						st.Set("ctx", "1")
					}
				}
			case EvUnlock:
				// leaving a critical section that found the list empty
				q := st.load(queueAddr(ev.addr, fQueue), nil)
				if q != nil && st.proves(mkEq(mkLen(q), mkInt(0)), true) && st.R["deq"] == "" {
					st.Set("tried", "1")
				}
			}
			if ev.kind == EvLock {
				st.SetT("lenq", nil)
			}
		}
		// an emptiness test outside (Len() == 0) is recognised at exit through the length it returned
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			if c.name == "context.Context.Err" {
				rr := st.fresh(c.instr, "ctxErr", c.sig.Results().At(0).Type())
				if st.R["ctx"] == "1" {
					st.assume(mkEq(rr, mkNil()), false)
				}
				st.SetT("ctxerr", rr)
				return one(rr), true
			}
			return nil, false
		}
		r.Exit = func(st *State, res []*Term) {
			p.ob("next-exit", res[0].String()+res[2].String())
			if len(st.locks) > 0 {
				p.exitViol(st, "lock-balance", "Next", "returns with the mutex held")
			}
			e := st.decideNil(res[2])
			if st.R["deq"] != "" {
				if st.R["deq"] != "1" {
					p.exitViol(st, "deliver", "Next", "more than one item was taken off the list")
				}
				if e != yes {
					p.exitViol(st, "deliver", "Next", "an item was taken off the list but an error is returned")
				}
				list := st.T["list"]
				want := mkIndex(list, mkInt(0), nil)
				it := asOf(res[0])
				if it.op != OLoad || it.args[0] != want {
					p.exitViol(st, "fifo", "Next", "the returned item is %s, not the first of the pending list", res[0])
				}
				if st.R["forgot"] == "" || st.T["forgotten"] != nil && st.T["forgotten"] != it {
					p.exitViol(st, "dup-map", "Next", "a delivered item stays recorded as pending: later insertions of it are counted but never delivered")
				}
				d := res[1]
				ok := d.op == OLoad && d.args[0].op == OMapElem && loadOf(d.args[0].args[0], fMap) && asOf(d.args[0].args[1]) == it
				if !ok {
					p.exitViol(st, "dup-count", "Next", "the returned duplicate count is %s, not the count recorded for the item", d)
				}
				return
			}
			if e != no {
				p.exitViol(st, "deliver", "Next", "returns without an item and without an error")
				return
			}
			if st.R["ctx"] == "1" {
				if !loadOfGlobal(res[2]) {
					return
				}
			}
			// closed
			if !loadOfGlobal(res[2]) {
				return
			}
			p.ob("next-closed", "exit")
			if st.R["sawclosed"] == "" {
				p.exitViol(st, "closed-last", "Next", "the consumer is told that the queue is closed on a path that did not observe it closed")
			}
			if st.R["emptyAfterClosed"] == "" {
				p.exitViol(st, "closed-last", "Next", "the consumer is told that the queue is closed without a check, made after seeing it closed, that no item is pending")
			}
		}
		ev2 := r.Event
		r.Event = func(st *State, ev *Event) {
			ev2(st, ev)
			if ev.kind == EvUnlock {
				q := st.load(queueAddr(ev.addr, fQueue), nil)
				st.SetT("lenq", mkLen(q))
				if st.R["sawclosed"] != "" {
					st.SetT("lenAfterClosed", mkLen(q))
				}
			}
			if ev.kind == EvArm && isQueueCh(ev.addr0(), fClosed) {
				st.SetT("lenAfterClosed", nil)
			}
		}
		ex := r.Exit
		r.Exit = func(st *State, res []*Term) {
			if l := st.T["lenAfterClosed"]; l != nil && st.proves(mkEq(l, mkInt(0)), true) {
				st.Set("emptyAfterClosed", "1")
			}
			ex(st, res)
		}
		p.explore(r, fn, nil)
		p.need("next-dequeue", 1)
		p.need("next-forget", 1)
		p.need("next-wait", 1)
		p.need("next-closed", 1)
	}

	// ---- Close ----
	if fn := p.mustFn(pk, "Queue.Close"); fn != nil {
		r := common("Close")
		base := r.Event
		r.Event = func(st *State, ev *Event) {
			base(st, ev)
			switch ev.kind {
			case EvClose:
				p.ob("close", "close")
				if !isQueueCh(ev.addr, fClosed) {
					p.viol(st, ev, "close", "Close", "closes %s", ev.name)
				}
				if len(st.locks) == 0 || st.R["open"] != "1" {
					p.viol(st, ev, "close-once", "Close", "the channel is closed without having checked, in the same critical section, that it is not closed yet (a second Close panics, or an insertion slips in)")
				}
				st.Count("closed")
			case EvStore:
				if ev.name == fQueue || ev.name == fMap {
					p.viol(st, ev, "close-keeps", "Close", "closing changes %s: pending items are lost", ev.name)
				}
			case EvMapDel, EvMapSet:
				p.viol(st, ev, "close-keeps", "Close", "closing changes the duplicate counts")
			}
		}
		r.Exit = func(st *State, res []*Term) {
			if len(st.locks) > 0 {
				p.exitViol(st, "lock-balance", "Close", "returns with the mutex held")
			}
			if st.R["sawclosed"] == "" && st.R["closed"] != "1" {
				p.exitViol(st, "close", "Close", "returns without the queue being closed")
			}
		}
		p.explore(r, fn, nil)
		p.need("close", 1)
	}

	// ---- Len, IsClosed ----
	if fn := p.mustFn(pk, "Queue.Len"); fn != nil {
		r := common("Len")
		r.Exit = func(st *State, res []*Term) {
			p.ob("len", "exit")
			if len(st.locks) > 0 {
				p.exitViol(st, "lock-balance", "Len", "returns with the mutex held")
			}
			if res[0].op != OLen || !loadOf(res[0].args[0], fQueue) {
				p.exitViol(st, "len", "Len", "returns %s, not the number of pending items", res[0])
			}
		}
		p.explore(r, fn, nil)
	}
	if fn := p.mustFn(pk, "Queue.IsClosed"); fn != nil {
		r := common("IsClosed")
		r.Exit = func(st *State, res []*Term) {
			p.ob("isclosed", res[0].String())
			saw := st.R["sawclosed"] != ""
			if st.decide(res[0]) != b2t(saw) {
				p.exitViol(st, "isclosed", "IsClosed", "reports %s on a path that found the queue closed=%v", res[0], saw)
			}
		}
		p.explore(r, fn, nil)
		p.need("isclosed", 2)
	}

	// ---- the closed error agrees ----
	var errGlobal *Term
	if fn := p.mustFn(pk, "IsClosedQueue"); fn != nil {
		r := &Rule{Exit: func(st *State, res []*Term) {
			t := res[0]
			t.containsIf(func(u *Term) bool {
				if u.op == OLoad && u.args[0].op == OGlobal {
					errGlobal = u.args[0]
				}
				return false
			})
		}}
		p.explore(r, fn, nil)
		if errGlobal == nil {
			p.report("closed-error", "IsClosedQueue", "does not test for a sentinel error", nil, nil)
		}
	}
	for _, m := range []string{"Queue.Insert", "Queue.Next"} {
		if fn := p.fn(pk, m); fn != nil && errGlobal != nil {
			seen := false
			r := &Rule{Exit: func(st *State, res []*Term) {
				e := res[len(res)-1]
				if e.op == OLoad && e.args[0] == errGlobal {
					seen = true
				} else if st.decideNil(e) == no && st.decide(mkEq(e, e)) == yes && loadOfGlobal(e) {
					p.exitViol(st, "closed-error", m, "returns an error IsClosedQueue does not recognise")
				}
			}}
			p.explore(r, fn, nil)
			if !seen {
				p.report("closed-error", m, "never returns the error IsClosedQueue recognises", nil, nil)
			}
			p.ob("closed-error", m)
		}
	}

	// ---- NewQueue ----
	if fn := p.mustFn(pk, "NewQueue"); fn != nil {
		r := &Rule{}
		r.Event = func(st *State, ev *Event) {
			if ev.kind == EvCall && ev.name == "make(chan)" {
				if n, ok := ev.args[0].intVal(); ok && n >= 1 {
					st.Set("buf"+itoa(ev.res.id), "1")
				}
			}
		}
		r.Exit = func(st *State, res []*Term) {
			p.ob("new", "exit")
			get := func(f string) *Term {
				s, owner := p.fieldsOf(pk, "Queue")
				for i := 0; i < s.NumFields(); i++ {
					if owner+"."+s.Field(i).Name() == f {
						return st.load(mkField(res[0], s, owner, i), s.Field(i).Type())
					}
				}
				return mkNil()
			}
			for _, f := range []string{fIns, fClosed, fMap} {
				if st.decideNil(get(f)) != no {
					p.exitViol(st, "new", f, "%s is not created by NewQueue", f)
				}
			}
			if st.R["buf"+itoa(get(fIns).id)] == "" {
				p.exitViol(st, "wake-buffer", fIns, "the wake-up channel has no buffer: a wake-up sent while the consumer is not yet waiting is lost")
			}
		}
		p.explore(r, fn, nil)
		p.need("new", 1)
	}
}

func or0(s string) string {
	if s == "" {
		return "0"
	}
	return s
}
