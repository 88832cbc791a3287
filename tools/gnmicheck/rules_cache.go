package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The ingest typestate: Cache.GnmiUpdate is followed path by path; each unit
// (one update, one atomic group, one delete) must follow the outcome table.
// The sink decides which clauses a property reports.
type ingest struct {
	m    *cacheModel
	p    *Program
	want map[string]bool // clause groups: "ts" (C02), "feed" (C03), "count" (C15), "own" (C14)
}

func (g *ingest) bad(st *State, ev *Event, group, rule, f string, a ...any) {
	if !g.want[group] {
		return
	}
	if ev != nil {
		g.p.viol(st, ev, rule, "Cache.GnmiUpdate", f, a...)
	} else {
		g.p.exitViol(st, rule, "Cache.GnmiUpdate", f, a...)
	}
}

func (g *ingest) ob(group, rule, construct string) {
	if g.want[group] {
		g.p.ob(rule, construct)
	}
}

// bal adds to a conservation balance (actual minus expected).
func bal(st *State, k string, d int) {
	n := 0
	switch s := st.R["bal."+k]; s {
	case "":
	default:
		if s[0] == '-' {
			n = -int(s[1] - '0')
		} else {
			n = int(s[0] - '0')
		}
	}
	n += d
	if n > 4 {
		n = 4
	}
	if n < -4 {
		n = -4
	}
	if n == 0 {
		st.Set("bal."+k, "")
	} else {
		st.Set("bal."+k, itoa(n))
	}
}

// isMetaPath decides whether the indexed path p starts with the metadata root.
func (g *ingest) isMetaPath(st *State, path *Term) tri {
	e := st.elem(path, 0, types.Typ[types.String])
	return st.decide(mkEq(e, mkStr(g.m.root)))
}

// target whose tree this is
func (g *ingest) target(tree *Term) *Term {
	if loadOf(tree, g.m.treeF) {
		_, b := tree.loadedField()
		return b
	}
	return nil
}

func (g *ingest) tfield(st *State, tgt *Term, f string) *Term { return st.get(tgt, f) }

// endUnit checks the outcome of the unit in progress and closes it.
// err is the error the unit ended with (nil: not known here).
func (g *ingest) endUnit(st *State, ev *Event, err *Term) {
	kind := st.R["u"]
	if kind == "" {
		return
	}
	m := g.m
	if kind == "delete" {
		for _, k := range []string{"rm.0", "rm.1"} {
			if st.R[k] == "pending" {
				g.bad(st, ev, "feed", "feed-delete", "a leaf removed by a delete is not announced to the change feed")
			}
			st.Set(k, "")
			st.SetT(k, nil)
		}
		bal(st, "UpdateCount", -1)
		st.Set("u", "")
		return
	}
	nts := st.T["nts"]
	node, path := st.T["u.node"], st.T["u.path"]
	w := st.R["u.w"]
	clients := st.R["u.client"]
	tgt := g.target(st.T["u.tree"])
	if e := st.T["u.err"]; e != nil {
		err = e
	}
	meta := g.isMetaPath(st, path)
	if st.R["early"] != "" && w != "over" && w != "add" {
		g.bad(st, ev, "ts", "reject-effect", "a rejected update has already changed the target's metadata")
	}
	st.Set("early", "")
	var old, oldTs *Term
	if st.isNilT(node) == false && st.decideNil(node) == no {
		old = m.asNoti(st.T["u.old"])
		oldTs = st.get(old, "Timestamp")
	}
	switch w {
	case "over", "add":
		g.ob("ts", "unit-accept", w)
		g.ob("feed", "unit-accept", w)
		g.ob("count", "unit-accept", w)
		if err != nil && st.decideNil(err) != yes {
			g.bad(st, ev, "ts", "accept-error", "an accepted update is reported as an error (%s)", err)
		}
		supp := st.R["u.supp"] != ""
		if w == "add" {
			if supp {
				g.bad(st, ev, "count", "count-suppressed", "the first update of a leaf is counted as suppressed")
			}
		}
		notified := clients != ""
		if !notified {
			// only an unchanged value under event-driven emulation may be withheld
			if why := g.suppressible(st, w, old, tgt); why != "" {
				g.bad(st, ev, "feed", "feed-withheld", "an accepted update is withheld from the change feed although %s", why)
			}
			bal(st, "SuppressedCount", -1)
		} else {
			if clients != "1" {
				g.bad(st, ev, "feed", "feed-once", "one accepted update is handed to the change feed more than once")
			}
			bal(st, "UpdateCount", -1)
		}
		if w == "add" && meta == no {
			bal(st, "LeafCount", -1)
			bal(st, "AddCount", -1)
		}
		// latest timestamp
		if meta == no {
			if st.R["u.ts"] == "" {
				cur := st.T["cur.ts"]
				if cur == nil || !st.proves(mkLess(mkNs(cur), nts, nil), false) {
					g.bad(st, ev, "count", "latest-ts", "an accepted update newer than the target's latest timestamp does not advance it")
					g.bad(st, ev, "ts", "latest-ts", "an accepted update newer than the target's latest timestamp does not advance it: the future check compares with a stale reference")
				}
			}
		}
		if meta == yes && st.R["u.ts"] != "" {
			g.bad(st, ev, "count", "latest-ts-meta", "a metadata update advances the target's latest timestamp")
			g.bad(st, ev, "ts", "latest-ts-meta", "a metadata update advances the target's latest timestamp")
		}
	case "addfail":
		if st.decideNil(orNil(err)) == yes {
			g.bad(st, ev, "ts", "add-error", "an update that could not be stored is not reported")
		}
	default:
		// nothing was stored
		if st.R["u.client"] != "" {
			g.bad(st, ev, "feed", "feed-rejected", "a rejected update is handed to the change feed")
		}
		if node == nil || st.decideNil(node) != no {
			g.bad(st, ev, "ts", "new-dropped", "the first update of a leaf is dropped")
			break
		}
		isNoti := st.decide(mkTypeIs(st.T["u.old"], m.notiT))
		if isNoti == no {
			if err != nil && st.decideNil(err) == yes {
				g.bad(st, ev, "ts", "corrupt", "an update that collides with other content is dropped silently")
			}
			break
		}
		stale := st.proves(mkLess(nts, oldTs, nil), true) || st.proves(mkEq(nts, oldTs), true) && g.sameNoti(st, old) == yes
		future := g.futureProved(st, tgt)
		switch {
		case stale:
			g.ob("ts", "unit-stale", "")
			bal(st, "StaleCount", -1)
			g.errIs(st, ev, err, "ErrStale")
		case future:
			g.ob("ts", "unit-future", "")
			bal(st, "FutureCount", -1)
			g.errIs(st, ev, err, "ErrFuture")
		default:
			g.bad(st, ev, "ts", "reject", "an update is rejected although it is neither older than the stored one, nor identical to it, nor beyond the future threshold")
			// keep the balance neutral
			for _, k := range []string{"StaleCount", "FutureCount", "SuppressedCount"} {
				st.Set("bal."+k, "")
			}
		}
	}
	g.forget(st)
	for _, k := range []string{"u", "u.w", "u.client", "u.supp", "u.ts", "u.same", "u.loops"} {
		st.Set(k, "")
	}
	for _, k := range []string{"u.node", "u.path", "u.old", "u.val", "u.err", "u.tree", "now", "latest", "cur.ts", "added.path", "added.tree", "added.val"} {
		st.SetT(k, nil)
	}
}

// forget drops what the path learned about the unit that just ended.
func (g *ingest) forget(st *State) {
	var drop []*Term
	if t := st.T["u.node"]; t != nil {
		drop = append(drop, t)
	}
	if t := st.T["now"]; t != nil {
		drop = append(drop, t)
	}
	pre := st.get(st.T["n"], "Prefix")
	if t := st.T["u.path"]; t != nil {
		t.containsIf(func(x *Term) bool {
			if x.op == OPure && strings.HasSuffix(x.sym, "path.ToStrings") && x.args[0] != pre {
				drop = append(drop, x, x.args[0])
			}
			return false
		})
	}
	has := func(t *Term) bool {
		for _, d := range drop {
			if t.contains(d) {
				return true
			}
		}
		return false
	}
	st.dropFacts(has)
	st.ownStore()
	for a := range st.store {
		if has(a) {
			delete(st.store, a)
		}
	}
}

// fade keeps, between two units, only what the path knows about the
// notification as a whole.
func (g *ingest) fade(st *State) {
	st.Set("early", "")
	n := st.T["n"]
	st.dropFacts(func(t *Term) bool {
		return t.containsIf(func(x *Term) bool {
			switch x.op {
			case OIndex, OPure, OGlobal:
				return true
			case OOpaque, OOld:
				return !strings.Contains(x.sym, ";loop.") && !(x.op == OOld && strings.Contains(x.args[0].sym, ";loop."))
			case OLoad:
				f, b := x.loadedField()
				return strings.HasPrefix(f, "cache.Target.") && b != n
			}
			return false
		})
	})
	st.Set("tv", "")
	v := st.T["prev.val"]
	st.ownStore()
	for a := range st.store {
		if v != nil && a.contains(v) || a.op == OField && strings.HasPrefix(a.sym, "cache.Target.") {
			delete(st.store, a)
		}
	}
}

func orNil(t *Term) *Term {
	if t == nil {
		return mkStr("unknown error")
	}
	return t
}

func (g *ingest) errIs(st *State, ev *Event, err *Term, name string) {
	if err == nil {
		return
	}
	e := asOf(err)
	if e.op == OLoad && e.args[0].op == OGlobal && e.args[0].glob.Name() == name {
		return
	}
	g.bad(st, ev, "ts", "reject-error", "a rejected update returns %s, not %s", err, name)
}

// sameNoti: the facts decide that the stored notification equals the new one.
func (g *ingest) sameNoti(st *State, old *Term) tri {
	switch st.R["u.same"] {
	case "1":
		return yes
	case "0":
		return no
	}
	return unknown
}

func (g *ingest) futureProved(st *State, tgt *Term) bool {
	nts, now, latest := st.T["nts"], st.T["now"], st.T["latest"]
	if tgt == nil || now == nil || latest == nil {
		return false
	}
	thr := g.thr(st, tgt)
	l := mkNs(latest)
	set := st.proves(mkLess(l, mkInt(0), nil), false) || st.proves(mkPure("(time.Time).IsZero", types.Typ[types.Bool], latest), false)
	return st.proves(mkLess(mkInt(0), thr, nil), true) &&
		st.proves(mkLess(thr, mkArith(subTok, nts, mkNs(now), nil), nil), true) &&
		set && st.proves(mkLess(thr, mkArith(subTok, nts, l, nil), nil), true)
}

func (g *ingest) thr(st *State, tgt *Term) *Term {
	return g.tfield(st, tgt, "futureThreshold")
}

func (g *ingest) notFuture(st *State, tgt, oldTs *Term) bool {
	nts, now, latest := st.T["nts"], st.T["now"], st.T["latest"]
	if tgt == nil {
		return false
	}
	if st.provesLeq(nts, oldTs) {
		return true
	}
	thr := g.thr(st, tgt)
	if st.proves(mkLess(mkInt(0), thr, nil), false) {
		return true
	}
	if now != nil && st.proves(mkLess(thr, mkArith(subTok, nts, mkNs(now), nil), nil), false) {
		return true
	}
	if latest != nil {
		l := mkNs(latest)
		if st.proves(mkLess(mkInt(0), l, nil), false) || st.proves(mkPure("(time.Time).IsZero", types.Typ[types.Bool], latest), true) {
			return true
		}
		if st.proves(mkLess(thr, mkArith(subTok, nts, l, nil), nil), false) {
			return true
		}
	}
	return false
}

// suppressible: "" if the facts justify withholding an accepted update.
func (g *ingest) suppressible(st *State, w string, old, tgt *Term) string {
	if w != "over" || old == nil {
		return "it is the first of its leaf"
	}
	if tgt == nil || st.decide(g.tfield(st, tgt, "eventDriven")) != yes {
		return "event-driven emulation is not known to be on"
	}
	if st.decide(st.get(st.T["u.val"], "Atomic")) != no {
		return "it may be atomic"
	}
	if st.decide(st.get(old, "Atomic")) != no {
		return "the stored notification may be atomic"
	}
	for a, v := range st.f.atoms {
		if a.op == OPure && strings.HasSuffix(a.sym, "value.Equal") && v && len(a.args) == 2 {
			x, y := a.args[0], a.args[1]
			if x.contains(asOf(old)) == y.contains(asOf(old)) {
				continue
			}
			if loadOf(x, "gnmi.Update.Val") && loadOf(y, "gnmi.Update.Val") {
				return ""
			}
		}
	}
	return "its value is not known to equal the stored one"
}

func (g *ingest) rule() *Rule {
	m := g.m
	p := g.p
	// paths in AccessErr etc. keep their results symbolic
	r := &Rule{Unroll: 2, Prim: m.prim, Pure: m.pure}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		n := trimMod(c.name)
		if n == "(errlist.List).Err" || n == "(*errlist.List).Err" {
			t := st.fresh(c.instr, "errs", c.sig.Results().At(0).Type())
			st.SetT("errs", t)
			return one(t), true
		}
		if n == "google.golang.org/protobuf/proto.Equal" && len(c.args) == 2 && st.T["u.old"] != nil {
			old := asOf(m.asNoti(st.T["u.old"]))
			a, b := asOf(c.args[0]), asOf(c.args[1])
			if b == old {
				a, b = b, a
			}
			if a == old && (b == st.T["n"] || b.op == OAlloc) {
				set := func(v string) func(s *State) bool {
					return func(s *State) bool {
						if w := s.R["u.same"]; w != "" && w != v {
							return false
						}
						s.Set("u.same", v)
						return true
					}
				}
				return []Outcome{{res: mkBool(true), do: set("1")}, {res: mkBool(false), do: set("0")}}, true
			}
		}
		return m.model(st, c)
	}
	r.Event = func(st *State, ev *Event) {
		switch ev.kind {
		case EvCall, EvRecurse:
			g.call(st, ev)
		case EvLoad:
			if ev.name == "cache.Target.ts" {
				v := st.load(ev.addr, elemType(ev.addr))
				if st.R["u.w"] == "" {
					st.SetT("latest", v)
				}
				st.SetT("cur.ts", v)
			}
			g.guard(st, ev)
		case EvStore:
			g.guard(st, ev)
			g.store(st, ev)
		case EvAppend:
			if len(ev.args) > 1 && ev.args[0].op != ONil {
				d := ev.args[0]
				for d.op == OSlice && d.sym == "" {
					d = d.args[0]
				}
				if f, _ := d.loadedField(); strings.HasPrefix(f, "gnmi.") {
					g.bad(st, ev, "feed", "alias", "appends to the %s of an existing message: its backing array may be shared, so another message can change", f)
				}
			}
		case EvGo:
			g.bad(st, ev, "feed", "feed-async", "ingest hands work to another goroutine: changes may reach the feed out of order")
		}
	}
	r.Back = func(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
		// a unit started inside this loop's body ends with the iteration
		if st.gor != "" {
			return
		}
		if st.R["u"] != "" {
			if strings.Contains(st.R["u.loops"], loopID(len(st.frames), h)) {
				g.endUnit(st, nil, nil)
				g.fade(st)
			}
		} else if st.R["dirty"] != "" {
			g.fade(st)
		}
		st.Set("dirty", "")
	}
	r.Exit = func(st *State, res []*Term) {
		if st.gor != "" {
			return
		}
		err := res[len(res)-1]
		units := st.R["units"]
		n := st.T["n"]
		multi := st.T["errs"] == err && err != nil && st.T["errs"] != nil
		if !multi {
			g.endUnit(st, nil, err)
		} else {
			g.endUnit(st, nil, nil)
		}
		if len(st.locks) > 0 {
			g.bad(st, nil, "count", "lock-balance", "returns with a mutex held")
		}
		ok := st.decideNil(err) == yes || multi
		if st.R["adderr"] != "" && !multi && st.decideNil(err) == yes {
			g.bad(st, nil, "ts", "errors-lost", "rejected updates of a multi-update notification are not reported")
		}
		if units == "" && ok && st.R["entered"] != "" {
			bal(st, "EmptyCount", -1)
			ups, dels := st.T["ups"], st.T["dels"]
			if !st.proves(mkLess(mkInt(0), mkLen(ups), nil), false) || !st.proves(mkLess(mkInt(0), mkLen(dels), nil), false) {
				g.bad(st, nil, "feed", "units", "a notification is treated as empty although it may carry updates or deletes")
				g.bad(st, nil, "ts", "units", "a notification is treated as empty although it may carry updates or deletes")
			}
		}
		if ok {
			for _, k := range []string{"UpdateCount", "StaleCount", "FutureCount", "SuppressedCount", "EmptyCount", "LeafCount", "AddCount", "DelCount"} {
				g.ob("count", "conservation", k)
				if b := st.R["bal."+k]; b != "" {
					g.bad(st, nil, "count", "conservation", "%s is off by %s on this path through a notification (counted minus what happened)", k, b)
				}
			}
		} else if st.T["u.err"] == nil {
			for _, k := range []string{"UpdateCount", "StaleCount", "FutureCount", "SuppressedCount", "EmptyCount", "LeafCount", "AddCount", "DelCount"} {
				if b := st.R["bal."+k]; b != "" {
					g.bad(st, nil, "count", "conservation", "%s is off by %s on this path through a notification that fails", k, b)
				}
			}
		}
		if st.R["entered"] == "" {
			return
		}
		// every update and delete was applied
		if ok && units != "" && st.decide(st.get(n, "Atomic")) == no {
			for k, l := range map[string]*Term{"uc": st.T["ups"], "dc": st.T["dels"]} {
				c := st.R[k]
				if c == "" {
					c = "0"
				}
				if c != "3" && !st.proves(mkEq(mkLen(l), mkInt(int64(c[0]-'0'))), true) {
					g.bad(st, nil, "feed", "units", "returns after applying %s of the notification's %s although there may be more or fewer", c, map[string]string{"uc": "updates", "dc": "deletes"}[k])
				}
			}
		}
		// the caller's notification is as it was
		g.ob("feed", "caller-intact", "exit")
		if st.get(n, "Update") != st.T["ups"] || st.get(n, "Delete") != st.T["dels"] {
			g.bad(st, nil, "feed", "caller-intact", "the caller's notification is returned with different updates or deletes")
		}
	}
	_ = p
	return r
}

func (g *ingest) guard(st *State, ev *Event) {
	if ev.addr == nil || ev.addr.op != OField || rootAlloc(ev.addr) != nil {
		return
	}
	var lk string
	switch ev.name {
	case "cache.Target.ts", "cache.Target.sync":
		lk = "tsmu"
	case "cache.Cache.targets":
		lk = "mu"
	default:
		return
	}
	g.ob("count", "guarded", ev.name)
	need := byte('R')
	if ev.kind == EvStore {
		need = 'W'
	}
	held := false
	for _, l := range st.locks {
		if l.addr.op == OField && l.addr.args[0] == ev.addr.args[0] && (l.mode == 'W' || need == 'R') {
			held = true
		}
	}
	if !held {
		g.bad(st, ev, "count", "guarded", "%s is accessed without its mutex (%s)", ev.name, lk)
	}
}

func (g *ingest) store(st *State, ev *Event) {
	switch ev.name {
	case "cache.Target.ts":
		nts := st.T["nts"]
		g.ob("ts", "latest-ts", "store")
		g.ob("count", "latest-ts", "store")
		if st.R["u.w"] != "over" && st.R["u.w"] != "add" {
			g.bad(st, ev, "ts", "latest-ts", "the latest timestamp changes before the update is accepted")
			g.bad(st, ev, "count", "latest-ts", "the latest timestamp changes before the update is accepted")
		}
		if lin(mkNs(ev.val)) == nil || len(linDiff(mkNs(ev.val), nts).ts) != 0 || linDiff(mkNs(ev.val), nts).c != 0 {
			g.bad(st, ev, "ts", "latest-ts", "the latest timestamp becomes %s, not the update's", ev.val)
			g.bad(st, ev, "count", "latest-ts", "the latest timestamp becomes %s, not the update's", ev.val)
		}
		cur := st.load(ev.addr, elemType(ev.addr))
		if !st.proves(mkLess(nts, mkNs(cur), nil), false) {
			g.bad(st, ev, "ts", "latest-ts", "the latest timestamp can move backwards")
			g.bad(st, ev, "count", "latest-ts", "the latest timestamp can move backwards")
		}
		st.Set("u.ts", "1")
		return
	case "cache.Target.sync":
		if st.R["u"] == "" {
			st.Set("early", "1")
		} else if st.R["u.w"] != "over" && st.R["u.w"] != "add" {
			g.bad(st, ev, "ts", "reject-effect", "the sync flag changes although the update has not been accepted")
		}
		return
	}
	// the caller's message
	n := st.T["n"]
	if strings.HasPrefix(ev.name, "gnmi.") || strings.HasSuffix(ev.name, "[]") {
		a := ev.addr
		if a.op == OField && a.args[0] == n && (ev.name == "gnmi.Notification.Update" || ev.name == "gnmi.Notification.Delete") {
			return // checked at exit
		}
		for a.op == OField || a.op == OIndex || a.op == OLoad {
			a = a.args[0]
		}
		if a == n {
			g.bad(st, ev, "feed", "caller-intact", "the caller's notification is modified (%s)", ev.addr)
		}
		if a.op == OPure && strings.HasPrefix(a.sym, "as:") || a.op == OOpaque {
			g.bad(st, ev, "feed", "stored-intact", "a stored notification is modified in place (%s)", ev.addr)
		}
	}
}

func (g *ingest) call(st *State, ev *Event) {
	m := g.m
	nm := trimMod(ev.name)
	switch {
	case nm == "tree.lookup":
		if st.R["u"] == "update" && st.T["u.path"] == ev.args[1] && st.R["u.w"] == "" && st.T["u.err"] == nil && st.T["u.node"] == ev.args[2] {
			return // looked up again
		}
		g.endUnit(st, ev, nil)
		if st.R["units"] == "d" {
			g.bad(st, ev, "feed", "order", "an update of a notification is applied after one of its deletes")
		}
		st.Set("units", "u")
		st.Set("u", "update")
		g.where(st)
		st.Count("uc")
		st.SetT("u.tree", ev.args[0])
		st.SetT("u.path", ev.args[1])
		st.SetT("u.node", ev.args[2])
		st.SetT("u.old", m.value(st, ev.args[2]))
		g.own(st, ev, ev.args[0])
	case nm == "tree.added":
	case nm == "tree.update":
		g.ob("ts", "overwrite", "site")
		nd := ev.args[0]
		if st.R["u"] != "update" || nd != st.T["u.node"] {
			g.bad(st, ev, "ts", "overwrite", "a stored leaf is overwritten without having been looked up for this update")
			return
		}
		old := m.asNoti(st.T["u.old"])
		ots, nts := st.get(old, "Timestamp"), st.T["nts"]
		switch {
		case !st.provesLeq(ots, nts):
			g.bad(st, ev, "ts", "overwrite-older", "a stored leaf is overwritten although the update may be older than it")
		case st.proves(mkLess(ots, nts, nil), true):
		case g.sameNoti(st, old) != no:
			g.bad(st, ev, "ts", "overwrite-same", "a stored leaf is overwritten by an update with its timestamp that may be identical to it")
		}
		if !g.notFuture(st, g.target(st.T["u.tree"]), ots) {
			g.bad(st, ev, "ts", "overwrite-future", "a stored leaf is overwritten by an update that may be further ahead of the clock and of the latest timestamp than the threshold")
		}
		if st.R["u.w"] != "" {
			g.bad(st, ev, "ts", "overwrite", "one update is stored twice")
		}
		g.written(st, ev, "over", ev.args[1])
	case nm == "tree.add":
		g.ob("ts", "add", "site")
		if st.R["u"] != "update" || ev.args[1] != st.T["u.path"] || ev.args[0] != st.T["u.tree"] {
			g.bad(st, ev, "ts", "add", "a leaf is added without having been looked up at its path: a newer stored value would be overwritten")
			return
		}
		if st.decideNil(st.T["u.node"]) != yes {
			g.bad(st, ev, "ts", "add", "an existing leaf is replaced without comparing timestamps")
		}
		if ev.ok == yes {
			g.written(st, ev, "add", ev.args[2])
		} else {
			st.Set("u.w", "addfail")
		}
	case nm == "tree.delete":
		g.bad(st, ev, "ts", "delete-unconditional", "a notification deletes leaves without comparing timestamps")
	case nm == "tree.walkdeleted":
		g.endUnit(st, ev, nil)
		st.Set("units", "d")
		st.Set("u", "delete")
		g.where(st)
		st.Count("dc")
		g.own(st, ev, ev.args[0])
		g.deletePath(st, ev)
	case nm == "tree.cond":
		g.ob("ts", "delete-cond", "site")
		v, ret := m.asNoti(ev.args[0]), ev.args[1]
		want := mkLess(st.get(v, "Timestamp"), st.T["nts"], nil)
		ok := ret == want
		if !ok {
			a, b := st.clone(), st.clone()
			ok = (!a.assume(want, true) || a.decide(ret) == yes) && (!b.assume(want, false) || b.decide(ret) == no)
		}
		if !ok {
			g.bad(st, ev, "ts", "delete-cond", "a delete removes a matching leaf on the condition %s, not exactly when the stored timestamp is older than the delete's", ret)
		}
	case nm == "tree.removed":
		k := "rm.0"
		if st.R[k] != "" {
			k = "rm.1"
		}
		st.Set(k, "pending")
		st.SetT(k, m.asNoti(ev.args[0]))
	case nm == "tree.walkdone":
		for _, k := range []string{"rm.0", "rm.1"} {
			if v := st.T[k]; v != nil && st.R[k] == "pending" {
				switch g.metaFact(st, v) {
				case no:
					// a data leaf went away
					bal(st, "LeafCount", 1)
					bal(st, "DelCount", -1)
				case unknown:
					g.bad(st, ev, "count", "conservation", "a leaf is removed without deciding whether it is data or metadata: only data leaves are counted")
				}
			}
		}
	case nm == "dyn:"+m.client || nm == "dyn:"+m.cclient:
		g.feed(st, ev)
	case nm == "(*metadata.Metadata).AddInt":
		g.count(st, ev)
	case strings.HasPrefix(nm, "(*metadata.Metadata).Set"):
		if st.R["u"] == "" {
			st.Set("early", "1")
		}
		if st.R["u"] == "update" && st.R["u.w"] != "over" && st.R["u.w"] != "add" {
			g.bad(st, ev, "ts", "reject-effect", "metadata changes although the update has not been accepted")
		}
		if k, ok := ev.args[1].strVal(); ok && len(ev.args) > 1 {
			switch m.metaK[k] {
			case "AddCount", "DelCount", "EmptyCount", "LeafCount", "UpdateCount", "StaleCount", "FutureCount", "SuppressedCount":
				g.bad(st, ev, "count", "conservation", "ingest overwrites the counter %s", k)
			}
		}
	case nm == "(*errlist.List).Add":
		e := mkNil()
		if len(ev.args) > 1 {
			e = st.elem(ev.args[1], 0, elemType(ev.args[1]))
		}
		if st.decideNil(e) == yes {
			return
		}
		st.Set("adderr", "1")
		st.Set("dirty", "1")
		if st.R["u"] == "update" && st.T["u.err"] == nil && st.R["u.w"] != "over" && st.R["u.w"] != "add" {
			st.SetT("u.err", e)
			return
		}
		if st.R["u"] == "update" && (st.R["u.w"] == "over" || st.R["u.w"] == "add") && st.R["prefail"] == "" && g.want["ts"] && false {
			return
		}
		g.endUnit(st, ev, nil)
		st.Set("units", "u")
		st.Count("uc")
	case nm == "(*latency.Latency).Compute":
		if st.R["u.w"] != "over" && st.R["u.w"] != "add" {
			g.bad(st, ev, "count", "latency", "latency is recorded for an update that has not been accepted")
		}
		if st.T["u.path"] != nil && g.isMetaPath(st, st.T["u.path"]) != no {
			g.bad(st, ev, "count", "latency", "latency is recorded for a metadata update")
		}
		if len(ev.args) > 1 {
			d := linDiff(mkNs(ev.args[1]), st.T["nts"])
			if len(d.ts) != 0 || d.c != 0 {
				g.bad(st, ev, "count", "latency", "latency is computed from %s, not from the update's timestamp", ev.args[1])
			}
		}
	}
}

// metaFact: whether the removed notification v is metadata, by the path's facts.
func (g *ingest) metaFact(st *State, v *Term) tri {
	r := unknown
	for a, val := range st.f.atoms {
		if a.op == OBin && a.contains(v) {
			for i := 0; i < 2; i++ {
				if s, ok := a.args[i].strVal(); ok && s == g.m.root {
					r = b2t(val)
				}
			}
		}
	}
	for a, c := range st.f.eqc {
		if a.contains(v) {
			if s, ok := c.strVal(); ok && s == g.m.root {
				r = yes
			}
		}
	}
	if r == unknown {
		// an empty path is not below the metadata root
		for _, i := range st.f.iv {
			for t := range i.lin.ts {
				if t.op == OLen && t.contains(v) && t.containsIf(func(x *Term) bool { return x.op == OPure && strings.HasSuffix(x.sym, "path.ToStrings") }) {
					if i.hasHi && i.hi <= 1 { // only the target's name
						r = no
					}
				}
			}
		}
	}
	return r
}

func (g *ingest) own(st *State, ev *Event, tree *Term) {
	t := g.target(tree)
	if t == nil {
		g.bad(st, ev, "own", "own-tree", "the notification is applied to %s, not to its target's tree", tree)
		return
	}
	g.ob("own", "own-tree", ev.name)
	// the target must be the one registered under the prefix's target name
	if st.T["c"] != nil {
		ok := false
		if t.op == OLoad && t.args[0].op == OMapElem && loadOf(t.args[0].args[0], "cache.Cache.targets") {
			k := t.args[0].args[1]
			if k == st.get(st.get(st.T["n"], "Prefix"), "Target") {
				ok = true
			}
		}
		if !ok {
			g.bad(st, ev, "own", "own-target", "the notification is applied to target %s, not to the one its prefix names", t)
		}
	}
}

// written: the update is in the tree now.
func (g *ingest) written(st *State, ev *Event, how string, val *Term) {
	st.Set("u.w", how)
	v := strip(val)
	st.SetT("u.val", v)
	n := st.T["n"]
	g.ob("feed", "stored-value", how)
	if v.typ == nil || !types.Identical(v.typ, g.m.notiT) {
		g.bad(st, ev, "feed", "stored-value", "stores %s, not a notification", val)
		return
	}
	ups := st.T["ups"]
	atomic := st.decide(st.get(n, "Atomic"))
	if t := st.get(v, "Timestamp"); t != st.T["nts"] {
		g.bad(st, ev, "ts", "stored-ts", "the stored notification carries timestamp %s, not the submitted one", t)
		g.bad(st, ev, "feed", "stored-value", "the stored notification carries timestamp %s, not the submitted one", t)
	}
	if st.get(v, "Prefix") != st.get(n, "Prefix") {
		g.bad(st, ev, "feed", "stored-value", "the stored notification has another prefix than the submitted one")
	}
	if st.decide(mkEq(st.get(v, "Atomic"), st.get(n, "Atomic"))) != yes && st.get(v, "Atomic") != st.get(n, "Atomic") {
		g.bad(st, ev, "feed", "stored-value", "the stored notification loses or gains the atomic flag")
	}
	vu := st.get(v, "Update")
	if atomic == yes {
		if vu != ups {
			g.bad(st, ev, "feed", "atomic-split", "an atomic notification is not stored as one unit")
		}
		return
	}
	if v == n {
		if vu != ups || !st.proves(mkEq(mkLen(ups), mkInt(1)), true) || !st.proves(mkEq(mkLen(st.T["dels"]), mkInt(0)), true) {
			g.bad(st, ev, "feed", "unit-clone", "the caller's notification itself is stored although it carries more than one update: its leaf would change when the caller gets it back")
		}
	} else {
		if v == st.T["prev.val"] {
			g.bad(st, ev, "feed", "unit-clone", "two updates share one stored notification")
		}
		if st.decide(mkEq(mkLen(vu), mkInt(1))) != yes {
			g.bad(st, ev, "feed", "unit-split", "a unit of a multi-update notification carries %s updates", mkLen(vu))
		}
		if d := st.get(v, "Delete"); st.decide(mkEq(mkLen(d), mkInt(0))) != yes {
			g.bad(st, ev, "feed", "unit-split", "a unit of a multi-update notification carries deletes as well")
		}
	}
	st.SetT("prev.val", v)
	el := st.elem(vu, 0, elemType(vu))
	// the stored update is the one of this position
	if uc := st.R["uc"]; uc != "3" && uc != "" && v != n {
		want := st.elem(ups, int64(uc[0]-'1'), elemType(ups))
		if asOf(el) != asOf(want) {
			g.bad(st, ev, "feed", "unit-order", "update %s of the notification is stored as unit %s", el, uc)
		}
	}
	// the path it is stored at
	path := st.T["u.path"]
	up := st.get(el, "Path")
	okp := path.containsIf(func(t *Term) bool {
		return t.op == OPure && strings.HasSuffix(t.sym, "path.ToStrings") && t.args[0] == up
	})
	okx := path.containsIf(func(t *Term) bool {
		return t.op == OPure && strings.HasSuffix(t.sym, "path.ToStrings") && t.args[0] == st.get(n, "Prefix")
	})
	if !okp || !okx {
		g.bad(st, ev, "feed", "stored-path", "the update is stored at %s, which is not its prefix and path", path)
	}
}

func (g *ingest) feed(st *State, ev *Event) {
	m := g.m
	g.ob("feed", "feed", ev.name)
	if len(st.locks) > 0 {
		for _, l := range st.locks {
			g.bad(st, ev, "feed", "feed-locked", "the change feed runs while %s is held", l.addr)
		}
	}
	if len(ev.args) == 0 {
		return
	}
	l := strip(ev.args[0])
	if st.R["u"] == "update" && l.op != OAlloc {
		nd := st.T["u.node"]
		same := l == nd
		if st.R["u.w"] == "add" {
			same = l.op == OPure && strings.HasPrefix(l.sym, "node") && l.args[0] == st.T["u.tree"] && l.args[1] == st.T["u.path"]
		}
		if !same {
			g.bad(st, ev, "feed", "feed-leaf", "the change feed gets %s, not the leaf that changed", l)
		}
		if st.R["u.w"] != "over" && st.R["u.w"] != "add" {
			g.bad(st, ev, "feed", "feed-before-store", "the change feed is told before the tree holds the change")
		}
		st.Count("u.client")
		return
	}
	d := strip(m.value(st, l))
	if d.typ == nil || !types.Identical(d.typ, m.notiT) {
		if l.op == OLoad || l.op == OOpaque || l.op == OOld {
			return // an element of a list followed abstractly
		}
		g.bad(st, ev, "feed", "feed-leaf", "the change feed gets %s", l)
		return
	}
	if st.R["u"] == "update" {
		g.bad(st, ev, "feed", "feed-leaf", "the change feed gets a detached copy of an update: later changes to the leaf are not seen through it")
		st.Count("u.client")
		return
	}
	// a delete announcement
	var v *Term
	key := ""
	dt := st.get(st.get(d, "Prefix"), "Target")
	for _, k := range []string{"rm.1", "rm.0"} {
		if st.R[k] == "pending" && (v == nil || st.get(st.get(st.T[k], "Prefix"), "Target") == dt) {
			v, key = st.T[k], k
		}
	}
	if key != "" {
		st.Set(key, "done")
	}
	if v == nil {
		g.bad(st, ev, "feed", "feed-delete", "a delete is announced that removed nothing")
		return
	}
	g.deleteNoti(st, ev, d, v)
}

// deleteNoti: the announcement d names exactly the removed leaf v.
func (g *ingest) deleteNoti(st *State, ev *Event, d, v *Term) {
	g.ob("feed", "delete-noti", "site")
	if t := st.get(d, "Timestamp"); t != st.T["nts"] {
		g.bad(st, ev, "feed", "delete-noti", "a delete is announced with timestamp %s, not the delete's", t)
	}
	vp := st.get(v, "Prefix")
	dp := st.get(d, "Prefix")
	if st.get(dp, "Target") != st.get(vp, "Target") {
		g.bad(st, ev, "feed", "delete-noti", "a delete is announced for target %s, not the removed leaf's", st.get(dp, "Target"))
	}
	del := st.get(d, "Delete")
	if st.decide(mkEq(mkLen(del), mkInt(1))) != yes {
		g.bad(st, ev, "feed", "delete-noti", "a delete announcement carries %s paths for one removed leaf", mkLen(del))
		return
	}
	if u := st.get(d, "Update"); st.decide(mkEq(mkLen(u), mkInt(0))) != yes {
		g.bad(st, ev, "feed", "delete-noti", "a delete announcement carries updates")
	}
	dpath := st.elem(del, 0, elemType(del))
	atomic := st.decide(st.get(v, "Atomic"))
	elem, element := st.get(dpath, "Elem"), st.get(dpath, "Element")
	if dpath.op == OAlloc {
		// every element of the leaf's path, prefix first
		uses := func(t, from *Term) bool {
			return t.containsIf(func(u *Term) bool {
				if u.op == OAlloc && strings.HasSuffix(typeKey(u.typ), "gnmi.PathElem") {
					return st.get(u, "Name").containsIf(func(w *Term) bool { return w == from })
				}
				return u == from
			})
		}
		up := st.get(st.elem(st.get(v, "Update"), 0, elemType(st.get(v, "Update"))), "Path")
		vague := func(t *Term) bool {
			return t.containsIf(func(u *Term) bool { return u.op == OOpaque && !under0Term(u, v) || u.op == OOld })
		}
		if !vague(elem) && !vague(element) {
			hasPre := uses(elem, vp) || uses(element, vp) || st.isNilT(vp) || st.noElems(vp)
			hasPath := uses(elem, up) || uses(element, up) || st.noElems(up)
			if !hasPre {
				g.bad(st, ev, "feed", "delete-noti", "a delete announcement loses the prefix of the removed leaf")
			}
			if atomic == no && !hasPath {
				g.bad(st, ev, "feed", "delete-noti", "a delete announcement loses the path of the removed leaf")
			}
			if atomic == yes && (uses(elem, up) || uses(element, up)) && !st.noElems(up) {
				g.bad(st, ev, "feed", "delete-noti", "the removal of an atomic group is announced below its root")
			}
		}
	}
}

func under0Term(t, v *Term) bool { return t == v }

// noElems: the path is known to have no elements on this path.
func (st *State) noElems(p *Term) bool {
	if st.isNilT(p) {
		return true
	}
	return st.decide(mkEq(mkLen(st.get(p, "Elem")), mkInt(0))) == yes && st.decide(mkEq(mkLen(st.get(p, "Element")), mkInt(0))) == yes
}

// deletePath: the walked path is the prefix and path of this delete.
func (g *ingest) deletePath(st *State, ev *Event) {
	n := st.T["n"]
	path := ev.args[1]
	dels := st.T["dels"]
	dc := st.R["dc"]
	g.ob("feed", "delete-path", "site")
	g.ob("ts", "delete-path", "site")
	has := func(want *Term) bool {
		return path.containsIf(func(t *Term) bool {
			return t.op == OPure && strings.HasSuffix(t.sym, "path.ToStrings") && (t.args[0] == want || asOf(t.args[0]) == asOf(want))
		})
	}
	if !has(st.get(n, "Prefix")) {
		g.bad(st, ev, "ts", "delete-path", "the delete walks %s, which lacks the notification's prefix", path)
		g.bad(st, ev, "feed", "delete-path", "the delete walks %s, which lacks the notification's prefix", path)
	}
	if dc != "3" && dc != "" {
		if !has(st.elem(dels, int64(dc[0]-'1'), elemType(dels))) {
			g.bad(st, ev, "ts", "delete-path", "delete %s of the notification walks %s", dc, path)
			g.bad(st, ev, "feed", "delete-path", "delete %s of the notification walks %s", dc, path)
		}
	}
}

func (g *ingest) count(st *State, ev *Event) {
	m := g.m
	if len(ev.args) < 3 {
		return
	}
	k, ok := ev.args[1].strVal()
	if !ok {
		g.bad(st, ev, "count", "conservation", "a counter chosen at run time changes (%s)", ev.args[1])
		return
	}
	name := m.metaK[k]
	d := ev.args[2]
	c, isC := d.intVal()
	switch {
	case name == "UpdateCount" && st.decide(st.get(st.T["n"], "Atomic")) == yes:
		if d != mkLen(st.T["ups"]) {
			g.bad(st, ev, "count", "conservation", "an atomic group is counted as %s updates", d)
		}
		c = 1
	case !isC:
		g.bad(st, ev, "count", "conservation", "counter %s changes by %s, which is not what this path did", name, d)
		return
	}
	if name == "SuppressedCount" {
		st.Set("u.supp", "1")
		if c == 1 && st.R["u.w"] != "over" {
			g.bad(st, ev, "count", "count-suppressed", "an update is counted as suppressed without having been stored")
		}
	}
	if c > 4 {
		c = 4
	}
	bal(st, name, int(c))
}

func runIngest(p *Program, groups ...string) {
	m := newCacheModel(p)
	if m == nil {
		return
	}
	g := &ingest{m: m, p: p, want: map[string]bool{}}
	for _, x := range groups {
		g.want[x] = true
	}
	fn := p.mustFn("cache", "Cache.GnmiUpdate")
	if fn == nil {
		return
	}
	r := g.rule()
	inner := r.Event
	tgtFn := p.fn("cache", "Target.GnmiUpdate")
	r.Event = func(st *State, ev *Event) {
		if ev.kind == EvEnter && ev.fn == tgtFn {
			st.Set("entered", "1")
		}
		inner(st, ev)
	}
	for _, sc := range []string{"atomic", "updates", "deletes", "both"} {
		p.explore(r, fn, func(st *State, ps []*Term) {
			n := ps[1]
			st.SetT("c", ps[0])
			st.SetT("n", n)
			st.SetT("nts", st.get(n, "Timestamp"))
			ups, dels := st.get(n, "Update"), st.get(n, "Delete")
			st.SetT("ups", ups)
			st.SetT("dels", dels)
			none := func(t *Term, v bool) { st.assume(mkEq(mkLen(t), mkInt(0)), v) }
			st.assume(st.get(n, "Atomic"), sc == "atomic")
			switch sc {
			case "updates":
				none(dels, true)
			case "deletes":
				none(ups, true)
				none(dels, false)
				st.Set("shapes", "all")
			case "both":
				none(ups, false)
				none(dels, false)
			}
		})
	}
	if tgtFn == nil {
		p.report("anchor", "cache.Target.GnmiUpdate", "function not found", nil, nil)
	}
}

var _ = ssa.NewProgram

func init() {
	needs := func(p *Program, m map[string]int) {
		for r, n := range m {
			p.need(r, n)
		}
	}
	checks["C03"] = &propCheck{run: func(p *Program) {
		runIngest(p, "feed")
		runTarget(p, "feed")
		needs(p, map[string]int{"reset-announce": 1, "remove-announce": 1, "refresh": 3, "set-client": 1, "caller-intact": 1, "delete-noti": 1, "delete-path": 1, "feed": 1, "stored-value": 2, "unit-accept": 2})
	}, explanation: "Path-sensitive typestate of Cache.GnmiUpdate: every stored leaf is handed to the feed exactly once after it is stored (or withheld under the event-driven rule), every removed leaf announced by a delete built from it, units are processed in order, atomic groups stored whole, and the caller's message is as before on every exit."}
	checks["C15"] = &propCheck{run: func(p *Program) {
		runIngest(p, "count")
		runTarget(p, "count")
		needs(p, map[string]int{"refresh": 3, "refresh-all": 3, "refresh-latest": 1, "conservation": 8, "guarded": 3, "latest-ts": 1, "unit-accept": 2})
	}, explanation: "Path-sensitive typestate of Cache.GnmiUpdate: the counters change exactly by what the path did; shared target fields are accessed under their lock."}
	checks["C14"] = &propCheck{run: func(p *Program) {
		runIngest(p, "own")
		runTarget(p, "own")
		if g := newSubRules(p, "end"); g != nil {
			g.run()
		}
		p.need("target-delete", 1)
		needs(p, map[string]int{"reset": 1, "reset-delete": 1, "reset-announce": 1, "remove": 1, "remove-announce": 1, "add": 1, "lookup": 2, "lifecycle": 3, "fresh-target": 8, "refresh-all": 3, "own-tree": 2})
	}, explanation: "Path-sensitive typestate of the cache's entry points: only the named target's tree, metadata and feed are touched."}
	checks["C02"] = &propCheck{run: func(p *Program) {
		runIngest(p, "ts")
		runTarget(p, "ts")
		p.need("unit-accept", 2)
		p.need("unit-stale", 1)
		p.need("unit-future", 1)
		p.need("delete-cond", 1)
		p.need("overwrite", 1)
		p.need("add", 1)
	}, explanation: "Path-sensitive typestate of Cache.GnmiUpdate: every unit (update, atomic group, delete) is followed from its tree lookup to its outcome, and the branch facts must place it in the timestamp outcome table."}
}

// where notes the loops the unit started in.
func (g *ingest) where(st *State) {
	st.Set("u.loops", loopsOf(st))
}

// loopsOf lists the loops the state is in.
func loopsOf(st *State) string {
	var l []string
	for i, f := range st.frames {
		for h := range f.loops {
			l = append(l, loopID(i+1, h))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "")
}

func loopID(depth int, h *ssa.BasicBlock) string {
	return fmt.Sprintf("%d:%s.%d;", depth, h.Parent().String(), h.Index)
}
