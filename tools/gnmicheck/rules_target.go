package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// targetRules: the lifecycle operations of the cache (Add, Remove, Reset, the
// metadata refresh, Sync, Connect, ...), each followed path by path from its
// exported entry point.
type targetRules struct {
	m    *cacheModel
	p    *Program
	want map[string]bool // "own" (C14), "count" (C15), "feed" (C03), "query" (C05)
	op   string
	mem  map[*ssa.Function]int
}

func (g *targetRules) bad(st *State, ev *Event, group, rule, f string, a ...any) {
	for _, x := range strings.Fields(group) {
		if g.want[x] {
			if ev != nil {
				g.p.viol(st, ev, rule, g.op, f, a...)
			} else {
				g.p.exitViol(st, rule, g.op, f, a...)
			}
			return
		}
	}
}

func (g *targetRules) ob(group, rule, c string) {
	for _, x := range strings.Fields(group) {
		if g.want[x] {
			g.p.ob(rule, c)
		}
	}
}

// applier: a cache function that takes a notification and stores it.
func (g *targetRules) applier(fn *ssa.Function) bool {
	if v, ok := g.mem[fn]; ok {
		return v > 0
	}
	g.mem[fn] = 0
	if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "cache" || g.notiArg(fn) < 0 {
		return false
	}
	if !g.p.reaches(fn, true, callsTo("(*ctree.Tree).Add", "(*ctree.Leaf).Update", "(*ctree.Tree).Delete", "(*ctree.Tree).WalkDeleted")) {
		return false
	}
	g.mem[fn] = 1
	return true
}

func (g *targetRules) notiArg(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if types.Identical(p.Type(), g.m.notiT) {
			return i
		}
	}
	return -1
}

func (g *targetRules) metaKey(st *State, k *Term) *Term { return k }

func (g *targetRules) model(st *State, c *Call) ([]Outcome, bool) {
	n := trimMod(c.name)
	x := st.x
	rt := x.resType(c)
	str := types.Typ[types.String]
	if c.fn != nil && g.applier(c.fn) {
		i := g.notiArg(c.fn)
		x.emit(st, &Event{kind: EvCall, name: "apply", fn: c.fn, args: []*Term{strip(c.args[0]), strip(c.args[i])}, instr: c.instr})
		switch {
		case rt == nil:
			return one(nil), true
		default:
			if tp, ok := rt.(*types.Tuple); ok && tp.Len() == 2 {
				r := st.fresh(c.instr, "applied", rt)
				return []Outcome{
					{res: mkTuple(r.args[0], mkNil()), do: func(s *State) bool {
						s.assume(mkEq(r.args[0], mkNil()), false)
						s.SetT("leaf", r.args[0])
						return true
					}},
					{res: mkTuple(mkNil(), mkNil()), do: func(s *State) bool { s.SetT("leaf", nil); return true }},
					{res: mkTuple(mkNil(), r.args[1]), do: func(s *State) bool {
						s.SetT("leaf", nil)
						return s.assume(mkEq(r.args[1], mkNil()), false)
					}},
				}, true
			}
		}
		er := st.fresh(c.instr, "applyErr", rt)
		return []Outcome{
			{res: mkNil()},
			{res: er, do: func(s *State) bool { return s.assume(mkEq(er, mkNil()), false) }},
		}, true
	}
	switch n {
	case "metadata.Path":
		k := c.args[0]
		return one(tab.get(Term{op: OAppend, args: []*Term{mkNil(), mkPure("mp0", str, k), mkPure("mp1", str, k)}, typ: types.NewSlice(str)})), true
	case "metadata.New":
		x.emit(st, &Event{kind: EvCall, name: n, instr: c.instr})
		return one(st.freshAlloc(c.instr, "meta", rt)), true
	case "latency.New":
		x.emit(st, &Event{kind: EvCall, name: n, args: c.args, instr: c.instr})
		return one(st.freshAlloc(c.instr, "lat", rt)), true
	case "(*metadata.Metadata).GetBool", "(*metadata.Metadata).GetInt", "(*metadata.Metadata).GetStr":
		x.emit(st, &Event{kind: EvCall, name: n, args: c.args, instr: c.instr})
		r := st.fresh(c.instr, "metaval", rt)
		return []Outcome{
			{res: mkTuple(r.args[0], mkNil()), do: func(s *State) bool {
				s.SetT("mg.v", r.args[0])
				s.SetT("mg.k", c.args[1])
				s.Set("mg.err", "")
				return true
			}},
			{res: mkTuple(zeroOf(r.args[0].typ), r.args[1]), do: func(s *State) bool {
				s.SetT("mg.v", nil)
				s.SetT("mg.k", c.args[1])
				s.Set("mg.err", "1")
				return s.assume(mkEq(r.args[1], mkNil()), false)
			}},
		}, true
	}
	if strings.HasSuffix(n, "stringset.Set).Contains") {
		return one(mkPure("excluded", types.Typ[types.Bool], c.args...)), true
	}
	if strings.HasSuffix(n, "cache.Target.client") || n == "dyn:"+g.m.client || n == "dyn:"+g.m.cclient {
		return nil, false
	}
	return g.m.model(st, c)
}

// pathOf lists the strings a one-delete notification addresses, origin first.
func (g *targetRules) deletePaths(st *State, d *Term) (tgt *Term, ps []*Term, ok bool) {
	d = strip(d)
	if d.typ == nil || !types.Identical(d.typ, g.m.notiT) {
		return nil, nil, false
	}
	pre := st.get(d, "Prefix")
	tgt = st.get(pre, "Target")
	add := func(p *Term) bool {
		if st.isNilT(p) {
			return true
		}
		if o := st.get(p, "Origin"); st.decide(mkEq(o, mkStr(""))) != yes {
			ps = append(ps, o)
		}
		for _, f := range []string{"Elem", "Element"} {
			l := st.get(p, f)
			n, isc := mkLen(l).intVal()
			if !isc {
				if st.decide(mkEq(mkLen(l), mkInt(0))) == yes {
					continue
				}
				return false
			}
			for i := int64(0); i < n; i++ {
				e := st.elem(l, i, elemType(l))
				if f == "Elem" {
					e = st.get(e, "Name")
				}
				ps = append(ps, e)
			}
		}
		return true
	}
	if !add(pre) {
		return tgt, nil, false
	}
	del := st.get(d, "Delete")
	if n, isc := mkLen(del).intVal(); !isc || n != 1 {
		return tgt, nil, false
	}
	if u := st.get(d, "Update"); st.decide(mkEq(mkLen(u), mkInt(0))) != yes {
		return tgt, nil, false
	}
	if !add(st.elem(del, 0, elemType(del))) {
		return tgt, nil, false
	}
	return tgt, ps, true
}

// the target the operation names: its entry in the targets map
func (g *targetRules) named(st *State, t *Term) bool {
	t = strip(t)
	if t == st.T["self"] {
		return true
	}
	if t.op != OLoad || t.args[0].op != OMapElem {
		return false
	}
	k := t.args[0].args[1]
	return loadOf(t.args[0].args[0], "cache.Cache.targets") && (k == st.T["name"] || st.T["name"] != nil && st.decide(mkEq(k, st.T["name"])) == yes || st.R["all"] != "" && k == st.T["tk"])
}

func (g *targetRules) tgtOf(f *Term, name string) *Term {
	if n, b := f.loadedField(); n == name {
		return b
	}
	return nil
}

func (g *targetRules) guard(st *State, ev *Event) {
	if ev.addr == nil {
		return
	}
	var lk string
	switch {
	case ev.name == "cache.Target.ts" || ev.name == "cache.Target.sync":
		lk = "cache.Target.tsmu"
	case ev.name == "cache.Cache.targets" || ev.name == "cache.Cache.client":
		lk = "cache.Cache.mu"
	default:
		return
	}
	a := ev.addr
	if ev.kind == EvMapSet || ev.kind == EvMapDel || ev.kind == EvMapGet || ev.kind == EvRange {
		if !a.isLoad() {
			return
		}
		a = a.args[0]
	}
	if rootAlloc(a) != nil || a.op != OField {
		return
	}
	g.ob("count", "guarded", g.op+" "+ev.name)
	needW := ev.kind == EvStore || ev.kind == EvMapSet || ev.kind == EvMapDel
	for _, l := range st.locks {
		if l.addr.op == OField && l.addr.args[0] == a.args[0] && st.addrName(l.addr) == lk && (l.mode == 'W' || !needW) {
			return
		}
	}
	g.bad(st, ev, "count own", "guarded", "%s is accessed without %s", ev.name, lk)
}

func (t *Term) isLoad() bool { return t != nil && t.op == OLoad }

// refresh of the metadata leaves ------------------------------------------

func (g *targetRules) endKey(st *State, ev *Event) {
	k := st.T["rk"]
	if k == nil {
		return
	}
	kind := st.R["rkind"]
	st.SetT("rk", nil)
	g.ob("count own feed", "refresh", kind)
	switch {
	case st.R["rdone"] != "":
		if st.T["leaf"] != nil && st.R["rfed"] == "" && !g.noFeed(st) {
			g.bad(st, ev, "count own feed", "refresh-feed", "a refreshed metadata leaf is not handed to the change feed")
		}
	case st.trueAtom(func(t *Term) bool {
		return t.op == OPure && t.sym == "excluded" && len(t.args) == 2 && (t.args[1] == k || st.elem(t.args[1], 0, types.Typ[types.String]) == k)
	}):
	case st.T["mg.k"] == k && st.R["mg.err"] != "":
	case st.T["mg.k"] == k && st.R["rlook"] != "" && g.sameAsStored(st, st.T["mg.v"]):
	default:
		g.bad(st, ev, "count own", "refresh", "a metadata %s value is not refreshed although it may differ from the stored leaf", kind)
	}
	for _, r := range []string{"rdone", "rlook", "rfed", "mg.err"} {
		st.Set(r, "")
	}
	st.SetT("leaf", nil)
	st.SetT("mg.k", nil)
	st.SetT("mg.v", nil)
}

// noFeed: no change feed is installed on this path.
func (g *targetRules) noFeed(st *State) bool {
	isFeed := func(t *Term) bool { return loadOf(t, g.m.client) || loadOf(t, g.m.cclient) }
	return st.trueAtom(func(t *Term) bool {
		return t.op == OBin && len(t.args) == 2 && (isFeed(t.args[0]) && t.args[1].op == ONil || isFeed(t.args[1]) && t.args[0].op == ONil)
	})
}

// sameAsStored: some fact equates the current value with a part of the stored leaf.
func (g *targetRules) sameAsStored(st *State, v *Term) bool {
	if v == nil {
		return false
	}
	stored := func(t *Term) bool {
		return t.containsIf(func(u *Term) bool { return u.op == OPure && strings.HasPrefix(u.sym, "node") })
	}
	wraps := func(t *Term) bool { // a new TypedValue holding v
		return t.op == OAlloc && g.wrapped(st, t) == v
	}
	if st.trueAtom(func(t *Term) bool {
		if t.op == OPure && strings.HasSuffix(t.sym, "value.Equal") && len(t.args) == 2 {
			return stored(t.args[0]) && wraps(t.args[1]) || stored(t.args[1]) && wraps(t.args[0])
		}
		if t.op != OBin || len(t.args) != 2 {
			return false
		}
		a, b := t.args[0], t.args[1]
		return a == v && stored(b) || b == v && stored(a) || stored(t) && t.containsIf(func(u *Term) bool { return u == v })
	}) {
		return true
	}
	// both decided the same way (booleans), or equal under the facts
	found := false
	seen := func(t *Term) {
		if found || t == v || !stored(t) || t.typ == nil || v.typ == nil || !types.Identical(types.Default(t.typ), types.Default(v.typ)) {
			return
		}
		if st.decide(mkEq(t, v)) == yes {
			found = true
		}
	}
	for a := range st.f.atoms {
		seen(a)
		for _, b := range a.args {
			seen(b)
		}
	}
	for a := range st.f.eqc {
		seen(a)
	}
	return found
}

var metaMaps = map[string]string{"TargetBoolValues": "bool", "TargetIntValues": "int", "TargetStrValues": "string"}

func globalMap(t *Term) string {
	t = asOf(t)
	if t.op == OLoad && t.args[0].op == OGlobal {
		return metaMaps[t.args[0].glob.Name()]
	}
	return ""
}

func (g *targetRules) rule(op string) *Rule {
	m := g.m
	r := &Rule{StableMaps: true, Unroll: 2, Prim: func(fn *ssa.Function) bool { return m.prim(fn) }, Pure: m.pure, Model: g.model}
	r.Back = func(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
		if st.T["rk"] != nil && strings.Contains(st.R["rk.loops"], loopID(len(st.frames), h)) {
			g.endKey(st, nil)
		}
	}
	r.Event = func(st *State, ev *Event) {
		switch ev.kind {
		case EvLoad, EvStore, EvMapSet, EvMapDel, EvMapGet, EvRange:
			g.guard(st, ev)
		}
		switch ev.kind {
		case EvGo:
			g.bad(st, ev, "feed own", "async", "the operation hands work to another goroutine")
		case EvStore:
			g.store(st, ev)
		case EvRange:
			g.rng(st, ev)
		case EvMapSet, EvMapDel:
			g.mapOp(st, ev)
		case EvCall:
			g.call(st, ev)
		}
	}
	return r
}

func (g *targetRules) store(st *State, ev *Event) {
	if ev.addr == nil || rootAlloc(ev.addr) != nil {
		return
	}
	switch ev.name {
	case "cache.Target.ts":
		if !g.named(st, ev.addr.args[0]) {
			g.bad(st, ev, "own", "own-state", "the latest timestamp of another target changes")
		}
		if ev.val.op == OZero {
			st.Set("ts0", "1")
		} else if g.op == "Reset" {
			g.bad(st, ev, "own count", "reset-ts", "a reset sets the latest timestamp to %s", ev.val)
		}
	case g.m.client:
		st.Set("setclient", "1")
		if ev.val != st.T["fn"] {
			g.bad(st, ev, "feed", "set-client", "a target is given another change feed (%s)", ev.val)
		}
		if st.T["tk"] != nil {
			st.Set("tset", "1")
		}
	case g.m.cclient:
		if ev.val != st.T["fn"] {
			g.bad(st, ev, "feed", "set-client", "the cache is given another change feed (%s)", ev.val)
		}
		st.Set("cset", "1")
	default:
		if strings.HasPrefix(ev.name, "cache.Target.") && ev.addr.op == OField && !g.named(st, ev.addr.args[0]) && st.T["tk"] == nil {
			g.bad(st, ev, "own", "own-state", "%s of another target changes", ev.name)
		}
	}
}

func (g *targetRules) rng(st *State, ev *Event) {
	c := ev.args[0]
	if loadOf(c, "cache.Cache.targets") {
		if ev.what == "next" {
			g.endTarget(st, ev)
			st.SetT("tk", ev.args[1])
			st.SetT("tv", ev.args[2])
		} else {
			st.Set("trange", "1")
		}
		return
	}
	if k := globalMap(c); k != "" {
		g.endKey(st, ev)
		if ev.what == "next" {
			st.SetT("rk", ev.args[1])
			st.Set("rk.loops", loopsOf(st))
			st.Set("rkind", k)
		} else {
			st.Set("rseen."+k, "1")
		}
		return
	}
	if st.T["kids"] != nil && asOf(c) == asOf(st.T["kids"]) && ev.what == "next" {
		g.endKey(st, ev)
		// slots of roots that are dealt with are reused
		for _, i := range []string{"0", "1"} {
			if k := st.T["kid."+i]; k != nil && g.kidDone(st, i) == "" {
				st.SetT("kid."+i, nil)
				st.Set("del."+i, "")
				st.Set("ann."+i, "")
			}
		}
		for _, i := range []string{"0", "1"} {
			if st.T["kid."+i] == nil {
				st.SetT("kid."+i, ev.args[1])
				return
			}
		}
		st.Set("kidlost", "1")
	}
}

// kidDone: what is missing for one root of the tree, "" if nothing.
func (g *targetRules) kidDone(st *State, i string) string {
	k := st.T["kid."+i]
	isMeta := st.decide(mkEq(k, mkStr(g.m.root)))
	del, ann := st.R["del."+i] != "", st.R["ann."+i] != ""
	switch {
	case isMeta == yes && (del || ann):
		return "own feed:reset-meta:a reset deletes or announces the deletion of the metadata leaves"
	case isMeta != yes && !del:
		return "own:reset-delete:a reset keeps a root other than the metadata root"
	case isMeta != yes && !ann:
		return "own feed:reset-announce:a reset deletes leaves without announcing it to the change feed"
	}
	return ""
}

func (g *targetRules) endTarget(st *State, ev *Event) {
	g.endKey(st, ev)
	k := st.T["tk"]
	if k == nil {
		return
	}
	switch g.op {
	case "SetClient":
		if st.R["tset"] == "" {
			g.bad(st, ev, "feed", "set-client", "a target keeps its old change feed")
		}
		g.ob("feed", "set-client", "target")
	case "UpdateMetadata":
		g.refreshDone(st, ev)
	case "UpdateSize":
		if st.R["sized"] == "" {
			g.bad(st, ev, "count", "size", "a target's size is not refreshed")
		}
		g.ob("count", "size", "target")
	case "Query":
		if st.R["tq"] == "" && st.R["stopped"] == "" {
			g.bad(st, ev, "query", "query-all", "a query for all targets skips a target")
		}
		g.ob("query", "query-all", "target")
	case "Metadata":
		if st.R["mdset"] == "" {
			g.bad(st, ev, "count", "metadata-map", "a target's metadata is missing from Metadata()")
		}
		g.ob("count", "metadata-map", "target")
	}
	for _, r := range []string{"tset", "sized", "tq", "mdset", "latset", "latreset", "rseen.bool", "rseen.int", "rseen.string"} {
		st.Set(r, "")
	}
	st.SetT("tk", nil)
}

func (g *targetRules) refreshDone(st *State, ev *Event) {
	for _, k := range []string{"bool", "int", "string"} {
		g.ob("count own", "refresh-all", k)
		if st.R["rseen."+k] == "" {
			g.bad(st, ev, "count own", "refresh-all", "the %s metadata values are not refreshed", k)
		}
	}
	if st.R["latset"] == "" {
		g.bad(st, ev, "count", "refresh-latest", "the latest timestamp is not exported by the metadata refresh")
	}
	if st.R["latreset"] == "" {
		g.bad(st, ev, "count", "refresh-latency", "latency statistics are not exported by the metadata refresh")
	}
}

func (g *targetRules) mapOp(st *State, ev *Event) {
	c, k := ev.args[0], ev.args[1]
	switch {
	case loadOf(c, "cache.Cache.targets"):
		if ev.kind == EvMapDel {
			if g.op != "Remove" || k != st.T["name"] {
				g.bad(st, ev, "own", "own-map", "target %s is removed", k)
			}
			st.Set("mapdel", "1")
			return
		}
		if g.op != "Add" || k != st.T["name"] {
			g.bad(st, ev, "own", "own-map", "target %s is replaced", k)
			return
		}
		st.Set("mapset", "1")
		g.added(st, ev, strip(ev.val))
	case g.op == "Metadata" && rootAlloc(c) != nil && ev.kind == EvMapSet:
		ok := k == st.T["tk"] && g.tgtOf(ev.args[2], "cache.Target.meta") != nil && strip(g.tgtOf(ev.args[2], "cache.Target.meta")) == strip(st.T["tv"])
		if !ok {
			g.bad(st, ev, "count own", "metadata-map", "Metadata() maps %s to %s", k, ev.args[2])
		}
		st.Set("mdset", "1")
	}
}

// a new target owns everything it refers to
func (g *targetRules) added(st *State, ev *Event, t *Term) {
	if rootAlloc(t) == nil {
		g.bad(st, ev, "own", "fresh-target", "an added target is not a new object (%s)", t)
		return
	}
	s, owner := g.p.fieldsOf("cache", "Target")
	if s == nil {
		return
	}
	c := st.T["c"]
	opt := func(f string) *Term { return st.get2(c, "opts", f) }
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := strip(st.load(mkField(t, s, owner, i), f.Type()))
		fresh := v.op == OAlloc
		g.ob("own feed ts count", "fresh-target", f.Name())
		switch k := typeKey(f.Type()); {
		case strings.HasSuffix(k, "ctree.Tree"), strings.HasSuffix(k, "metadata.Metadata"), strings.HasSuffix(k, "latency.Latency"):
			if _, isPtr := under(f.Type()).(*types.Pointer); isPtr && !fresh {
				g.bad(st, ev, "own", "fresh-target", "an added target's %s is not its own (%s)", f.Name(), v)
			}
		case owner+"."+f.Name() == g.m.client:
			if v != st.get(c, "client") {
				g.bad(st, ev, "own feed", "fresh-target", "an added target reports to %s, not to the cache's change feed", v)
			}
		case f.Name() == "name":
			if v != st.T["name"] {
				g.bad(st, ev, "own", "fresh-target", "an added target is named %s", v)
			}
		case f.Name() == "futureThreshold":
			if o := opt("futureThreshold"); o != nil && v != o {
				g.bad(st, ev, "ts", "fresh-target", "an added target's future threshold is %s", v)
			}
		case f.Name() == "eventDriven":
			if o := opt("DisableEventDriven"); o != nil && v != mkNot(o) {
				g.bad(st, ev, "feed", "fresh-target", "an added target's event-driven emulation is %s", v)
			}
		case f.Name() == "excludedMeta":
			if o := opt("excludedUpdateMeta"); o != nil && v != o {
				g.bad(st, ev, "count", "fresh-target", "an added target's excluded metadata is %s", v)
			}
		}
	}
}

// get2 reads a field of an embedded struct.
func (st *State) get2(ptr *Term, f, sub string) *Term {
	ptr = strip(ptr)
	pt, ok := under(ptr.typ).(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := under(pt.Elem()).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != f {
			continue
		}
		s2, ok := under(s.Field(i).Type()).(*types.Struct)
		if !ok {
			return nil
		}
		for j := 0; j < s2.NumFields(); j++ {
			if s2.Field(j).Name() == sub {
				return st.load(mkField(mkField(ptr, s, ownerName(pt.Elem()), i), s2, ownerName(s.Field(i).Type()), j), s2.Field(j).Type())
			}
		}
	}
	return nil
}

func (g *targetRules) call(st *State, ev *Event) {
	n := ev.name
	if n == "dyn:"+g.m.client || n == "dyn:"+g.m.cclient || ev.dyn != nil && (loadOf(ev.dyn, g.m.client) || loadOf(ev.dyn, g.m.cclient)) {
		g.feed(st, ev)
		return
	}
	n = trimMod(n)
	switch n {
	case "apply":
		g.apply(st, ev)
		return
	case "tree.lookup":
		st.Set("rlook", "1")
		return
	case "tree.children":
		if t := g.tgtOf(ev.args[0], g.m.treeF); t == nil || !g.named(st, t) {
			g.bad(st, ev, "own", "own-tree", "the roots of another tree are listed (%s)", ev.args[0])
		}
		return
	case "tree.delete":
		g.treeDelete(st, ev)
		return
	case "tree.add", "tree.update", "tree.walkdeleted":
		g.bad(st, ev, "own feed", "own-tree", "%s outside the ingest path", n)
		return
	case "tree.query":
		t := g.tgtOf(ev.args[0], g.m.treeF)
		if g.op == "Query" {
			g.query(st, ev, t)
		}
		return
	}
	if strings.HasPrefix(n, "(*metadata.Metadata).") {
		g.metaCall(st, ev, strings.TrimPrefix(n, "(*metadata.Metadata)."))
	}
	if n == "(*latency.Latency).UpdateReset" {
		a, b := g.tgtOf(ev.args[0], "cache.Target.lat"), g.tgtOf(asOf(ev.args[1]), "cache.Target.meta")
		if a == nil || b == nil || !g.named(st, a) || !g.named(st, b) {
			g.bad(st, ev, "count own", "refresh-latency", "latency statistics of %s are exported to %s", ev.args[0], ev.args[1])
		}
		st.Set("latreset", "1")
	}
}

func (g *targetRules) metaCall(st *State, ev *Event, f string) {
	t := g.tgtOf(ev.args[0], "cache.Target.meta")
	if rootAlloc(ev.args[0]) != nil {
		return
	}
	mut := f == "Clear" || strings.HasPrefix(f, "Set") || strings.HasPrefix(f, "Add") || strings.HasPrefix(f, "Reset")
	if t == nil || !g.named(st, t) {
		if mut {
			g.bad(st, ev, "own", "own-meta", "the metadata of another target changes (%s)", ev.args[0])
		}
		return
	}
	switch f {
	case "Clear":
		st.Set("cleared", "1")
	case "AddInt":
		g.bad(st, ev, "count own", "lifecycle-count", "%s changes a counter by %s", g.op, ev.args[2])
	case "SetInt":
		k, _ := ev.args[1].strVal()
		switch g.m.metaK[k] {
		case "LatestTimestamp":
			isTs := func(u *Term) bool { b := g.tgtOf(u, "cache.Target.ts"); return b != nil && g.named(st, b) }
			if v := ev.args[2]; !v.containsIf(isTs) && v != mkNs(st.get(t, "ts")) {
				g.bad(st, ev, "count own", "refresh-latest", "the exported latest timestamp is %s, not the target's", v)
			}
			if g.op == "Reset" && st.R["ts0"] == "" {
				g.bad(st, ev, "own count", "reset-ts", "a reset exports the latest timestamp before clearing it")
			}
			st.Set("latset", "1")
			g.ob("count", "refresh-latest", g.op)
		case "Size":
			st.Set("sized", "1")
		default:
			g.bad(st, ev, "count own", "lifecycle-count", "%s sets counter %s", g.op, ev.args[1])
		}
	case "GetBool", "GetInt", "GetStr":
		if g.op == "Reset" && st.R["cleared"] == "" {
			g.bad(st, ev, "own", "reset-clear", "a reset republishes metadata before clearing it")
		}
	}
}

func (g *targetRules) treeDelete(st *State, ev *Event) {
	t := g.tgtOf(ev.args[0], g.m.treeF)
	if t == nil || !g.named(st, t) {
		g.bad(st, ev, "own", "own-tree", "content of another tree is deleted (%s)", ev.args[0])
		return
	}
	ps := parts(ev.args[1])
	if n, ok := mkLen(ev.args[1]).intVal(); ok && n == 1 {
		ps = []*Term{st.elem(ev.args[1], 0, types.Typ[types.String])}
	}
	if len(ps) != 1 {
		g.bad(st, ev, "own", "reset-delete", "a reset deletes %s", ev.args[1])
		return
	}
	g.ob("own feed", "reset-delete", "site")
	if d := st.decide(mkEq(ps[0], mkStr(g.m.root))); d != no {
		g.bad(st, ev, "own", "reset-meta", "a reset deletes the metadata leaves it has just published")
	}
	if i := g.kid(st, ps[0]); i != "" {
		st.Set("del."+i, "1")
	} else if !vagueStr(ps[0]) && st.R["kidlost"] == "" {
		g.bad(st, ev, "own", "reset-delete", "a reset deletes below %s, which is not one of the tree's roots", ps[0])
	}
}

func vagueStr(t *Term) bool {
	return t.op == OOld || t.containsIf(func(u *Term) bool { return u.op == OOld || u.op == OIndex })
}

func (g *targetRules) kid(st *State, t *Term) string {
	for _, i := range []string{"0", "1"} {
		if st.T["kid."+i] == t && t != nil {
			return i
		}
	}
	return ""
}

func (g *targetRules) feed(st *State, ev *Event) {
	m := g.m
	if len(ev.args) == 0 {
		return
	}
	l := strip(ev.args[0])
	if st.T["rk"] != nil || st.T["leaf"] != nil {
		if l == st.T["leaf"] && l != nil {
			st.Set("rfed", "1")
			if ev.dyn != nil {
				if t := g.tgtOf(ev.dyn, m.client); t != nil && !g.named(st, t) {
					g.bad(st, ev, "feed own", "refresh-feed", "a metadata leaf goes to the feed of another target")
				}
			}
			return
		}
	}
	d := strip(m.value(st, l))
	tgt, ps, ok := g.deletePaths(st, d)
	if !ok {
		if l.op == OOpaque || l.op == OOld || l.op == OLoad {
			return
		}
		g.bad(st, ev, "own feed", "announce", "%s hands %s to the change feed", g.op, l)
		return
	}
	star := func(t *Term) bool { return st.decide(mkEq(t, mkStr("*"))) == yes }
	switch g.op {
	case "Remove":
		g.ob("own feed", "remove-announce", "site")
		if tgt != st.T["name"] {
			g.bad(st, ev, "own feed", "remove-announce", "the removal is announced for target %s", tgt)
		}
		if len(ps) != 1 || !star(ps[0]) {
			g.bad(st, ev, "own feed", "remove-announce", "the removal is announced as a delete of %v, not of the whole target", ps)
		}
		if st.R["mapdel"] == "" && !st.holdsField(st.T["c"], "mu", 'W') {
			g.bad(st, ev, "own", "remove-order", "the removal is announced before the target is unknown")
		}
		st.Count("announced")
	case "Reset":
		g.ob("own feed", "reset-announce", "site")
		if tgt == nil || g.tgtOf(tgt, "cache.Target.name") == nil && tgt != st.T["name"] || g.tgtOf(tgt, "cache.Target.name") != nil && !g.named(st, g.tgtOf(tgt, "cache.Target.name")) {
			g.bad(st, ev, "own feed", "reset-announce", "the reset is announced for target %s", tgt)
		}
		if len(ps) == 0 {
			g.bad(st, ev, "own feed", "reset-announce", "the reset announces nothing")
			return
		}
		i := g.kid(st, ps[0])
		if i == "" {
			if !vagueStr(ps[0]) && st.R["kidlost"] == "" {
				g.bad(st, ev, "own feed", "reset-announce", "the reset announces a delete below %s, which is not the root it deleted", ps[0])
			}
			return
		}
		if len(ps) > 2 || len(ps) == 2 && !star(ps[1]) {
			g.bad(st, ev, "own feed", "reset-announce", "the reset announces a delete of %v, which does not cover everything it deleted", ps)
		}
		if st.R["del."+i] == "" {
			g.bad(st, ev, "own feed", "reset-order", "the reset announces a delete before the leaves are gone")
		}
		st.Set("ann."+i, "1")
	default:
		g.bad(st, ev, "own feed", "announce", "%s announces a delete", g.op)
	}
}

// wrapped is the Go value inside a new TypedValue.
func (g *targetRules) wrapped(st *State, tv *Term) *Term {
	w := strip(st.get(tv, "Value"))
	if w.op != OAlloc {
		return nil
	}
	if pt, ok := under(w.typ).(*types.Pointer); ok {
		if s, ok := under(pt.Elem()).(*types.Struct); ok && s.NumFields() == 1 {
			st.Set("valtype", shortTypeName(pt.Elem()))
			return st.load(mkField(w, s, ownerName(pt.Elem()), 0), s.Field(0).Type())
		}
	}
	return nil
}

func (g *targetRules) apply(st *State, ev *Event) {
	t, n := ev.args[0], ev.args[1]
	if !g.named(st, t) {
		g.bad(st, ev, "own", "own-tree", "%s updates another target (%s)", g.op, t)
		return
	}
	name := st.get(st.get(n, "Prefix"), "Target")
	if tn := g.tgtOf(name, "cache.Target.name"); name != st.T["name"] && (tn == nil || !g.named(st, tn)) {
		g.bad(st, ev, "own", "own-name", "%s stores a notification that names target %s", g.op, name)
	}
	ups := st.get(n, "Update")
	var key, val *Term
	if k, ok := mkLen(ups).intVal(); ok && k == 1 {
		u := st.elem(ups, 0, elemType(ups))
		el := st.get(st.get(u, "Path"), "Elem")
		if c, ok := mkLen(el).intVal(); ok && c == 2 {
			e0, e1 := st.get(st.elem(el, 0, elemType(el)), "Name"), st.get(st.elem(el, 1, elemType(el)), "Name")
			if e0.op == OPure && e0.sym == "mp0" && e1.op == OPure && e1.sym == "mp1" && e0.args[0] == e1.args[0] {
				key = e0.args[0]
			}
		}
		tv := st.get(u, "Val")
		val = g.wrapped(st, tv)
	}
	switch g.op {
	case "Reset", "UpdateMetadata":
		k := st.T["rk"]
		if k == nil {
			g.bad(st, ev, "count own", "refresh", "%s stores an extra leaf", g.op)
			return
		}
		if key != k {
			g.bad(st, ev, "count own", "refresh", "the value of metadata %s is stored at %v", k, key)
		}
		if val == nil || val != st.T["mg.v"] || st.T["mg.k"] != k {
			g.bad(st, ev, "count own", "refresh", "the refreshed metadata leaf holds %v, not the current value", val)
		}
		want := map[string]string{"bool": "TypedValue_BoolVal", "int": "TypedValue_IntVal", "string": "TypedValue_StringVal"}[st.R["rkind"]]
		if vt := st.R["valtype"]; !strings.HasSuffix(vt, want) {
			g.bad(st, ev, "count own", "refresh", "a %s metadata value is stored as %s", st.R["rkind"], vt)
		}
		st.Set("rdone", "1")
	case "Sync", "Connect":
		if key == nil {
			tgt, ps, ok := g.deletePaths(st, n)
			_ = tgt
			if g.op == "Connect" && ok && len(ps) == 2 && ps[1].op == OPure && ps[1].sym == "mp1" && g.metaIs(ps[1].args[0], "ConnectError") {
				st.Set("errdel", "1")
				return
			}
			g.bad(st, ev, "own", "lifecycle", "%s stores an unexpected notification", g.op)
			return
		}
		want := map[string]string{"Sync": "Sync", "Connect": "Connected"}[g.op]
		if !g.metaIs(key, want) || val == nil || val != mkBool(true) {
			g.bad(st, ev, "own", "lifecycle", "%s sets %s to %v", g.op, key, val)
		}
		st.Set("done", "1")
	case "ConnectError":
		if key == nil || !g.metaIs(key, "ConnectError") {
			g.bad(st, ev, "own", "lifecycle", "ConnectError sets %v", key)
		}
		st.Set("done", "1")
	default:
		g.bad(st, ev, "own", "lifecycle", "%s stores a notification", g.op)
	}
}

func (g *targetRules) metaIs(k *Term, name string) bool {
	s, ok := k.strVal()
	return ok && g.m.metaK[s] == name
}

func shortTypeName(t types.Type) string {
	s := types.TypeString(t, nil)
	return s[strings.LastIndex(s, ".")+1:]
}

func (g *targetRules) query(st *State, ev *Event, t *Term) {
	g.ob("query", "query-arg", "site")
	if ev.args[1] != st.T["query"] {
		g.bad(st, ev, "query", "query-arg", "the query %s is replaced by %s", st.T["query"], ev.args[1])
	}
	if len(ev.args) > 2 && ev.args[2] != st.T["fn"] {
		g.bad(st, ev, "query", "query-arg", "the callback is replaced by %s", ev.args[2])
	}
	if t == nil {
		g.bad(st, ev, "query own", "query-arg", "a tree that belongs to no target is queried (%s)", ev.args[0])
		return
	}
	star := st.decide(mkEq(st.T["name"], mkStr("*")))
	if st.T["tk"] != nil {
		if strip(t) != strip(st.T["tv"]) && !(t.op == OLoad && t.args[0].op == OMapElem && t.args[0].args[1] == st.T["tk"]) {
			g.bad(st, ev, "query own", "query-arg", "another target's tree is queried")
		}
		if star != yes {
			g.bad(st, ev, "query own", "query-one", "a query for one target reads every target")
		}
		st.Set("tq", "1")
		return
	}
	if star != no || !g.named(st, t) {
		g.bad(st, ev, "query own", "query-one", "a query for target %s reads %s", st.T["name"], t)
	}
	st.Set("queried", "1")
}

func (g *targetRules) exit(st *State, res []*Term) {
	if st.gor != "" {
		return
	}
	if len(st.locks) > 0 {
		g.bad(st, nil, "count own", "lock-balance", "%s returns with a mutex held", g.op)
	}
	g.endTarget(st, nil)
	unk := st.targetNil()
	switch g.op {
	case "Reset":
		if unk == yes {
			return
		}
		g.ob("own", "reset", "exit")
		if st.R["ts0"] == "" {
			g.bad(st, nil, "own count", "reset-ts", "a reset leaves the latest timestamp of the previous session")
		}
		if st.R["cleared"] == "" {
			g.bad(st, nil, "own", "reset-clear", "a reset leaves the target's metadata")
		}
		for _, k := range []string{"bool", "int", "string"} {
			if st.R["rseen."+k] == "" && st.R["seenever."+k] == "" {
				g.bad(st, nil, "own", "refresh-all", "a reset does not republish the %s metadata values", k)
			}
		}
		if st.T["kids"] == nil {
			g.bad(st, nil, "own", "reset-delete", "a reset does not delete the target's leaves")
		}
		for _, i := range []string{"0", "1"} {
			if st.T["kid."+i] == nil {
				continue
			}
			if w := g.kidDone(st, i); w != "" {
				p := strings.SplitN(w, ":", 3)
				g.bad(st, nil, p[0], p[1], "%s", p[2])
			}
		}
	case "Remove":
		g.ob("own", "remove", "exit")
		del, ann := st.R["mapdel"] != "", st.R["announced"]
		if !del && unk != yes {
			g.bad(st, nil, "own", "remove", "a removed target stays known")
		}
		if unk != yes && ann == "" {
			g.bad(st, nil, "own feed", "remove-announce", "a removal is not announced to the change feed")
		}
		if ann != "" && ann != "1" {
			g.bad(st, nil, "own feed", "remove-announce", "a removal is announced more than once")
		}
	case "Add":
		if st.R["mapset"] == "" {
			g.bad(st, nil, "own", "add", "an added target stays unknown")
		}
		g.ob("own", "add", "exit")
	case "Sync", "ConnectError":
		if unk != yes && st.R["done"] == "" {
			g.bad(st, nil, "own", "lifecycle", "%s does not record the state of a known target", g.op)
		}
		g.ob("own", "lifecycle", g.op)
	case "Connect":
		if unk != yes && (st.R["done"] == "" || st.R["errdel"] == "") {
			g.bad(st, nil, "own", "lifecycle", "Connect does not record the connection or keeps the connect error of a known target")
		}
		g.ob("own", "lifecycle", g.op)
	case "GetTarget":
		t := strip(res[0])
		if !g.named(st, t) && !(st.isNilT(t) && unk == yes) {
			g.bad(st, nil, "own", "lookup", "GetTarget returns %s", t)
		}
		g.ob("own", "lookup", g.op)
	case "HasTarget":
		r := res[0]
		nm := st.T["name"]
		g.ob("own", "lookup", g.op)
		switch {
		case st.decide(mkEq(nm, mkStr(""))) == yes:
			if st.decide(r) != no {
				g.bad(st, nil, "own", "lookup", "the empty target is known")
			}
		case st.decide(mkEq(nm, mkStr("*"))) == yes:
			if st.decide(r) != yes {
				g.bad(st, nil, "own query", "lookup", "the all-targets wildcard is unknown")
			}
		default:
			switch st.decide(r) {
			case yes:
				if unk != no {
					g.bad(st, nil, "own", "lookup", "a target is reported known although it may not be")
				}
			case no:
				if unk != yes {
					g.bad(st, nil, "own", "lookup", "a target is reported unknown although it may be known")
				}
			default:
				if !r.containsIf(func(t *Term) bool { return g.named(st, t) || t.op == OMapOk }) {
					g.bad(st, nil, "own", "lookup", "HasTarget returns %s", r)
				}
			}
		}
	case "SetClient":
		if st.R["cset"] == "" {
			g.bad(st, nil, "feed", "set-client", "the change feed is not kept for targets added later")
		}
		if st.R["trange"] == "" {
			g.bad(st, nil, "feed", "set-client", "targets added earlier do not get the change feed")
		}
	case "UpdateMetadata", "UpdateSize", "Metadata":
		if st.R["trange"] == "" {
			g.bad(st, nil, "count", "refresh-all", "%s visits no target", g.op)
		}
	case "Query":
		nm := st.T["name"]
		err := res[0]
		isNil := st.decideNil(err)
		g.ob("query", "query-result", "exit")
		switch {
		case st.decide(mkEq(nm, mkStr(""))) == yes || unk == yes && st.R["trange"] == "":
			if isNil == yes {
				g.bad(st, nil, "query own", "query-unknown", "a query for an unknown target succeeds")
			}
			if st.R["queried"] != "" {
				g.bad(st, nil, "query own", "query-unknown", "a query for an unknown target reads a tree")
			}
		case st.decide(mkEq(nm, mkStr("*"))) == yes:
			if st.R["trange"] == "" {
				g.bad(st, nil, "query", "query-all", "a query for all targets reads none")
			}
		default:
			if st.R["queried"] == "" {
				g.bad(st, nil, "query", "query-one", "a query for a known target reads nothing")
			}
		}
	}
}

// targetNil: whether the named target is known to be absent on this path.
func (st *State) targetNil() tri {
	c := st.T["c"]
	if c == nil || st.T["self"] != nil {
		return no
	}
	m := st.T["tmap"]
	nm := st.T["name"]
	el := st.T["tel"]
	if m == nil || nm == nil || el == nil {
		return unknown
	}
	if d := st.decideNil(el); d != unknown {
		return d
	}
	switch st.decide(st.load(mkMapOk(m, nm), types.Typ[types.Bool])) {
	case no:
		return yes
	}
	return unknown
}

func runTarget(p *Program, groups ...string) {
	m := newCacheModel(p)
	if m == nil {
		return
	}
	g := &targetRules{m: m, p: p, want: map[string]bool{}, mem: map[*ssa.Function]int{}}
	for _, x := range groups {
		g.want[x] = true
	}
	ops := map[string]string{ // operation -> groups it can report
		"Reset": "own feed count", "Remove": "own feed", "Add": "own feed ts count", "GetTarget": "own", "HasTarget": "own query",
		"Sync": "own", "Connect": "own", "ConnectError": "own", "SetClient": "feed own", "UpdateMetadata": "count own feed",
		"UpdateSize": "count own", "Metadata": "count own", "Query": "query own",
	}
	var names []string
	for op := range ops {
		names = append(names, op)
	}
	sort.Strings(names)
	for _, op := range names {
		hit := g.want["crash"]
		for _, x := range strings.Fields(ops[op]) {
			hit = hit || g.want[x]
		}
		if !hit {
			continue
		}
		fn := p.mustFn("cache", "Cache."+op)
		if fn == nil {
			continue
		}
		g.op = op
		r := g.rule(op)
		r.Exit = g.exit
		inner := r.Model
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			if trimMod(c.name) == "(*ctree.Tree).Children" {
				st.x.emit(st, &Event{kind: EvCall, name: "tree.children", args: []*Term{strip(c.args[0])}, instr: c.instr})
				k := st.fresh(c.instr, "children", st.x.resType(c))
				st.SetT("kids", k)
				return one(k), true
			}
			return inner(st, c)
		}
		p.explore(r, fn, func(st *State, ps []*Term) {
			st.SetT("c", ps[0])
			tm := st.get(ps[0], "targets")
			st.SetT("tmap", tm)
			switch op {
			case "SetClient":
				st.SetT("fn", ps[1])
				st.Set("all", "1")
			case "UpdateMetadata", "UpdateSize", "Metadata":
				st.Set("all", "1")
			default:
				st.SetT("name", ps[1])
				if mt, ok := under(tm.typ).(*types.Map); ok {
					st.SetT("tel", st.load(mkMapElem(tm, ps[1], mt.Elem()), mt.Elem()))
				}
				if op == "Query" {
					st.Set("all", "1")
					st.SetT("query", ps[2])
					st.SetT("fn", ps[3])
				}
			}
		})
	}
}
