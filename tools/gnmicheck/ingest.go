package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file models the cache ingest path: every exported ctree method is a
// primitive with its specification (the ctree package itself is decided under
// C09/C10), counters, latency and path indexing are primitives, and each
// update or delete unit of a notification is followed from its tree lookup to
// the change feed.

func trimMod(s string) string { return strings.ReplaceAll(s, module+"/", "") }

func (p *Program) constStr(pkg, name string) string {
	if sp := p.ssa[pkg]; sp != nil {
		if c := sp.Const(name); c != nil && c.Value.Value != nil && c.Value.Value.Kind() == constant.String {
			return constant.StringVal(c.Value.Value)
		}
	}
	p.report("anchor", pkg+"."+name, "the constant this property is anchored at no longer exists", nil, nil)
	return "?" + name
}

// elem is element i of a slice value.
func (st *State) elem(s *Term, i int64, et types.Type) *Term {
	b, ix := s, mkInt(i)
	for b.op == OSlice {
		ix = mkArith(addTok, b.args[1], ix, types.Typ[types.Int])
		b = b.args[0]
	}
	return st.x.loadVal(st, mkIndex(b, ix, et), et)
}

// get reads field f of the message at ptr ("" type name means its pointee).
func (st *State) get(ptr *Term, f string) *Term {
	ptr = strip(ptr)
	if ptr == nil || ptr.op == ONil || ptr.typ == nil {
		return mkNil()
	}
	pt, ok := under(ptr.typ).(*types.Pointer)
	if !ok {
		return mkNil()
	}
	s, ok := under(pt.Elem()).(*types.Struct)
	if !ok {
		return mkNil()
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			if st.isNilT(ptr) {
				return zeroOf(s.Field(i).Type())
			}
			return st.load(mkField(ptr, s, ownerName(pt.Elem()), i), s.Field(i).Type())
		}
	}
	return mkNil()
}

func elemType(t *Term) types.Type {
	if t != nil && t.typ != nil {
		switch u := under(t.typ).(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Pointer:
			return u.Elem()
		}
	}
	return types.Typ[types.Invalid]
}

type cacheModel struct {
	p       *Program
	notiT   types.Type // *gnmi.Notification
	leafS   *types.Struct
	leafI   int
	metaK   map[string]string // metadata constant value -> name
	root    string            // metadata root
	treeF   string
	client  string // cache.Target.client
	cclient string // cache.Cache.client
}

func newCacheModel(p *Program) *cacheModel {
	m := &cacheModel{p: p, metaK: map[string]string{}}
	if t := p.namedType("proto/gnmi", "Notification"); t != nil {
		m.notiT = types.NewPointer(t)
	} else {
		p.report("anchor", "gnmi.Notification", "type not found", nil, nil)
		return nil
	}
	s, _ := p.fieldsOf("ctree", "Leaf")
	if s == nil {
		p.report("anchor", "ctree.Leaf", "type not found", nil, nil)
		return nil
	}
	m.leafS, m.leafI = s, -1
	for i := 0; i < s.NumFields(); i++ {
		if types.IsInterface(s.Field(i).Type()) {
			m.leafI = i
		}
	}
	if m.leafI < 0 {
		p.report("anchor", "ctree.Leaf", "no value field", nil, nil)
		return nil
	}
	for _, n := range []string{"AddCount", "DelCount", "EmptyCount", "LeafCount", "UpdateCount", "StaleCount", "FutureCount", "SuppressedCount", "Size", "LatestTimestamp", "Sync", "Connected", "ConnectedAddr", "ConnectError", "ServerName"} {
		m.metaK[p.constStr("metadata", n)] = n
	}
	m.root = p.constStr("metadata", "Root")
	isTree := func(t types.Type) bool { return strings.HasSuffix(typeKey(t), "ctree.Tree") }
	isFn := func(t types.Type) bool { _, ok := under(t).(*types.Signature); return ok }
	m.treeF = p.field("cache", "Target", "t", isTree)
	m.client = p.field("cache", "Target", "client", isFn)
	m.cclient = p.field("cache", "Cache", "client", isFn)
	return m
}

func (m *cacheModel) valAddr(node *Term) *Term {
	return mkField(node, m.leafS, "ctree.Leaf", m.leafI)
}

func (m *cacheModel) value(st *State, node *Term) *Term {
	return st.load(m.valAddr(node), m.leafS.Field(m.leafI).Type())
}

// asNoti is the notification held in an interface value.
func (m *cacheModel) asNoti(v *Term) *Term {
	if v.op == OIface {
		return v.args[0]
	}
	if v.typ != nil && !types.IsInterface(v.typ) {
		return v
	}
	return tab.get(Term{op: OPure, sym: "as:" + typeKey(m.notiT), args: []*Term{v}, typ: m.notiT})
}

func (m *cacheModel) prim(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Signature.Recv() == nil {
		return false
	}
	switch fn.Pkg.Pkg.Name() {
	case "metadata", "latency", "errlist", "watermark":
		return true
	}
	return false
}

func (m *cacheModel) pure(name string) bool {
	n := trimMod(name)
	return strings.HasPrefix(n, "value.") || n == "path.ToStrings" || n == "path.CompletePath"
}

// model gives the ctree API its specification; rules see "tree.*" events.
func (m *cacheModel) model(st *State, c *Call) ([]Outcome, bool) {
	n := trimMod(c.name)
	x := st.x
	ev := func(s *State, name string, ok tri, args ...*Term) {
		x.emit(s, &Event{kind: EvCall, name: name, args: args, instr: c.instr, ok: ok})
	}
	var rt types.Type
	if c.sig.Results().Len() == 1 {
		rt = c.sig.Results().At(0).Type()
	}
	node := func(typ types.Type) *Term {
		return tab.get(Term{op: OPure, sym: "node" + st.R["tv"], args: []*Term{strip(c.args[0]), c.args[1]}, typ: typ})
	}
	leafPtr := m.p.namedType("ctree", "Leaf")
	switch n {
	case "(*ctree.Tree).GetLeaf", "(*ctree.Tree).Get", "(*ctree.Tree).GetLeafValue":
		nd := node(types.NewPointer(leafPtr))
		if a := st.T["added.path"]; a == c.args[1] && st.T["added.tree"] == strip(c.args[0]) && a != nil {
			st.assume(mkEq(nd, mkNil()), false)
			st.ownStore()
			st.store[m.valAddr(nd)] = st.T["added.val"]
			ev(st, "tree.added", yes, strip(c.args[0]), c.args[1], nd)
		} else {
			if n == "(*ctree.Tree).GetLeafValue" {
				o := st
				return []Outcome{
					{res: mkNil(), do: func(s *State) bool {
						if !s.assume(mkEq(nd, mkNil()), true) {
							return false
						}
						ev(s, "tree.lookup", yes, strip(c.args[0]), c.args[1], nd)
						return true
					}},
					{res: m.value(o, nd), do: func(s *State) bool {
						if !s.assume(mkEq(nd, mkNil()), false) {
							return false
						}
						ev(s, "tree.lookup", yes, strip(c.args[0]), c.args[1], nd)
						return true
					}},
				}, true
			}
			ev(st, "tree.lookup", yes, strip(c.args[0]), c.args[1], nd)
		}
		if n == "(*ctree.Tree).GetLeafValue" {
			return one(m.value(st, nd)), true
		}
		return one(nd), true
	case "(*ctree.Leaf).Value", "(*ctree.Tree).Value":
		r := strip(c.args[0])
		switch st.decideNil(r) {
		case yes:
			return one(mkNil()), true
		case no:
			return one(m.value(st, r)), true
		}
		return []Outcome{
			{res: mkNil(), do: func(s *State) bool { return s.assume(mkEq(r, mkNil()), true) }},
			{res: m.value(st, r), do: func(s *State) bool { return s.assume(mkEq(r, mkNil()), false) }},
		}, true
	case "(*ctree.Leaf).Update":
		nd := strip(c.args[0])
		ev(st, "tree.update", yes, nd, c.args[1])
		st.storeTo(m.valAddr(nd), c.args[1], m.leafS.Field(m.leafI).Type(), st.siteName(c.instr, "upd"))
		return one(nil), true
	case "(*ctree.Tree).Add":
		addErr := st.fresh(c.instr, "addErr", rt)
		return []Outcome{
			{res: mkNil(), do: func(s *State) bool {
				ev(s, "tree.add", yes, strip(c.args[0]), c.args[1], c.args[2])
				s.Set("tv", "'"+s.R["tv"])
				if len(s.R["tv"]) > 6 {
					s.Set("tv", "'")
				}
				s.SetT("added.path", c.args[1])
				s.SetT("added.tree", strip(c.args[0]))
				s.SetT("added.val", c.args[2])
				return true
			}},
			{do: func(s *State) bool {
				if !s.assume(mkEq(addErr, mkNil()), false) {
					return false
				}
				ev(s, "tree.add", no, strip(c.args[0]), c.args[1], c.args[2])
				return true
			}, res: addErr},
		}, true
	case "(*ctree.Tree).Query", "(*ctree.Tree).Walk", "(*ctree.Tree).WalkSorted":
		path := mkNil()
		f := c.args[1]
		if n == "(*ctree.Tree).Query" {
			path, f = c.args[1], c.args[2]
		}
		ev(st, "tree.query", yes, strip(c.args[0]), path, f)
		mk := func(s *State, tag string) (*Term, *Term) {
			v := s.fresh(c.instr, "visited"+tag, m.leafS.Field(m.leafI).Type())
			l := s.fresh(c.instr, "vleaf"+tag, types.NewPointer(leafPtr))
			s.assume(mkEq(l, mkNil()), false)
			s.ownStore()
			s.store[m.valAddr(l)] = v
			return v, l
		}
		visit := func(s *State, tag string) *Invocation {
			v, l := mk(s, tag)
			x.emit(s, &Event{kind: EvCall, name: "tree.visit", args: []*Term{l, v}, instr: c.instr})
			pth := s.fresh(c.instr, "vpath"+tag, types.NewSlice(types.Typ[types.String]))
			return &Invocation{fn: f, args: []*Term{pth, l, v}}
		}
		var again func(tag string) func(x *Ex, s *State, ret *Term)
		again = func(tag string) func(x *Ex, s *State, ret *Term) {
			return func(x *Ex, s *State, ret *Term) {
				// an error stops the walk and is returned
				if ret != nil && s.decideNil(ret) != yes {
					o := s
					if s.decideNil(ret) == unknown {
						o = s.clone()
						o.assume(mkEq(ret, mkNil()), false)
						x.finish(o, c.instr, ret, c.isDef)
						x.fork(o)
						s.assume(mkEq(ret, mkNil()), true)
					} else {
						x.finish(s, c.instr, ret, c.isDef)
						return
					}
				}
				x.emit(s, &Event{kind: EvCall, name: "tree.visited", instr: c.instr})
				if tag == "a" {
					o := s.clone()
					x.finish(o, c.instr, mkNil(), c.isDef)
					x.emit(o, &Event{kind: EvCall, name: "tree.queried", instr: c.instr})
					x.fork(o)
					x.invoke(s, c.instr, visit(s, "b"), again("b"), "q"+"b", c.isDef)
					return
				}
				x.emit(s, &Event{kind: EvCall, name: "tree.queried", instr: c.instr})
				x.finish(s, c.instr, mkNil(), c.isDef)
			}
		}
		o := st.clone()
		x.emit(o, &Event{kind: EvCall, name: "tree.queried", instr: c.instr})
		x.finish(o, c.instr, mkNil(), c.isDef)
		x.fork(o)
		return []Outcome{{run: visit(st, "a"), cont: again("a"), key: "qa"}}, true
	case "(*ctree.Tree).Delete", "(*ctree.Tree).DeleteConditional":
		ev(st, "tree.delete", yes, append([]*Term{strip(c.args[0])}, c.args[1:]...)...)
		st.Set("tv", "'"+st.R["tv"])
		if len(st.R["tv"]) > 6 {
			st.Set("tv", "'")
		}
		st.SetT("added.path", nil)
		return one(nil), true
	case "(*ctree.Tree).WalkDeleted":
		return m.walkDeleted(st, c), true
	case "(*ctree.Tree).Children":
		ev(st, "tree.children", yes, strip(c.args[0]))
		return one(nil), true
	}
	if strings.HasPrefix(n, "dyn:cache.Now") {
		r := st.fresh(c.instr, "now", rt)
		st.SetT("now", r)
		return one(r), true
	}
	return nil, false
}

// walkDeleted: the condition is applied to an arbitrary stored value, and the
// callback to 0, 1 or 2 values the condition accepted.
func (m *cacheModel) walkDeleted(st *State, c *Call) []Outcome {
	x := st.x
	x.emit(st, &Event{kind: EvCall, name: "tree.walkdeleted", args: []*Term{strip(c.args[0]), c.args[1]}, instr: c.instr})
	stored := func(s *State, tag string) *Term {
		nt := s.fresh(c.instr, "stored"+tag, m.notiT)
		s.assume(mkEq(nt, mkNil()), false)
		return mkIface(nt, m.notiT)
	}
	done := func(x *Ex, s *State) {
		x.emit(s, &Event{kind: EvCall, name: "tree.walkdone", instr: c.instr})
		s.Set("tv", "'"+s.R["tv"])
		if len(s.R["tv"]) > 6 {
			s.Set("tv", "'")
		}
		s.SetT("added.path", nil)
		x.finish(s, c.instr, nil, c.isDef)
	}
	general := st.R["shapes"] == "all" && (st.R["dc"] == "1" || st.R["dc"] == "")
	run := func(general bool) Outcome {
		var v0 *Term
		inv := &Invocation{fn: c.args[2]}
		return Outcome{run: inv, key: "cond", do: func(s *State) bool {
			v0 = stored(s, "0")
			if !general {
				m.plain(s, m.asNoti(v0))
			}
			inv.args = []*Term{v0}
			return true
		}, cont: func(x *Ex, s *State, ret *Term) {
			x.emit(s, &Event{kind: EvCall, name: "tree.cond", args: []*Term{v0, ret}, instr: c.instr})
			// nothing removed
			o := s.clone()
			done(x, o)
			x.fork(o)
			remove := func(s *State, v *Term, tag string, k func(x *Ex, s *State, ret *Term)) {
				x.emit(s, &Event{kind: EvCall, name: "tree.removed", args: []*Term{v}, instr: c.instr})
				x.invoke(s, c.instr, &Invocation{fn: c.args[3], args: []*Term{v}}, k, "rm"+tag, c.isDef)
			}
			if !s.assume(ret, true) {
				s.frames = nil
				return
			}
			remove(s, v0, "a", func(x *Ex, s *State, _ *Term) {
				if general || s.R["dc"] != "1" {
					done(x, s)
					return
				}
				o := s.clone()
				done(x, o)
				x.fork(o)
				v1 := stored(s, "1")
				m.plain(s, m.asNoti(v1))
				remove(s, v1, "b", func(x *Ex, s *State, _ *Term) { done(x, s) })
			})
		}}
	}
	outs := []Outcome{run(false)}
	if general {
		outs = append(outs, run(true))
	}
	return outs
}

// plain fixes the shape of a second removed value: one update at a path of one
// element below an empty prefix (all shapes are covered by the first one).
func (m *cacheModel) plain(s *State, v *Term) {
	s.assume(s.get(v, "Atomic"), false)
	zero := func(t *Term) { s.assume(mkEq(mkLen(t), mkInt(0)), true) }
	pre := s.get(v, "Prefix")
	s.assume(mkEq(pre, mkNil()), false)
	for _, f := range []string{"Elem", "Element", "Origin"} {
		zero(s.get(pre, f))
	}
	s.assume(mkEq(mkLen(s.get(pre, "Target")), mkInt(0)), false)
	ups := s.get(v, "Update")
	s.assume(mkEq(mkLen(ups), mkInt(1)), true)
	u := s.elem(ups, 0, elemType(ups))
	s.assume(mkEq(u, mkNil()), false)
	up := s.get(u, "Path")
	s.assume(mkEq(up, mkNil()), false)
	zero(s.get(up, "Element"))
	zero(s.get(up, "Origin"))
	s.assume(mkEq(mkLen(s.get(up, "Elem")), mkInt(1)), true)
}
