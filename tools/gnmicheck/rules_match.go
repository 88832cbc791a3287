package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The subscription trie of package match, followed for one arbitrary node with
// an arbitrary but fixed client W and an arbitrary but fixed child K; what a
// recursive call does for the rest of the path is the induction hypothesis.

type matchRules struct {
	p         *Program
	fTree     string
	fMu       string
	fClients  string
	fChildren string
	branch    types.Type
	client    types.Type
	glob      string
	trueBad   map[string]string // removal functions: why true does not mean empty
	falseBad  map[string]string
	usedTrue  map[string]bool
	usedFalse map[string]bool
}

func newMatchRules(p *Program) *matchRules {
	g := &matchRules{p: p, trueBad: map[string]string{}, falseBad: map[string]string{}, usedTrue: map[string]bool{}, usedFalse: map[string]bool{}}
	const pk = "match"
	g.client = p.namedType(pk, "Client")
	isBranchPtr := func(t types.Type) bool {
		pt, ok := under(t).(*types.Pointer)
		if !ok {
			return false
		}
		s, ok := under(pt.Elem()).(*types.Struct)
		return ok && s.NumFields() > 0 && strings.HasPrefix(ownerName(pt.Elem()), pk+".")
	}
	g.fTree = p.field(pk, "Match", "tree", isBranchPtr)
	s, _ := p.fieldsOf(pk, "Match")
	if s == nil || g.client == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		switch f := s.Field(i); {
		case "match.Match."+f.Name() == g.fTree:
			if pt, ok := under(f.Type()).(*types.Pointer); ok {
				g.branch = pt.Elem()
			}
		case strings.HasSuffix(types.TypeString(f.Type(), nil), "sync.RWMutex"), strings.HasSuffix(types.TypeString(f.Type(), nil), "sync.Mutex"):
			g.fMu = f.Name()
		}
	}
	bs := structOf(g.branch)
	if bs == nil || g.fMu == "" {
		p.report("anchor", "match.Match", "no tree of branches guarded by a mutex", nil, nil)
		return nil
	}
	for i := 0; i < bs.NumFields(); i++ {
		f := bs.Field(i)
		if mt, ok := under(f.Type()).(*types.Map); ok {
			if types.Identical(mt.Key(), g.client) {
				g.fClients = f.Name()
			} else if isString(mt.Key()) {
				g.fChildren = f.Name()
			}
		}
	}
	if g.fClients == "" || g.fChildren == "" {
		p.report("anchor", "match.branch", "no map of clients and map of children", nil, nil)
		return nil
	}
	g.glob = p.constStr(pk, "Glob")
	if g.glob != "*" {
		p.report("glob", "match.Glob", "the wildcard is "+g.glob+", not the * of queries", nil, nil)
	}
	return g
}

// argsByRole finds a call's node, path, client, item and offered set by type.
type matchArgs struct{ node, path, client, item, upd *Term }

func (g *matchRules) roles(sig *types.Signature, args []*Term) matchArgs {
	var m matchArgs
	i := 0
	add := func(t types.Type, a *Term) {
		switch u := under(t).(type) {
		case *types.Slice:
			if isString(u.Elem()) {
				m.path = a
			}
		case *types.Map:
			if types.Identical(u.Key(), g.client) {
				m.upd = a
			}
		case *types.Pointer:
			if types.Identical(u.Elem(), g.branch) {
				m.node = a
			}
		case *types.Interface:
			if types.Identical(t, g.client) {
				m.client = a
			} else if u.NumMethods() == 0 {
				m.item = a
			}
		}
	}
	if r := sig.Recv(); r != nil && i < len(args) {
		add(r.Type(), args[0])
		i++
	}
	for j := 0; j < sig.Params().Len() && i < len(args); j++ {
		add(sig.Params().At(j).Type(), args[i])
		i++
	}
	return m
}

func (g *matchRules) recursive(st *State, c *Call) bool {
	if c.fn == nil || c.fn.Pkg != g.p.ssa["match"] {
		return false
	}
	for _, f := range st.frames {
		if f.fn == c.fn {
			return true
		}
	}
	return false
}

func (g *matchRules) children(st *State, n *Term) *Term { return st.get(n, g.fChildren) }
func (g *matchRules) clients(st *State, n *Term) *Term  { return st.get(n, g.fClients) }

// restOf: t is list[n:].
func restOf(st *State, t, list *Term, n int64) bool {
	off := int64(0)
	for t.op == OSlice && t != list {
		v, ok := t.args[1].intVal()
		if !ok {
			return false
		}
		if len(t.args) > 2 && t.args[2].op != ONil && t.args[0].op != OAlloc && st.decide(mkEq(t.args[2], mkLen(t.args[0]))) != yes {
			return false
		}
		off += v
		t = t.args[0]
	}
	return t == list && off == n
}

func (st *State) emptyList(t *Term) tri {
	if t.op == ONil {
		return yes
	}
	return st.decide(mkEq(mkLen(t), mkInt(0)))
}

func (g *matchRules) held(st *State, min byte) bool {
	for _, l := range st.locks {
		if l.addr.op == OField && l.addr.args[0] == st.T["m"] && (l.mode == 'W' || l.mode == min) {
			return true
		}
	}
	return false
}

// guard: the trie is only touched under the lock.
func (g *matchRules) guard(st *State, ev *Event, name string, write bool) {
	f := ""
	switch ev.kind {
	case EvMapGet, EvMapSet, EvMapDel, EvRange:
		f, _ = ev.args[0].loadedField()
	case EvStore, EvLoad:
		f = ev.name
	default:
		return
	}
	own := ownerName(g.branch) + "."
	if f != own+g.fChildren && f != own+g.fClients {
		return
	}
	min := byte('R')
	if write || ev.kind == EvMapSet || ev.kind == EvMapDel || ev.kind == EvStore {
		min = 'W'
	}
	if ev.addr != nil && rootAlloc(ev.addr) != nil {
		return
	}
	g.p.ob("guarded", name)
	if !g.held(st, min) {
		g.p.viol(st, ev, "guarded", name, "%s is accessed without holding the lock", f)
	}
}

type matchMode struct {
	name string
	set  func(st *State, path *Term) (k *Term)
	vis  bool // a present child K is visited
	rest bool // with the rest of the path
}

func (g *matchRules) update(name string) {
	p := g.p
	fn := p.mustFn("match", "Match."+name)
	if fn == nil {
		return
	}
	str := types.Typ[types.String]
	glob := mkStr(g.glob)
	nonEmpty := func(st *State, path *Term) *Term {
		st.assume(mkLess(mkInt(0), mkLen(path), nil), true)
		return st.elem(path, 0, str)
	}
	anyK := mkOpaque("K", str, fn.Pos())
	modes := []matchMode{
		{"end", func(st *State, path *Term) *Term { st.assume(mkEq(mkLen(path), mkInt(0)), true); return anyK }, true, false},
		{"glob", func(st *State, path *Term) *Term { st.assume(mkEq(nonEmpty(st, path), glob), true); return anyK }, true, true},
		{"glob-child", func(st *State, path *Term) *Term {
			st.assume(mkEq(nonEmpty(st, path), glob), false)
			return glob
		}, true, true},
		{"same", func(st *State, path *Term) *Term {
			e := nonEmpty(st, path)
			st.assume(mkEq(e, glob), false)
			return e
		}, true, true},
		{"other", func(st *State, path *Term) *Term {
			e := nonEmpty(st, path)
			st.assume(mkEq(e, glob), false)
			st.assume(mkEq(anyK, glob), false)
			st.assume(mkEq(anyK, e), false)
			return anyK
		}, false, true},
	}
	w := mkOpaque("W", g.client, fn.Pos())
	for _, mode := range modes {
		mode := mode
		r := &Rule{StableMaps: true}
		r.Witness = func(st *State, m *Term, mt *types.Map) []*Term {
			if types.Identical(mt.Key(), g.client) {
				return []*Term{w}
			}
			if isString(mt.Key()) {
				return []*Term{st.T["k"]}
			}
			return nil
		}
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			ev := &Event{instr: c.instr}
			if c.invoke && len(c.args) > 0 && c.args[0].typ != nil && types.Identical(c.args[0].typ, g.client) && strings.HasSuffix(c.name, ".Update") {
				p.ob("offer", name)
				if st.gor != "" {
					p.viol(st, ev, "own-goroutine", name, "an item is offered by a goroutine of its own: it may come after the subscription was removed")
				}
				if !g.held(st, 'R') {
					p.viol(st, ev, "offer", name, "an item is offered without holding the lock: it may come after the subscription was removed")
				}
				if c.args[1] != st.T["item"] {
					p.viol(st, ev, "offer", name, "offers %s, not the item given", c.args[1])
				}
				cl := c.args[0]
				node := st.T["node"]
				if st.decide(has(st, g.clients(st, node), cl)) != yes {
					p.viol(st, ev, "offer", name, "a client is offered the item that is not known to be registered here")
				}
				if cl == w {
					upd := st.T["upd"]
					if st.R["fresh"] == "" && st.decideNil(upd) != yes && (st.decide(has(st, upd, cl)) != no || st.R["chk"] != "1") {
						p.viol(st, ev, "once", name, "a client is offered the item that is not known not to have been offered it before")
					}
					st.Set("fresh", "")
					st.Count("off")
				}
				return one(nil), true
			}
			if g.recursive(st, c) {
				p.ob("descend", name+" "+mode.name)
				a := g.roles(c.fn.Signature, c.args)
				node := st.T["node"]
				path := st.T["path"]
				if a.node == nil || a.path == nil {
					p.viol(st, ev, "descend", name, "descends without a node or path")
					return one(nil), true
				}
				if a.item != nil && a.item != st.T["item"] {
					p.viol(st, ev, "descend", name, "descends with %s, not the item given", a.item)
				}
				if a.upd != nil && a.upd != st.T["upd"] && !(st.decideNil(st.T["upd"]) == yes && st.decideNil(a.upd) == yes) {
					p.viol(st, ev, "once", name, "descends with another set of clients already offered the item: a client is offered it again")
				}
				if mode.rest && !restOf(st, a.path, path, 1) {
					p.viol(st, ev, "descend", name, "descends with %s, not with the rest of the path", a.path)
				}
				if !mode.rest && st.emptyList(a.path) != yes {
					p.viol(st, ev, "descend", name, "descends with %s although the path has ended", a.path)
				}
				ch := g.children(st, node)
				k := st.T["k"]
				switch {
				case a.node == at(st, ch, k) && st.decide(has(st, ch, k)) == yes:
					st.Count("vis")
				case a.node.op == OLoad && a.node.args[0].op == OMapElem && a.node.args[0].args[0] == ch:
					// another child: its own case
				default:
					p.viol(st, ev, "descend", name, "descends into %s, not into a child known to exist", a.node)
				}
				st.Set("chk", "")
				st.Set("fresh", "")
				if rt := st.x.resType(c); rt != nil {
					return one(st.fresh(c.instr, "rec", rt)), true
				}
				return one(nil), true
			}
			return nil, false
		}
		r.Event = func(st *State, ev *Event) {
			g.guard(st, ev, name, false)
			switch ev.kind {
			case EvMapGet:
				if ev.args[0] == st.T["upd"] && ev.args[1] == w {
					st.Set("chk", "1")
				}
			case EvMapSet, EvMapDel:
				if ev.args[0] == st.T["upd"] && st.T["upd"] != nil {
					if ev.kind == EvMapDel {
						p.viol(st, ev, "once", name, "a client is taken out of the set of those already offered the item")
					} else if ev.args[1] == w {
						if st.R["off"] == "" && st.R["chk"] == "1" && st.decide(has(st, ev.args[0], w)) == no {
							st.Set("fresh", "1")
						}
						st.Set("mark", "1")
					}
					return
				}
				if nm, _ := ev.args[0].loadedField(); nm != "" {
					p.viol(st, ev, "read-only", name, "matching an item changes %s", nm)
				}
			case EvStore:
				if strings.HasPrefix(ev.name, ownerName(g.branch)+".") || ev.name == g.fTree {
					p.viol(st, ev, "read-only", name, "matching an item changes %s", ev.name)
				}
			}
		}
		r.Exit = func(st *State, res []*Term) {
			if st.gor != "" {
				return
			}
			p.ob("offered", name+" "+mode.name)
			node := st.T["node"]
			cl := g.clients(st, node)
			reg := st.decide(has(st, cl, w))
			if reg != no && st.isNilT(cl) || st.decide(mkEq(st.mapLen(cl), mkInt(0))) == yes {
				reg = no
			}
			already := no
			if st.R["upd"] != "nil" && st.decideNil(st.T["upd"]) != yes {
				already = st.decide(st.T["upd0"])
			}
			off := st.R["off"]
			switch {
			case off != "" && off != "1":
				p.exitViol(st, "once", name, "a client is offered the same item %s times at one node", off)
			case off == "" && reg != no && already != yes:
				p.exitViol(st, "offered", name, "a client registered at a node the path agrees with is not offered the item")
			}
			if st.R["upd"] != "nil" && st.decideNil(st.T["upd"]) != yes {
				if off == "1" && st.R["mark"] != "1" {
					p.exitViol(st, "once", name, "a client that was offered the item is not recorded: it is offered it again")
				}
				if off == "" && st.R["mark"] == "1" && already != yes {
					p.exitViol(st, "offered", name, "a client is recorded as offered the item but was not")
				}
			}
			ch := g.children(st, node)
			here := st.decide(has(st, ch, st.T["k"]))
			if st.decide(mkEq(st.mapLen(ch), mkInt(0))) == yes {
				here = no
			}
			vis := st.R["vis"]
			switch {
			case !mode.vis && vis != "":
				p.exitViol(st, "agree", name, "a child whose element differs from the path's is visited: subscribers of other paths are offered the item")
			case mode.vis && vis == "" && here != no:
				what := map[string]string{"end": "below the end of the path", "glob": "agreeing with a wildcard in the path", "glob-child": "for a wildcard", "same": "for the path's element"}[mode.name]
				p.exitViol(st, "agree", name, "a child %s is not visited", what)
			case vis != "" && vis != "1":
				p.exitViol(st, "once", name, "a child is visited %s times", vis)
			}
		}
		p.explore(r, fn, func(st *State, ps []*Term) {
			m := ps[0]
			a := g.roles(fn.Signature, ps)
			st.SetT("m", m)
			st.SetT("node", st.get(m, lastPart(g.fTree)))
			st.SetT("w", w)
			st.SetT("item", a.item)
			st.SetT("path", a.path)
			if a.upd == nil {
				st.Set("upd", "nil")
				st.SetT("upd", mkNil())
			} else {
				st.SetT("upd", a.upd)
				st.SetT("upd0", has(st, a.upd, w))
				// explicit, so that marking another client keeps it
				st.ownStore()
				st.store[mkMapOk(a.upd, w)] = st.T["upd0"]
			}
			st.SetT("k", mode.set(st, a.path))
			st.SetT("k0", has(st, g.children(st, st.T["node"]), st.T["k"]))
			st.SetT("w0", has(st, g.clients(st, st.T["node"]), w))
		})
	}
}

// ---- registration and removal ----

// nodeOfMap: the node a map of children or clients belongs to.
func (g *matchRules) nodeOfMap(st *State, m *Term) (*Term, string) {
	if nm, b := m.loadedField(); b != nil {
		return b, lastPart(nm)
	}
	if b := st.T["mo"+itoa(m.id)]; b != nil {
		return b, st.R["mo"+itoa(m.id)]
	}
	return nil, ""
}

func (g *matchRules) pos(st *State) int64 {
	switch st.R["pos"] {
	case "1":
		return 1
	case "2":
		return 2
	case "v":
		return -1
	}
	return 0
}

func (g *matchRules) shift(st *State) {
	st.SetT("cur", st.T["cand"])
	st.SetT("cand", nil)
	switch st.R["pos"] {
	case "":
		st.Set("pos", "1")
	case "1":
		st.Set("pos", "2")
	default:
		st.Set("pos", "v")
	}
}

// elemAt: key is the path's element at the current depth.
func (g *matchRules) elemAt(st *State, key *Term) bool {
	i := g.pos(st)
	if i < 0 {
		return key.contains(st.T["path"]) || vagueIdx(key)
	}
	e := st.elem(st.T["path"], i, types.Typ[types.String])
	return key == e || st.decide(mkEq(key, e)) == yes || vagueIdx(key)
}

func (g *matchRules) atEnd(st *State) bool {
	i := g.pos(st)
	if i < 0 {
		return true
	}
	return st.decide(mkEq(mkLen(st.T["path"]), mkInt(i))) == yes
}

// linked: the current child is in the tree.
func (g *matchRules) linked(st *State) bool {
	if st.T["cand"] == nil {
		return true
	}
	ch := g.children(st, st.T["cur"])
	k := st.T["candk"]
	return k != nil && (st.decide(has(st, ch, k)) == yes || st.decideNil(st.T["cand"]) == no) && at(st, ch, k) == st.T["cand"]
}

func (g *matchRules) enter(st *State, ev *Event, name string, n *Term) bool {
	if n == st.T["cur"] {
		return true
	}
	if st.T["cand"] != nil && n == st.T["cand"] {
		if !g.linked(st) {
			g.p.viol(st, ev, "registered", name, "goes on at a node that is not in the tree")
		}
		g.shift(st)
		return true
	}
	return false
}

func (g *matchRules) add() (closures map[*ssa.Function]*Term) {
	p := g.p
	closures = map[*ssa.Function]*Term{}
	const name = "AddQuery"
	fn := p.mustFn("match", "Match.AddQuery")
	if fn == nil {
		return
	}
	r := &Rule{StableMaps: true, Unroll: 2}
	isPath := func(st *State, t *Term) bool {
		if t == st.T["path"] {
			return true
		}
		b := t
		for b.op == OSlice && b.args[1].isZero() {
			b = b.args[0]
		}
		if c := st.store[contentOf(b)]; c != nil && c == st.T["param"] {
			return t == b || st.decide(mkEq(mkLen(t), mkLen(c))) == yes
		}
		ps := parts(t)
		return len(ps) == 1 && ps[0].op == OPure && ps[0].sym == "spread" && ps[0].args[0] == st.T["param"] || t.op == OPure && t.args[0] == st.T["param"] && strings.HasSuffix(t.sym, "slices.Clone")
	}
	// the walk may use the private copy
	adopt := func(st *State, t *Term) {
		for b := t; b != nil && b.op == OSlice; b = b.args[0] {
			t = b.args[0]
		}
		if (t.op == OAppend || t.op == OAlloc && st.store[contentOf(t)] != nil) && isPath(st, t) {
			st.SetT("path", t)
		}
	}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		ev := &Event{instr: c.instr}
		if !g.recursive(st, c) {
			return nil, false
		}
		p.ob("registered", "descend")
		a := g.roles(c.fn.Signature, c.args)
		if !g.held(st, 'W') {
			p.viol(st, ev, "guarded", name, "registers without holding the lock for writing")
		}
		if a.path != nil {
			adopt(st, a.path)
		}
		if a.client != st.T["client"] {
			p.viol(st, ev, "registered", name, "registers %s, not the client given", a.client)
		}
		if n := a.node; n != nil && n.op == OAlloc && st.T["candk"] != nil && n != st.T["cand"] {
			// a new child, linked later
			if st.decide(has(st, g.children(st, st.T["cur"]), st.T["candk"])) == no {
				st.SetT("cand", n)
			}
		}
		if a.node == nil || a.node != st.T["cand"] || a.path == nil || !restOf(st, a.path, st.T["path"], g.pos(st)+1) {
			p.viol(st, ev, "registered", name, "does not go on with the rest of the query at the child for its first element")
		}
		st.Count("reg")
		st.Set("rec", "1")
		if rt := st.x.resType(c); rt != nil {
			return one(st.fresh(c.instr, "rec", rt)), true
		}
		return one(nil), true
	}
	r.Back = func(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
		if st.T["cand"] != nil && st.R["rec"] == "" && g.linked(st) {
			g.shift(st)
		}
	}
	r.Event = func(st *State, ev *Event) {
		g.guard(st, ev, name, true)
		switch ev.kind {
		case EvStore:
			own := ownerName(g.branch) + "."
			if ev.name == g.fTree {
				p.viol(st, ev, "others", name, "the tree is replaced: other registrations are lost")
			}
			if !strings.HasPrefix(ev.name, own) || ev.addr.op != OField {
				return
			}
			n := ev.addr.args[0]
			if n.op != OAlloc && st.decideNil(st.get(n, lastPart(ev.name))) != yes {
				p.viol(st, ev, "others", name, "%s is replaced although it is not known to be unset: other registrations are lost", ev.name)
			}
			if ev.val.op == OAlloc {
				st.SetT("mo"+itoa(ev.val.id), n)
				st.Set("mo"+itoa(ev.val.id), lastPart(ev.name))
			}
		case EvMapGet, EvMapSet, EvMapDel:
			n, f := g.nodeOfMap(st, ev.args[0])
			if n == nil {
				return
			}
			if ev.kind == EvMapDel {
				p.viol(st, ev, "others", name, "registering removes from %s", f)
				return
			}
			key := ev.args[1]
			if !g.enter(st, ev, name, n) {
				p.viol(st, ev, "registered", name, "uses the %s of %s, which the walk has not reached", f, n)
				return
			}
			if f == g.fChildren {
				for b := key; b != nil; {
					if b.op == OLoad && b.args[0].op == OIndex {
						adopt(st, b.args[0].args[0])
					}
					break
				}
				if !g.elemAt(st, key) {
					p.viol(st, ev, "registered", name, "goes to the child for %s, not for the query's next element", key)
				}
				if ev.kind == EvMapSet {
					if old := at(st, ev.args[0], key); old != ev.args[2] && st.decide(has(st, ev.args[0], key)) != no && st.decideNil(old) != yes {
						p.viol(st, ev, "others", name, "a child that may exist is replaced: the registrations below it are lost")
					}
					st.SetT("cand", ev.args[2])
				} else {
					st.SetT("cand", at(st, ev.args[0], key))
				}
				st.SetT("candk", key)
				return
			}
			if ev.kind == EvMapSet {
				p.ob("registered", "end")
				if key != st.T["client"] {
					p.viol(st, ev, "registered", name, "registers %s, not the client given", key)
				}
				if !g.atEnd(st) {
					p.viol(st, ev, "registered", name, "the client is registered at a node that is not known to be the end of its query")
				}
				st.Count("reg")
			}
		}
	}
	r.Exit = func(st *State, res []*Term) {
		p.ob("registered", "exit")
		if st.R["reg"] != "1" {
			p.exitViol(st, "registered", name, "the client is registered %s times", or0(st.R["reg"]))
		}
		if st.R["rec"] != "" && !g.linked(st) {
			p.exitViol(st, "registered", name, "the client is registered below a node that is not in the tree")
		}
		if len(st.locks) > 0 {
			p.exitViol(st, "guarded", name, "returns with the lock held")
		}
		if len(res) == 0 || res[0].op != OClosure || res[0].fn == nil {
			p.exitViol(st, "removal", name, "does not return its own removal function")
			return
		}
		cl := res[0]
		if closures[cl.fn] != nil {
			return
		}
		// what the removal function has captured
		var got []*Term
		for _, b := range cl.args {
			v := b
			if b.op == OAlloc {
				if pt, ok := under(b.typ).(*types.Pointer); ok {
					v = st.load(b, pt.Elem())
				}
			}
			switch {
			case isString2(v.typ):
				b := v
				for b.op == OSlice || b.op == OAppend {
					b = b.args[0]
				}
				if b == st.T["param"] {
					p.exitViol(st, "removal", name, "the removal function keeps the caller's slice: once that is reused it removes something else")
				}
				if !isPath(st, v) {
					p.exitViol(st, "removal", name, "the removal function remembers %s, not the query", v)
				}
			case v.typ != nil && types.Identical(v.typ, g.client):
				if v != st.T["client"] {
					p.exitViol(st, "removal", name, "the removal function remembers %s, not the client", v)
				}
			}
			got = append(got, v)
		}
		closures[cl.fn] = mkTuple(got...)
	}
	p.explore(r, fn, func(st *State, ps []*Term) {
		a := g.roles(fn.Signature, ps)
		st.SetT("m", ps[0])
		st.SetT("cur", st.get(ps[0], lastPart(g.fTree)))
		st.SetT("param", a.path)
		st.SetT("path", a.path)
		st.SetT("client", a.client)
	})
	return closures
}

func isString2(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := under(t).(*types.Slice)
	return ok && isString(s.Elem())
}

func (g *matchRules) remove(fn *ssa.Function, caps *Term) {
	p := g.p
	const name = "remove"
	r := &Rule{StableMaps: true}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		if !g.recursive(st, c) {
			return nil, false
		}
		ev := &Event{instr: c.instr}
		p.ob("removed", "descend")
		if !g.held(st, 'W') {
			p.viol(st, ev, "guarded", name, "removes without holding the lock for writing")
		}
		a := g.roles(c.fn.Signature, c.args)
		if a.client != nil && a.client != st.T["client"] {
			p.viol(st, ev, "removed", name, "removes %s, not the client registered", a.client)
		}
		ch := g.children(st, st.T["cur"])
		e := st.elem(st.T["path"], 0, types.Typ[types.String])
		if a.node == nil || a.path == nil || a.node != at(st, ch, e) || !restOf(st, a.path, st.T["path"], 1) {
			p.viol(st, ev, "removed", name, "does not go on with the rest of the query at the child for its first element")
		}
		st.Count("rem")
		if rt := st.x.resType(c); rt != nil {
			res := st.fresh(c.instr, "rec", rt)
			st.SetT("rec", res)
			st.Set("rec", c.fn.String())
			return one(res), true
		}
		return one(nil), true
	}
	r.Event = func(st *State, ev *Event) {
		g.guard(st, ev, name, true)
		switch ev.kind {
		case EvStore:
			if strings.HasPrefix(ev.name, ownerName(g.branch)+".") || ev.name == g.fTree {
				// dropping an empty map is fine
				if m := st.load(ev.addr, deref(ev.addr.typ)); st.isNilT(ev.val) && st.decide(mkEq(st.mapLen(m), mkInt(0))) == yes {
					return
				}
				p.viol(st, ev, "others", name, "%s is replaced: other registrations are lost", ev.name)
			}
		case EvMapSet:
			if n, f := g.nodeOfMap(st, ev.args[0]); n != nil {
				p.viol(st, ev, "others", name, "removing adds to %s", f)
			}
		case EvMapDel:
			n, f := g.nodeOfMap(st, ev.args[0])
			if n == nil {
				return
			}
			key := ev.args[1]
			if ev.what == "clear" || len(ev.args) < 2 {
				p.viol(st, ev, "others", name, "all entries of %s are removed", f)
				return
			}
			if n != st.T["cur"] {
				p.viol(st, ev, "removed", name, "removes from a node the walk has not reached")
				return
			}
			if f == g.fClients {
				p.ob("removed", "end")
				if key != st.T["client"] || st.emptyList(st.T["path"]) != yes {
					p.viol(st, ev, "others", name, "removes %s at a node that is not known to be the end of the query", key)
				}
				st.Count("rem")
				return
			}
			p.ob("removed", "prune")
			c := at(st, ev.args[0], key)
			if st.decide(mkEq(st.mapLen(g.clients(st, c)), mkInt(0))) == yes && st.decide(mkEq(st.mapLen(g.children(st, c)), mkInt(0))) == yes {
				return
			}
			e := st.elem(st.T["path"], 0, types.Typ[types.String])
			if st.decide(mkEq(key, e)) != yes || st.T["rec"] == nil {
				p.viol(st, ev, "others", name, "a child is removed that is not known to be empty: the registrations below it are lost")
				return
			}
			switch st.decide(st.T["rec"]) {
			case yes:
				g.usedTrue[st.R["rec"]] = true
			case no:
				g.usedFalse[st.R["rec"]] = true
			default:
				p.viol(st, ev, "others", name, "a child is removed that is not known to be empty: the registrations below it are lost")
			}
		case EvReturn:
			if ev.fn == nil || ev.fn.Pkg != p.ssa["match"] || len(ev.res.args) != 1 && ev.res.typ == nil {
				return
			}
			rs := ev.fn.Signature.Results()
			if rs.Len() != 1 || !isBool(rs.At(0).Type()) {
				return
			}
			v := ev.res
			if v.op == OTuple {
				v = v.args[0]
			}
			n := st.T["cur"]
			means := func(val bool) bool {
				s := st.clone()
				if !s.assume(v, val) {
					return true
				}
				zero := func(m *Term) bool { return s.decide(mkEq(s.mapLen(m), mkInt(0))) == yes }
				return zero(g.clients(s, n)) && zero(g.children(s, n))
			}
			if !means(true) {
				g.trueBad[ev.fn.String()] = ev.fn.Name()
			}
			if !means(false) {
				g.falseBad[ev.fn.String()] = ev.fn.Name()
			}
		}
	}
	r.Exit = func(st *State, res []*Term) {
		p.ob("removed", "exit")
		if len(st.locks) > 0 {
			p.exitViol(st, "guarded", name, "returns with the lock held")
		}
		if st.R["rem"] == "1" {
			return
		}
		if st.R["rem"] != "" {
			p.exitViol(st, "removed", name, "the client is removed %s times", st.R["rem"])
			return
		}
		n := st.T["cur"]
		switch st.emptyList(st.T["path"]) {
		case yes:
			cl := g.clients(st, n)
			if st.decideNil(cl) == yes || st.decide(has(st, cl, st.T["client"])) == no || st.decide(mkEq(st.mapLen(cl), mkInt(0))) == yes {
				return
			}
		case no:
			ch := g.children(st, n)
			e := st.elem(st.T["path"], 0, types.Typ[types.String])
			if st.decideNil(ch) == yes || st.decide(has(st, ch, e)) == no || st.decide(mkEq(st.mapLen(ch), mkInt(0))) == yes || st.decideNil(at(st, ch, e)) == yes {
				return
			}
		}
		p.exitViol(st, "removed", name, "the client is not removed from the end of its query")
	}
	for _, end := range []bool{true, false} {
		p.explore(r, fn, func(st *State, ps []*Term) {
			f := st.top()
			for i, fv := range fn.FreeVars {
				if i >= len(caps.args) {
					break
				}
				v := caps.args[i]
				var role string
				switch {
				case isString2(v.typ):
					role, v = "path", mkOpaque("query", v.typ, fn.Pos())
				case v.typ != nil && types.Identical(v.typ, g.client):
					role = "client"
				case v.typ != nil && strings.HasSuffix(types.TypeString(v.typ, nil), "match.Match"):
					role = "m"
				default:
					if pt, ok := under(fv.Type()).(*types.Pointer); ok && types.Identical(pt.Elem(), g.branch) {
						role = "cur"
					}
				}
				bind := st.eval(fv)
				if pt, ok := under(fv.Type()).(*types.Pointer); ok && types.Identical(pt.Elem(), v.typ) {
					// captured by reference
					st.ownStore()
					st.store[bind] = v
				} else {
					f.free[i] = v
				}
				if role != "" {
					st.SetT(role, v)
				}
			}
			if st.T["m"] == nil || st.T["path"] == nil || st.T["client"] == nil {
				p.exitViol(st, "removal", name, "the removal function has not captured the tree, the query and the client")
				return
			}
			if st.T["cur"] == nil {
				st.SetT("cur", st.get(st.T["m"], lastPart(g.fTree)))
			}
			st.assume(mkEq(mkLen(st.T["path"]), mkInt(0)), end)
		})
	}
	for f := range g.usedTrue {
		if n := g.trueBad[f]; n != "" {
			p.report("others", n, "a child is removed when "+n+" returns true, which it may do for a child that is not empty: the registrations below it are lost", nil, nil)
		}
	}
	for f := range g.usedFalse {
		if n := g.falseBad[f]; n != "" {
			p.report("others", n, "a child is removed when "+n+" returns false, which it may do for a child that is not empty: the registrations below it are lost", nil, nil)
		}
	}
}

// ---- what is offered for one notification ----

func (g *matchRules) notification(pkgFn string) {
	p := g.p
	fn := p.mustFn("subscribe", pkgFn)
	if fn == nil {
		return
	}
	nT := types.NewPointer(p.namedType("proto/gnmi", "Notification"))
	leafRoot := pkgFn == "Server.Update"
	r := &Rule{Unroll: 2, Pure: func(n string) bool { return strings.HasSuffix(n, "path.ToStrings") }}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		n := trimMod(c.name)
		ev := &Event{instr: c.instr}
		switch n {
		case "(*ctree.Leaf).Value":
			v := mkPure("leafval", types.Universe.Lookup("any").Type(), c.args[0])
			if c.args[0] == st.T["v"] {
				st.SetT("val", v)
			}
			return one(v), true
		case "(*match.Match).UpdateOnce", "(*match.Match).Update":
			p.ob("offer-all", pkgFn)
			a := g.roles(c.fn.Signature, c.args)
			if st.gor != "" {
				p.viol(st, ev, "own-goroutine", pkgFn, "a notification is offered by a goroutine of its own: order is lost")
			}
			if asOf(a.item) != asOf(st.T["v"]) {
				p.viol(st, ev, "offer-all", pkgFn, "offers %s, not the item given", a.item)
			}
			switch {
			case a.upd == nil || st.decideNil(a.upd) == yes:
				p.viol(st, ev, "offer-once", pkgFn, "matches without a set of the clients already offered the notification: one with several matching paths is offered it again")
			case st.T["upd"] == nil:
				if rootAlloc(a.upd) == nil {
					p.viol(st, ev, "offer-once", pkgFn, "the set of clients already offered the notification is not its own: a client is left out")
				}
				st.SetT("upd", a.upd)
			case st.T["upd"] != a.upd:
				p.viol(st, ev, "offer-once", pkgFn, "a second set of clients already offered the notification: a client is offered it again")
			}
			ps := parts(a.path)
			var noti *Term
			if k := len(ps); k > 0 && ps[k-1].op == OPure && ps[k-1].sym == "spread" {
				if t := ps[k-1].args[0]; t.op == OPure && strings.HasSuffix(t.sym, "path.ToStrings") && t.args[1].isFalse() {
					el := t.args[0]
					if nm, b := el.loadedField(); nm == "gnmi.Update.Path" {
						el = b
					}
					if el.op == OLoad && el.args[0].op == OIndex {
						l := el.args[0].args[0]
						nm, b := l.loadedField()
						switch nm {
						case "gnmi.Notification.Update", "gnmi.Notification.Delete":
							noti = b
							if m := st.coverNext(nm, l, el); m != "" {
								p.viol(st, ev, "offer-all", pkgFn, "%s", m)
							}
						}
					}
				}
			}
			if noti == nil || asOf(noti) != asOf(g.noti(st, leafRoot)) {
				p.viol(st, ev, "offer-all", pkgFn, "matches %s, which does not end in the path of an update or delete of the notification", termList(ps))
				return one(nil), true
			}
			pre := ps[:len(ps)-1]
			if leafRoot {
				want := st.get(noti, "Prefix")
				ok := len(pre) == 1 && pre[0].sym == "spread"
				if ok {
					t := pre[0].args[0]
					ok = t.op == OPure && strings.HasSuffix(t.sym, "path.ToStrings") && t.args[0] == want && t.args[1].isTrue()
				}
				if !ok {
					p.viol(st, ev, "offer-path", pkgFn, "matches under %s, not under the notification's prefix with target and origin", termList(pre))
				}
			} else if len(pre) != 1 || pre[0].sym != "spread" || pre[0].args[0] != st.T["prefix"] {
				p.viol(st, ev, "offer-path", pkgFn, "matches under %s, not under the prefix given", termList(pre))
			}
			return one(nil), true
		}
		return nil, false
	}
	r.Exit = func(st *State, res []*Term) {
		if st.gor != "" {
			return
		}
		p.ob("offer-all", pkgFn+" exit")
		n := g.noti(st, leafRoot)
		if leafRoot {
			if st.T["val"] == nil {
				p.exitViol(st, "offer-all", pkgFn, "returns without looking at the item")
				return
			}
			if st.decide(mkTypeIs(st.T["val"], nT)) == no {
				return
			}
			n = st.T["noti"]
			if n == nil {
				n = mkPure("as:"+typeKey(nT), nT, st.T["val"])
			}
		}
		if st.decideNil(n) == yes {
			return
		}
		for _, f := range []string{"Update", "Delete"} {
			if !st.coverDone("gnmi.Notification."+f, st.get(n, f)) {
				p.exitViol(st, "offer-all", pkgFn, "returns without having matched every %s of the notification", strings.ToLower(f))
			}
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) {
		if leafRoot {
			st.SetT("v", ps[len(ps)-1])
			return
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			switch t := fn.Signature.Params().At(i).Type(); {
			case types.Identical(t, nT):
				st.SetT("noti", ps[i])
				st.assume(mkEq(ps[i], mkNil()), false)
			case isString2(t):
				st.SetT("prefix", ps[i])
			default:
				if u, ok := under(t).(*types.Interface); ok && u.NumMethods() == 0 {
					st.SetT("v", ps[i])
				}
			}
		}
	})
}

func (g *matchRules) noti(st *State, leafRoot bool) *Term {
	if leafRoot {
		if st.T["val"] == nil {
			return mkNil()
		}
		return st.T["val"]
	}
	return st.T["noti"]
}

func matchTrie(p *Program) {
	g := newMatchRules(p)
	if g == nil {
		return
	}
	g.update("Update")
	g.update("UpdateOnce")
	cls := g.add()
	for _, fn := range p.repoFuncs() {
		if c := cls[fn]; c != nil {
			g.remove(fn, c)
		}
	}
	g.notification("UpdateNotification")
	g.notification("Server.Update")
	p.closedWorld("trie-writer", []string{g.fTree, ownerName(g.branch) + "." + g.fClients, ownerName(g.branch) + "." + g.fChildren})
	for r, n := range map[string]int{"offer": 2, "offered": 10, "descend": 8, "registered": 3, "removed": 3, "guarded": 4, "offer-all": 4} {
		p.need(r, n)
	}
}
