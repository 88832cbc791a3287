package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The path tree of package ctree, followed for one arbitrary node with an
// arbitrary but fixed child K; what an operation does at a child for the rest
// of the path is the induction hypothesis. The same exploration decides the
// map semantics (C09) and the locking discipline (C10).

type treeRules struct {
	p      *Program
	want   string // "map" or "lock"
	lb     string // the field holding leaf value or branch map
	mu     string
	node   types.Type
	leaf   types.Type
	branch types.Type
	roles  map[*ssa.Function]*treeRoles
	held   map[*ssa.Function]byte // how the node is locked when a step starts
	rooted map[*ssa.Function]bool
}

// treeRoles: parameter positions of a recursive step (-1 if none).
type treeRoles struct{ node, path, prefix, visit int }

func newTreeRules(p *Program, want string) *treeRules {
	g := &treeRules{p: p, want: want, roles: map[*ssa.Function]*treeRoles{}, held: map[*ssa.Function]byte{}, rooted: map[*ssa.Function]bool{}}
	const pk = "ctree"
	g.node = p.namedType(pk, "Tree")
	g.leaf = p.namedType(pk, "Leaf")
	if g.node == nil || g.leaf == nil {
		return nil
	}
	s := structOf(g.node)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i)
		if u, ok := under(f.Type()).(*types.Interface); ok && u.NumMethods() == 0 {
			g.lb = f.Name()
		}
		if t := types.TypeString(f.Type(), nil); t == "sync.RWMutex" || t == "sync.Mutex" {
			g.mu = f.Name()
		}
	}
	sp := p.ssa[pk]
	for _, m := range sp.Members {
		if t, ok := m.(*ssa.Type); ok {
			if mt, ok := under(t.Type()).(*types.Map); ok && isString(mt.Key()) {
				if pt, ok := under(mt.Elem()).(*types.Pointer); ok && types.Identical(pt.Elem(), g.node) {
					g.branch = t.Type()
				}
			}
		}
	}
	if g.lb == "" || g.mu == "" || g.branch == nil {
		p.report("anchor", "ctree.Tree", "no node of an arbitrary value guarded by a mutex, or no map of nodes", nil, nil)
		return nil
	}
	return g
}

func (g *treeRules) is(want string) bool { return g.want == want }

func (g *treeRules) bad(st *State, ev *Event, want, rule, name, f string, a ...any) {
	if !g.is(want) {
		return
	}
	if ev == nil {
		g.p.exitViol(st, rule, name, f, a...)
	} else {
		g.p.viol(st, ev, rule, name, f, a...)
	}
}

func (g *treeRules) ob(want, rule, name string) {
	if g.is(want) {
		g.p.ob(rule, name)
	}
}

func (g *treeRules) isNode(t types.Type) bool {
	pt, ok := under(t).(*types.Pointer)
	return ok && (types.Identical(pt.Elem(), g.node) || types.Identical(pt.Elem(), g.leaf))
}

// content of the node: as last read (its type is what the mode or the code's tests say).
func (g *treeRules) cont(st *State) *Term {
	if c := st.T["cont"]; c != nil {
		return c
	}
	return st.get(st.T["node"], g.lb)
}

func (g *treeRules) isBranch(st *State, c *Term) tri {
	if st.isNilT(c) || st.decideNil(c) == yes {
		return no
	}
	if c.op == OIface {
		if c.typ != nil && c.args[0].typ != nil && types.Identical(under(c.args[0].typ), under(g.branch)) {
			return yes
		}
		return no
	}
	return st.decide(mkTypeIs(c, g.branch))
}

func (g *treeRules) bmap(st *State, c *Term) *Term {
	if c.op == OIface {
		return c.args[0]
	}
	return mkPure("as:"+typeKey(g.branch), g.branch, c)
}

func (g *treeRules) isLeaf(st *State, c *Term) tri {
	b, n := g.isBranch(st, c), st.decideNil(c)
	if b == yes || n == yes {
		return no
	}
	if b == no && n == no {
		return yes
	}
	return unknown
}

func (g *treeRules) lockOf(st *State, n *Term) byte {
	m := byte(0)
	for _, l := range st.locks {
		if l.addr.op == OField && l.addr.args[0] == n {
			if l.mode == 'W' {
				return 'W'
			}
			m = 'R'
		}
	}
	return m
}

// childKey: n is the child of the current node under this key.
func (g *treeRules) childKey(st *State, n *Term) *Term {
	b := g.bmap(st, g.cont(st))
	if n.op == OLoad && n.args[0].op == OMapElem && n.args[0].args[0] == b {
		return n.args[0].args[1]
	}
	if k := st.T["k"]; k != nil && at(st, b, k) == n {
		return k
	}
	if l := st.T["path"]; l != nil {
		if e := st.elem(l, 0, types.Typ[types.String]); at(st, b, e) == n {
			return e
		}
	}
	return nil
}

// nodeOf: the node a guarded access belongs to.
func (g *treeRules) nodeOf(st *State, ev *Event) *Term {
	switch ev.kind {
	case EvLoad, EvStore:
		if ev.addr != nil && ev.addr.op == OField && lastPart(ev.name) == g.lb && (strings.HasPrefix(ev.name, "ctree.Tree.") || strings.HasPrefix(ev.name, "ctree.Leaf.")) {
			return ev.addr.args[0]
		}
	case EvMapGet, EvMapSet, EvMapDel, EvRange:
		m := ev.args[0]
		if m.typ == nil || !types.Identical(under(m.typ), under(g.branch)) {
			return nil
		}
		if f, b := asOf(m).loadedField(); b != nil && lastPart(f) == g.lb {
			return b
		}
		if n := st.T["mo"+itoa(m.id)]; n != nil && n.op != OOld {
			return n
		}
	}
	return nil
}

func (g *treeRules) locks(st *State, ev *Event, name string) {
	if ev.kind == EvUnlock {
		if ev.ok == no && lastPart(ev.name) == g.mu {
			g.bad(st, ev, "lock", "balanced", name, "unlocks a node that is not locked")
		}
		return
	}
	if ev.kind == EvLock {
		if ev.addr.op != OField || lastPart(ev.name) != g.mu {
			return
		}
		n := ev.addr.args[0]
		g.ob("lock", "lock-order", name)
		for _, l := range st.locks {
			if l.addr == ev.addr {
				g.bad(st, ev, "lock", "lock-twice", name, "locks a node it has locked already: with a writer waiting in between this never returns")
				return
			}
		}
		if len(st.locks) > 0 && n == st.T["node"] {
			g.bad(st, ev, "lock", "lock-order", name, "locks a node while holding the lock of one below it")
		}
		return
	}
	n := g.nodeOf(st, ev)
	if n == nil || rootAlloc(n) != nil {
		return
	}
	g.ob("lock", "guarded", name)
	m := g.lockOf(st, n)
	write := ev.kind == EvStore || ev.kind == EvMapSet || ev.kind == EvMapDel
	if m == 0 || write && m != 'W' {
		how := "read without its lock"
		if write {
			how = "changed without its lock held for writing"
		}
		g.bad(st, ev, "lock", "guarded", name, "the content of a node is %s", how)
	}
}

type treeMode struct {
	name  string
	set   func(st *State, path *Term) *Term // assumes, returns K
	child bool                              // child K is selected
	leaf  bool                              // the node, if a leaf, is selected
	empty bool                              // the rest of the path is empty
}

func (g *treeRules) modes(glob bool) []treeMode {
	str := types.Typ[types.String]
	star := mkStr("*")
	anyK := mkOpaque("K", str, 0)
	first := func(st *State, path *Term) *Term {
		st.assume(mkLess(mkInt(0), mkLen(path), nil), true)
		return st.elem(path, 0, str)
	}
	end := treeMode{"end", func(st *State, path *Term) *Term { st.assume(mkEq(mkLen(path), mkInt(0)), true); return anyK }, glob, true, true}
	if !glob {
		return []treeMode{end,
			{"same", func(st *State, path *Term) *Term { return first(st, path) }, true, false, false},
			{"other", func(st *State, path *Term) *Term { st.assume(mkEq(first(st, path), anyK), false); return anyK }, false, false, false}}
	}
	return []treeMode{end,
		{"glob-last", func(st *State, path *Term) *Term {
			st.assume(mkEq(first(st, path), star), true)
			st.assume(mkEq(mkLen(path), mkInt(1)), true)
			return anyK
		}, true, true, false},
		{"glob", func(st *State, path *Term) *Term {
			st.assume(mkEq(first(st, path), star), true)
			st.assume(mkLess(mkInt(1), mkLen(path), nil), true)
			return anyK
		}, true, false, false},
		{"same", func(st *State, path *Term) *Term {
			e := first(st, path)
			st.assume(mkEq(e, star), false)
			return e
		}, true, false, false},
		{"other", func(st *State, path *Term) *Term {
			e := first(st, path)
			st.assume(mkEq(e, star), false)
			st.assume(mkEq(anyK, e), false)
			return anyK
		}, false, false, false},
	}
}

func (g *treeRules) witness(st *State, m *Term, mt *types.Map) []*Term {
	if isString(mt.Key()) && st.T["k"] != nil {
		return []*Term{st.T["k"]}
	}
	return nil
}

// listParts sees through make-and-copy.
func (st *State) listParts(t *Term) (ps []*Term, base *Term) {
	switch {
	case t.op == OAppend:
		ps, base = st.listParts(t.args[0])
		return append(ps[:len(ps):len(ps)], flatSpread(t.args[1:])...), base
	case t.op == OAlloc:
		b := t
		if c := st.store[contentOf(b)]; c != nil {
			return parts(c), t
		}
		if n, ok := mkLen(t).intVal(); ok {
			for i := int64(0); i < n; i++ {
				ps = append(ps, st.elem(t, i, elemType(t)))
			}
		}
		return ps, t
	case t.op == OSlice && t.args[1].isZero():
		in := t.args[0]
		full := t.args[2].op == ONil || st.decide(mkEq(t.args[2], mkLen(in))) == yes
		if c := st.store[contentOf(in)]; in.op == OAlloc && c != nil {
			if c.op != OAppend || full || st.decide(mkEq(t.args[2], mkArith(token.ADD, mkLen(c.args[0]), mkInt(int64(len(c.args)-1)), types.Typ[types.Int]))) == yes {
				return parts(c), in
			}
		}
		if in.op == OAlloc {
			if n, ok := t.args[2].intVal(); ok {
				for i := int64(0); i < n; i++ {
					ps = append(ps, st.elem(in, i, elemType(t)))
				}
				return ps, in
			}
		}
		if full {
			ps, _ = st.listParts(in)
			return ps, t
		}
	}
	return parts(t), t
}

// appendsToOwn: the list was made by appending to a list nobody else appends to.
func (g *treeRules) shared(st *State, t *Term) bool {
	b := t
	for b.op == OAppend {
		b = b.args[0]
	}
	if b == st.T["prefix"] && t.op == OAppend && st.decide(mkEq(mkLen(b), mkInt(0))) != yes && !st.isNilT(b) {
		return true
	}
	if b.op == OSlice && b.args[0] == st.T["prefix"] && t.op == OAppend {
		return b.sym != "capped" && !st.isNilT(st.T["prefix"])
	}
	if b.op == OSlice && b.sym != "capped" && b.args[0].op == OAlloc {
		b = b.args[0]
	}
	if b.op == OAlloc {
		if st.T["base"] == b {
			return true
		}
		st.SetT("base", b)
	}
	return false
}

func (g *treeRules) recursive(st *State, c *Call) bool {
	if c.fn == nil || c.fn.Pkg != g.p.ssa["ctree"] {
		return false
	}
	for _, f := range st.frames {
		if f.fn == c.fn {
			return true
		}
	}
	return false
}

// wrongChild: a path element that is no wildcard selects the child of that name.
func (g *treeRules) wrongChild(st *State, mode treeMode, key *Term) string {
	if mode.name != "same" && mode.name != "other" {
		return ""
	}
	e := st.elem(st.T["path"], 0, types.Typ[types.String])
	if key == e || st.decide(mkEq(key, e)) == yes {
		return ""
	}
	return "goes on at a child the path does not select"
}

func (g *treeRules) restOK(st *State, mode treeMode, rest *Term) bool {
	path := st.T["path"]
	switch {
	case mode.empty:
		return st.emptyList(rest) == yes
	case restOf(st, rest, path, 1):
		return true
	case mode.name == "glob-last":
		return st.emptyList(rest) == yes
	}
	return false
}

// readers: Query and the walks.
func (g *treeRules) reader(name string, op string, fn *ssa.Function, step bool) {
	p := g.p
	if fn == nil {
		return
	}
	query := op == "query"
	sorted := op == "sorted"
	modes := []treeMode{{"all", func(*State, *Term) *Term { return mkOpaque("K", types.Typ[types.String], 0) }, true, true, true}}
	if query {
		modes = g.modes(true)
	}
	var steps []*ssa.Function
	for _, mode := range modes {
		mode := mode
		r := &Rule{Witness: g.witness, Unroll: 2}
		goesOn := func(st *State, ev *Event) {
			if e := st.T["err"]; e != nil && st.decideNil(e) != yes {
				g.bad(st, ev, "map", "stop", name, "goes on although the callback may have returned an error")
			}
		}
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			ev := &Event{instr: c.instr}
			node := st.T["node"]
			if c.dyn != nil && c.fn == nil && c.dyn == st.T["visit"] {
				g.ob("map", "visit", name+" "+mode.name)
				goesOn(st, ev)
				if st.gor != "" {
					g.bad(st, ev, "lock", "own-goroutine", name, "the callback runs in a goroutine of its own: the leaf may have changed or gone")
				}
				if g.lockOf(st, node) == 0 {
					g.bad(st, ev, "lock", "visit-locked", name, "the callback is run without the leaf's lock: the value may be stale, the leaf gone")
				}
				cn := g.cont(st)
				if g.isBranch(st, cn) != no {
					g.bad(st, ev, "map", "visit", name, "a node that may be a branch is reported as a leaf")
				}
				if st.decideNil(cn) != no && (!step || query) {
					g.bad(st, ev, "map", "visit", name, "a node that may be empty is reported as a leaf")
				}
				if !mode.leaf {
					g.bad(st, ev, "map", "agree", name, "a leaf is reported although the path goes on below it")
				}
				a := c.args
				if len(a) == 3 {
					ps, _ := st.listParts(a[0])
					want := parts(st.T["prefix"])
					if !sameTerms(ps, want) {
						g.bad(st, ev, "map", "visit-path", name, "a leaf is reported under %s, not under its path", termList(ps))
					}
					if asOf(a[1]) != asOf(node) {
						g.bad(st, ev, "map", "visit", name, "%s is reported, not the leaf", a[1])
					}
					if asOf(a[2]) != asOf(cn) {
						g.bad(st, ev, "map", "visit", name, "%s is reported, not the leaf's value", a[2])
					}
				}
				st.Count("leaf")
				res := st.fresh(c.instr, "cberr", st.x.resType(c))
				st.SetT("err", res)
				return one(res), true
			}
			if g.recursive(st, c) {
				goesOn(st, ev)
				ro := g.roles[c.fn]
				if ro == nil {
					ro = g.findRoles(st, c)
					g.roles[c.fn] = ro
				}
				seen := false
				for _, f := range steps {
					seen = seen || f == c.fn
				}
				if !seen {
					steps = append(steps, c.fn)
				}
				g.descend(st, ev, c, ro, name, 'R')
				if st.gor != "" {
					g.bad(st, ev, "lock", "own-goroutine", name, "a child is visited in a goroutine of its own")
				}
				if ro.node < 0 {
					return nil, false
				}
				key := g.childKey(st, c.args[ro.node])
				g.ob("map", "visit-child", name+" "+mode.name)
				if key == nil {
					g.bad(st, ev, "map", "visit-child", name, "goes on at %s, not at a child", c.args[ro.node])
				} else {
					if m := g.wrongChild(st, mode, key); m != "" {
						g.bad(st, ev, "map", "agree", name, "%s", m)
					}
					if ro.path >= 0 && !g.restOK(st, mode, c.args[ro.path]) {
						g.bad(st, ev, "map", "agree", name, "a child is searched for %s, not for the rest of the path", c.args[ro.path])
					}
					if ro.visit >= 0 && c.args[ro.visit] != st.T["visit"] {
						g.bad(st, ev, "map", "visit-child", name, "a child is visited with another callback")
					}
					if ro.prefix >= 0 {
						ps, _ := st.listParts(c.args[ro.prefix])
						want := append(append([]*Term(nil), parts(st.T["prefix"])...), key)
						if !sameTerms(ps, want) && !vagueParts(ps) {
							g.bad(st, ev, "map", "visit-path", name, "a child is visited under %s, not under its path", termList(ps))
						}
						if g.shared(st, c.args[ro.prefix]) {
							g.bad(st, ev, "map", "path-shared", name, "the paths of two children may share their backing array: a path that was reported changes afterwards")
						}
					}
					if sorted {
						if st.R["sorted"] == "" {
							g.bad(st, ev, "map", "sorted", name, "children are visited although their names are not sorted")
						} else if l := st.T["names"]; l != nil {
							if m := st.coverNext("names", l, key); m != "" {
								g.bad(st, ev, "map", "sorted", name, "children are not visited in the order of their names: %s", m)
							}
						}
					} else if key == st.T["k"] {
						st.Count("vis")
					}
				}
				res := st.fresh(c.instr, "err", st.x.resType(c))
				st.SetT("err", res)
				return one(res), true
			}
			n := trimMod(c.name)
			switch {
			case n == "sort.Strings", strings.HasPrefix(n, "slices.Sort["), n == "slices.Sort", n == "sort.Slice", n == "sort.Sort" && strip(c.args[0]).op != OPure:
				st.Set("sorted", "1")
				st.SetT("names", strip(c.args[0]))
			case strings.HasPrefix(n, "slices.Sorted") && len(c.args) > 0:
				if a := c.args[0]; a.op == OPure && strings.Contains(a.sym, "maps.Keys") && a.args[0] == g.bmap(st, g.cont(st)) {
					res := st.fresh(c.instr, "names", st.x.resType(c))
					st.Set("sorted", "1")
					st.Set("app", "1")
					st.SetT("names", res)
					return one(res), true
				}
			case strings.HasPrefix(n, "maps.Keys") && len(c.args) > 0:
				return one(mkPure("maps.Keys", st.x.resType(c), c.args[0])), true
			}
			return nil, false
		}
		r.Event = func(st *State, ev *Event) {
			g.locks(st, ev, name)
			switch ev.kind {
			case EvEnter:
				g.stepHeld(st, ev)
			case EvLoad:
				if g.nodeOf(st, ev) == st.T["node"] && g.nodeOf(st, ev) != nil {
					st.SetT("cont", st.get(st.T["node"], g.lb))
				}
			case EvStore, EvMapSet, EvMapDel:
				if n := g.nodeOf(st, ev); n != nil && rootAlloc(n) == nil {
					g.bad(st, ev, "map", "read-only", name, "the tree is changed")
				}
			case EvAppend:
				if sorted {
					if k := st.T["k"]; k != nil && st.R["sorted"] == "" {
						if t := ev.res; t != nil && t.op == OAppend {
							for _, a := range appended(t, ev.args[0]) {
								if a == k {
									st.Count("app")
								}
							}
						}
					}
				}
			}
		}
		r.Exit = func(st *State, res []*Term) {
			if st.gor != "" {
				return
			}
			g.balanced(st, name)
			g.ob("map", "found", name+" "+mode.name)
			if e := st.T["err"]; e != nil && st.decideNil(e) != yes {
				if len(res) != 1 || res[0] != e {
					g.bad(st, nil, "map", "stop", name, "an error of the callback is not returned")
				}
				if st.decideNil(e) == no {
					return
				}
				st.assume(mkEq(e, mkNil()), true)
			}
			if len(res) == 1 && st.decideNil(res[0]) != yes {
				g.bad(st, nil, "map", "stop", name, "returns an error although the callback returned none")
			}
			cn := g.cont(st)
			lf := g.isLeaf(st, cn)
			switch l := st.R["leaf"]; {
			case l != "" && l != "1":
				g.bad(st, nil, "map", "once", name, "a leaf is reported %s times", l)
			case l == "" && mode.leaf && lf != no:
				g.bad(st, nil, "map", "found", name, "a leaf the path selects is not reported")
			}
			b := g.bmap(st, cn)
			k := st.T["k"]
			here := st.decide(has(st, b, k))
			if st.decide(mkEq(st.mapLen(b), mkInt(0))) == yes || st.decideNil(at(st, b, k)) == yes {
				here = no
			}
			if g.isBranch(st, cn) == no {
				here = no
			}
			vis := st.R["vis"]
			if sorted && here != no {
				switch {
				case st.R["app"] == "":
					g.bad(st, nil, "map", "found", name, "a child's name is left out of the sorted names")
				case st.R["app"] != "1":
					g.bad(st, nil, "map", "once", name, "a child's name is added to the sorted names %s times", st.R["app"])
				case st.R["sorted"] == "":
					g.bad(st, nil, "map", "found", name, "the children are not visited")
				case st.T["names"] != nil && !st.coverDone("names", st.T["names"]):
					g.bad(st, nil, "map", "found", name, "not every child is visited")
				}
				return
			}
			if sorted {
				return
			}
			switch {
			case vis == "" && mode.child && here != no:
				g.bad(st, nil, "map", "found", name, "a child the path selects is not visited")
			case vis != "" && !mode.child:
				g.bad(st, nil, "map", "agree", name, "a child the path does not select is visited")
			case vis != "" && vis != "1":
				g.bad(st, nil, "map", "once", name, "a child is visited %s times", vis)
			}
		}
		p.explore(r, fn, func(st *State, ps []*Term) {
			g.setup(st, fn, ps, step)
			if p := st.T["path"]; p != nil {
				st.SetT("k", mode.set(st, p))
			} else {
				st.SetT("k", mode.set(st, nil))
			}
		})
	}
	if !step {
		for _, s := range steps {
			if s != fn && !g.rooted[s] && g.roles[s] != nil && g.roles[s].prefix >= 0 {
				g.rooted[s] = true
				g.reader(name+" step", op, s, true)
			}
		}
	}
}

// appended: what the append added to the list.
func appended(t, base *Term) []*Term {
	n := 1
	if base.op == OAppend && t.args[0] != base {
		n = len(base.args)
	}
	if n > len(t.args) {
		return nil
	}
	return t.args[n:]
}

func vagueParts(ps []*Term) bool {
	for _, t := range ps {
		if vagueIdx(t) || t.op == OPure && t.sym == "spread" && t.args[0].op == OOld {
			return true
		}
	}
	return false
}

// setup names the parameters of a root.
func (g *treeRules) setup(st *State, fn *ssa.Function, ps []*Term, step bool) {
	ro := g.roles[fn]
	if !step || ro == nil {
		ro = &treeRoles{-1, -1, -1, -1}
		for i, q := range fn.Params {
			switch {
			case g.isNode(q.Type()):
				ro.node = i
			case isString2(q.Type()):
				ro.path = i
			case isFuncType(q.Type()):
				ro.visit = i
			}
		}
	}
	put := func(n string, i int) {
		if i >= 0 {
			st.SetT(n, ps[i])
		}
	}
	put("node", ro.node)
	put("path", ro.path)
	put("visit", ro.visit)
	if ro.prefix >= 0 {
		put("prefix", ro.prefix)
		st.assume(mkLess(mkInt(0), mkLen(ps[ro.prefix]), nil), true)
	} else {
		st.SetT("prefix", mkNil())
	}
	if m := g.held[fn]; m != 0 && step {
		st.Set("entry", string(m))
	}
}

// findRoles tells the rest of the path from the path so far.
func (g *treeRules) findRoles(st *State, c *Call) *treeRoles {
	ro := &treeRoles{-1, -1, -1, -1}
	path := st.T["path"]
	var lists []int
	for i, q := range c.fn.Params {
		switch {
		case g.isNode(q.Type()):
			ro.node = i
		case isString2(q.Type()):
			lists = append(lists, i)
		case isFuncType(q.Type()) && ro.visit < 0:
			ro.visit = i
		}
	}
	if path == nil {
		if len(lists) > 0 {
			ro.prefix = lists[0]
		}
		return ro
	}
	if len(lists) == 1 {
		ro.path = lists[0]
		return ro
	}
	for _, i := range lists {
		a := c.args[i]
		if a == path || a.op == OSlice && a.contains(path) || a.op == ONil {
			ro.path = i
		} else {
			ro.prefix = i
		}
	}
	return ro
}

// stepHeld notes how the node is locked when a step function starts.
func (g *treeRules) stepHeld(st *State, ev *Event) {
	if ev.fn == nil || ev.fn.Pkg != g.p.ssa["ctree"] {
		return
	}
	for i, q := range ev.fn.Params {
		if g.isNode(q.Type()) && i < len(ev.args) && ev.args[i] == st.T["node"] {
			g.held[ev.fn] = g.lockOf(st, st.T["node"])
		}
	}
}

// descend: the locks around going on at a child.
func (g *treeRules) descend(st *State, ev *Event, c *Call, ro *treeRoles, name string, min byte) {
	if ro.node < 0 {
		return
	}
	n := st.T["node"]
	ch := c.args[ro.node]
	g.ob("lock", "coupled", name)
	m := g.lockOf(st, n)
	if n == ch {
		g.bad(st, ev, "map", "visit-child", name, "goes on at the same node")
		return
	}
	if m == 0 || min == 'W' && m != 'W' {
		g.bad(st, ev, "lock", "coupled", name, "goes on at a child without the lock of its parent: a delete may run in between")
	}
	cm := g.lockOf(st, ch)
	want, known := g.held[c.fn]
	if !known {
		return
	}
	switch {
	case want == 0 && cm != 0:
		g.bad(st, ev, "lock", "lock-twice", name, "goes on at a child whose lock it holds already, and which is locked again")
	case want != 0 && cm == 0, want == 'W' && cm != 'W':
		if rootAlloc(ch) == nil {
			g.bad(st, ev, "lock", "guarded", name, "goes on at a child without its lock although the lock is taken for granted there")
		}
	}
}

func (g *treeRules) balanced(st *State, name string) {
	g.ob("lock", "balanced", name)
	if len(st.locks) > 0 {
		g.bad(st, nil, "lock", "balanced", name, "returns with a node's lock held")
	}
}

// ---- Add ----

func (g *treeRules) add() {
	p := g.p
	const name = "Add"
	fn := p.mustFn("ctree", "Tree.Add")
	if fn == nil {
		return
	}
	str := types.Typ[types.String]
	for _, end := range []bool{true, false} {
		end := end
		tag := "intermediate"
		if end {
			tag = "end"
		}
		r := &Rule{Witness: g.witness, Unroll: 2}
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			ev := &Event{instr: c.instr}
			if !g.recursive(st, c) {
				return nil, false
			}
			a := matchArgs{}
			for i, q := range c.fn.Params {
				switch {
				case g.isNode(q.Type()):
					a.node = c.args[i]
				case isString2(q.Type()):
					a.path = c.args[i]
				case !isBool(q.Type()):
					a.item = c.args[i]
				}
			}
			path := st.T["path"]
			if a.item != nil && asOf(a.item) != asOf(st.T["value"]) {
				g.bad(st, ev, "map", "stored", name, "goes on with another value")
			}
			if a.node == nil {
				// building a new branch
				off := int64(0)
				for l := a.path; l != nil && l != path && l.op == OSlice; l = l.args[0] {
					v, ok := l.args[1].intVal()
					if !ok {
						off = -1
						break
					}
					off += v
				}
				res := mkPure("built", st.x.resType(c), mkInt(off))
				st.assume(mkEq(res, mkNil()), false)
				return one(res), true
			}
			g.ob("map", "stored", "descend")
			e := st.elem(path, 0, str)
			b := g.bmap(st, g.cont(st))
			ok := a.node == st.T["new"] && st.T["new"] != nil
			if !ok && a.node == at(st, b, e) && st.decideNil(a.node) == no {
				ok = true
			}
			if !ok || a.path == nil || !restOf(st, a.path, path, 1) {
				g.bad(st, ev, "map", "stored", name, "does not go on with the rest of the path at the child for its first element")
			}
			ro := &treeRoles{-1, -1, -1, -1}
			for i, q := range c.fn.Params {
				if g.isNode(q.Type()) {
					ro.node = i
				}
			}
			g.descend(st, ev, c, ro, name, 'R')
			if st.R["rec"] != "" {
				g.bad(st, ev, "map", "stored", name, "adds below a child twice")
			}
			res := st.fresh(c.instr, "rec", st.x.resType(c))
			st.SetT("rec", res)
			st.Set("rec", "1")
			return one(res), true
		}
		r.Event = func(st *State, ev *Event) {
			g.locks(st, ev, name)
			node := st.T["node"]
			switch ev.kind {
			case EvEnter:
				g.stepHeld(st, ev)
			case EvLoad:
				if g.nodeOf(st, ev) == node && st.R["stored"] == "" && st.R["linked"] == "" && st.R["grown"] == "" {
					st.SetT("cont", st.get(node, g.lb))
				}
			case EvStore:
				n := g.nodeOf(st, ev)
				if n == nil {
					return
				}
				if n != node {
					if rootAlloc(n) == nil {
						g.bad(st, ev, "map", "others", name, "the content of another node is replaced")
					} else if m := strip(ev.val); m.op == OAlloc {
						st.SetT("mo"+itoa(m.id), n)
					}
					return
				}
				g.ob("map", "others", name+" "+tag)
				// as it is now, under the lock held now
				now := st.get(node, g.lb)
				if end {
					if g.isBranch(st, now) != no {
						g.bad(st, ev, "map", "others", name, "what may be a branch is replaced by a leaf: the leaves below it are lost")
						g.bad(st, ev, "lock", "recheck", name, "what may have become a branch meanwhile is replaced by a leaf: the leaves below it are lost")
					}
					if asOf(ev.val) != asOf(st.T["value"]) {
						g.bad(st, ev, "map", "stored", name, "%s is stored, not the value given", ev.val)
					}
					st.SetT("cont", now)
					st.Set("stored", "1")
					return
				}
				if st.decideNil(now) != yes {
					g.bad(st, ev, "map", "others", name, "content of a node that is not known to be empty is replaced: what was stored is lost")
					g.bad(st, ev, "lock", "recheck", name, "content of a node that may have got children meanwhile is replaced: what was added is lost")
				}
				m := strip(ev.val)
				if m.op != OAlloc {
					g.bad(st, ev, "map", "others", name, "an inner node becomes %s, not a branch", ev.val)
					return
				}
				st.SetT("mo"+itoa(m.id), node)
				st.SetT("cont", now)
				st.Set("grown", "1")
				e := st.elem(st.T["path"], 0, str)
				if st.decide(has(st, m, e)) == yes {
					st.SetT("new", at(st, m, e))
					st.Set("linked", "1")
				}
			case EvMapSet, EvMapDel:
				n := g.nodeOf(st, ev)
				if n != node || n == nil {
					return
				}
				if ev.kind == EvMapDel {
					g.bad(st, ev, "map", "others", name, "a child is removed")
					return
				}
				e := st.elem(st.T["path"], 0, str)
				if ev.args[1] != e && st.decide(mkEq(ev.args[1], e)) != yes {
					g.bad(st, ev, "map", "stored", name, "a child is added as %s, not for the path's first element", ev.args[1])
				}
				old := at(st, ev.args[0], ev.args[1])
				if st.decide(has(st, ev.args[0], ev.args[1])) != no && st.decideNil(old) != yes && old != ev.args[2] {
					g.bad(st, ev, "map", "others", name, "a child that may exist by now is replaced: what was stored below it is lost")
					g.bad(st, ev, "lock", "recheck", name, "a child that may have been added meanwhile is replaced: what was stored below it is lost")
				}
				g.ob("lock", "recheck", name)
				st.SetT("new", ev.args[2])
				st.Set("linked", "1")
			}
		}
		r.Exit = func(st *State, res []*Term) {
			g.balanced(st, name)
			g.ob("map", "stored", "exit "+tag)
			if len(res) != 1 {
				return
			}
			failed := st.decideNil(res[0]).not()
			cn := g.cont(st)
			if end {
				switch g.isBranch(st, cn) {
				case yes:
					if failed != yes {
						g.bad(st, nil, "map", "stored", name, "an add in place of a branch does not fail")
					}
				case no:
					if st.R["stored"] != "1" {
						g.bad(st, nil, "map", "stored", name, "the value is not stored")
					}
				default:
					if st.R["stored"] != "1" {
						g.bad(st, nil, "map", "stored", name, "the value is not stored although the node is not known to be a branch")
					}
				}
				if failed != no && st.R["stored"] != "" {
					g.bad(st, nil, "map", "atomic", name, "a failed add has changed the tree")
				}
				if failed == yes && g.isBranch(st, cn) != yes {
					g.bad(st, nil, "map", "stored", name, "an add fails although nothing is in its way")
				}
				return
			}
			changed := st.R["grown"] != "" || st.R["linked"] != ""
			switch {
			case st.R["rec"] == "1":
				if res[0] != st.T["rec"] && st.R["linked"] == "" && !(failed == no && st.decideNil(st.T["rec"]) == yes) && !(failed == yes && st.decideNil(st.T["rec"]) == no) {
					g.bad(st, nil, "map", "stored", name, "the outcome of the add below is not returned")
				}
				if st.T["new"] != nil && st.R["linked"] == "" {
					g.bad(st, nil, "map", "stored", name, "the value is added below a node that is not in the tree")
				}
			case st.R["linked"] == "1":
				if failed != no {
					g.bad(st, nil, "map", "atomic", name, "a failed add has changed the tree")
				}
				if m := g.incomplete(st); m != "" {
					g.bad(st, nil, "map", "stored", name, "%s", m)
				}
			default:
				if changed {
					g.bad(st, nil, "map", "atomic", name, "the tree is changed without storing the value")
				}
				if failed != yes {
					g.bad(st, nil, "map", "stored", name, "returns without an error although nothing was stored")
				}
				if g.isLeaf(st, cn) != yes {
					g.bad(st, nil, "map", "stored", name, "an add fails although no leaf is in its way")
				}
			}
		}
		p.explore(r, fn, func(st *State, ps []*Term) {
			for i, q := range fn.Params {
				switch {
				case g.isNode(q.Type()):
					st.SetT("node", ps[i])
				case isString2(q.Type()):
					st.SetT("path", ps[i])
				default:
					st.SetT("value", ps[i])
					// values are the caller's: never a branch
					st.assume(mkTypeIs(ps[i], g.branch), false)
				}
			}
			st.SetT("k", st.elem(st.T["path"], 0, str))
			st.assume(mkEq(mkLen(st.T["path"]), mkInt(0)), end)
		})
	}
}

// incomplete: the new child does not lead to the value by the rest of the path.
func (g *treeRules) incomplete(st *State) string { return g.leads(st, st.T["new"], 1) }

// leads: the node holds the value under the path from its element off.
func (g *treeRules) leads(st *State, n *Term, off int64) string {
	path := st.T["path"]
	if n.op == OPure && n.sym == "built" {
		if v, ok := n.args[0].intVal(); ok && v >= 0 && v != off {
			return "the new branch does not lead along the rest of the path"
		}
		return ""
	}
	if n.op != OAlloc {
		return ""
	}
	c := st.get(n, g.lb)
	if vagueIdx(c) || c.op == OOpaque || c.op == OOld {
		return ""
	}
	ends := st.decide(mkEq(mkLen(path), mkInt(off)))
	if asOf(c) == asOf(st.T["value"]) {
		if ends == yes {
			return ""
		}
		return "the value is stored at a node although the path may go on"
	}
	m := strip(c)
	if m.op != OAlloc {
		return "the new child does not hold the value"
	}
	if ends != no {
		return "a branch is built although the path may end there"
	}
	e := st.elem(path, off, types.Typ[types.String])
	if st.decide(has(st, m, e)) != yes {
		for a := range st.store {
			if a.op == OMapOk && a.args[0] == m && vagueIdx(a.args[1]) {
				return ""
			}
		}
		return "the new branch does not lead along the rest of the path"
	}
	return g.leads(st, at(st, m, e), off+1)
}

// ---- Delete ----

func (g *treeRules) del(name string) {
	p := g.p
	fn := p.mustFn("ctree", "Tree."+name)
	if fn == nil {
		return
	}
	str := types.Typ[types.String]
	for _, mode := range g.modes(true) {
		mode := mode
		r := &Rule{Witness: g.witness, Unroll: 2}
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			ev := &Event{instr: c.instr}
			if c.dyn != nil && c.fn == nil {
				switch c.dyn {
				case st.T["condition"]:
					cn := g.cont(st)
					if len(c.args) != 1 || asOf(c.args[0]) != asOf(cn) || g.isLeaf(st, cn) != yes {
						g.bad(st, ev, "map", "condition", name, "the condition is asked about %s, not about a leaf's value", termList(c.args))
					}
					res := st.fresh(c.instr, "cond", types.Typ[types.Bool])
					st.SetT("cond", res)
					return one(res), true
				case st.T["visit"]:
					cn := g.cont(st)
					if len(c.args) != 1 || asOf(c.args[0]) != asOf(cn) || g.isLeaf(st, cn) != yes {
						g.bad(st, ev, "map", "reported", name, "%s is reported as deleted, not the leaf's value", termList(c.args))
					}
					if !mode.leaf {
						g.bad(st, ev, "map", "agree", name, "a leaf is reported as deleted although the path goes on below it")
					}
					if c := st.T["cond"]; st.T["condition"] != nil && (c == nil || st.decide(c) != yes) {
						g.bad(st, ev, "map", "condition", name, "a leaf is reported as deleted that is not known to meet the condition")
					}
					st.Count("rep")
					return one(nil), true
				}
			}
			if !g.recursive(st, c) {
				return nil, false
			}
			ro := &treeRoles{-1, -1, -1, -1}
			for i, q := range c.fn.Params {
				switch {
				case g.isNode(q.Type()):
					ro.node = i
				case isString2(q.Type()):
					ro.path = i
				case isFuncType(q.Type()):
					s := under(q.Type()).(*types.Signature)
					want := st.T["visit"]
					if s.Results().Len() == 1 {
						want = st.T["condition"]
					}
					if want != nil && c.args[i] != want {
						g.bad(st, ev, "map", "condition", name, "a child is searched with another condition or callback")
					}
				}
			}
			if ro.node < 0 || ro.path < 0 {
				return nil, false
			}
			g.ob("map", "visit-child", name+" "+mode.name)
			g.descend(st, ev, c, ro, name, 'W')
			if g.lockOf(st, c.args[ro.node]) != 'W' && g.held[c.fn] != 0 {
				g.bad(st, ev, "lock", "exclusive", name, "a node is searched for leaves to delete without its lock held for writing: an update through a leaf handle races with it")
			}
			key := g.childKey(st, c.args[ro.node])
			if key == nil {
				g.bad(st, ev, "map", "visit-child", name, "goes on at %s, not at a child", c.args[ro.node])
			} else {
				if m := g.wrongChild(st, mode, key); m != "" {
					g.bad(st, ev, "map", "agree", name, "%s", m)
				}
				if !g.restOK(st, mode, c.args[ro.path]) {
					g.bad(st, ev, "map", "agree", name, "a child is searched for %s, not for the rest of the path", c.args[ro.path])
				}
				if key == st.T["k"] {
					st.Count("vis")
				}
			}
			res := st.fresh(c.instr, "rec", st.x.resType(c))
			var flag, list *Term
			if res.op == OTuple {
				for _, a := range res.args {
					if isBool(a.typ) {
						flag = a
					} else if a.typ != nil {
						list = a
					}
				}
			} else if isBool(res.typ) {
				flag = res
			}
			g.allReported(st, ev, name)
			st.SetT("reck", key)
			st.SetT("recf", flag)
			st.SetT("recl", list)
			in := ""
			for _, f := range st.frames {
				if f.blk != nil {
					in += blockKey(f.blk)
				}
			}
			st.Set("recblk", in)
			if key == st.T["k"] && key != nil {
				st.SetT("kf", flag)
			}
			st.Set("cov.lv", "")
			return one(res), true
		}
		r.Event = func(st *State, ev *Event) {
			g.locks(st, ev, name)
			node := st.T["node"]
			switch ev.kind {
			case EvEnter:
				g.stepHeld(st, ev)
			case EvLoad:
				if g.nodeOf(st, ev) == node && st.R["cleared"] == "" {
					st.SetT("cont", st.get(node, g.lb))
				}
			case EvStore:
				n := g.nodeOf(st, ev)
				if n == nil {
					if f := st.T["recl"]; f != nil && ev.addr != nil && ev.addr.op == OIndex && ev.addr.args[0] == f {
						g.prefixed(st, ev, name, ev.val)
					}
					return
				}
				if rootAlloc(n) != nil {
					return
				}
				if n != node || st.decideNil(ev.val) != yes {
					g.bad(st, ev, "map", "others", name, "the content of a node is replaced")
					return
				}
				cn := g.cont(st)
				st.SetT("cont", cn)
				g.ob("map", "others", name+" clear")
				if !g.mayGo(st, cn, mode) {
					g.bad(st, ev, "map", "others", name, "a node is emptied that is neither a leaf to delete nor known to have no children left")
				}
				st.Set("cleared", "1")
			case EvMapSet:
				if g.nodeOf(st, ev) == node {
					g.bad(st, ev, "map", "others", name, "a child is replaced")
				}
			case EvMapDel:
				if g.nodeOf(st, ev) != node {
					return
				}
				g.ob("map", "others", name+" prune")
				if len(ev.args) < 2 || ev.what == "clear" {
					if st.decide(mkEq(st.mapLen(ev.args[0]), mkInt(0))) != yes {
						g.bad(st, ev, "map", "others", name, "all children are removed")
					}
					return
				}
				k := ev.args[1]
				if rk := st.T["reck"]; rk == nil || rk != k && st.decide(mkEq(rk, k)) != yes || st.T["recf"] == nil || st.decide(st.T["recf"]) != yes {
					g.bad(st, ev, "map", "others", name, "a child is removed that is not known to be empty: leaves are lost")
				}
				if k == st.T["k"] {
					st.Set("kdel", "1")
				}
				st.Set("del", "1")
			case EvAppend:
				// the list of deleted paths grows
				t := ev.res
				if t != nil && t.op == OAppend && len(appended(t, ev.args[0])) == 1 && isString3(t.typ) {
					if a := t.args[len(t.args)-1]; !(a.op == OPure && a.sym == "spread") {
						g.prefixed(st, ev, name, a)
					}
				}
			case EvReturn:
				g.stepReturn(st, ev, name, mode)
			}
		}
		r.Back = func(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
			settle(st)
			for b := range body {
				if strings.Contains(st.R["recblk"], blockKey(b)) {
					g.allReported(st, nil, name)
				}
			}
		}
		r.Exit = func(st *State, res []*Term) {
			g.balanced(st, name)
			g.ob("map", "deleted", name+" "+mode.name)
			cn := g.cont(st)
			cleared := st.R["cleared"] == "1"
			met := yes
			if st.T["condition"] != nil {
				met = unknown
				if c := st.T["cond"]; c != nil {
					met = st.decide(c)
				}
			}
			lf := g.isLeaf(st, cn)
			if lf != no && mode.leaf && met != no && !cleared {
				g.bad(st, nil, "map", "deleted", name, "a leaf the path selects is not deleted")
			}
			if lf != no && mode.leaf && st.T["visit"] != nil && cleared && st.R["rep"] != "1" && g.isBranch(st, cn) != yes {
				g.bad(st, nil, "map", "reported", name, "a deleted leaf is reported %s times", or0(st.R["rep"]))
			}
			if st.R["rep"] != "" && (!cleared || st.R["rep"] != "1") {
				g.bad(st, nil, "map", "reported", name, "a leaf that is kept is reported as deleted")
			}
			b := g.bmap(st, cn)
			k := st.T["k"]
			here := st.decide(st.T["k0"])
			if c := st.T["k0c"]; c != cn {
				here = unknown
			}
			if st.R["kdel"] == "" && (st.decide(has(st, b, k)) == no || st.decideNil(at(st, b, k)) == yes) {
				here = no
			}
			if g.isBranch(st, cn) == no || st.R["del"] == "" && st.decide(mkEq(st.mapLen(b), mkInt(0))) == yes {
				here = no
			}
			vis := st.R["vis"]
			switch {
			case vis == "" && mode.child && here != no:
				g.bad(st, nil, "map", "deleted", name, "a child the path selects is not searched")
			case vis != "" && !mode.child:
				g.bad(st, nil, "map", "agree", name, "a child the path does not select is searched")
			case vis != "" && vis != "1":
				g.bad(st, nil, "map", "once", name, "a child is searched %s times", vis)
			}
			settle(st)
			if vis == "1" && st.R["kdel"] == "" && st.R["kf"] != "no" {
				g.bad(st, nil, "map", "pruned", name, "a child with nothing left below it is kept: a later add there fails")
			}
			g.allReported(st, nil, name)
			if len(res) == 1 && isString3(res[0].typ) || len(res) == 1 && name != "WalkDeleted" {
				g.ob("map", "returned", name+" "+mode.name)
				ps, _ := st.listParts(res[0])
				switch {
				case lf == yes && cleared:
					if len(ps) != 1 || st.emptyList(ps[0]) != yes {
						g.bad(st, nil, "map", "returned", name, "a deleted leaf is returned as %s", termList(ps))
					}
				case st.R["cov.lv"] != "" || st.R["listed"] != "":
					if st.decideNil(res[0]) == yes {
						g.bad(st, nil, "map", "returned", name, "the leaves deleted below are not returned")
					}
				case !cleared && vis == "":
					if st.emptyList(res[0]) != yes {
						g.bad(st, nil, "map", "returned", name, "%s is returned although nothing was deleted", termList(ps))
					}
				}
			}
			if !cleared && st.R["del"] != "" && st.decide(mkEq(st.mapLen(b), mkInt(0))) != no {
				g.bad(st, nil, "map", "pruned", name, "a branch that may have lost its last child is kept: a later add there fails")
			}
		}
		p.explore(r, fn, func(st *State, ps []*Term) {
			for i, q := range fn.Params {
				switch {
				case g.isNode(q.Type()):
					st.SetT("node", ps[i])
				case isString2(q.Type()):
					st.SetT("path", ps[i])
				case isFuncType(q.Type()):
					if under(q.Type()).(*types.Signature).Results().Len() == 1 {
						st.SetT("condition", ps[i])
					} else {
						st.SetT("visit", ps[i])
					}
				}
			}
			st.SetT("prefix", mkNil())
			st.SetT("k", mode.set(st, st.T["path"]))
			st.SetT("k0", mkBool(true))
			_ = str
		})
	}
}

// settle keeps what is known about the answer for K.
func settle(st *State) {
	if f := st.T["kf"]; f != nil {
		if d := st.decide(f); d != unknown {
			if d == no {
				st.Set("kf", "no")
			}
			st.SetT("kf", nil)
		}
	}
}

func isString3(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := under(t).(*types.Slice)
	return ok && isString2(s.Elem())
}

// mayGo: the node holds nothing that must stay.
func (g *treeRules) mayGo(st *State, cn *Term, mode treeMode) bool {
	if st.decideNil(cn) == yes {
		return true
	}
	switch g.isBranch(st, cn) {
	case yes:
		return st.decide(mkEq(st.mapLen(g.bmap(st, cn)), mkInt(0))) == yes
	case no:
		if !mode.leaf {
			return false
		}
		if st.T["condition"] == nil {
			return true
		}
		c := st.T["cond"]
		return c != nil && st.decide(c) == yes
	}
	return false
}

// prefixed: a deleted path reported from below gets the child's name in front.
func (g *treeRules) prefixed(st *State, ev *Event, name string, v *Term) {
	if st.T["reck"] == nil {
		return
	}
	g.ob("map", "reported-path", name)
	ps, _ := st.listParts(v)
	ok := len(ps) == 2 && (ps[0] == st.T["reck"] || st.decide(mkEq(ps[0], st.T["reck"])) == yes) && ps[1].op == OPure && ps[1].sym == "spread"
	if ok {
		if l := st.T["recl"]; l != nil {
			if m := st.coverNext("lv", l, ps[1].args[0]); m != "" {
				g.bad(st, ev, "map", "reported-path", name, "not every leaf deleted below a child is reported: %s", m)
			}
		}
		return
	}
	if !vagueParts(ps) {
		g.bad(st, ev, "map", "reported-path", name, "a leaf deleted below a child is reported as %s, not as the child's name and its path there", termList(ps))
	}
}

// allReported: the paths of every leaf deleted below the last child searched
// have been collected, if the operation returns them.
func (g *treeRules) allReported(st *State, ev *Event, name string) {
	l := st.T["recl"]
	if l == nil || name == "WalkDeleted" {
		return
	}
	if st.R["cov.lv"] != "" {
		st.Set("listed", "1")
	}
	if st.emptyList(l) != yes && !st.coverDone("lv", l) {
		g.bad(st, ev, "map", "reported-path", name, "not every leaf deleted below a child is returned")
	}
	st.SetT("recl", nil)
}

func blockKey(b *ssa.BasicBlock) string { return b.Parent().String() + "#" + itoa(b.Index) + ";" }

// stepReturn: what the step function's answer means to its caller.
func (g *treeRules) stepReturn(st *State, ev *Event, name string, mode treeMode) {
	if ev.fn == nil || ev.fn.Pkg != g.p.ssa["ctree"] || !g.p.reaches(ev.fn, false, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() == ev.fn
	}) {
		return
	}
	for i, q := range ev.fn.Params {
		if g.isNode(q.Type()) && i < len(ev.args) && ev.args[i] != st.T["node"] {
			return
		}
	}
	v := ev.res
	var flag *Term
	if v != nil && v.op == OTuple {
		for _, a := range v.args {
			if a.typ != nil && isBool(a.typ) {
				flag = a
			}
		}
	} else if v != nil && v.typ != nil && isBool(v.typ) {
		flag = v
	}
	if flag == nil {
		return
	}
	g.ob("map", "answer", name+" "+mode.name)
	if s := st.clone(); s.assume(flag, true) {
		cn := g.cont(s)
		if !g.mayGo(s, cn, mode) {
			g.bad(st, ev, "map", "others", name, "a node asks to be removed that is neither a leaf to delete nor known to have no children left")
		}
	}
	if s := st.clone(); s.assume(flag, false) {
		cn := g.cont(s)
		lf := g.isLeaf(s, cn)
		met := yes
		if s.T["condition"] != nil {
			met = unknown
			if c := s.T["cond"]; c != nil {
				met = s.decide(c)
			}
		}
		if lf != no && mode.leaf && met != no {
			g.bad(st, ev, "map", "deleted", name, "a leaf the path selects is not deleted")
		}
		if s.R["del"] != "" && s.decide(mkEq(s.mapLen(g.bmap(s, cn)), mkInt(0))) != no {
			g.bad(st, ev, "map", "pruned", name, "a branch that may have lost its last child is kept: a later add there fails")
		}
	}
}

// ---- lookups ----

func (g *treeRules) lookups() {
	p := g.p
	str := types.Typ[types.String]
	// Get
	if fn := p.mustFn("ctree", "Tree.Get"); fn != nil {
		for _, mode := range g.modes(false) {
			mode := mode
			if mode.name == "other" {
				continue
			}
			r := &Rule{Witness: g.witness, Unroll: 2}
			r.Model = func(st *State, c *Call) ([]Outcome, bool) {
				if !g.recursive(st, c) {
					return nil, false
				}
				ev := &Event{instr: c.instr}
				ro := &treeRoles{-1, -1, -1, -1}
				for i, q := range c.fn.Params {
					if g.isNode(q.Type()) {
						ro.node = i
					} else if isString2(q.Type()) {
						ro.path = i
					}
				}
				g.ob("map", "lookup", "descend")
				g.descend(st, ev, c, ro, "Get", 'R')
				e := st.elem(st.T["path"], 0, str)
				n := c.args[ro.node]
				if n != at(st, g.bmap(st, g.cont(st)), e) || !restOf(st, c.args[ro.path], st.T["path"], 1) {
					g.bad(st, ev, "map", "lookup", "Get", "does not go on with the rest of the path at the child for its first element")
				}
				if st.decideNil(n) != no {
					g.bad(st, ev, "map", "lookup", "Get", "goes on at a child that may not exist")
				}
				res := st.fresh(c.instr, "rec", st.x.resType(c))
				st.SetT("rec", res)
				return one(res), true
			}
			r.Event = func(st *State, ev *Event) { g.readEvent(st, ev, "Get") }
			r.Exit = func(st *State, res []*Term) {
				g.balanced(st, "Get")
				g.ob("map", "lookup", "exit "+mode.name)
				if len(res) != 1 {
					return
				}
				if mode.name == "end" {
					if res[0] != st.T["node"] {
						g.bad(st, nil, "map", "lookup", "Get", "an empty path does not find the node itself")
					}
					return
				}
				if st.T["rec"] != nil {
					if res[0] != st.T["rec"] {
						g.bad(st, nil, "map", "lookup", "Get", "what was found below is not returned")
					}
					return
				}
				b := g.bmap(st, g.cont(st))
				gone := g.isBranch(st, g.cont(st)) == no || st.decide(has(st, b, st.T["k"])) == no || st.decideNil(at(st, b, st.T["k"])) == yes
				if !gone || st.decideNil(res[0]) != yes {
					g.bad(st, nil, "map", "lookup", "Get", "returns without having searched an existing child, or finds a node that does not exist")
				}
			}
			p.explore(r, fn, func(st *State, ps []*Term) {
				g.setup(st, fn, ps, false)
				st.SetT("k", mode.set(st, st.T["path"]))
			})
		}
	}
	// the rest of the lookups, with Get as what it was shown to be
	for _, name := range []string{"Tree.GetLeafValue", "Tree.GetLeaf", "Tree.IsBranch", "Tree.Value", "Tree.Children", "Leaf.Value", "Leaf.Update"} {
		name := name
		fn := p.mustFn("ctree", name)
		if fn == nil {
			continue
		}
		r := &Rule{Witness: g.witness, Unroll: 2}
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			if trimMod(c.name) == "(*ctree.Tree).Get" && c.fn != fn {
				if c.args[0] != st.T["node"] || c.args[1] != st.T["path"] {
					g.bad(st, &Event{instr: c.instr}, "map", "lookup", name, "looks up something else")
				}
				res := st.fresh(c.instr, "got", st.x.resType(c))
				st.SetT("node", res)
				st.Set("got", "1")
				nilO := Outcome{res: res, do: func(s *State) bool { return s.assume(mkEq(res, mkNil()), true) }, key: "none"}
				okO := Outcome{res: res, do: func(s *State) bool { return s.assume(mkEq(res, mkNil()), false) }, key: "got"}
				return []Outcome{nilO, okO}, true
			}
			if strings.HasPrefix(trimMod(c.name), "maps.Clone") && len(c.args) > 0 {
				return one(mkPure("maps.Clone", st.x.resType(c), c.args[0])), true
			}
			return nil, false
		}
		r.Event = func(st *State, ev *Event) {
			if ev.kind == EvStore && name == "Leaf.Update" {
				g.locks(st, ev, name)
				if n := g.nodeOf(st, ev); n != nil && n == st.T["node"] {
					if asOf(ev.val) != asOf(st.T["value"]) {
						g.bad(st, ev, "map", "lookup", name, "%s is stored, not the value given", ev.val)
					}
					st.Count("stored")
				}
				return
			}
			g.readEvent(st, ev, name)
			if ev.kind == EvMapSet && st.T["node"] != nil && g.nodeOf(st, ev) == nil && ev.args[1] == st.T["k"] {
				if ev.args[2] != at(st, g.bmap(st, g.cont(st)), st.T["k"]) {
					g.bad(st, ev, "map", "lookup", name, "a child is reported under another's name")
				}
			}
		}
		r.Exit = func(st *State, res []*Term) {
			g.balanced(st, name)
			g.ob("map", "lookup", name+" exit")
			n := st.T["node"]
			none := st.decideNil(n)
			cn := g.cont(st)
			if none == yes {
				cn = mkNil()
			}
			if name == "Leaf.Update" {
				if st.R["stored"] != "1" {
					g.bad(st, nil, "map", "lookup", name, "the value is not stored")
				}
				return
			}
			if len(res) != 1 {
				return
			}
			v := res[0]
			if st.T["cont"] == nil && none != yes && name != "Tree.GetLeaf" {
				g.bad(st, nil, "map", "lookup", name, "returns without looking at the node")
				return
			}
			isB := g.isBranch(st, cn)
			switch name {
			case "Tree.GetLeaf":
				if asOf(v) != asOf(n) && !(none == yes && st.decideNil(v) == yes) {
					g.bad(st, nil, "map", "lookup", name, "does not return the node found")
				}
			case "Leaf.Value":
				if asOf(v) != asOf(cn) {
					g.bad(st, nil, "map", "lookup", name, "does not return the leaf's value")
				}
			case "Tree.Value", "Tree.GetLeafValue":
				switch {
				case isB == yes && st.decideNil(v) != yes:
					g.bad(st, nil, "map", "lookup", name, "a branch has a value")
				case isB != yes && asOf(v) != asOf(cn) && !(st.decideNil(v) == yes && st.decideNil(cn) == yes):
					g.bad(st, nil, "map", "lookup", name, "does not return the leaf's value")
				case isB == unknown:
					g.bad(st, nil, "map", "lookup", name, "returns what may be a branch as a value")
				}
			case "Tree.IsBranch":
				if isB == unknown || st.decide(v) != isB {
					g.bad(st, nil, "map", "lookup", name, "does not tell whether the node is a branch")
				}
			case "Tree.Children":
				if isB != yes {
					if isB == unknown || st.decideNil(v) != yes {
						g.bad(st, nil, "map", "lookup", name, "a node that is no branch has children")
					}
					return
				}
				b := g.bmap(st, cn)
				if v == b {
					g.bad(st, nil, "map", "lookup", name, "the tree's own map is handed out")
					g.bad(st, nil, "lock", "guarded", name, "the tree's own map is handed out: it is read without the lock")
					return
				}
				want, got := st.decide(has(st, b, st.T["k"])), st.decide(has(st, v, st.T["k"]))
				if v.op == OPure && strings.Contains(v.sym, "maps.Clone") && v.args[0] == b {
					return
				}
				if want == unknown || got != want {
					g.bad(st, nil, "map", "lookup", name, "the children reported are not those of the node")
				}
			}
		}
		p.explore(r, fn, func(st *State, ps []*Term) {
			g.setup(st, fn, ps, false)
			for i, q := range fn.Params {
				if u, ok := under(q.Type()).(*types.Interface); ok && u.NumMethods() == 0 {
					st.SetT("value", ps[i])
				}
			}
			st.SetT("k", mkOpaque("K", str, 0))
		})
	}
}

func (g *treeRules) readEvent(st *State, ev *Event, name string) {
	g.locks(st, ev, name)
	switch ev.kind {
	case EvEnter:
		g.stepHeld(st, ev)
	case EvLoad:
		if n := g.nodeOf(st, ev); n != nil && n == st.T["node"] {
			st.SetT("cont", st.get(n, g.lb))
		}
	case EvStore, EvMapDel, EvMapSet:
		if n := g.nodeOf(st, ev); n != nil && rootAlloc(n) == nil {
			g.bad(st, ev, "map", "read-only", name, "the tree is changed")
		}
	}
}

func treeCheck(want string) func(p *Program) {
	return func(p *Program) {
		g := newTreeRules(p, want)
		if g == nil {
			return
		}
		g.reader("Query", "query", p.mustFn("ctree", "Tree.Query"), false)
		g.reader("Walk", "walk", p.mustFn("ctree", "Tree.Walk"), false)
		g.reader("WalkSorted", "sorted", p.mustFn("ctree", "Tree.WalkSorted"), false)
		g.add()
		for _, n := range []string{"Delete", "DeleteConditional", "WalkDeleted"} {
			g.del(n)
		}
		g.lookups()
		if want == "map" {
			p.need("visit", 6)
			p.need("visit-child", 12)
			p.need("found", 8)
			p.need("stored", 3)
			p.need("others", 4)
			p.need("deleted", 15)
			p.need("returned", 10)
			p.need("lookup", 8)
		} else {
			p.need("guarded", 10)
			p.need("coupled", 6)
			p.need("balanced", 10)
			p.need("lock-order", 8)
			p.need("recheck", 1)
		}
		p.closedWorld("tree-writer", []string{"ctree.Tree." + g.lb, "ctree.Leaf." + g.lb})
	}
}

func init() {
	checks["C09"] = &propCheck{run: treeCheck("map"), explanation: "Every operation of the tree is followed for an arbitrary node, an arbitrary child K and every shape of the remaining path (ended, last or earlier wildcard, naming K, naming another child); what the operation does at a child is the induction hypothesis. Queries, walks and deletes must select the same: the node itself exactly where the path ends (or ends in a wildcard), K exactly where the path names it or has a wildcard, with the rest of the path; each selected leaf is reported once under its own path and value and selected children are all visited unless the callback failed; sorted walks go through a sorted list of all names. Add stores the value at the path or fails without a change, never replaces what is not empty, and the new branch leads along the rest of the path. Delete removes a leaf exactly if it is selected and meets the condition, a child exactly if nothing is left below it, returns every deleted path once with the child's name in front, and removes nothing else. Lookups return what is stored.",
		assumptions: []string{"values stored in the tree are not of the tree's own branch type", "callbacks do not change the tree"}}
	checks["C10"] = &propCheck{run: treeCheck("lock"), explanation: "The same exploration with the locks: every access to a node's content under that node's lock, for writing where it is changed; no lock taken twice by one goroutine (also not for reading), locks only from parent to child, the parent's lock kept while an operation goes on below (lock coupling, so a delete at an ancestor excludes everything below it), what was read before a lock exchange read again before it is relied on, callbacks under the leaf's lock, every lock released on every exit, nothing handed to other goroutines. With C09 for what each critical section does, these make single-path operations atomic and deletes exclusive.",
		assumptions: []string{"callbacks and conditions do not call back into the tree", "values stored in the tree are not of the tree's own branch type"}}
}
