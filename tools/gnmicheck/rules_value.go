package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path indexing and value conversion (C19).

type valueRules struct {
	p *Program
}

// total: nothing in a conversion can panic.
func (g *valueRules) total(st *State, ev *Event, name string) {
	if ev.kind == EvSite && ev.ok == unknown && ev.what == "index" && freshCell(ev.val) && len(ev.args) == 2 && st.T["m"] != nil && ev.args[1] == st.mapLen(st.T["m"]) {
		return // a list made as long as a map, filled while ranging over it
	}
	if ev.kind == EvSite && ev.ok != yes {
		g.p.viol(st, ev, "total", name, "%s: may panic on %s", ev.what, ev.val)
	}
	if ev.kind == EvPanic && ev.what != "exit" {
		g.p.viol(st, ev, "total", name, "panics")
	}
	if ev.kind == EvSite {
		g.p.ob("total", name)
	}
}

// written: nothing but the conversion's own objects is changed.
func (g *valueRules) written(st *State, ev *Event, name string) {
	switch ev.kind {
	case EvStore:
		if ev.addr != nil && !freshCell(ev.addr) {
			g.p.viol(st, ev, "pure", name, "changes what it was given (%s)", ev.addr)
		}
	case EvMapSet, EvMapDel:
		if rootAlloc(ev.args[0]) == nil {
			g.p.viol(st, ev, "pure", name, "changes a map it was given")
		}
	}
}

// split decides the conditions both ways.
func (st *State) split(cs []*Term, f func(st *State)) {
	for i, c := range cs {
		if st.decide(c) == unknown {
			for _, v := range []bool{true, false} {
				s := st.clone()
				if s.assume(c, v) {
					s.split(cs[i+1:], f)
				}
			}
			return
		}
	}
	f(st)
}

// freshCell: part of an object made here (also a list grown in a loop).
func freshCell(a *Term) bool {
	if rootAlloc(a) != nil {
		return true
	}
	for a.op == OIndex || a.op == OField || a.op == OSlice || a.op == OAppend || a.op == OOld {
		a = a.args[0]
	}
	return a.op == OAlloc || a.op == ONil || a.op == OOpaque && strings.Contains(a.sym, "loop") && a.typ != nil && isSlice(a.typ)
}

// pointee: the type of the cell at an address.
func pointee(a *Term) types.Type {
	if a.typ != nil {
		if pt, ok := under(a.typ).(*types.Pointer); ok {
			return pt.Elem()
		}
		return a.typ
	}
	return types.Typ[types.Invalid]
}

// varargs: the store fills the hidden array of a variadic call.
func varargs(ev *Event) bool {
	s, ok := ev.instr.(*ssa.Store)
	if !ok {
		return false
	}
	if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
		if a, ok := ia.X.(*ssa.Alloc); ok {
			return a.Comment == "varargs" || a.Comment == "slicelit"
		}
	}
	return false
}

func (g *valueRules) toStrings() {
	p := g.p
	const name = "path.ToStrings"
	fn := p.mustFn("path", "ToStrings")
	if fn == nil {
		return
	}
	str := types.Typ[types.String]
	key := mkOpaque("K", str, 0)
	var pi, fi = -1, -1
	for i, q := range fn.Params {
		if _, ok := under(q.Type()).(*types.Pointer); ok {
			pi = i
		} else if isBool(q.Type()) {
			fi = i
		}
	}
	if pi < 0 || fi < 0 {
		p.report("anchor", name, "no path and no flag among the parameters", nil, nil)
		return
	}
	r := &Rule{Unroll: 2, Witness: func(st *State, m *Term, mt *types.Map) []*Term {
		if isString(mt.Key()) {
			return []*Term{key}
		}
		return nil
	}}
	bad := func(st *State, ev *Event, rule, f string, a ...any) {
		if ev == nil {
			p.exitViol(st, rule, name, f, a...)
		} else {
			p.viol(st, ev, rule, name, f, a...)
		}
	}
	// settled records what is known of the keys of the element handled last,
	// before a loop goes on.
	settled := func(st *State) {
		m := st.T["m"]
		if m == nil {
			return
		}
		if st.isNilT(m) || st.decide(mkEq(st.mapLen(m), mkInt(0))) == yes {
			st.Set("none", "1")
		}
		if st.decide(has(st, m, key)) == no {
			st.Set("gone", "1")
		}
		st.Set("all", "")
		if l := st.T["names"]; l != nil && st.coverDone("vals", l) {
			st.Set("all", "1")
		}
	}
	r.Back = func(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) { settled(st) }
	// finish checks the keys of the element handled last.
	finish := func(st *State, ev *Event) {
		m := st.T["m"]
		if m == nil {
			return
		}
		p.ob("keys", name)
		settled(st)
		switch {
		case st.R["none"] != "":
		case st.R["gone"] != "" && st.R["one"] == "":
		case st.R["one"] != "":
			if st.R["one"] != "1" || st.R["sorted"] != "" {
				bad(st, ev, "keys", "the value of a single key is added more than once")
			}
		case st.R["sorted"] == "":
			bad(st, ev, "keys", "the value of a key is left out")
		case st.R["app"] != "1":
			bad(st, ev, "keys", "the name of a key is sorted %q times", st.R["app"])
		case st.R["all"] == "":
			bad(st, ev, "keys", "the value of a key is left out")
		case st.R["sep"] != "" && st.R["joined"] == "":
			bad(st, ev, "keys", "the key values are collected but not added to the index")
		}
		for _, k := range []string{"one", "sorted", "app", "cov.vals", "sep", "joined", "none", "gone", "all"} {
			st.Set(k, "")
		}
		st.SetT("names", nil)
		st.SetT("m", nil)
		// an element that was dealt with is not looked at again
		if _, b := m.loadedField(); b != nil {
			st.dropFacts(func(t *Term) bool { return t.contains(b) })
		}
	}
	// placed: a string is put into a list.
	placed := func(st *State, ev *Event, v, list *Term) {
		pp := st.T["p"]
		v = asOf(v)
		stage := func(to, what string) {
			if st.R["stage"] >= to {
				bad(st, ev, "lead", "%s is added out of order", what)
			}
			st.Set("stage", to)
		}
		exp := func(t *Term) {
			e := st.T["exp"]
			if e == nil {
				e = mkNil()
			}
			st.SetT("exp", mkAppend(e, t))
		}
		if v.op == OPure && v.sym == "spread" {
			l := v.args[0]
			if asOf(l) == asOf(st.get(pp, "Element")) {
				stage("4", "the deprecated element list")
				return
			}
			st.Set("joined", "1")
			return
		}
		if v == key || v.op == OOpaque && strings.Contains(v.sym, "key") && v != key && st.T["m"] != nil {
			if v == key && st.R["sorted"] == "" {
				st.Count("app")
			}
			return
		}
		if f, b := v.loadedField(); f != "" {
			switch {
			case b == pp && lastPart(f) == "Target":
				stage("1", "the target")
				exp(v)
				return
			case b == pp && lastPart(f) == "Origin":
				stage("2", "the origin")
				exp(v)
				return
			case lastPart(f) == "Name" && strings.HasSuffix(f, "PathElem.Name"):
				finish(st, ev)
				g.p.ob("elems", name)
				if m := st.coverNext("elems", st.T["elems"], b); m != "" {
					bad(st, ev, "elems", "%s", m)
				}
				if st.R["stage"] == "4" {
					bad(st, ev, "elems", "both elem and the deprecated element list are indexed")
				}
				st.Set("stage", "3")
				st.SetT("m", st.get(b, "Key"))
				st.SetT("base", list)
				return
			}
		}
		if v.op == OLoad && v.args[0].op == OMapElem {
			m, k := v.args[0].args[0], v.args[0].args[1]
			if m != st.T["m"] {
				bad(st, ev, "keys", "the value of another element's key is added")
				return
			}
			if l := st.T["names"]; l != nil && st.R["sorted"] != "" {
				if msg := st.coverNext("vals", l, k); msg != "" {
					bad(st, ev, "keys", "key values are not ordered by key name: %s", msg)
				}
				if b := st.T["base"]; b != nil && list != nil && rootOf(b).op == OAlloc && rootOf(list).op == OAlloc && rootOf(b) != rootOf(list) {
					st.Set("sep", "1")
				}
				return
			}
			if !st.proves(mkEq(st.mapLen(m), mkInt(1)), true) {
				bad(st, ev, "keys", "key values are added in map order")
			}
			st.Count("one")
			return
		}
		if v.op == OLoad && v.args[0].op == OIndex && v.args[0].args[0] == st.get(pp, "Element") {
			if st.R["stage"] == "3" {
				bad(st, ev, "elems", "both elem and the deprecated element list are indexed")
			}
			st.Set("stage", "4")
			if m := st.coverNext("element", st.get(pp, "Element"), v); m != "" {
				bad(st, ev, "elems", "%s", m)
			}
			return
		}
		if s, ok := v.strVal(); ok && s == "" && st.R["stage"] <= "3" {
			// a nil element
			finish(st, ev)
			i := int64(0)
			if st.R["cov.elems"] == "1" {
				i = 1
			}
			if c := st.R["cov.elems"]; c == "" || c == "1" {
				if !st.isNilT(st.elem(st.T["elems"], i, elemType(st.T["elems"]))) {
					bad(st, ev, "elems", "an empty string is added for an element that has a name")
				}
			}
			st.coverNext("elems", st.T["elems"], nil)
			st.Set("stage", "3")
			return
		}
		if v.op == OOpaque || v.op == OOld || v.op == OLoad && v.args[0].op == OIndex {
			return // taken from a list that was checked when it was filled
		}
		bad(st, ev, "elems", "%s is added, which is no part of the path", v)
	}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		n := trimMod(c.name)
		sorted := func(l *Term) {
			if st.R["cov.vals"] != "" {
				bad(st, &Event{instr: c.instr}, "keys", "the keys are sorted after values were added")
			}
			st.Set("sorted", "1")
			st.SetT("names", l)
		}
		switch {
		case n == "sort.Strings", strings.HasPrefix(n, "slices.Sort["), n == "slices.Sort", n == "sort.Sort" && strip(c.args[0]).op != OPure:
			sorted(strip(c.args[0]))
		case n == "sort.Slice" || n == "sort.SliceStable" || strings.HasPrefix(n, "slices.SortFunc") || strings.HasPrefix(n, "slices.SortStableFunc"):
			if lessOrder(c.args[1]) {
				sorted(strip(c.args[0]))
			}
		case (n == "slices.Sorted" || strings.HasPrefix(n, "slices.Sorted[")) && len(c.args) > 0:
			if a := c.args[0]; a.op == OPure && strings.Contains(a.sym, "maps.Keys") && a.args[0] == st.T["m"] {
				res := st.fresh(c.instr, "names", st.x.resType(c))
				sorted(res)
				st.Set("app", "1")
				st.assume(mkEq(mkLen(res), st.mapLen(a.args[0])), true)
				return one(res), true
			}
		case strings.HasPrefix(n, "maps.Keys") && len(c.args) > 0:
			return one(mkPure("maps.Keys", st.x.resType(c), c.args[0])), true
		}
		return nil, false
	}
	r.Event = func(st *State, ev *Event) {
		g.total(st, ev, name)
		g.written(st, ev, name)
		switch ev.kind {
		case EvAppend:
			if t := ev.res; t != nil && isString2(t.typ) {
				for _, a := range appended(t, ev.args[0]) {
					placed(st, ev, a, ev.args[0])
				}
			}
		case EvStore:
			if a := ev.addr; a != nil && a.op == OIndex && freshCell(a) && isString(pointee(a)) && !varargs(ev) {
				placed(st, ev, ev.val, a.args[0])
			}
		case EvCall:
			if ev.name == "builtin:copy" && isString2(ev.args[1].typ) {
				placed(st, ev, spread(ev.args[1]), ev.args[0])
			}
		}
	}
	r.Exit = func(st *State, res []*Term) {
		finish(st, nil)
		pp, flag := st.T["p"], st.T["flag"]
		if len(res) != 1 {
			return
		}
		if st.isNilT(pp) {
			if st.emptyList(res[0]) != yes {
				bad(st, nil, "elems", "a nil path has a non-empty index")
			}
			return
		}
		p.ob("exit", name)
		target, origin := st.get(pp, "Target"), st.get(pp, "Origin")
		elems, old := st.T["elems"], st.get(pp, "Element")
		empty := mkStr("")
		st.split([]*Term{flag, mkEq(target, empty), mkEq(origin, empty)}, func(s *State) {
			var want []*Term
			if s.decide(flag) == yes && s.decide(mkEq(target, empty)) == no {
				want = append(want, target)
			}
			if s.decide(flag) == yes && s.decide(mkEq(origin, empty)) == no {
				want = append(want, origin)
			}
			if s.decide(mkEq(mkLen(elems), mkInt(0))) == yes {
				if s.R["stage"] != "4" && s.emptyList(old) != yes || s.R["cov.element"] != "" && !s.coverDone("element", old) {
					bad(s, nil, "elems", "the deprecated element list is left out")
				}
			} else {
				if s.R["cov.elems"] == "" {
					bad(s, nil, "elems", "elements are left out")
				} else if !s.coverDone("elems", elems) {
					bad(s, nil, "elems", "not every element is indexed")
				}
			}
			lead := 0
			for _, t := range parts(expOf(s)) {
				if t == target || t == origin {
					if lead >= len(want) || want[lead] != t {
						bad(s, nil, "lead", "%s leads the index although it was not asked for, is empty or out of order", t)
						return
					}
					lead++
				}
			}
			if lead != len(want) {
				bad(s, nil, "lead", "%s does not lead the index", want[lead])
			}
			// the result itself, as far as it is known exactly
			ps, _ := s.listParts(res[0])
			if c := s.R["cov.elems"]; c == "3" || s.R["cov.element"] == "3" || vagueParts(ps) {
				return
			}
			for _, t := range ps {
				if t.op == OPure && t.sym == "spread" && (t.args[0].op == OOpaque || t.args[0].op == OOld) {
					return
				}
			}
			n := 0
			if c := s.R["cov.elems"]; c != "" {
				n = atoi(c)
			}
			for i := 0; i < n; i++ {
				want = append(want, s.get(s.elem(elems, int64(i), elemType(elems)), "Name"))
			}
			i := 0
			for _, t := range ps {
				if i < len(want) && t == want[i] {
					i++
				} else if i < lead || i == 0 && n > 0 {
					bad(s, nil, "elems", "the index starts with %s", t)
					return
				}
			}
			if i < len(want) {
				bad(s, nil, "elems", "%s does not reach the index", want[i])
			}
		})
	}
	// every way to lead the index with a short path, every path with two ways
	for _, mode := range []string{"lead", "asked", "plain"} {
		mode := mode
		p.explore(r, fn, func(st *State, ps []*Term) {
			pp := ps[pi]
			st.SetT("p", pp)
			st.SetT("flag", ps[fi])
			st.SetT("k", key)
			elems := st.get(pp, "Elem")
			st.SetT("elems", elems)
			st.SetT("old", st.get(pp, "Element"))
			switch mode {
			case "lead":
				st.assume(mkLess(mkInt(1), mkLen(elems), nil), false)
			case "asked":
				st.assume(mkEq(pp, mkNil()), false)
				st.assume(mkLess(mkInt(0), mkLen(elems), nil), true)
				st.assume(ps[fi], true)
				st.assume(mkEq(st.get(pp, "Target"), mkStr("")), false)
				st.assume(mkEq(st.get(pp, "Origin"), mkStr("")), true)
			case "plain":
				st.assume(mkEq(pp, mkNil()), false)
				st.assume(mkLess(mkInt(0), mkLen(elems), nil), true)
				st.assume(ps[fi], false)
			}
		})
	}
}

func expOf(st *State) *Term {
	if e := st.T["exp"]; e != nil {
		return e
	}
	return mkNil()
}

// rootOf: what a list was sliced or grown from.
func rootOf(t *Term) *Term {
	for t.op == OSlice || t.op == OAppend {
		t = t.args[0]
	}
	return t
}

// lessOrder: the comparison function orders by the elements themselves.
func lessOrder(t *Term) bool {
	t = strip(t)
	var fn *ssa.Function
	if t.fn != nil {
		fn = t.fn
	}
	if fn == nil {
		return false
	}
	switch n := fname(fn); {
	case strings.HasPrefix(n, "strings.Compare"), strings.HasPrefix(n, "cmp.Compare"):
		return true
	}
	// x[i] < x[j], or a compare function on (a, b)
	param := func(v ssa.Value) int {
		switch u := v.(type) {
		case *ssa.UnOp:
			if ia, ok := u.X.(*ssa.IndexAddr); ok && u.Op == token.MUL {
				v = ia.Index
			}
		}
		for i, q := range fn.Params {
			if v == q {
				return i
			}
		}
		return -1
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				if in.Op == token.LSS && param(in.X) == 0 && param(in.Y) == 1 || in.Op == token.GTR && param(in.X) == 1 && param(in.Y) == 0 {
					return true
				}
			case *ssa.Call:
				if c := in.Call.StaticCallee(); c != nil && len(in.Call.Args) == 2 {
					if n := fname(c); (strings.HasPrefix(n, "strings.Compare") || strings.HasPrefix(n, "cmp.Compare")) && param(in.Call.Args[0]) == 0 && param(in.Call.Args[1]) == 1 {
						return true
					}
				}
			}
		}
	}
	return false
}

func (g *valueRules) completePath() {
	p := g.p
	const name = "path.CompletePath"
	fn := p.mustFn("path", "CompletePath")
	to := p.mustFn("path", "ToStrings")
	if fn == nil || to == nil {
		return
	}
	r := &Rule{Unroll: 2}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		if c.fn != to {
			return nil, false
		}
		var a *Term
		for i, q := range to.Params {
			if isBool(q.Type()) {
				if st.decide(c.args[i]) != no {
					p.viol(st, &Event{instr: c.instr}, "join", name, "target and origin may be part of the index")
				}
			} else {
				a = c.args[i]
			}
		}
		t := mkPure("idx", st.x.resType(c), a)
		if st.isNilT(a) {
			st.assume(mkEq(mkLen(t), mkInt(0)), true)
		}
		return one(t), true
	}
	r.Event = func(st *State, ev *Event) {
		g.total(st, ev, name)
		g.written(st, ev, name)
	}
	r.Exit = func(st *State, res []*Term) {
		if len(res) != 2 {
			return
		}
		p.ob("join", name)
		pre, pa := st.T["pre"], st.T["path"]
		rt := fn.Signature.Results().At(0).Type()
		ip, iq := mkPure("idx", rt, pre), mkPure("idx", rt, pa)
		o1, o2, empty := st.get(pre, "Origin"), st.get(pa, "Origin"), mkStr("")
		none := mkEq(mkLen(ip), mkInt(0))
		st.split([]*Term{mkEq(o1, empty), mkEq(o2, empty), none}, func(s *State) {
			e1, e2 := s.decide(mkEq(o1, empty)) == no, s.decide(mkEq(o2, empty)) == no
			fail := e1 && e2 || e2 && s.decide(none) == no
			if fail {
				if s.decideNil(res[1]) != no {
					p.exitViol(s, "conflict", name, "prefix and path whose origins conflict are combined")
				}
				return
			}
			if s.decideNil(res[1]) != yes {
				p.exitViol(s, "conflict", name, "prefix and path are rejected although their origins do not conflict")
				return
			}
			var want, got []*Term
			if e1 {
				want = append(want, o1)
			}
			if e2 {
				want = append(want, o2)
			}
			want = append(want, spread(ip), spread(iq))
			keep := func(ts []*Term) (o []*Term) {
				for _, t := range ts {
					if t.op == OPure && t.sym == "spread" && s.decide(mkEq(mkLen(t.args[0]), mkInt(0))) == yes {
						continue
					}
					o = append(o, t)
				}
				return
			}
			ps, _ := s.listParts(res[0])
			for i, t := range ps {
				// one of two strings of which the other is empty
				if t.op == OPure && t.sym == "concat" && len(t.args) == 2 {
					if s.decide(mkEq(t.args[0], empty)) == yes {
						ps[i] = t.args[1]
					} else if s.decide(mkEq(t.args[1], empty)) == yes {
						ps[i] = t.args[0]
					}
				}
			}
			want, got = keep(want), keep(ps)
			if !sameTerms(want, got) {
				p.exitViol(s, "join", name, "the result is %s, not %s", termList(got), termList(want))
			}
		})
	}
	p.explore(r, fn, func(st *State, ps []*Term) {
		st.SetT("pre", ps[0])
		st.SetT("path", ps[1])
		// nil paths have an empty index
	})
}

func (g *valueRules) query() {
	p := g.p
	const name = "client/gnmi subscribe"
	fn := p.mustFn("client/gnmi", "subscribe")
	if fn == nil {
		return
	}
	qi := 0
	r := &Rule{Unroll: 2}
	list := func(st *State, q *Term) []*Term {
		// elements of a query, if their number is known
		for n := int64(0); n <= 2; n++ {
			if st.proves(mkEq(mkLen(q), mkInt(n)), true) {
				ts := []*Term{}
				for i := int64(0); i < n; i++ {
					ts = append(ts, st.elem(q, i, types.Typ[types.String]))
				}
				return ts
			}
		}
		return nil
	}
	esc := func(e *Term) *Term { return mkPure("esc", types.Typ[types.String], e) }
	elemOf := func(t *Term) *Term { // the query an element is taken from
		if t.op == OLoad && t.args[0].op == OIndex {
			return t.args[0].args[0]
		}
		return nil
	}
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		ev := &Event{instr: c.instr}
		isC := func(t *Term, s string) bool { v, ok := t.strVal(); return ok && v == s }
		switch {
		case c.name == "strings.Replace" && isC(c.args[1], "/") && isC(c.args[2], "\\/"):
			if n, ok := c.args[3].intVal(); ok && n < 0 {
				return one(esc(c.args[0])), true
			}
		case c.name == "strings.ReplaceAll" && isC(c.args[1], "/") && isC(c.args[2], "\\/"):
			return one(esc(c.args[0])), true
		case c.name == "strings.NewReplacer":
			ps, _ := st.listParts(c.args[0])
			if len(ps) == 2 && isC(ps[0], "/") && isC(ps[1], "\\/") {
				res := st.fresh(c.instr, "replacer", st.x.resType(c))
				st.SetT("replacer", res)
				return one(res), true
			}
		case c.name == "(*strings.Replacer).Replace":
			if c.args[0] == st.T["replacer"] {
				return one(esc(c.args[1])), true
			}
		case c.name == "strings.Join":
			if !isC(c.args[1], "/") {
				p.viol(st, ev, "query", name, "elements are joined with %s", c.args[1])
			}
			l := c.args[0]
			if !freshCell(l) && st.emptyList(l) != yes {
				p.viol(st, ev, "query", name, "the elements of %s are sent without being escaped", l)
			}
			ps, _ := st.listParts(l)
			return one(mkPure("join", st.x.resType(c), ps...)), true
		case strings.HasSuffix(c.name, "ygot.StringToPath"):
			g.p.ob("query", name)
			ps, _ := st.listParts(c.args[1])
			if len(ps) == 0 {
				p.viol(st, ev, "query", name, "no path encoding is asked for")
			}
			s := c.args[0]
			q := st.T["q"]
			i := int64(0)
			cov := st.R["cov.queries"]
			if cov == "1" {
				i = 1
			}
			var qq *Term
			if cov == "" || cov == "1" {
				qq = st.elem(q, i, elemType(q))
			}
			es := s.args
			if s.op != OPure || s.sym != "join" {
				p.viol(st, ev, "query", name, "%s is parsed as the query path", s)
			} else {
				exact := qq != nil
				for _, e := range es {
					if vagueParts([]*Term{e}) || e.op == OOpaque || vagueIdx(e) || e.op == OPure && e.sym == "spread" {
						exact = false
					}
				}
				if qq == nil && len(es) > 0 && es[0].op == OPure && es[0].sym == "esc" {
					qq = elemOf(es[0].args[0])
				}
				if qq != nil {
					if w := list(st, qq); w != nil && exact {
						for j := range w {
							w[j] = esc(w[j])
						}
						if !sameTerms(w, es) {
							p.viol(st, ev, "query", name, "the query %s is sent as %s: elements are lost, changed or not escaped", termList(w), termList(es))
						}
					} else if st.R["cov.elems"] != "" && !st.coverDone("elems", qq) {
						p.viol(st, ev, "query", name, "elements of the query are left out or not escaped")
					} else if st.R["cov.elems"] == "" && !st.proves(mkEq(mkLen(qq), mkInt(0)), true) {
						p.viol(st, ev, "query", name, "elements of the query are left out or not escaped")
					}
				}
			}
			if m := st.coverNext("queries", q, qq); m != "" {
				p.viol(st, ev, "query", name, "%s", m)
			}
			st.Set("cov.elems", "")
			rt := st.x.resType(c).(*types.Tuple)
			path := st.fresh(c.instr, "parsed", rt.At(0).Type())
			err := st.fresh(c.instr, "err", rt.At(1).Type())
			st.SetT("parsed", path)
			st.SetT("err", err)
			return []Outcome{
				{res: mkTuple(path, mkNil()), do: func(s *State) bool { return s.assume(mkEq(path, mkNil()), false) }, key: "ok"},
				{res: mkTuple(mkNil(), err), do: func(s *State) bool { s.Set("failed", "1"); return s.assume(mkEq(err, mkNil()), false) }, key: "err"},
			}, true
		}
		return nil, false
	}
	r.Event = func(st *State, ev *Event) {
		g.total(st, ev, name)
		g.written(st, ev, name)
		el := func(v *Term, at *Term) {
			if v.op == OPure && v.sym == "esc" && isString(v.args[0].typ) {
				q := elemOf(v.args[0])
				if q == nil {
					return
				}
				if at != nil && v.args[0].args[0].args[1] != at {
					p.viol(st, ev, "query", name, "an element changes its place in the path")
				}
				if m := st.coverNext("elems", q, v.args[0]); m != "" {
					p.viol(st, ev, "query", name, "%s", m)
				}
			} else if isString(v.typ) && elemOf(v) != nil {
				if st.R["failed"] == "" && !isString2(elemOf(v).typ) {
					return
				}
			}
		}
		switch ev.kind {
		case EvStore:
			if a := ev.addr; a != nil && a.op == OIndex && freshCell(a) && isString(pointee(a)) && !varargs(ev) {
				el(asOf(ev.val), a.args[1])
			}
		case EvAppend:
			if t := ev.res; t != nil && isString2(t.typ) {
				for _, a := range appended(t, ev.args[0]) {
					el(asOf(a), nil)
				}
			}
			if t := ev.res; t != nil && t.op == OAppend && !isString2(t.typ) {
				for _, a := range appended(t, ev.args[0]) {
					if pt := st.get(a, "Path"); pt.op != ONil {
						if asOf(pt) != asOf(st.T["parsed"]) {
							p.viol(st, ev, "query", name, "%s is subscribed to, not the query's path", pt)
						}
						st.coverNext("subs", st.T["q"], nil)
					}
				}
			}
		}
		if ev.kind == EvStore && ev.addr.op == OIndex && rootAlloc(ev.addr) != nil && !isString(pointee(ev.addr)) && !varargs(ev) {
			if pt := st.get(strip(ev.val), "Path"); pt.op != ONil {
				if asOf(pt) != asOf(st.T["parsed"]) {
					p.viol(st, ev, "query", name, "%s is subscribed to, not the query's path", pt)
				}
				st.coverNext("subs", st.T["q"], nil)
			}
		}
	}
	r.Exit = func(st *State, res []*Term) {
		if len(res) != 2 {
			return
		}
		g.p.ob("request", name)
		if st.R["failed"] != "" {
			if st.decideNil(res[1]) != no {
				p.exitViol(st, "query", name, "a path that cannot be parsed is not reported")
			}
			return
		}
		if st.decideNil(res[1]) != yes {
			p.exitViol(st, "query", name, "an error is returned for a query whose paths are all well-formed")
			return
		}
		q := st.T["q"]
		if !st.coverDone("queries", q) || !st.coverDone("subs", q) || st.R["cov.queries"] != st.R["cov.subs"] {
			p.exitViol(st, "query", name, "not every path of the query is subscribed to once")
		}
		// the request
		w := st.get(res[0], "Request")
		sl := st.get(strip(w), "Subscribe")
		if sl.op == ONil {
			p.exitViol(st, "request", name, "the request carries no subscription list")
			return
		}
		pre := st.get(sl, "Prefix")
		if tg := st.get(pre, "Target"); asOf(tg) != asOf(st.T["target"]) {
			p.exitViol(st, "request", name, "the target asked for is %s, not the query's", tg)
		}
		for _, f := range []string{"Elem", "Element", "Origin"} {
			v := st.get(pre, f)
			if s, ok := v.strVal(); ok && s == "" || st.isNilT(v) || st.decideNil(v) == yes || v.op == OZero {
				continue
			}
			p.exitViol(st, "request", name, "the prefix of the request carries %s", f)
		}
		if e := st.get(sl, "Encoding"); e != st.T["encoding"] {
			p.exitViol(st, "request", name, "the encoding asked for is %s, not the query's", e)
		}
		st.split([]*Term{st.T["uo"]}, func(s *State) {
			if b := s.get(sl, "UpdatesOnly"); s.decide(b) != s.decide(s.T["uo"]) {
				p.exitViol(s, "request", name, "updates_only is %s, not what the query says", b)
			}
		})
		mode := st.get(sl, "Mode")
		for _, m := range []struct{ q, w string }{{"Once", "SubscriptionList_ONCE"}, {"Poll", "SubscriptionList_POLL"}, {"Stream", "SubscriptionList_STREAM"}} {
			s := st.clone()
			qc, wc := p.constInt("client", m.q), p.constInt("proto/gnmi", m.w)
			if qc == nil || wc == nil {
				continue
			}
			if s.assume(mkEq(st.T["type"], qc), true) && s.decide(mkEq(mode, wc)) != yes {
				p.exitViol(s, "request", name, "a query of type %s is sent with mode %s", m.q, mode)
			}
		}
	}
	p.explore(r, fn, func(st *State, ps []*Term) {
		q := ps[qi]
		f := func(n string) *Term { return st.fieldOf(q, n) }
		st.SetT("q", f("Queries"))
		st.SetT("target", f("Target"))
		st.SetT("encoding", f("Encoding"))
		st.SetT("uo", f("UpdatesOnly"))
		st.SetT("type", f("Type"))
	})
}

// fieldOf reads a field of a struct value.
func (st *State) fieldOf(v *Term, name string) *Term {
	s := structOf(v.typ)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkFieldVal(v, s, i)
		}
		if s.Field(i).Embedded() {
			if t := st.fieldOf(mkFieldVal(v, s, i), name); t.op != ONil {
				return t
			}
		}
	}
	return mkNil()
}

func (p *Program) constInt(pkg, name string) *Term {
	if sp := p.ssa[pkg]; sp != nil {
		if c := sp.Const(name); c != nil && c.Value.Value != nil {
			return mkConst(c.Value.Value, c.Value.Type())
		}
	}
	p.report("anchor", pkg+"."+name, "the constant this property is anchored at no longer exists", nil, nil)
	return nil
}

// arms of TypedValue: wrapper type by name of its field.
func (g *valueRules) arms() map[string]types.Type {
	o := map[string]types.Type{}
	sp := g.p.ssa["proto/gnmi"]
	if sp == nil {
		return o
	}
	for n, m := range sp.Members {
		if t, ok := m.(*ssa.Type); ok && strings.HasPrefix(n, "TypedValue_") {
			if s := structOf(t.Type()); s != nil && s.NumFields() == 1 {
				o[s.Field(0).Name()] = types.NewPointer(t.Type())
			}
		}
	}
	return o
}

var errorType = types.Universe.Lookup("error").Type()

// typed reads arm and payload of a TypedValue that was just built.
func (g *valueRules) typed(st *State, tv *Term) (arm string, payload *Term) {
	w := strip(st.get(tv, "Value"))
	if w.op == OIface {
		w = w.args[0]
	}
	if w.typ == nil {
		return "", nil
	}
	pt, ok := under(w.typ).(*types.Pointer)
	if !ok {
		return "", nil
	}
	s := structOf(pt.Elem())
	if s == nil || s.NumFields() != 1 {
		return "", nil
	}
	return s.Field(0).Name(), st.get(w, s.Field(0).Name())
}

// widened: v, or v converted without loss.
func widened(t, v *Term) bool {
	for t.op == OConv && t.sym == "float32>float64" {
		t = t.args[0]
	}
	return asOf(t) == asOf(v)
}

func (g *valueRules) fromScalar() {
	p := g.p
	const name = "value.FromScalar"
	fn := p.mustFn("value", "FromScalar")
	if fn == nil {
		return
	}
	B := func(k types.BasicKind) types.Type { return types.Typ[k] }
	anyT := types.NewInterfaceType(nil, nil)
	cases := []struct {
		t    types.Type
		arm  string
		what string
	}{
		{B(types.String), "StringVal", ""}, {B(types.Bool), "BoolVal", ""},
		{B(types.Int), "IntVal", ""}, {B(types.Int8), "IntVal", ""}, {B(types.Int16), "IntVal", ""}, {B(types.Int32), "IntVal", ""}, {B(types.Int64), "IntVal", ""},
		{B(types.Uint), "UintVal", ""}, {B(types.Uint8), "UintVal", ""}, {B(types.Uint16), "UintVal", ""}, {B(types.Uint32), "UintVal", ""}, {B(types.Uint64), "UintVal", ""},
		{B(types.Float32), "DoubleVal", "float"}, {B(types.Float64), "DoubleVal", "float"},
		{types.NewSlice(types.Universe.Lookup("byte").Type()), "BytesVal", ""},
		{types.NewSlice(B(types.String)), "LeaflistVal", "strings"},
		{types.NewSlice(anyT), "LeaflistVal", "anys"},
		{nil, "", ""},
	}
	for _, c := range cases {
		c := c
		var val *Term
		tn := "nil"
		if c.t != nil {
			tn = types.TypeString(c.t, nil)
		}
		r := &Rule{Unroll: 2}
		r.Model = func(st *State, cl *Call) ([]Outcome, bool) {
			if cl.fn == fn {
				rt := st.x.resType(cl).(*types.Tuple)
				v := mkPure("fromscalar", rt.At(0).Type(), cl.args[0])
				err := st.fresh(cl.instr, "err", rt.At(1).Type())
				st.SetT("err", err)
				return []Outcome{
					{res: mkTuple(v, mkNil()), do: func(s *State) bool { return s.assume(mkEq(v, mkNil()), false) }, key: "ok"},
					{res: mkTuple(mkNil(), err), do: func(s *State) bool { s.Set("failed", "1"); return s.assume(mkEq(err, mkNil()), false) }, key: "err"},
				}, true
			}
			return nil, false
		}
		elem := func(st *State, ev *Event, v, at *Term) {
			v = strip(v)
			if st.isNilT(v) || v.op == ONil || st.R["failed"] != "" {
				return
			}
			var e *Term
			if v.op == OPure && v.sym == "fromscalar" {
				e = v.args[0]
				if e.op == OIface {
					e = e.args[0]
				}
			} else {
				var arm string
				arm, e = g.typed(st, v)
				if arm != "StringVal" {
					p.viol(st, ev, "faithful", name, "an element of a list becomes %s", arm)
					return
				}
			}
			e = asOf(e)
			if !(e.op == OLoad && e.args[0].op == OIndex && e.args[0].args[0] == st.T["v"]) {
				p.viol(st, ev, "faithful", name, "%s is made an element, which is none of the list", e)
				return
			}
			if at != nil && at != e.args[0].args[1] {
				p.viol(st, ev, "faithful", name, "an element changes its place")
			}
			if m := st.coverNext("el", st.T["v"], e); m != "" {
				p.viol(st, ev, "faithful", name, "%s", m)
			}
		}
		r.Event = func(st *State, ev *Event) {
			g.total(st, ev, name)
			g.written(st, ev, name)
			g.lists(st, ev, "TypedValue", elem)
		}
		r.Exit = func(st *State, res []*Term) {
			if len(res) != 2 {
				return
			}
			p.ob("faithful", name+" "+tn)
			ok := st.decideNil(res[1])
			if c.t == nil {
				if ok != no {
					p.exitViol(st, "faithful", name, "nil is converted")
				}
				return
			}
			if st.R["failed"] != "" {
				if ok != no {
					p.exitViol(st, "faithful", name, "an element that cannot be converted is not reported")
				}
				return
			}
			if ok != yes {
				valid := mkPure("unicode/utf8.ValidString", types.Typ[types.Bool], st.T["v"])
				if c.what == "strings" || st.decide(valid) == no {
					return
				}
				p.exitViol(st, "faithful", name, "a %s is rejected", tn)
				return
			}
			arm, pl := g.typed(st, res[0])
			if arm != c.arm {
				p.exitViol(st, "faithful", name, "a %s becomes a %q", tn, arm)
				return
			}
			switch c.what {
			case "strings", "anys":
				g.wholeList(st, name, st.get(pl, "Element"), st.T["v"])
			case "float":
				if !widened(pl, st.T["v"]) {
					p.exitViol(st, "faithful", name, "a %s becomes %s", tn, pl)
				}
			default:
				if c.arm == "BytesVal" {
					if ps, _ := st.listParts(pl); len(ps) == 1 && ps[0] == spread(st.T["v"]) || pl.op == OPure && strings.HasSuffix(pl.sym, ".Clone") {
						return
					}
				}
				if asOf(pl) != asOf(st.T["v"]) {
					p.exitViol(st, "faithful", name, "a %s becomes %s", tn, pl)
				}
			}
		}
		p.explore(r, fn, func(st *State, ps []*Term) {
			if c.t == nil {
				st.assume(mkEq(ps[0], mkNil()), true)
				return
			}
			st.assume(mkEq(ps[0], mkNil()), false)
			st.assume(mkTypeIs(ps[0], c.t), true)
			val = mkPure("as:"+typeKey(c.t), c.t, ps[0])
			st.SetT("v", val)
		})
	}
}

// lists reports what is put into a list of the element type named.
func (g *valueRules) lists(st *State, ev *Event, typ string, put func(st *State, ev *Event, v, at *Term)) {
	is := func(t types.Type) bool {
		if typ == "" {
			u, ok := under(t).(*types.Interface)
			return ok && u.NumMethods() == 0
		}
		pt, ok := under(t).(*types.Pointer)
		return ok && strings.HasSuffix(types.TypeString(pt.Elem(), nil), "."+typ)
	}
	switch ev.kind {
	case EvStore:
		if a := ev.addr; a != nil && a.op == OIndex && rootAlloc(a) != nil && is(pointee(a)) && !varargs(ev) {
			put(st, ev, ev.val, a.args[1])
		}
	case EvAppend:
		if t := ev.res; t != nil && t.typ != nil && isSlice(t.typ) && is(elemType(t)) {
			st.Set("built", "append")
			for _, a := range appended(t, ev.args[0]) {
				put(st, ev, a, nil)
			}
		}
	}
}

// wholeList: the list has an element for each element of the source.
func (g *valueRules) wholeList(st *State, name string, l, src *Term) {
	if !st.coverDone("el", src) {
		g.p.exitViol(st, "faithful", name, "elements of a list are left out")
		return
	}
	if st.R["built"] == "append" {
		return
	}
	if l.op == ONil || st.isNilT(l) {
		if !st.proves(mkEq(mkLen(src), mkInt(0)), true) {
			g.p.exitViol(st, "faithful", name, "a list is lost")
		}
		return
	}
	if !st.proves(mkEq(mkLen(l), mkLen(src)), true) {
		g.p.exitViol(st, "faithful", name, "the list has %s elements, not %s", mkLen(l), mkLen(src))
	}
}

func (g *valueRules) toScalar() {
	p := g.p
	const name = "value.ToScalar"
	fn := p.mustFn("value", "ToScalar")
	if fn == nil {
		return
	}
	arms := g.arms()
	names := sortedKeys(arms)
	if len(names) < 10 {
		p.report("anchor", name, "the arms of TypedValue are not known", nil, nil)
	}
	for _, arm := range append(names, "", "nil") {
		arm := arm
		r := &Rule{Unroll: 2}
		r.Model = func(st *State, cl *Call) ([]Outcome, bool) {
			if cl.fn == fn {
				rt := st.x.resType(cl).(*types.Tuple)
				v := mkPure("toscalar", rt.At(0).Type(), cl.args[0])
				err := st.fresh(cl.instr, "err", rt.At(1).Type())
				return []Outcome{
					{res: mkTuple(v, mkNil()), key: "ok"},
					{res: mkTuple(mkNil(), err), do: func(s *State) bool { s.Set("failed", "1"); return s.assume(mkEq(err, mkNil()), false) }, key: "err"},
				}, true
			}
			if strings.HasSuffix(cl.name, "encoding/json.Unmarshal") {
				st.Set("json", "1")
				if pl := st.T["pl"]; pl == nil || asOf(cl.args[0]) != asOf(pl) {
					p.viol(st, &Event{instr: cl.instr}, "faithful", name, "%s is parsed, not the value's JSON", cl.args[0])
				}
			}
			return nil, false
		}
		put := func(st *State, ev *Event, v, at *Term) {
			v = asOf(v)
			if st.R["failed"] != "" || v.op == ONil {
				return
			}
			if arm != "LeaflistVal" {
				return
			}
			var e *Term
			if v.op == OPure && v.sym == "toscalar" {
				e = v.args[0]
			}
			if e == nil || !(e.op == OLoad && e.args[0].op == OIndex && e.args[0].args[0] == st.T["els"]) {
				p.viol(st, ev, "faithful", name, "%s is made an element, which is none of the leaf list", v)
				return
			}
			if at != nil && at != e.args[0].args[1] {
				p.viol(st, ev, "faithful", name, "an element changes its place")
			}
			if m := st.coverNext("el", st.T["els"], e); m != "" {
				p.viol(st, ev, "faithful", name, "%s", m)
			}
		}
		r.Event = func(st *State, ev *Event) {
			g.total(st, ev, name)
			g.written(st, ev, name)
			g.lists(st, ev, "", put)
		}
		r.Exit = func(st *State, res []*Term) {
			if len(res) != 2 {
				return
			}
			p.ob("faithful", name+" "+arm)
			ok := st.decideNil(res[1])
			switch arm {
			case "", "nil", "AnyVal", "AsciiVal", "ProtoBytes":
				if arm == "AnyVal" || arm == "AsciiVal" || arm == "ProtoBytes" {
					return // no scalars: nothing is promised but an answer
				}
				if ok != no {
					p.exitViol(st, "faithful", name, "a missing value is converted")
				}
				return
			case "JsonVal", "JsonIetfVal":
				if ok == yes && st.R["json"] == "" {
					p.exitViol(st, "faithful", name, "a JSON value is not parsed")
				}
				return
			}
			if st.R["failed"] != "" {
				if ok != no {
					p.exitViol(st, "faithful", name, "an element that cannot be converted is not reported")
				}
				return
			}
			if ok != yes {
				p.exitViol(st, "faithful", name, "a %s is rejected", arm)
				return
			}
			v := strip(res[0])
			for v.op == OIface {
				v = v.args[0]
			}
			switch arm {
			case "LeaflistVal":
				g.wholeList(st, name, v, st.T["els"])
			case "DecimalVal":
				d := st.T["pl"]
				dg, pr := st.get(d, "Digits"), st.get(d, "Precision")
				if st.isNilT(d) {
					return
				}
				if !v.contains(dg) || !v.contains(pr) {
					p.exitViol(st, "faithful", name, "a decimal becomes %s, which does not depend on digits and precision", v)
				}
			case "BytesVal":
				if ps, _ := st.listParts(v); len(ps) == 1 && ps[0] == spread(st.T["pl"]) || v.op == OPure && strings.HasSuffix(v.sym, ".Clone") {
					return
				}
				fallthrough
			default:
				if !widened(v, st.T["pl"]) {
					p.exitViol(st, "faithful", name, "a %s becomes %s", arm, v)
				}
			}
		}
		p.explore(r, fn, func(st *State, ps []*Term) {
			g.assumeArm(st, ps[0], arm, arms, "")
			if pl := st.T["pl"]; pl != nil && arm == "LeaflistVal" {
				st.SetT("els", st.get(pl, "Element"))
			}
		})
	}
}

// assumeArm: the value has this arm ("": none, "nil": no value at all).
func (g *valueRules) assumeArm(st *State, tv *Term, arm string, arms map[string]types.Type, sfx string) {
	if arm == "nil" {
		st.assume(mkEq(tv, mkNil()), true)
		return
	}
	st.assume(mkEq(tv, mkNil()), false)
	w := st.get(tv, "Value")
	if arm == "" {
		st.assume(mkEq(w, mkNil()), true)
		return
	}
	st.assume(mkEq(w, mkNil()), false)
	st.assume(mkTypeIs(w, arms[arm]), true)
	wp := mkPure("as:"+typeKey(arms[arm]), arms[arm], w)
	st.assume(mkEq(wp, mkNil()), false)
	st.SetT("w"+sfx, wp)
	st.SetT("pl"+sfx, st.get(wp, arm))
}

func (g *valueRules) equal() {
	p := g.p
	const name = "value.Equal"
	fn := p.mustFn("value", "Equal")
	if fn == nil {
		return
	}
	arms := g.arms()
	names := append(sortedKeys(arms), "", "nil")
	str := types.Typ[types.String]
	asStr := func(st *State, t *Term) *Term {
		return tab.get(Term{op: OConv, sym: "str", args: []*Term{t}, typ: str})
	}
	for _, aa := range names {
		for _, ba := range names {
			aa, ba := aa, ba
			r := &Rule{Unroll: 2}
			r.Model = func(st *State, cl *Call) ([]Outcome, bool) {
				if cl.fn == fn {
					a, b := asOf(cl.args[0]), asOf(cl.args[1])
					ev := &Event{instr: cl.instr}
					from := func(t *Term, l string) *Term {
						if t.op == OLoad && t.args[0].op == OIndex && t.args[0].args[0] == st.T[l] {
							return t.args[0].args[1]
						}
						return nil
					}
					ia, ib := from(a, "ea"), from(b, "eb")
					if ia == nil && ib == nil {
						ia, ib = from(a, "eb"), from(b, "ea")
						a, b = b, a
					}
					paired := ia != nil && ia == ib
					if !paired {
						p.viol(st, ev, "sound", name, "%s is compared with %s", a, b)
					}
					if ia == nil {
						return nil, false
					}
					return []Outcome{
						{res: mkBool(true), do: func(s *State) bool {
							if m := s.coverNext("el", s.T["ea"], a); m != "" {
								p.viol(s, ev, "sound", name, "%s", m)
							}
							return true
						}, key: "eq"},
						{res: mkBool(false), do: func(s *State) bool { s.Set("differ", "1"); return true }, key: "ne"},
					}, true
				}
				if n := trimMod(cl.name); strings.HasPrefix(n, "slices.EqualFunc") && len(cl.args) == 3 && strip(cl.args[2]).fn == fn {
					x, y := asOf(cl.args[0]), asOf(cl.args[1])
					ea, eb := st.T["ea"], st.T["eb"]
					if x == ea && y == eb || x == eb && y == ea {
						return []Outcome{
							{res: mkBool(true), do: func(s *State) bool {
								s.Set("cov.el", "3")
								return s.assume(mkEq(mkLen(ea), mkLen(eb)), true)
							}, key: "eq"},
							{res: mkBool(false), key: "ne"},
						}, true
					}
				}
				if cl.name == "bytes.Equal" {
					return one(mkEq(asStr(st, cl.args[0]), asStr(st, cl.args[1]))), true
				}
				if strings.HasSuffix(cl.name, "proto.Equal") || cl.name == "reflect.DeepEqual" {
					return one(mkPure("equal", types.Typ[types.Bool], strip(cl.args[0]), strip(cl.args[1]))), true
				}
				return nil, false
			}
			r.Event = func(st *State, ev *Event) {
				g.total(st, ev, name)
				g.written(st, ev, name)
			}
			r.Exit = func(st *State, res []*Term) {
				if len(res) != 1 {
					return
				}
				p.ob("sound", name)
				if st.decide(res[0]) == no {
					return
				}
				s := st.clone()
				if !s.assume(res[0], true) {
					return
				}
				none := func(x string) bool { return x == "" || x == "nil" }
				if none(aa) && none(ba) {
					return
				}
				if aa != ba {
					p.exitViol(s, "sound", name, "a %q may be reported equal to a %q", aa, ba)
					return
				}
				pa, pb := s.T["pl"], s.T["plb"]
				whole := s.trueAtom(func(t *Term) bool {
					if t.op != OPure || t.sym != "equal" {
						return false
					}
					x, y := asOf(t.args[0]), asOf(t.args[1])
					for x.op == OIface {
						x = x.args[0]
					}
					for y.op == OIface {
						y = y.args[0]
					}
					for _, pr := range [][2]*Term{{pa, pb}, {s.T["w"], s.T["wb"]}, {s.T["a"], s.T["b"]}} {
						if x == pr[0] && y == pr[1] || x == pr[1] && y == pr[0] {
							return true
						}
					}
					return false
				})
				if whole {
					return
				}
				eq := func(x, y *Term) bool { return s.decide(mkEq(x, y)) == yes }
				switch pa.typ.Underlying().(type) {
				case *types.Slice:
					if eq(asStr(s, pa), asStr(s, pb)) {
						return
					}
				case *types.Pointer:
					switch aa {
					case "DecimalVal":
						if eq(s.get(pa, "Digits"), s.get(pb, "Digits")) && eq(s.get(pa, "Precision"), s.get(pb, "Precision")) {
							return
						}
					case "LeaflistVal":
						if s.R["differ"] == "" && s.coverDone("el", s.T["ea"]) && s.proves(mkEq(mkLen(s.T["ea"]), mkLen(s.T["eb"])), true) {
							return
						}
					}
				default:
					if eq(pa, pb) {
						return
					}
				}
				p.exitViol(s, "sound", name, "two different values of %s may be reported equal", aa)
			}
			p.explore(r, fn, func(st *State, ps []*Term) {
				st.SetT("a", ps[0])
				st.SetT("b", ps[1])
				g.assumeArm(st, ps[0], aa, arms, "")
				g.assumeArm(st, ps[1], ba, arms, "b")
				if aa == "LeaflistVal" {
					st.SetT("ea", st.get(st.T["pl"], "Element"))
				}
				if ba == "LeaflistVal" {
					st.SetT("eb", st.get(st.T["plb"], "Element"))
				}
			})
		}
	}
}

func valueCheck(p *Program) {
	g := &valueRules{p: p}
	g.toStrings()
	g.completePath()
	g.query()
	g.fromScalar()
	g.toScalar()
	g.equal()
	p.need("keys", 1)
	p.need("elems", 1)
	p.need("exit", 1)
	p.need("join", 1)
	p.need("query", 1)
	p.need("request", 1)
	p.need("faithful", 25)
	p.need("sound", 1)
	p.need("total", 3)
}

func init() {
	checks["C19"] = &propCheck{run: valueCheck, explanation: "Every conversion is followed over all shapes of its input. ToStrings: each element's name is added in order, followed by the values of its keys, where an arbitrary key K of the map is followed: its value is added exactly once, directly only if the map has one entry, otherwise by way of the list of all key names after that list was sorted by name; target and origin come first, in this order, exactly if asked for and non-empty; the deprecated element list exactly if there are no elements. CompletePath: the table over (origin in prefix, origin in path, prefix index empty) of rejection and result. The client's query: every element of every path escaped and joined, parsed and subscribed to once, in order, under the query's target, mode and encoding. FromScalar and ToScalar per Go type and per arm: same arm, same payload up to widening, lists element by element, no rejection of a scalar. Equal over all pairs of arms (nil included): true only where arms agree and the payloads are shown equal (lists: same length and every pair compared), which for a function of its arguments gives symmetry. No index, slice, dereference or assertion in them can panic, and nothing given is changed.",
		assumptions: []string{"ygot.StringToPath splits at unescaped slashes and undoes the escape", "oneof wrappers are not typed nil pointers (they cannot come from the wire)", "what JSON arms parse to is not judged"}}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
