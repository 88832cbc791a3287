package main

import (
	"go/types"
	"strings"
)

func init() {
	checks["C17"] = &propCheck{run: configRules, explanation: "Gate and diff table of target.Config, rooted at Load, followed for an arbitrary but fixed target name K and, where they differ, the request names K uses: maps are tracked exactly at these keys, ranges meet them exactly once if present. Gate: handlers run and the configuration changes only on paths where Validate accepted the configuration and the new revision is known greater than that of the current one, in one critical section; every other path is refused without effect; nothing that passes the gate is refused. Diff, at the end of every accepted load, for every combination of K in the old and in the new configuration: none, exactly one Delete(K), exactly one Add{K, target, its request}, or, if both hold K, exactly one Update unless target and request compare equal, none if they do. The new configuration is stored once, as a copy. Validate accepts exactly the configurations all of whose targets are complete. The constructors only install validated copies. Closed world: nothing else writes the configuration.", assumptions: []string{"proto.Equal and proto.Clone semantics", "all three handlers are set", "handlers do not modify the messages they are given nor call back into the Config", "a target name and a request name followed together are different strings or live in different maps"}}
}

type cfgRules struct {
	p     *Program
	fConf string
	fMu   string
	hAdd  string
	hUpd  string
	hDel  string
	reqT  string
	tgtT  string
}

func isCfgEqual(n string) bool {
	return strings.HasSuffix(n, "proto.Equal") || n == "reflect.DeepEqual"
}

// fieldAddr is the address of a field of what ptr leads to.
func fieldAddr(ptr *Term, f string) *Term {
	ptr = strip(ptr)
	pt, ok := under(ptr.typ).(*types.Pointer)
	if !ok {
		return nil
	}
	if s := structOf(pt.Elem()); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				return mkField(ptr, s, ownerName(pt.Elem()), i)
			}
		}
	}
	return nil
}

func cloneSrc(t *Term) *Term {
	if t = strip(asOf(t)); t.op == OPure && t.sym == "protoclone" {
		return cloneSrc(t.args[0])
	}
	return t
}

// cfgModel: message copies and comparisons as functions of the messages.
func cfgModel(st *State, c *Call) ([]Outcome, bool) {
	switch {
	case strings.Contains(c.name, "protobuf/proto.Clone"):
		src := strip(asOf(c.args[0]))
		if st.isNilT(src) {
			return nil, false
		}
		t := mkPure("protoclone", src.typ, src)
		if st.decideNil(src) == no {
			st.assume(mkEq(t, mkNil()), false)
			// what the copy leads to stands for what the original leads to
			if pt, ok := under(src.typ).(*types.Pointer); ok {
				if s := structOf(pt.Elem()); s != nil {
					for i := 0; i < s.NumFields(); i++ {
						if f := s.Field(i); f.Exported() {
							v := st.load(mkField(src, s, ownerName(pt.Elem()), i), f.Type())
							st.ownStore()
							st.store[mkField(t, s, ownerName(pt.Elem()), i)] = v
						}
					}
				}
			}
		}
		st.x.emit(st, &Event{kind: EvCall, name: c.name, args: c.args, instr: c.instr})
		if strings.Contains(c.name, "CloneOf") {
			return one(t), true
		}
		return one(mkIface(t, c.args[0].typ)), true
	case isCfgEqual(c.name) && len(c.args) == 2:
		return one(protoEq(c.args[0], c.args[1])), true
	}
	return nil, false
}

func protoEq(a, b *Term) *Term {
	a, b = cloneSrc(a), cloneSrc(b)
	if a == b {
		return mkBool(true)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return mkPure("protoeq", types.Typ[types.Bool], a, b)
}

func configRules(p *Program) {
	const pk = "target"
	g := &cfgRules{p: p}
	g.fConf = p.field(pk, "Config", "configuration", nil)
	g.fMu = p.field(pk, "Config", "mu", nil)
	g.hAdd = p.field(pk, "Handler", "Add", nil)
	g.hUpd = p.field(pk, "Handler", "Update", nil)
	g.hDel = p.field(pk, "Handler", "Delete", nil)
	for _, f := range []struct {
		name string
		to   *string
	}{{"Request", &g.reqT}, {"Target", &g.tgtT}} {
		v, _, _ := types.LookupFieldOrMethod(p.namedType("proto/target", "Configuration"), true, nil, f.name)
		fv, ok := v.(*types.Var)
		if !ok {
			p.report("anchor", "Configuration."+f.name, "the configuration message has no such field", nil, nil)
			return
		}
		m, ok := under(fv.Type()).(*types.Map)
		if !ok {
			p.report("anchor", "Configuration."+f.name, "is no longer a map", nil, nil)
			return
		}
		*f.to = types.TypeString(m.Elem(), nil)
	}
	g.validate(pk)
	g.load(pk)
	g.ctor(pk)
	p.closedWorld("config-writer", []string{g.fConf})
}

func cfgField(st *State, m *Term, f string) *Term {
	if st.decideNil(m) == yes {
		return mkNil()
	}
	return st.get(m, f)
}

func mapElemT(m *Term) types.Type {
	if mt, ok := under(m.typ).(*types.Map); ok {
		return mt.Elem()
	}
	return nil
}

func at(st *State, m, k *Term) *Term {
	if st.isNilT(m) {
		return mkNil()
	}
	return st.load(mkMapElem(m, k, mapElemT(m)), mapElemT(m))
}

func has(st *State, m, k *Term) *Term {
	if st.isNilT(m) {
		return mkBool(false)
	}
	return st.load(mkMapOk(m, k), types.Typ[types.Bool])
}

// ---- Validate ----

// complete assumes (or tests) that a target entry is what Validate must accept.
func complete(st *State, config, k, t *Term, assume bool) tri {
	reqs := cfgField(st, config, "Request")
	conds := []struct {
		t *Term
		v bool
	}{
		{mkEq(k, mkStr("")), false},
		{mkEq(t, mkNil()), false},
		{mkLess(mkInt(0), mkLen(st.get(t, "Addresses")), nil), true},
		{mkEq(st.get(t, "Request"), mkStr("")), false},
		{has(st, reqs, st.get(t, "Request")), true},
	}
	r := yes
	for _, c := range conds {
		if assume {
			if !st.assume(c.t, c.v) {
				return no
			}
			continue
		}
		d := st.decide(c.t)
		if !c.v {
			d = d.not()
		}
		switch d {
		case no:
			return no
		case unknown:
			r = unknown
		}
	}
	return r
}

func (g *cfgRules) validate(pk string) {
	p := g.p
	fn := p.mustFn(pk, "Validate")
	if fn == nil {
		return
	}
	// accepts only complete configurations: the empty name, and any other
	for _, k := range []*Term{mkStr(""), mkOpaque("K", types.Typ[types.String], fn.Pos())} {
		k := k
		wit := func(st *State, m *Term, mt *types.Map) []*Term {
			if n, _ := m.loadedField(); strings.HasSuffix(n, ".Target") {
				return []*Term{k}
			}
			return nil
		}
		p.explore(&Rule{Witness: wit, Model: cfgModel, Exit: func(st *State, res []*Term) {
			p.ob("validate", "only-complete")
			if st.decideNil(res[0]) == no {
				return
			}
			c := st.T["config"]
			m := cfgField(st, c, "Target")
			if st.decide(has(st, m, k)) == no {
				return
			}
			if complete(st, c, k, at(st, m, k), false) != yes {
				p.exitViol(st, "validate", "Validate", "accepts a configuration with a target that is not known to have a name, settings, an address and an existing request")
			}
		}}, fn, func(st *State, ps []*Term) {
			st.SetT("config", ps[0])
			st.SetT("k", k)
			if k.op != OConst {
				st.assume(mkEq(k, mkStr("")), false)
			}
		})
	}
	// accepts every complete configuration
	p.explore(&Rule{Model: cfgModel, Event: func(st *State, ev *Event) {
		if ev.kind == EvRange && ev.what == "next" {
			if n, _ := ev.args[0].loadedField(); strings.HasSuffix(n, ".Target") {
				complete(st, st.T["config"], ev.args[1], ev.args[2], true)
			}
		}
	}, Exit: func(st *State, res []*Term) {
		p.ob("validate", "all-complete")
		if st.decideNil(res[0]) != yes {
			p.exitViol(st, "validate", "Validate", "refuses a configuration all of whose targets are complete")
		}
	}}, fn, func(st *State, ps []*Term) {
		st.SetT("config", ps[0])
		st.assume(mkEq(ps[0], mkNil()), false)
		st.assume(has(st, cfgField(st, ps[0], "Target"), mkStr("")), false)
	})
	p.need("validate", 2)
}

// ---- Load ----

func (g *cfgRules) load(pk string) {
	p := g.p
	fn := p.mustFn(pk, "Config.Load")
	if fn == nil {
		return
	}
	vfn := p.fn(pk, "Validate")
	str := types.Typ[types.String]
	k := mkOpaque("K", str, fn.Pos())
	for _, mode := range []string{"first", "fresh", "gone", "kept", "neither"} {
		oldHas := mode == "gone" || mode == "kept"
		newHas := mode == "first" || mode == "fresh" || mode == "kept"
		r := &Rule{}
		reqNames := func(st *State) []*Term {
			var ws []*Term
			for _, n := range []string{"oldT", "newT"} {
				if t := st.T[n]; t != nil {
					w := st.get(t, "Request")
					if len(ws) == 0 || st.R["names"] != "same" && ws[0] != w {
						ws = append(ws, w)
					}
				}
			}
			return ws
		}
		r.Witness = func(st *State, m *Term, mt *types.Map) []*Term {
			if b, ok := under(mt.Key()).(*types.Basic); !ok || b.Kind() != types.String {
				return nil
			}
			switch types.TypeString(mt.Elem(), nil) {
			case g.reqT:
				return reqNames(st)
			case g.tgtT:
				return []*Term{k}
			}
			return append([]*Term{k}, reqNames(st)...)
		}
		prep := func(st *State, old *Term) bool {
			config := st.T["config"]
			st.SetT("old", old)
			if mode == "first" {
				if !st.assume(mkEq(old, mkNil()), true) {
					return false
				}
			} else {
				if !st.assume(mkEq(old, mkNil()), false) {
					return false
				}
				m := cfgField(st, old, "Target")
				st.assume(has(st, m, k), oldHas)
				if oldHas {
					t := at(st, m, k)
					complete(st, old, k, t, true)
					st.SetT("oldT", t)
				} else {
					st.assume(mkEq(at(st, m, k), mkNil()), true)
				}
			}
			m := cfgField(st, config, "Target")
			st.assume(has(st, m, k), newHas)
			if newHas {
				st.SetT("newT", at(st, m, k))
			} else {
				st.assume(mkEq(at(st, m, k), mkNil()), true)
			}
			if mode == "kept" {
				// one request name or two
				a, b := st.get(st.T["oldT"], "Request"), st.get(st.T["newT"], "Request")
				if st.decide(mkEq(a, b)) == unknown {
					if st.R["names"] == "same" {
						// one term stands for both
						st.assume(mkEq(a, b), true)
						if addr := fieldAddr(st.T["newT"], "Request"); addr != nil {
							st.ownStore()
							st.store[addr] = a
						}
						reqs := cfgField(st, config, "Request")
						if st.decide(has(st, reqs, b)) == yes {
							st.assume(has(st, reqs, a), true)
						}
					} else {
						st.assume(mkEq(a, b), false)
						st.assume(protoEq(st.T["oldT"], st.T["newT"]), false)
					}
				}
			}
			return true
		}
		effect := func(st *State, ev *Event, what string) {
			p.ob("gate", what)
			if len(st.locks) == 0 {
				p.viol(st, ev, "gate", what, "%s outside the critical section that compared the revisions", what)
			}
			if st.R["valid"] != "1" {
				p.viol(st, ev, "gate", what, "%s on a path where the configuration was not found valid", what)
			}
			if old := st.T["old"]; mode != "first" && (old == nil || !st.provesLess(st.get(old, "Revision"), st.get(st.T["config"], "Revision"))) {
				p.viol(st, ev, "gate", what, "%s on a path where the new revision is not known greater than the current one", what)
			}
			if st.R["stored"] != "" {
				p.viol(st, ev, "gate", what, "%s after the new configuration replaced the one it is compared with", what)
			}
		}
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			if c.fn != nil && c.fn == vfn {
				arg := asOf(c.args[0])
				if cloneSrc(arg) != st.T["config"] {
					return nil, false
				}
				p.ob("gate", "validate")
				e := st.fresh(c.instr, "valid", c.sig.Results().At(0).Type())
				return []Outcome{
					{res: e, do: func(s *State) bool {
						s.Set("valid", "1")
						if t := s.T["newT"]; t != nil {
							complete(s, s.T["config"], k, t, true)
						} else if newHas {
							m := cfgField(s, s.T["config"], "Target")
							s.assume(has(s, m, k), true)
							complete(s, s.T["config"], k, at(s, m, k), true)
						}
						return s.assume(mkEq(e, mkNil()), true)
					}},
					{res: e, do: func(s *State) bool { s.Set("valid", "no"); return s.assume(mkEq(e, mkNil()), false) }},
				}, true
			}
			if c.dyn != nil {
				n, _ := asOf(c.dyn).loadedField()
				if n == "" {
					if d := asOf(c.dyn); d.op == OFieldVal {
						n = "target.Handler." + fieldValName(d)
					}
				}
				kind := ""
				switch n {
				case g.hAdd:
					kind = "Add"
				case g.hUpd:
					kind = "Update"
				case g.hDel:
					kind = "Delete"
				}
				if kind == "" {
					return nil, false
				}
				ev := &Event{instr: c.instr}
				p.ob("diff", kind)
				effect(st, ev, "Handler."+kind+" is invoked")
				name := c.args[0]
				if kind != "Delete" {
					name = structPart(st, c.args[0], "Name")
				}
				switch st.decide(mkEq(name, k)) {
				case no:
				case unknown:
					p.viol(st, ev, "diff", kind, "Handler.%s is invoked for %s, which is not a name being compared", kind, name)
				case yes:
					st.Set("cb", st.R["cb"]+kind+";")
					if kind != "Delete" {
						nt := st.T["newT"]
						if nt == nil {
							break
						}
						t, rq := cloneSrc(structPart(st, c.args[0], "Target")), cloneSrc(structPart(st, c.args[0], "Request"))
						if t != nt {
							p.viol(st, ev, "diff", kind, "Handler.%s is given %s as the target's settings, not those of the new configuration", kind, t)
						}
						want := at(st, cfgField(st, st.T["config"], "Request"), st.get(nt, "Request"))
						if rq != want && st.decide(mkEq(rq, want)) != yes {
							p.viol(st, ev, "diff", kind, "Handler.%s is given %s as the subscription request, not the one the new settings name in the new configuration", kind, rq)
						}
					}
				}
				return one(nil), true
			}
			return cfgModel(st, c)
		}
		r.Event = func(st *State, ev *Event) {
			switch ev.kind {
			case EvLoad:
				if ev.name == g.fConf {
					p.ob("guarded", "load")
					if len(st.locks) == 0 {
						p.viol(st, ev, "guarded", g.fConf, "the current configuration is read without the mutex")
						break
					}
					if st.R["stored"] != "" {
						break
					}
					v := st.load(ev.addr, nil)
					if st.T["old"] == nil {
						prep(st, v)
					} else if st.T["old"] != v {
						// another critical section: the configuration may have changed
						st.SetT("old", nil)
						prep(st, v)
					}
				}
			case EvStore:
				if ev.name == g.fConf {
					effect(st, ev, "the configuration is replaced")
					if cloneSrc(ev.val) != st.T["config"] {
						p.viol(st, ev, "store", "Load", "the configuration is replaced by %s, not by the loaded one", ev.val)
					} else if asOf(strip(ev.val)) == st.T["config"] {
						p.viol(st, ev, "store", "Load", "the caller's message itself is kept: what the caller does to it later changes the state later loads are compared with")
					}
					st.Set("stored", "1")
				}
			case EvUnlock:
				if ev.ok == no {
					p.viol(st, ev, "lock-balance", "Load", "unlock of a mutex that is not held")
				}
			case EvGo:
				p.viol(st, ev, "diff", "Load", "part of the load is left to a goroutine")
			}
		}
		r.Exit = func(st *State, res []*Term) {
			if len(st.locks) > 0 {
				p.exitViol(st, "lock-balance", "Load", "returns with the mutex held")
			}
			cb := st.R["cb"]
			config := st.T["config"]
			switch st.decideNil(res[0]) {
			case unknown:
				p.exitViol(st, "gate", "Load", "whether the load is accepted is not decided")
			case no:
				p.ob("gate", "refused")
				if cb != "" || st.R["stored"] != "" {
					p.exitViol(st, "gate", "Load", "a refused load has effects (%s)", cb)
				}
				refusable := st.decideNil(config) == yes || st.R["valid"] == "no"
				if old := st.T["old"]; !refusable && old != nil && mode != "first" && st.provesLeq(st.get(config, "Revision"), st.get(old, "Revision")) {
					refusable = true
				}
				if !refusable {
					p.exitViol(st, "gate", "Load", "refuses a configuration that is not known to be nil, invalid or no newer than the current one")
				}
			case yes:
				p.ob("gate", "accepted")
				if st.R["stored"] == "" {
					p.exitViol(st, "store", "Load", "an accepted configuration does not become the current one")
					return
				}
				want := ""
				switch mode {
				case "first", "fresh":
					want = "Add;"
				case "gone":
					want = "Delete;"
				case "kept":
					ot, nt := st.T["oldT"], st.T["newT"]
					teq := st.decide(protoEq(ot, nt))
					ra, rb := st.get(ot, "Request"), st.get(nt, "Request")
					ro := at(st, cfgField(st, st.T["old"], "Request"), ra)
					req := unknown
					for _, n := range []*Term{ra, rb} {
						d := st.decide(protoEq(ro, at(st, cfgField(st, config, "Request"), n)))
						if d != unknown {
							req = d
						}
					}
					switch {
					case cb == "Update;":
						if teq == yes && req == yes {
							p.exitViol(st, "diff", "Update", "Handler.Update is invoked for a target whose settings and request are unchanged")
						}
						if teq != no && req != no {
							p.exitViol(st, "diff", "Update", "Handler.Update is invoked for a target that was not found changed in its settings or request")
						}
						p.ob("diff-case", "changed")
						return
					case teq == yes && req == yes:
						p.ob("diff-case", "unchanged")
					case teq == no || req == no:
						want = "Update;"
					default:
						want = "unclear"
					}
				}
				p.ob("diff-case", mode)
				if cb != want {
					if want == "unclear" {
						p.exitViol(st, "diff", "Load", "a target in both configurations gets %q although neither its settings nor its request were fully compared", cb)
						return
					}
					p.exitViol(st, "diff", "Load", "%s: the handlers invoked for it are %q, they must be %q", map[string]string{"first": "a target of the first configuration", "fresh": "a target only in the new configuration", "gone": "a target no longer configured", "kept": "a target in both configurations", "neither": "a name in neither configuration"}[mode], cb, want)
				}
			}
		}
		for _, names := range []string{"same", "other"} {
			if names == "other" && mode != "kept" {
				continue
			}
			p.explore(r, fn, func(st *State, ps []*Term) {
				st.SetT("config", ps[1])
				st.SetT("k", k)
				st.Set("names", names)
				st.assume(mkEq(k, mkStr("")), false)
				cs, co := p.fieldsOf(pk, "Config")
				hs, ho := p.fieldsOf(pk, "Handler")
				for i := 0; i < cs.NumFields(); i++ {
					if under(cs.Field(i).Type()) != types.Type(hs) {
						continue
					}
					h := mkField(ps[0], cs, co, i)
					for j := 0; j < hs.NumFields(); j++ {
						st.assume(mkEq(st.load(mkField(h, hs, ho, j), hs.Field(j).Type()), mkNil()), false)
					}
				}
			})
		}
	}
	p.need("diff", 3)
	p.need("diff-case", 6)
	p.need("gate", 6)
}

// structPart is a field of a struct value or of what a pointer leads to.
func structPart(st *State, v *Term, f string) *Term {
	v = asOf(v)
	s := structOf(v.typ)
	if s == nil {
		return st.get(v, f)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return mkFieldVal(v, s, i)
		}
	}
	return v
}

// ---- constructors and Current ----

func (g *cfgRules) ctor(pk string) {
	p := g.p
	vfn := p.fn(pk, "Validate")
	for _, name := range []string{"NewConfig", "NewConfigWithBase"} {
		fn := p.mustFn(pk, name)
		if fn == nil {
			continue
		}
		r := &Rule{}
		r.Model = func(st *State, c *Call) ([]Outcome, bool) {
			if c.fn != nil && c.fn == vfn {
				e := st.fresh(c.instr, "valid", c.sig.Results().At(0).Type())
				return []Outcome{
					{res: e, do: func(s *State) bool { s.Set("valid", "1"); return s.assume(mkEq(e, mkNil()), true) }},
					{res: e, do: func(s *State) bool { return s.assume(mkEq(e, mkNil()), false) }},
				}, true
			}
			return cfgModel(st, c)
		}
		r.Exit = func(st *State, res []*Term) {
			p.ob("base", name)
			if len(res) > 1 && st.decideNil(res[1]) == no {
				if st.T["config"] == nil || st.decideNil(st.T["config"]) == yes || st.R["valid"] == "1" {
					p.exitViol(st, "base", name, "refuses a valid base configuration")
				}
				return
			}
			v := st.get(res[0], g.fConf[strings.LastIndex(g.fConf, ".")+1:])
			if st.decideNil(v) == yes {
				if st.T["config"] != nil && st.decideNil(st.T["config"]) != yes {
					p.exitViol(st, "base", name, "the base configuration is dropped: the first load announces its targets as new")
				}
				return
			}
			switch {
			case st.T["config"] == nil || cloneSrc(v) != st.T["config"]:
				p.exitViol(st, "base", name, "the initial configuration is %s, not the given one", v)
			case st.R["valid"] != "1":
				p.exitViol(st, "base", name, "an initial configuration is installed that was not found valid")
			case asOf(strip(v)) == st.T["config"]:
				p.exitViol(st, "base", name, "the caller's message itself is kept as the initial configuration: what the caller does to it later changes the state later loads are compared with")
			}
		}
		p.explore(r, fn, func(st *State, ps []*Term) {
			if len(ps) > 1 {
				st.SetT("config", ps[1])
			}
		})
	}
	if fn := p.mustFn(pk, "Config.Current"); fn != nil {
		r := &Rule{Model: cfgModel}
		r.Event = func(st *State, ev *Event) {
			switch ev.kind {
			case EvLoad:
				if ev.name == g.fConf {
					if len(st.locks) == 0 {
						p.viol(st, ev, "guarded", g.fConf, "the current configuration is read without the mutex")
					}
					st.SetT("old", st.load(ev.addr, nil))
				}
			case EvStore:
				if ev.name == g.fConf {
					p.viol(st, ev, "store", "Current", "reading the current configuration replaces it")
				}
			}
		}
		r.Exit = func(st *State, res []*Term) {
			p.ob("current", "exit")
			if len(st.locks) > 0 {
				p.exitViol(st, "lock-balance", "Current", "returns with the mutex held")
			}
			if st.T["old"] == nil || st.decideNil(res[0]) == yes && st.decideNil(st.T["old"]) == yes {
				return
			}
			if cloneSrc(res[0]) != st.T["old"] {
				p.exitViol(st, "current", "Current", "returns %s, not the current configuration", res[0])
			} else if asOf(strip(res[0])) == st.T["old"] {
				p.exitViol(st, "current", "Current", "hands out the current configuration itself: what the caller does to it changes the state later loads are compared with")
			}
		}
		p.explore(r, fn, nil)
		p.need("current", 1)
	}
	p.need("base", 2)
}
