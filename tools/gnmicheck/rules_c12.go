package main

import (
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// crashRules: no message a remote peer sends makes a process panic. Every
// instruction that may panic (index, slice, nil dereference, unchecked type
// assertion, division, write to a nil map, explicit panic) in a function that
// a received message can reach is an obligation: the facts on every path to
// it must exclude the panic.
//
// What is taken for granted (and why) is in exempt.
type crashRules struct {
	p     *Program
	m     *cacheModel
	mode  string // "ingest", "subscribe", "" (one function on its own)
	proto map[*types.Package]bool
	nn    map[*ssa.Function]tri
	// the function is a closure: a handler that a receive loop of this
	// repository calls with what it received
	handler bool
}

var crashHook func(*Rule) *Rule

func (g *crashRules) where(st *State, ev *Event) string {
	f := ev.instr.Parent()
	for f.Parent() != nil {
		f = f.Parent()
	}
	return trimMod(fname(f))
}

func (g *crashRules) site(st *State, ev *Event) {
	switch ev.kind {
	case EvPanic:
		if ev.what != "exit" {
			g.p.ob("panic-site", g.where(st, ev))
			g.p.viol(st, ev, "panic-site", g.where(st, ev), "panics on a path that a received message can reach")
		} else if f := ev.instr.Parent(); f.Pkg == nil || f.Pkg.Pkg.Name() != "main" {
			g.p.viol(st, ev, "panic-site", g.where(st, ev), "ends the process on a path that a received message can reach")
		}
		return
	case EvRecurse:
		for _, a := range ev.args {
			if _, ok := under(a.typ).(*types.Map); a.typ != nil && ok && st.isNilT(a) {
				g.p.viol(st, ev, "panic-site", g.where(st, ev), "is called with a nil map, which it writes to")
			}
			if a.op == ONil && ev.fn != nil && len(ev.fn.Params) > 0 && a == ev.args[0] {
				if _, ok := under(ev.fn.Params[0].Type()).(*types.Map); ok {
					g.p.viol(st, ev, "panic-site", g.where(st, ev), "is called with a nil map, which it writes to")
				}
			}
		}
		return
	case EvSite:
	default:
		return
	}
	g.p.ob("panic-site", g.where(st, ev))
	if ev.ok == yes {
		return
	}
	switch ev.what {
	case "nil dereference", "nilmap":
		if g.exempt(st, ev.val) {
			return
		}
	case "index":
		if len(ev.args) == 2 && g.stored(st, ev) {
			return
		}
		if f, _ := ev.val.loadedField(); lastPart(f) == "Addrs" && strings.HasPrefix(f, "client.") {
			return // Query.Validate: at least one address
		}
	case "slice bounds":
		if len(ev.args) == 3 && g.targetFirst(st, ev) {
			return
		}
	case "division by zero":
		if f, _ := ev.val.loadedField(); f != "" && !g.message(f) {
			return // a configured constant
		}
	}
	g.p.viol(st, ev, "panic-site", g.where(st, ev), "%s not excluded: %s", ev.what, ev.val)
}

// message: the field belongs to a generated message type.
func (g *crashRules) message(field string) bool {
	o := field[:strings.LastIndex(field, ".")]
	return protoOwners[o[:strings.Index(o+".", ".")]]
}

var protoOwners = map[string]bool{"gnmi": true, "gnmi_ext": true, "target": true, "anypb": true}

func isMessage(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && strings.HasSuffix(o.Pkg().Path(), "proto/gnmi") || o.Pkg() != nil && strings.Contains(o.Pkg().Path(), "/proto/") && o.Pkg().Name() != "proto"
}

// exempt: the pointer is not one a message decides.
func (g *crashRules) exempt(st *State, t *Term) bool {
	t = strip(t)
	switch t.op {
	case OParam, OFree:
		// what a caller inside the process passes; messages are passed non-nil
		// where a stream or a tree yields them, and are obligations otherwise
		return !isMessage(t.typ) || g.mode != "" || g.handler
	case OFunc, OClosure, OGlobal:
		return true
	case OFieldVal:
		return !isMessage(t.args[0].typ)
	case OPure:
		if strings.HasPrefix(t.sym, "as:") && !isMessage(t.typ) {
			return true // a typed value this process put in the interface
		}
		if strings.HasPrefix(t.sym, "(reflect.") {
			return true
		}
	case OOpaque, OOld:
		// the key of a range over a map
		u := t
		for u.op == OOld {
			u = u.args[0]
		}
		if u.op == OAlloc {
			return true
		}
		return strings.HasSuffix(u.sym, ";key") || u.typ != nil && strings.Contains(u.sym, "selrecv")
	case OLoad:
		a := t.args[0]
		switch a.op {
		case OField:
			if !g.message(a.fnam) {
				return true // state of this process, not of the message
			}
			// the wrapper of a set oneof holds a message once decoded
			return strings.Contains(a.fnam, "_") && t.typ != nil && isMessage(t.typ)
		case OIndex:
			// decoded repeated fields hold no nil messages; lists of this
			// process hold no nil entries
			return true
		case OMapElem:
			if iteratedKey(a.args[1]) {
				return true
			}
			// found by the comma-ok form: entries are not nil
			ok := mkMapOk(a.args[0], a.args[1])
			return !g.message(g.mapField(a.args[0])) && st.decide(st.load(ok, types.Typ[types.Bool])) == yes
		case OParam, OFree, OGlobal:
			return true
		}
	}
	return false
}

func (g *crashRules) mapField(m *Term) string {
	f, _ := m.loadedField()
	if f == "" {
		return "process."
	}
	return f
}

// stored: a leaf of a target's tree holds a notification with an update in it
// (obligation "stored-shape" where leaves are written).
func (g *crashRules) stored(st *State, ev *Event) bool {
	if g.mode != "ingest" && g.mode != "target" || ev.args[0] != mkInt(0) {
		return false
	}
	f, b := ev.val.loadedField()
	if f != "gnmi.Notification.Update" {
		return false
	}
	b = strip(b)
	if b.op == OOpaque && strings.Contains(b.sym, "stored") {
		return true
	}
	if b.op == OPure && strings.HasPrefix(b.sym, "as:") {
		f, _ := b.args[0].loadedField()
		return strings.HasPrefix(f, "ctree.Leaf.")
	}
	return false
}

// targetFirst: path.ToStrings(p, true) starts with the target when p has one
// (rule "lead").
func (g *crashRules) targetFirst(st *State, ev *Event) bool {
	if ev.args[0] != mkInt(1) || ev.args[1] != ev.args[2] {
		return false
	}
	b := ev.val
	for b.op == OAppend {
		b = b.args[0]
	}
	if b.op != OPure || trimMod(b.sym) != "path.ToStrings" || len(b.args) != 2 || b.args[1] != mkBool(true) {
		return false
	}
	tg := st.get(b.args[0], "Target")
	return st.proves(mkEq(tg, mkStr("")), false) || st.proves(mkEq(mkLen(tg), mkInt(0)), false)
}

// wrap adds the obligations to a rule whose own findings are off.
func (g *crashRules) wrap(r *Rule) *Rule {
	inner := r.Event
	r.Event = func(st *State, ev *Event) {
		g.site(st, ev)
		g.intact(st, ev)
		if inner != nil {
			inner(st, ev)
		}
	}
	exit := r.Exit
	r.Exit = func(st *State, res []*Term) {
		if g.mode == "ingest" && st.gor == "" && len(res) > 0 {
			err := res[len(res)-1]
			g.p.ob("rejected-intact", "Cache.GnmiUpdate")
			if st.T["errs"] != err && st.decideNil(err) != yes && st.R["mut"] != "" && st.R["mut.err"] == "" {
				g.p.exitViol(st, "rejected-intact", "Cache.GnmiUpdate", "returns an error although stored data was changed (%s)", st.R["mut"])
			}
		}
		if exit != nil {
			exit(st, res)
		}
	}
	back := r.Back
	r.Back = func(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
		if g.mode == "ingest" && st.R["mut"] != "" && g.perUpdate(body) {
			st.Set("mut", "") // the next update of the notification
		}
		if back != nil {
			back(st, h, body)
		}
	}
	model, prim := r.Model, r.Prim
	r.Model = func(st *State, c *Call) ([]Outcome, bool) {
		if model != nil {
			if o, ok := model(st, c); ok {
				return o, ok
			}
		}
		return g.results(st, c, prim)
	}
	return r
}

// perUpdate: the loop stores updates.
func (g *crashRules) perUpdate(body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && g.p.inRepo(f) && g.p.reaches(f, false, callsTo("(*ctree.Tree).Add")) {
					return true
				}
			}
		}
	}
	return false
}

// intact: nothing stored changes on a path that rejects the update.
func (g *crashRules) intact(st *State, ev *Event) {
	if g.mode != "ingest" || ev.kind != EvCall && ev.kind != EvEnter && ev.kind != EvStore {
		return
	}
	n := trimMod(ev.name)
	switch {
	case n == "tree.add" && ev.ok == yes, n == "tree.update":
		v := g.m.asNoti(ev.args[len(ev.args)-1])
		ups := st.get(v, "Update")
		g.p.ob("stored-shape", "Cache.GnmiUpdate")
		if !st.proves(mkLess(mkInt(0), mkLen(ups), nil), true) {
			g.p.viol(st, ev, "stored-shape", "Cache.GnmiUpdate", "a notification without an update is stored: readers of the leaf take its first update")
		}
		st.Set("mut", "a leaf was written")
	case n == "tree.removed":
		st.Set("mut", "a leaf was removed")
	case strings.HasPrefix(n, "(*metadata.Metadata).Set"):
		st.Set("mut", "metadata was set")
	case n == "(*metadata.Metadata).ResetEntry", n == "(*metadata.Metadata).Clear":
		st.Set("mut", "metadata was reset")
	case ev.kind == EvStore && ev.name == "cache.Target.sync":
		st.Set("mut", "the sync state was set")
	case n == "google.golang.org/protobuf/proto.Clone", n == "tree.walkdeleted":
		st.Set("mut", "")
	case n == "(*errlist.List).Add":
		g.p.ob("rejected-intact", "Cache.GnmiUpdate")
		if len(ev.args) < 2 || st.decideNil(st.elem(ev.args[1], 0, elemType(ev.args[1]))) == yes {
			st.Set("mut", "") // the update was accepted
			return
		}
		if st.R["mut"] != "" {
			g.p.viol(st, ev, "rejected-intact", "Cache.GnmiUpdate", "an update is rejected although stored data was changed (%s)", st.R["mut"])
		}
	}
}

// results of calls that are not followed: a nil error (or true) comes with a
// usable value.
func (g *crashRules) results(st *State, c *Call, prim func(*ssa.Function) bool) ([]Outcome, bool) {
	if c.sig == nil || c.sig.Results().Len() == 0 || strings.HasPrefix(c.name, "builtin:") {
		return nil, false
	}
	if c.fn != nil && g.p.inRepo(c.fn) && (prim == nil || !prim(c.fn)) {
		return nil, false // followed
	}
	rs := c.sig.Results()
	n := trimMod(c.name)
	if strings.HasPrefix(n, "(*errlist.List).") || strings.HasPrefix(n, "(errlist.") {
		switch {
		case strings.HasSuffix(n, ".Add"):
			st.Set("errs.added", "1")
		case strings.HasSuffix(n, ".Err") && st.R["errs.added"] != "":
			t := st.fresh(c.instr, n, rs.At(0).Type())
			st.assume(mkEq(t, mkNil()), false)
			return one(t), true
		}
		return nil, false
	}
	if n == "google.golang.org/grpc/peer.FromContext" {
		// the stream of a server carries its peer
		t := st.fresh(c.instr, n, rs)
		st.assume(mkEq(t.args[0], mkNil()), false)
		return one(t), true
	}
	if c.fn != nil && !g.p.inRepo(c.fn) {
		if c.fn.Pkg == nil {
			return nil, false // an instance of a generic function
		}
		switch c.fn.Pkg.Pkg.Path() {
		case "google.golang.org/grpc", "time", "net", "github.com/cenkalti/backoff/v4":
		default:
			return nil, false
		}
	}
	if rs.Len() == 1 {
		if c.fn != nil && !g.p.inRepo(c.fn) && strings.HasPrefix(c.fn.Name(), "New") {
			t := st.fresh(c.instr, n, rs.At(0).Type())
			if nillable(rs.At(0).Type()) {
				st.assume(mkEq(t, mkNil()), false)
			}
			return one(t), true
		}
		if c.fn != nil && g.p.inRepo(c.fn) && nillable(rs.At(0).Type()) && g.neverNil(c.fn) == yes {
			t := st.fresh(c.instr, n, rs.At(0).Type())
			st.assume(mkEq(t, mkNil()), false)
			return one(t), true
		}
		return nil, false
	}
	last := rs.At(rs.Len() - 1).Type()
	isErr := types.TypeString(last, nil) == "error"
	isOk := types.Identical(under(last), types.Typ[types.Bool])
	if !isErr && !isOk {
		return nil, false
	}
	if c.fn != nil && g.p.inRepo(c.fn) && g.neverNil(c.fn) != yes {
		return nil, false
	}
	t := st.fresh(c.instr, n, rs)
	good := append([]*Term{}, t.args...)
	bad := append([]*Term{}, t.args...)
	k := rs.Len() - 1
	if isErr {
		good[k] = mkNil()
	} else {
		good[k], bad[k] = mkBool(true), mkBool(false)
	}
	return []Outcome{
		{res: mkTuple(good...), do: func(s *State) bool {
			for i := 0; i < k; i++ {
				if nillable(rs.At(i).Type()) {
					if _, sl := under(rs.At(i).Type()).(*types.Slice); !sl {
						s.assume(mkEq(good[i], mkNil()), false)
					}
				}
			}
			return true
		}},
		{res: mkTuple(bad...), do: func(s *State) bool {
			if isErr {
				return s.assume(mkEq(bad[k], mkNil()), false)
			}
			return true
		}},
	}, true
}

// neverNil: no return of fn hands out a nil first result (with a nil error).
func (g *crashRules) neverNil(fn *ssa.Function) tri {
	if r, ok := g.nn[fn]; ok {
		return r
	}
	if types.TypeString(fn.Signature.Results().At(0).Type(), nil) == "error" {
		return unknown
	}
	g.nn[fn] = yes
	r := yes
	var good func(v ssa.Value, d int) bool
	good = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch v := v.(type) {
		case *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeInterface, *ssa.FieldAddr, *ssa.Function, *ssa.Global:
			return true
		case *ssa.ChangeInterface:
			return good(v.X, d+1)
		case *ssa.ChangeType:
			return good(v.X, d+1)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !good(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if f := v.Call.StaticCallee(); f != nil && g.p.inRepo(f) && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 {
				return g.neverNil(f) == yes
			}
		case *ssa.UnOp:
			// a local cell every store of which is good
			if a, ok := v.X.(*ssa.Alloc); ok {
				n := 0
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						n++
						if !good(s.Val, d+1) {
							return false
						}
					}
				}
				return n > 0
			}
		}
		return false
	}
	if len(fn.Blocks) == 0 {
		r = unknown
	}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) == 0 {
			continue
		}
		if !nillable(ret.Results[0].Type()) {
			continue
		}
		if k := len(ret.Results) - 1; k > 0 {
			if c, ok := ret.Results[k].(*ssa.Const); !ok || c.Value != nil && c.Value.String() != "true" {
				continue // the error decides
			} else if c.Value == nil && types.Identical(under(c.Type()), types.Typ[types.Bool]) {
				continue
			}
		}
		if _, sl := under(ret.Results[0].Type()).(*types.Slice); sl {
			continue
		}
		if !good(ret.Results[0], 0) {
			r = unknown
		}
	}
	if r != yes && len(fn.Blocks) > 0 && len(fn.Blocks) < 40 {
		// not by shape: by its paths
		r = yes
		crashHook = nil
		g.p.explore(&Rule{Unroll: 2, Prim: g.foreign(fn), Exit: func(st *State, res []*Term) {
			if st.gor == "" && st.decideNil(res[0]) != no && (len(res) == 1 || st.decideNil(res[len(res)-1]) != no) {
				r = unknown
			}
		}}, fn, nil)
		crashHook = g.wrap
	}
	g.nn[fn] = r
	return r
}

// reach is what the named functions may call, spawn or hand out.
func (g *crashRules) reach(roots ...*ssa.Function) []*ssa.Function {
	cg := g.p.graph()
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !g.p.inRepo(f) || g.p.generated(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, h := range cg.callees(c) {
						walk(h)
					}
				}
				for _, o := range in.Operands(nil) {
					if h, ok := (*o).(*ssa.Function); ok {
						walk(h)
					}
				}
			}
		}
	}
	for _, f := range roots {
		walk(f)
	}
	return out
}

// alone explores one function for arbitrary arguments.
func (g *crashRules) alone(f *ssa.Function) {
	p := g.p
	g.mode, g.handler = "", f.Parent() != nil
	t0 := time.Now()
	defer func() {
		g.handler = false
		if d := time.Since(t0); d > time.Second && os.Getenv("GNMICHECK_DEBUG") != "" {
			println("alone", trimMod(fname(f)), d.String())
		}
	}()
	solid := func(st *State, t *Term) bool { return st.decideNil(t) == no || g.exempt(st, t) }
	r := &Rule{Unroll: 2, Prim: g.foreign(f), Solid: solid, MaxStates: 60000}
	// where that does not end, what f calls is explored on its own instead
	r.Fallback = &Rule{Unroll: 2, Solid: solid, Prim: func(h *ssa.Function) bool {
		return h != f && g.p.inRepo(h) && !g.p.generated(h) && h.Parent() == nil
	}}
	p.explore(r, f, func(st *State, ps []*Term) {
		for _, q := range ps {
			if !isMessage(q.typ) && nillable(q.typ) && !types.IsInterface(q.typ) {
				if _, ok := under(q.typ).(*types.Slice); !ok {
					st.assume(mkEq(q, mkNil()), false)
				}
			}
		}
	})
}

// foreign: exported functions of other packages are explored on their own.
func (g *crashRules) foreign(f *ssa.Function) func(*ssa.Function) bool {
	return func(h *ssa.Function) bool {
		return h.Pkg != nil && h.Pkg != f.Pkg && g.p.inRepo(h) && !g.p.generated(h) && h.Parent() == nil
	}
}

// indexPaths: path.ToStrings and CompletePath, whose own rules (C19) include
// that they do not panic and that the target of a prefix comes first.
func (g *crashRules) indexPaths() {
	crashHook = nil
	g.p.judged = func(rule, _ string) bool {
		return rule == "total" || rule == "lead" || rule == "anchor" || rule == "diverged"
	}
	v := &valueRules{p: g.p}
	v.toStrings()
	v.completePath()
	g.p.judged = nil
	crashHook = g.wrap
}

func init() {
	checks["C12"] = &propCheck{run: func(p *Program) {
		m := newCacheModel(p)
		if m == nil {
			return
		}
		g := &crashRules{p: p, m: m, nn: map[*ssa.Function]tri{}}
		crashHook = g.wrap
		defer func() { crashHook = nil }()
		g.mode = "ingest"
		runIngest(p)
		g.mode = "target"
		runTarget(p, "crash")
		g.mode = "subscribe"
		if s := newSubRules(p); s != nil {
			s.run()
		}
		g.indexPaths()
		var roots []*ssa.Function
		for _, n := range [][2]string{
			{"cache", "Cache.GnmiUpdate"}, {"cache", "Cache.Query"}, {"cache", "Cache.Sync"}, {"cache", "Cache.Reset"}, {"cache", "Cache.Connect"}, {"cache", "Cache.ConnectError"},
			{"subscribe", "Server.Subscribe"}, {"subscribe", "Server.Update"},
			{"client/gnmi", "Client.Recv"}, {"client", "CacheClient.Subscribe"}, {"client", "ReconnectClient.Subscribe"},
			{"cli", "QueryDisplay"}, {"manager", "Manager.handleUpdates"}} {
			if f := p.mustFn(n[0], n[1]); f != nil {
				roots = append(roots, f)
			}
		}
		for _, pk := range []string{"cmd/gnmi_collector", "cmd/gnmi_cli"} {
			for _, f := range p.repoFuncs() {
				if f.Parent() != nil && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), pk) {
					roots = append(roots, f)
				}
			}
		}
		fs := g.reach(roots...)
		for pass := 0; pass < 2; pass++ {
			for _, f := range fs {
				if p.fns[f] || f.Pkg == nil || f.Synthetic != "" {
					continue
				}
				if (f.Parent() != nil) != (pass == 1) {
					continue // closures last: most run inside what creates them
				}
				switch trimMod(f.Pkg.Pkg.Path()) {
				case "client/fake", "errlist", "latency", "connection":
					// what they do depends on a script, on how many errors or how
					// much time there is, or on a connection's state, not on what a
					// message says
					continue
				}
				g.alone(f)
			}
		}
		p.need("panic-site", 20)
		p.need("stored-shape", 1)
		p.need("rejected-intact", 1)
	}, assumptions: []string{
		"generated protobuf code and the libraries do not panic on the arguments their documentation allows; a nil error or a true ok comes with a usable value",
		"messages that a stream, a tree or a callback hands over are not nil themselves; everything inside them is arbitrary",
		"not judged: fields of values this process built (servers, clients, entries), the scripts of client/fake, and what depends on elapsed time (latency) or on connection state (C16)",
		"leaves hold what GnmiUpdate stores: notifications with at least one update (checked here as stored-shape)",
	}, explanation: "Panic-site obligations over every function a received message can reach: each index, slice, dereference, assertion and map write must be excluded by the facts on every path to it; rejected updates change nothing."}
}
