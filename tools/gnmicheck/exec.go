package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Invocation is a call a model wants to be performed.
type Invocation struct {
	fn   *Term
	args []*Term
}

// Outcome is one possible result of a modelled call.
type Outcome struct {
	res  *Term                             // result (nil: opaque)
	do   func(st *State) bool              // effects; false: infeasible
	run  *Invocation                       // call this first
	cont func(x *Ex, st *State, ret *Term) // what to do when it returned (result must be set with x.finish)
	key  string
}

// Call describes a call about to happen.
type Call struct {
	name   string
	fn     *ssa.Function // nil for dynamic and interface calls
	args   []*Term
	free   []*Term
	instr  ssa.CallInstruction
	sig    *types.Signature
	dyn    *Term
	invoke bool
	isDef  bool
}

// Rule is what a property contributes to the exploration.
type Rule struct {
	Event func(st *State, ev *Event)
	Exit  func(st *State, res []*Term)
	// Model decides a call itself. nil, false: not handled.
	Model func(st *State, c *Call) ([]Outcome, bool)
	// Prim: do not enter this repository function; it is an event with opaque results.
	Prim func(fn *ssa.Function) bool
	// Pure: results are a function of the arguments (implies Prim).
	Pure func(name string) bool
	// Go decides whether the body of a go statement is explored as a further root.
	Go func(st *State, ev *Event) bool
	// DeepClone: message parts reached through proto.Clone are distinguished
	// from the originals (as "copyof" values).
	DeepClone bool
	// Started prepares the state of a goroutine followed as a further root.
	Started func(st *State, fn *ssa.Function)
	// StableMaps: contents of maps held in never-assigned fields are the same in
	// every critical section of one root (the rules look one entry up once).
	StableMaps bool
	// Solid: the value is not nil; loop-carried values that are so at every entry
	// stay so.
	Solid func(*State, *Term) bool
	// Fallback is explored instead when the exploration does not end.
	Fallback *Rule
	// MaxStates bounds the exploration of one root.
	MaxStates int
	// NoGoFollow disables goroutine exploration.
	Loop func(st *State, header *ssa.BasicBlock)
	// Back is called when a loop's back edge is taken, before widening.
	Back func(st *State, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool)
	// Unroll: constant counters and growing lists are followed exactly for so
	// many iterations before they are widened.
	Unroll int
	// Witness names the arbitrary but fixed key a map is followed at: a range
	// over the map meets it exactly once if the map holds it; local maps keep
	// their entry at it apart from all others. nil: none.
	Witness func(st *State, m *Term, mt *types.Map) []*Term
}

// Ex explores one root.
type Ex struct {
	p      *Program
	rule   *Rule
	work   []*State
	seen   map[string]bool
	count  map[string]int
	root   string
	n      int // states
	insn   int
	paths  int
	fail   string // analysis failure
	fns    map[*ssa.Function]bool
	goSeen map[string]bool
	sites  map[ssa.Instruction]bool
}

var instrIDs = map[ssa.Instruction]int{}

func instrID(i ssa.Instruction) int {
	if n, ok := instrIDs[i]; ok {
		return n
	}
	n := len(instrIDs) + 1
	instrIDs[i] = n
	return n
}

var ctxIDs = map[string]int{}

func ctxID(parent int, call ssa.Instruction) int {
	k := fmt.Sprintf("%d/%d", parent, instrID(call))
	if n, ok := ctxIDs[k]; ok {
		return n
	}
	n := len(ctxIDs) + 1
	ctxIDs[k] = n
	return n
}

func (p *Program) explore(rule *Rule, fn *ssa.Function, setup func(st *State, params []*Term)) *Ex {
	if crashHook != nil {
		rule = crashHook(rule)
	}
	x := &Ex{p: p, rule: rule, seen: map[string]bool{}, count: map[string]int{}, root: fn.String(), fns: map[*ssa.Function]bool{}, goSeen: map[string]bool{}, sites: map[ssa.Instruction]bool{}}
	st := &State{x: x, store: map[*Term]*Term{}, f: newFacts(), epoch: map[*Term]string{}, weak: map[*Term]bool{}, R: map[string]string{}, T: map[string]*Term{}}
	var args []*Term
	for _, q := range fn.Params {
		args = append(args, mkParam(q.Name()+"@"+fn.Name(), q.Type()))
	}
	var free []*Term
	for _, q := range fn.FreeVars {
		free = append(free, tab.get(Term{op: OFree, sym: q.Name() + "@" + fn.Name(), typ: q.Type()}))
	}
	if fn.Signature.Recv() != nil && len(args) > 0 {
		if _, ok := under(args[0].typ).(*types.Pointer); ok {
			st.assume(mkEq(args[0], mkNil()), false)
		}
	}
	x.pushFrame(st, fn, args, free, nil, false)
	if setup != nil {
		setup(st, args)
	}
	x.work = append(x.work, st)
	x.drain()
	if fb := rule.Fallback; x.fail != "" && fb != nil {
		return p.explore(fb, fn, setup)
	}
	p.note(x)
	return x
}

func (x *Ex) drain() {
	max := x.rule.MaxStates
	if max == 0 {
		max = 150000
	}
	if v, err := strconv.Atoi(os.Getenv("GNMICHECK_MAX")); err == nil {
		max = v
	}
	for len(x.work) > 0 && x.fail == "" {
		st := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.n++
		if x.n > max {
			x.fail = fmt.Sprintf("analysis of %s did not converge within %d states (at %s)", x.root, max, st.where())
			return
		}
		x.run(st)
	}
}

func (st *State) where() string {
	if len(st.frames) == 0 {
		return "exit"
	}
	f := st.frames[len(st.frames)-1]
	return fmt.Sprintf("%s block %d", f.fn.String(), f.blk.Index)
}

func (x *Ex) pushFrame(st *State, fn *ssa.Function, args, free []*Term, call ssa.Instruction, isDef bool) *Frame {
	ctx := 0
	if n := len(st.frames); n > 0 {
		ctx = ctxID(st.frames[n-1].ctx, call)
	} else if st.gor != "" {
		ctx = ctxIDs2("go:" + st.gor)
	}
	f := &Frame{fn: fn, blk: fn.Blocks[0], regs: map[ssa.Value]*Term{}, free: free, call: call, ctx: ctx, isDef: isDef}
	for i, p := range fn.Params {
		if i < len(args) {
			f.regs[p] = args[i]
		}
	}
	f.params = args
	st.frames = append(st.frames, f)
	x.fns[fn] = true
	return f
}

func ctxIDs2(k string) int {
	if n, ok := ctxIDs[k]; ok {
		return n
	}
	n := len(ctxIDs) + 1
	ctxIDs[k] = n
	return n
}

// looping: some activation on the stack has taken a back edge, so sites may repeat.
func (st *State) looping() bool {
	for _, f := range st.frames {
		if f.iter {
			return true
		}
	}
	return false
}

func (st *State) siteName(in ssa.Instruction, desc string) string {
	f := st.frames[len(st.frames)-1]
	return strconv.Itoa(f.ctx) + "." + strconv.Itoa(instrID(in)) + ";" + desc
}

// fresh makes an unknown value for an instruction.
func (st *State) fresh(in ssa.Instruction, desc string, typ types.Type) *Term {
	if tup, ok := typ.(*types.Tuple); ok {
		args := make([]*Term, tup.Len())
		for i := range args {
			args[i] = st.fresh(in, desc+"#"+strconv.Itoa(i), tup.At(i).Type())
		}
		return mkTuple(args...)
	}
	t := mkOpaque(st.siteName(in, desc), typ, in.Pos())
	if st.looping() {
		st.age(t)
	}
	return t
}

func (st *State) freshAlloc(in ssa.Instruction, desc string, typ types.Type) *Term {
	t := tab.get(Term{op: OAlloc, sym: st.siteName(in, desc), typ: typ, pos: in.Pos()})
	if st.looping() {
		st.age(t)
	}
	return t
}

func (st *State) eval(v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if nillable(v.Type()) {
				return mkNil()
			}
			return zeroOf(v.Type())
		}
		if v.Value.Kind() == constant.Float && isInt(v.Type()) {
			return mkConst(constant.ToInt(v.Value), v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Global:
		return tab.get(Term{op: OGlobal, sym: v.String(), glob: v, typ: v.Type()})
	case *ssa.Function:
		return tab.get(Term{op: OFunc, sym: v.String(), fn: v, typ: v.Type()})
	case *ssa.Builtin:
		return mkStr("builtin:" + v.Name())
	case *ssa.FreeVar:
		f := st.frames[len(st.frames)-1]
		for i, fv := range f.fn.FreeVars {
			if fv == v {
				return f.free[i]
			}
		}
	}
	f := st.frames[len(st.frames)-1]
	if t, ok := f.regs[v]; ok {
		return t
	}
	return mkOpaque("undef;"+v.Name()+"@"+f.fn.String(), v.Type(), v.Pos())
}

func (x *Ex) emit(st *State, ev *Event) {
	if x.rule.Event != nil {
		x.rule.Event(st, ev)
	}
	if ev.instr != nil {
		x.sites[ev.instr] = true
	}
}

func (x *Ex) fork(st *State) { x.work = append(x.work, st) }

// run executes a state until it forks or ends.
func (x *Ex) run(st *State) {
	for {
		if x.fail != "" {
			return
		}
		f := st.top()
		if f.idx >= len(f.blk.Instrs) {
			return
		}
		in := f.blk.Instrs[f.idx]
		x.insn++
		cont := x.step(st, f, in)
		if !cont {
			return
		}
	}
}

func (x *Ex) set(st *State, in ssa.Instruction, t *Term) {
	if v, ok := in.(ssa.Value); ok && t != nil {
		st.top().regs[v] = t
	}
}

// step executes one instruction; false ends this run (state was forked or finished).
func (x *Ex) step(st *State, f *Frame, in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := st.freshAlloc(in, "new", in.Type())
		// a re-executed allocation starts zeroed again
		f = st.top()
		st.ownStore()
		for a := range st.store {
			if a == t || under0(a, t) {
				delete(st.store, a)
			}
		}
		if st.weak[t] {
			if st.weakS {
				st.setWeak(t)
			}
			delete(st.weak, t)
		}
		f.regs[in] = t
	case *ssa.Phi:
		// handled at block entry
	case *ssa.BinOp:
		f.regs[in] = x.binop(st, in)
	case *ssa.UnOp:
		return x.unop(st, f, in)
	case *ssa.ChangeType:
		f.regs[in] = st.eval(in.X)
	case *ssa.ChangeInterface:
		f.regs[in] = st.eval(in.X)
	case *ssa.MakeInterface:
		f.regs[in] = mkIface(st.eval(in.X), in.X.Type())
	case *ssa.Convert:
		f.regs[in] = x.convert(st, st.eval(in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		f.regs[in] = x.convert(st, st.eval(in.X), in.X.Type(), in.Type())
	case *ssa.SliceToArrayPointer:
		f.regs[in] = mkPure("arrptr", in.Type(), st.eval(in.X))
	case *ssa.Extract:
		t := st.eval(in.Tuple)
		if t.op == OTuple && in.Index < len(t.args) {
			f.regs[in] = t.args[in.Index]
		} else {
			f.regs[in] = st.fresh(in, "extract", in.Type())
		}
	case *ssa.Field:
		v := st.eval(in.X)
		s := structOf(in.X.Type())
		if s == nil {
			f.regs[in] = st.fresh(in, "field", in.Type())
		} else {
			f.regs[in] = mkFieldVal(v, s, in.Field)
		}
	case *ssa.FieldAddr:
		base := st.eval(in.X)
		if !x.deref(st, base, in) {
			return false
		}
		f = st.top()
		pt := under(in.X.Type()).(*types.Pointer)
		s := under(pt.Elem()).(*types.Struct)
		f.regs[in] = mkField(base, s, ownerName(pt.Elem()), in.Field)
	case *ssa.IndexAddr:
		base := st.eval(in.X)
		idx := st.eval(in.Index)
		var ln *Term
		switch u := under(in.X.Type()).(type) {
		case *types.Pointer:
			if a, ok := under(u.Elem()).(*types.Array); ok {
				ln = mkInt(a.Len())
			}
		default:
			ln = mkLen(base)
		}
		if !x.indexSite(st, idx, ln, in, "index", base) {
			return false
		}
		f = st.top()
		b, i := base, idx
		for b.op == OSlice {
			i = mkArith(token.ADD, b.args[1], i, types.Typ[types.Int])
			b = b.args[0]
		}
		et := in.Type().(*types.Pointer).Elem()
		// a known element of an append chain gets its own cell
		f.regs[in] = mkIndex(b, i, et)
	case *ssa.Index:
		base := st.eval(in.X)
		idx := st.eval(in.Index)
		if !x.indexSite(st, idx, mkLen(base), in, "index", base) {
			return false
		}
		f = st.top()
		if s, ok := base.strVal(); ok {
			if i, ok := idx.intVal(); ok && i >= 0 && int(i) < len(s) {
				f.regs[in] = mkInt(int64(s[i]))
				break
			}
		}
		f.regs[in] = mkPure("charat", in.Type(), base, idx)
	case *ssa.Slice:
		return x.slice(st, f, in)
	case *ssa.Lookup:
		return x.lookup(st, f, in)
	case *ssa.MakeMap:
		t := st.freshAlloc(in, "map", in.Type())
		f = st.top()
		f.regs[in] = t
		if mt, ok := under(in.Type()).(*types.Map); ok {
			x.initWitness(st, t, mt)
		}
	case *ssa.MakeChan:
		t := st.freshAlloc(in, "chan", in.Type())
		f = st.top()
		f.regs[in] = t
		x.emit(st, &Event{kind: EvCall, name: "make(chan)", args: []*Term{st.eval(in.Size)}, res: t, instr: in})
	case *ssa.MakeSlice:
		n := st.eval(in.Len)
		a := st.freshAlloc(in, "make", in.Type())
		f = st.top()
		if !x.panicSite(st, in, "makeslice", mkNot(mkLess(n, mkInt(0), nil)), n) {
			return false
		}
		f = st.top()
		f.regs[in] = tab.get(Term{op: OSlice, args: []*Term{a, mkInt(0), n}, typ: in.Type()})
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, st.eval(b))
		}
		fn := in.Fn.(*ssa.Function)
		f.regs[in] = tab.get(Term{op: OClosure, sym: fn.String(), fn: fn, args: bs, typ: in.Type()})
	case *ssa.MapUpdate:
		m, k, v := st.eval(in.Map), st.eval(in.Key), st.eval(in.Value)
		if !x.panicSite(st, in, "nilmap", mkNot(mkEq(m, mkNil())), m) {
			return false
		}
		et := under(in.Map.Type()).(*types.Map).Elem()
		site := st.siteName(in, "mapset")
		x.emit(st, &Event{kind: EvMapSet, args: []*Term{m, k, v}, addr: m, val: v, instr: in, name: st.descOf(m)})
		st.storeTo(mkMapElem(m, k, et), v, et, site)
		st.storeTo(mkMapOk(m, k), mkBool(true), types.Typ[types.Bool], site)
		st.bumpLen(m, site)
	case *ssa.Range:
		t := st.eval(in.X)
		f.regs[in] = mkPure("range", in.X.Type(), t)
		x.emit(st, &Event{kind: EvRange, args: []*Term{t}, instr: in, name: st.descOf(t)})
	case *ssa.Next:
		it := st.eval(in.Iter)
		var c *Term
		if len(it.args) > 0 {
			c = it.args[0]
		} else {
			c = it
		}
		tup := in.Type().(*types.Tuple)
		kt, vt := tup.At(1).Type(), tup.At(2).Type()
		if x.rule.Witness != nil && !in.IsString {
			if mt, ok := under(c.typ).(*types.Map); ok {
				if ws := x.rule.Witness(st, c, mt); len(ws) > 0 {
					x.witnessNext(st, in, it, c, mt, ws, kt, vt)
					return false
				}
			}
		}
		// end of iteration
		end := st.clone()
		end.top().regs[in] = mkTuple(mkBool(false), zeroOf(kt), zeroOf(vt))
		end.top().idx++
		if c.op == OAlloc && !in.IsString && !st.weak[c] && !st.hasEntries(c) {
			// a map that was never written
			x.fork(end)
			return false
		}
		if in.IsString || len(it.args) != 1 || !st.provesLess(mkInt(0), st.mapLen(c)) {
			x.fork(end)
		}
		if st.isNilT(c) {
			return false
		}
		if !in.IsString && len(it.args) == 1 {
			st.top().regs[in.Iter] = mkPure("range", it.typ, c, mkBool(true)) // under way
		}
		k := st.fresh(in, "key", kt)
		var v *Term
		if in.IsString {
			v = st.fresh(in, "rune", vt)
			k.typ = types.Typ[types.Int]
		} else {
			mt, _ := under(c.typ).(*types.Map)
			if mt == nil {
				if r, ok := in.Iter.(*ssa.Range); ok {
					mt, _ = under(r.X.Type()).(*types.Map)
				}
			}
			et := types.Type(vt)
			if mt != nil {
				et = mt.Elem()
				if b, ok := kt.(*types.Basic); ok && b.Kind() == types.Invalid {
					k.typ = mt.Key()
				}
			}
			el := mkMapElem(c, k, et)
			if r := rootAlloc(el); r != nil && !st.weak[r] {
				v = st.fresh(in, "val", et)
				st.storeTo(el, v, et, st.siteName(in, "it"))
			} else {
				v = st.load(el, et)
			}
			if !st.assume(st.load(mkMapOk(c, k), types.Typ[types.Bool]), true) {
				st.storeTo(mkMapOk(c, k), mkBool(true), types.Typ[types.Bool], st.siteName(in, "it"))
			}
			if !st.assume(mkLess(mkInt(0), st.mapLen(c), nil), true) {
				return false
			}
		}
		st.top().regs[in] = mkTuple(mkBool(true), k, v)
		x.emit(st, &Event{kind: EvRange, what: "next", args: []*Term{c, k, v}, instr: in, name: st.descOf(c)})
	case *ssa.Store:
		addr, val := st.eval(in.Addr), st.eval(in.Val)
		if !x.deref(st, addr, in) {
			return false
		}
		x.doStore(st, addr, val, in.Val.Type(), in)
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, in)
	case *ssa.Jump:
		return x.enter(st, f.blk.Succs[0])
	case *ssa.If:
		c := st.eval(in.Cond)
		t, fl := f.blk.Succs[0], f.blk.Succs[1]
		switch st.decide(c) {
		case yes:
			return x.enter(st, t)
		case no:
			return x.enter(st, fl)
		}
		other := st.clone()
		if other.assume(c, false) {
			other.trail = append(other.trail, trailOf(c, in, false))
			if x.enter(other, fl) {
				x.fork(other)
			}
		}
		if st.assume(c, true) {
			st.trail = append(st.trail, trailOf(c, in, true))
			return x.enter(st, t)
		}
		return false
	case *ssa.Return:
		var res []*Term
		for _, r := range in.Results {
			res = append(res, st.eval(r))
		}
		return x.ret(st, res, in)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			// re-run this instruction after the deferred call
			f.idx--
			return x.call(st, d.instr, &d)
		}
	case *ssa.Panic:
		x.emit(st, &Event{kind: EvPanic, args: []*Term{st.eval(in.X)}, instr: in})
		return false
	case *ssa.Go:
		return x.goStmt(st, f, in)
	case *ssa.Defer:
		c := in.Common()
		var args []*Term
		var fnT *Term
		fnT = st.eval(c.Value)
		for _, a := range c.Args {
			args = append(args, st.eval(a))
		}
		x.emit(st, &Event{kind: EvDefer, dyn: fnT, args: args, instr: in, name: x.calleeName(st, c, fnT)})
		for _, d := range f.defers {
			if d.instr == in && d.fnT == fnT {
				f.idx++
				return true
			}
		}
		f = st.top()
		if f.iter {
			// deferred again in a later iteration: one earlier instance stands for all
			var ds []deferred
			n := 0
			for i := len(f.defers) - 1; i >= 0; i-- {
				if f.defers[i].instr == in {
					if n++; n > 1 {
						continue
					}
				}
				ds = append([]deferred{f.defers[i]}, ds...)
			}
			f.defers = ds
		}
		f.defers = append(f.defers, deferred{instr: in, fnT: fnT, args: args})
	case *ssa.Send:
		ch, v := st.eval(in.Chan), st.eval(in.X)
		x.emit(st, &Event{kind: EvSend, addr: ch, val: v, instr: in, name: st.descOf(ch), ok: yes})
	case *ssa.Select:
		return x.selectStmt(st, f, in)
	case *ssa.Call:
		return x.call(st, in, nil)
	default:
		x.fail = fmt.Sprintf("unsupported instruction %T in %s", in, f.fn)
		return false
	}
	st.top().idx++
	return true
}

// initWitness makes the entries of a new map at its witness keys explicit.
func (x *Ex) initWitness(st *State, m *Term, mt *types.Map) {
	if x.rule.Witness == nil {
		return
	}
	st.ownStore()
	for _, w := range x.rule.Witness(st, m, mt) {
		st.store[mkMapOk(m, w)] = mkBool(false)
		st.store[mkMapElem(m, w, mt.Elem())] = zeroOf(mt.Elem())
	}
}

// witnessNext: the next step of a range over a map followed at given keys. The
// iterator's term lists the keys already met.
func (x *Ex) witnessNext(st *State, in *ssa.Next, it, c *Term, mt *types.Map, ws []*Term, kt, vt types.Type) {
	if st.isNilT(c) {
		st.top().regs[in] = mkTuple(mkBool(false), zeroOf(kt), zeroOf(vt))
		st.top().idx++
		x.fork(st)
		return
	}
	met := it.args[1:]
	// a map of at most one entry has been met completely by any key
	single := st.proves(mkLess(mkInt(1), st.mapLen(c), nil), false)
	if single && len(met) > 0 {
		st.top().regs[in] = mkTuple(mkBool(false), zeroOf(kt), zeroOf(vt))
		st.top().idx++
		x.fork(st)
		return
	}
	wasMet := func(w *Term) bool {
		for _, m := range met {
			if m == w {
				return true
			}
		}
		return false
	}
	bt := types.Typ[types.Bool]
	fin := func(s *State, ok bool, k *Term) {
		if !ok {
			s.top().regs[in] = mkTuple(mkBool(false), zeroOf(kt), zeroOf(vt))
		} else {
			s.top().regs[in] = mkTuple(mkBool(true), k, s.load(mkMapElem(c, k, mt.Elem()), mt.Elem()))
			x.emit(s, &Event{kind: EvRange, what: "next", args: []*Term{c, k, s.top().regs[in].args[2]}, instr: in, name: s.descOf(c)})
		}
		s.top().idx++
		x.fork(s)
	}
	// end of iteration
	end := st.clone()
	feasible := true
	for _, w := range ws {
		if !wasMet(w) && !end.assume(end.load(mkMapOk(c, w), bt), false) {
			feasible = false
		}
	}
	if feasible {
		fin(end, false, nil)
	}
	// a witness
	for _, w := range ws {
		if wasMet(w) {
			continue
		}
		s := st.clone()
		if s.assume(s.load(mkMapOk(c, w), bt), true) {
			s.top().regs[in.Iter] = mkPure("range", it.typ, append(append([]*Term{}, it.args...), w)...)
			fin(s, true, w)
		}
	}
	// any other key
	k := st.fresh(in, "key", mt.Key())
	for _, w := range ws {
		st.assume(mkEq(k, w), false)
		if single && !st.assume(st.load(mkMapOk(c, w), bt), false) {
			return
		}
	}
	if single {
		st.top().regs[in.Iter] = mkPure("range", it.typ, append(append([]*Term{}, it.args...), k)...)
	}
	st.assume(st.load(mkMapOk(c, k), bt), true)
	fin(st, true, k)
}

func trailOf(c *Term, in *ssa.If, v bool) string { return fmt.Sprintf("%d%v:%s", instrID(in), v, c) }

func (st *State) hasEntries(m *Term) bool {
	for a, v := range st.store {
		if a.op == OMapOk && a.args[0] == m && !v.isFalse() {
			return true
		}
	}
	return false
}

func (st *State) mapLenAddr(m *Term) *Term {
	return tab.get(Term{op: OMapOk, args: []*Term{m, mkStr("#len")}, typ: types.NewPointer(types.Typ[types.Int])})
}

func (st *State) mapLen(m *Term) *Term {
	if st.isNilT(m) {
		return mkInt(0)
	}
	if m.op == OAlloc && !st.weak[m] && !st.hasEntries(m) {
		if _, ok := st.store[st.mapLenAddr(m)]; !ok {
			return mkInt(0)
		}
	}
	if v, ok := st.store[st.mapLenAddr(m)]; ok {
		return v
	}
	return tab.get(Term{op: OLen, args: []*Term{m}, sym: st.epochOf(m), typ: types.Typ[types.Int]})
}

func (st *State) bumpLen(m *Term, site string) {
	st.ownStore()
	n := mkOpaque(site+"len", types.Typ[types.Uint], token.NoPos)
	if st.looping() {
		st.age(n)
	}
	st.ownStore()
	st.store[st.mapLenAddr(m)] = n
}

func (x *Ex) doStore(st *State, addr, val *Term, typ types.Type, in ssa.Instruction) {
	private := addr.op == OAlloc
	if !private {
		x.emit(st, &Event{kind: EvStore, addr: addr, val: val, instr: in, name: st.addrName(addr)})
	}
	st.storeTo(addr, val, typ, st.siteName(in, "store"))
}

func (st *State) addrName(a *Term) string {
	switch a.op {
	case OField:
		return a.fnam
	case OGlobal:
		return a.glob.String()
	case OIndex:
		return st.descOf(a.args[0]) + "[]"
	}
	return ""
}

// descOf names where a value came from: the owner.field it was loaded from.
func (st *State) descOf(t *Term) string {
	if n, _ := t.loadedField(); n != "" {
		return n
	}
	if t.op == OLoad && t.args[0].op == OGlobal {
		return t.args[0].glob.String()
	}
	if t.op == OGlobal {
		return t.glob.String()
	}
	return ""
}

// deref is the obligation that a pointer is not nil.
func (x *Ex) deref(st *State, p *Term, in ssa.Instruction) bool {
	switch p.op {
	case OAlloc, OGlobal, OField, OIndex, OClosure:
		return true
	}
	return x.panicSite(st, in, "nil dereference", mkNot(mkEq(p, mkNil())), p)
}

// panicSite emits an obligation event, then continues on the safe side.
func (x *Ex) panicSite(st *State, in ssa.Instruction, what string, safe *Term, v *Term) bool {
	d := st.decide(safe)
	if !(d == yes && safe.op == OConst) {
		x.emit(st, &Event{kind: EvSite, what: what, ok: d, val: v, addr: safe, instr: in})
	}
	if d == no {
		return false
	}
	if d == unknown {
		return st.assume(safe, true)
	}
	return true
}

func (x *Ex) indexSite(st *State, idx, ln *Term, in ssa.Instruction, what string, base *Term) bool {
	if ln == nil {
		return true
	}
	lo := mkNot(mkLess(idx, mkInt(0), nil))
	hi := mkLess(idx, ln, nil)
	d1, d2 := st.decide(lo), st.decide(hi)
	d := unknown
	if d1 == yes && d2 == yes {
		d = yes
	} else if d1 == no || d2 == no {
		d = no
	}
	x.emit(st, &Event{kind: EvSite, what: what, ok: d, val: base, args: []*Term{idx, ln}, instr: in})
	if d == no {
		return false
	}
	return st.assume(lo, true) && st.assume(hi, true)
}

func (x *Ex) slice(st *State, f *Frame, in *ssa.Slice) bool {
	base := st.eval(in.X)
	if isString(in.X.Type()) {
		lo, hi := mkInt(0), mkLen(base)
		if in.Low != nil {
			lo = st.eval(in.Low)
		}
		if in.High != nil {
			hi = st.eval(in.High)
		}
		if !x.sliceSite(st, lo, hi, mkLen(base), in, base) {
			return false
		}
		f = st.top()
		if lo.op == OConst && hi == mkLen(base) {
			if n, _ := lo.intVal(); n == 0 {
				f.regs[in] = base
				f.idx++
				return true
			}
		}
		if s, ok := base.strVal(); ok {
			a, ok1 := lo.intVal()
			b, ok2 := hi.intVal()
			if ok1 && ok2 && a >= 0 && a <= b && int(b) <= len(s) {
				f.regs[in] = mkStr(s[a:b])
				f.idx++
				return true
			}
		}
		f.regs[in] = tab.get(Term{op: OSlice, args: []*Term{base, lo, hi}, typ: in.Type()})
		f.idx++
		return true
	}
	var ln *Term
	arr := false
	if u, ok := under(in.X.Type()).(*types.Pointer); ok {
		if !x.deref(st, base, in) {
			return false
		}
		if a, ok := under(u.Elem()).(*types.Array); ok {
			ln = mkInt(a.Len())
			arr = true
		}
	}
	if ln == nil {
		ln = mkLen(base)
	}
	lo, hi := mkInt(0), ln
	if in.Low != nil {
		lo = st.eval(in.Low)
	}
	if in.High != nil {
		hi = st.eval(in.High)
	}
	limit := ln
	if !arr && in.High != nil && hi != ln {
		// up to the capacity; treat beyond length as suspicious only when provably out of capacity
		limit = tab.get(Term{op: OCap, args: []*Term{base}, typ: types.Typ[types.Int]})
		st.assume(mkLess(limit, ln, nil), false)
	}
	if in.Low != nil || in.High != nil {
		if !x.sliceSite(st, lo, hi, limit, in, base) {
			return false
		}
	}
	f = st.top()
	max := ""
	if in.Max != nil {
		max = "max"
		if st.eval(in.Max) == hi {
			max = "capped"
		}
	}
	b := base
	for b.op == OSlice {
		lo = mkArith(token.ADD, b.args[1], lo, types.Typ[types.Int])
		hi = mkArith(token.ADD, b.args[1], hi, types.Typ[types.Int])
		b = b.args[0]
	}
	if z, ok := lo.intVal(); ok && z == 0 && max == "" && !arr && hi == mkLen(b) {
		f.regs[in] = b
	} else {
		f.regs[in] = tab.get(Term{op: OSlice, args: []*Term{b, lo, hi}, sym: max, typ: in.Type()})
	}
	f.idx++
	return true
}

func (x *Ex) sliceSite(st *State, lo, hi, limit *Term, in ssa.Instruction, base *Term) bool {
	a := mkNot(mkLess(lo, mkInt(0), nil))
	b := mkNot(mkLess(hi, lo, nil))
	c := mkNot(mkLess(limit, hi, nil))
	d := yes
	for _, t := range []*Term{a, b, c} {
		switch st.decide(t) {
		case no:
			d = no
		case unknown:
			if d == yes {
				d = unknown
			}
		}
	}
	x.emit(st, &Event{kind: EvSite, what: "slice bounds", ok: d, val: base, args: []*Term{lo, hi, limit}, instr: in})
	if d == no {
		return false
	}
	return st.assume(a, true) && st.assume(b, true) && st.assume(c, true)
}

func (x *Ex) lookup(st *State, f *Frame, in *ssa.Lookup) bool {
	m, k := st.eval(in.X), st.eval(in.Index)
	if isString(in.X.Type()) {
		if !x.indexSite(st, k, mkLen(m), in, "index", m) {
			return false
		}
		st.top().regs[in] = mkPure("charat", in.Type(), m, k)
		st.top().idx++
		return true
	}
	mt := under(in.X.Type()).(*types.Map)
	x.emit(st, &Event{kind: EvMapGet, addr: m, args: []*Term{m, k}, instr: in, name: st.descOf(m)})
	f = st.top()
	okA := mkMapOk(m, k)
	elA := mkMapElem(m, k, mt.Elem())
	ok := st.load(okA, types.Typ[types.Bool])
	el := st.load(elA, mt.Elem())
	if st.isNilT(m) {
		ok = mkBool(false)
	}
	switch st.decide(ok) {
	case no:
		el = zeroOf(mt.Elem())
	case unknown:
		if in.CommaOk {
			// same element under an equal key?
			o := st.clone()
			if o.assume(ok, false) {
				o.ownStore()
				o.store[elA] = zeroOf(mt.Elem())
				o.store[okA] = mkBool(false)
				o.top().regs[in] = mkTuple(zeroOf(mt.Elem()), mkBool(false))
				o.top().idx++
				x.fork(o)
			}
			if !st.assume(ok, true) {
				return false
			}
			st.ownStore()
			st.store[okA] = mkBool(true)
			st.store[elA] = el
			ok = mkBool(true)
		}
	}
	if st.decide(ok) == yes && in.CommaOk {
		ok = mkBool(true)
	}
	f = st.top()
	if in.CommaOk {
		if st.decide(ok) == no {
			ok = mkBool(false)
		}
		f.regs[in] = mkTuple(el, ok)
	} else {
		f.regs[in] = el
	}
	f.idx++
	return true
}

func (x *Ex) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) bool {
	v := st.eval(in.X)
	test := mkTypeIs(v, in.AssertedType)
	value := func(s *State) *Term {
		if v.op == OIface && !types.IsInterface(in.AssertedType) {
			return v.args[0]
		}
		if types.IsInterface(in.AssertedType) {
			return v
		}
		t := tab.get(Term{op: OPure, sym: "as:" + typeKey(in.AssertedType), args: []*Term{v}, typ: in.AssertedType})
		if nillable(in.AssertedType) {
			if _, ok := under(in.AssertedType).(*types.Pointer); ok {
				s.assume(mkEq(t, mkNil()), false)
			}
		}
		return t
	}
	d := st.decide(test)
	if !in.CommaOk {
		x.emit(st, &Event{kind: EvSite, what: "type assertion", ok: d, val: v, addr: test, instr: in})
		if d == no || !st.assume(test, true) {
			return false
		}
		st.top().regs[in] = value(st)
		st.top().idx++
		return true
	}
	if d == unknown {
		o := st.clone()
		if o.assume(test, false) {
			o.top().regs[in] = mkTuple(zeroOf(in.AssertedType), mkBool(false))
			o.top().idx++
			x.fork(o)
		}
		if !st.assume(test, true) {
			return false
		}
		d = yes
	}
	if d == yes {
		st.top().regs[in] = mkTuple(value(st), mkBool(true))
	} else {
		st.top().regs[in] = mkTuple(zeroOf(in.AssertedType), mkBool(false))
	}
	st.top().idx++
	return true
}

func (x *Ex) binop(st *State, in *ssa.BinOp) *Term {
	a, b := st.eval(in.X), st.eval(in.Y)
	t := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		var r *Term
		// comparison of an interface with a concrete value
		if a.op == OIface && b.op != OIface && b.op != ONil && !types.IsInterface(in.Y.Type()) {
			b = mkIface(b, in.Y.Type())
		}
		r = mkEq(a, b)
		if in.Op == token.NEQ {
			r = mkNot(r)
		}
		return r
	case token.LSS:
		return mkLess(a, b, t)
	case token.GTR:
		return mkLess(b, a, t)
	case token.LEQ:
		return mkNot(mkLess(b, a, t))
	case token.GEQ:
		return mkNot(mkLess(a, b, t))
	case token.ADD:
		if isString(t) {
			x1, ok1 := a.strVal()
			x2, ok2 := b.strVal()
			if ok1 && ok2 {
				return mkStr(x1 + x2)
			}
			return mkPure("concat", in.Type(), a, b)
		}
		return mkArith(token.ADD, a, b, in.Type())
	case token.QUO, token.REM:
		if isInt(t) {
			x.emit(st, &Event{kind: EvSite, what: "division by zero", ok: st.decide(mkNot(mkEq(b, mkInt(0)))), val: b, instr: in})
		}
		if c1, ok := a.intVal(); ok {
			if c2, ok := b.intVal(); ok && c2 != 0 {
				if in.Op == token.QUO {
					return mkConst(constant.MakeInt64(c1/c2), in.Type())
				}
				return mkConst(constant.MakeInt64(c1%c2), in.Type())
			}
		}
		return mkBinRaw(in.Op, a, b, in.Type())
	}
	return mkArith(in.Op, a, b, in.Type())
}

func (x *Ex) unop(st *State, f *Frame, in *ssa.UnOp) bool {
	v := st.eval(in.X)
	switch in.Op {
	case token.NOT:
		f.regs[in] = mkNot(v)
	case token.SUB:
		if c, ok := v.intVal(); ok {
			f.regs[in] = mkConst(constant.MakeInt64(-c), in.Type())
		} else if linearTerm(v) {
			f.regs[in] = mkArith(token.SUB, mkInt(0), v, in.Type())
		} else {
			f.regs[in] = tab.get(Term{op: ONeg, args: []*Term{v}, typ: in.Type()})
		}
	case token.XOR:
		f.regs[in] = mkPure("xor", in.Type(), v)
	case token.MUL:
		if !x.deref(st, v, in) {
			return false
		}
		if v.op != OAlloc {
			x.emit(st, &Event{kind: EvLoad, addr: v, instr: in, name: st.addrName(v)})
		}
		t := x.loadVal(st, v, in.Type())
		st.top().regs[in] = t
	case token.ARROW:
		x.emit(st, &Event{kind: EvRecv, addr: v, instr: in, name: st.descOf(v), ok: yes})
		if in.CommaOk {
			tup := in.Type().(*types.Tuple)
			ok := st.fresh(in, "recvok", types.Typ[types.Bool])
			val := st.fresh(in, "recv", tup.At(0).Type())
			st.top().regs[in] = mkTuple(val, ok)
		} else {
			st.top().regs[in] = st.fresh(in, "recv", in.Type())
		}
	}
	st.top().idx++
	return true
}

// loadVal loads, looking through append chains.
// contentOf names what a new slice was filled with.
func contentOf(base *Term) *Term { return mkPure("contentof", nil, base) }

func (x *Ex) loadVal(st *State, addr *Term, typ types.Type) *Term {
	if v, ok := st.store[addr]; ok {
		return v
	}
	if addr.op == OIndex && addr.args[0].op == OAlloc {
		if src, ok := st.store[contentOf(addr.args[0])]; ok {
			b, i := src, addr.args[1]
			for b.op == OSlice {
				i = mkArith(token.ADD, b.args[1], i, types.Typ[types.Int])
				b = b.args[0]
			}
			return x.loadVal(st, mkIndex(b, i, typ), typ)
		}
	}
	if addr.op == OIndex && addr.args[0].op == OAppend {
		base, idx := addr.args[0], addr.args[1]
		fixed := true
		for _, e := range base.args[1:] {
			if e.op == OPure && e.sym == "spread" {
				fixed = false
			}
		}
		if fixed {
			d := linDiff(idx, mkLen(base.args[0]))
			lo, hi := st.bounds(d)
			if lo == hi && lo >= 0 && int(lo) < len(base.args)-1 {
				return base.args[1+lo]
			}
			if hi < 0 {
				b, i := base.args[0], idx
				for b.op == OSlice {
					i = mkArith(token.ADD, b.args[1], i, types.Typ[types.Int])
					b = b.args[0]
				}
				return x.loadVal(st, mkIndex(b, i, typ), typ)
			}
		} else if len(base.args) == 2 {
			sp := base.args[1].args[0]
			d := mkArith(token.SUB, idx, mkLen(base.args[0]), types.Typ[types.Int])
			lo, hi := st.bounds(lin(d))
			if lo >= 0 {
				b, i := sp, d
				for b.op == OSlice {
					i = mkArith(token.ADD, b.args[1], i, types.Typ[types.Int])
					b = b.args[0]
				}
				return x.loadVal(st, mkIndex(b, i, typ), typ)
			}
			if hi < 0 {
				b, i := base.args[0], idx
				for b.op == OSlice {
					i = mkArith(token.ADD, b.args[1], i, types.Typ[types.Int])
					b = b.args[0]
				}
				return x.loadVal(st, mkIndex(b, i, typ), typ)
			}
		}
	}
	return st.load(addr, typ)
}

func (x *Ex) convert(st *State, v *Term, from, to types.Type) *Term {
	fb, ok1 := under(from).(*types.Basic)
	tb, ok2 := under(to).(*types.Basic)
	if ok1 && ok2 {
		fi, ti := fb.Info(), tb.Info()
		if fi&types.IsInteger != 0 && ti&types.IsInteger != 0 {
			if v.op == OConst {
				return mkConst(v.cval, to)
			}
			if sizeOf(tb) >= sizeOf(fb) && (fi&types.IsUnsigned == ti&types.IsUnsigned || sizeOf(tb) > sizeOf(fb) && ti&types.IsUnsigned == 0) {
				return v
			}
			if sizeOf(tb) == sizeOf(fb) && ti&types.IsUnsigned == 0 {
				// uint64 -> int64: identity for the values that matter here
				return v
			}
			if sizeOf(tb) == sizeOf(fb) && ti&types.IsUnsigned != 0 {
				if lo, _ := st.bounds(lin(v)); lo >= 0 {
					return v
				}
			}
			return tab.get(Term{op: OConv, sym: fb.Name() + ">" + tb.Name(), args: []*Term{v}, typ: to})
		}
		if fi&types.IsString != 0 && ti&types.IsString != 0 {
			return v
		}
		if fi&types.IsFloat != 0 && ti&types.IsFloat != 0 && sizeOf(tb) >= sizeOf(fb) && v.op != OConst {
			if tb.Kind() == fb.Kind() {
				return v
			}
		}
		if v.op == OConst && fi&types.IsNumeric != 0 && ti&types.IsFloat != 0 {
			return mkConst(constant.ToFloat(v.cval), to)
		}
		return tab.get(Term{op: OConv, sym: fb.Name() + ">" + tb.Name(), args: []*Term{v}, typ: to})
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		return tab.get(Term{op: OConv, sym: "bytes", args: []*Term{v}, typ: to})
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		if v.op == OConv && v.sym == "bytes" {
			return v.args[0]
		}
		return tab.get(Term{op: OConv, sym: "str", args: []*Term{v}, typ: to})
	}
	return v
}

func sizeOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32, types.Float32:
		return 4
	}
	return 8
}

// ---- control ----

var dbg3 = os.Getenv("GNMICHECK_DEBUG") == "3"

func (x *Ex) enter(st *State, to *ssa.BasicBlock) bool {
	f := st.top()
	from := f.blk
	// phis
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	// two edges from the same block (if with equal targets): choose by identity of succ order is not needed
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, st.eval(ph.Edges[pi]))
	}
	info := x.p.fnInfo(f.fn)
	// leaving loops
	for h := range f.loops {
		if !info.loops[h][to] {
			delete(f.loops, h)
		}
	}
	if body, ok := info.loops[to]; ok {
		if body[from] {
			f.iter = true
			if x.rule.Back != nil {
				x.rule.Back(st, to, body)
				f = st.top()
			}
			vals = x.widen(st, to, phis, vals)
			f = st.top()
		} else {
			if f.loops == nil {
				f.loops = map[*ssa.BasicBlock]loopSnap{}
			}
			st.storeS = true
			f.loops[to] = loopSnap{phis: append([]*Term(nil), vals...), store: st.store}
		}
	}
	f.iter = false
	for h := range f.loops {
		if f.loops[h].visits > 0 {
			f.iter = true
		}
	}
	for i, ph := range phis {
		f.regs[ph] = vals[i]
	}
	f.blk = to
	f.idx = len(phis)
	// prune dead registers
	live := info.liveIn[to]
	for v := range f.regs {
		if !live[v] {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == to {
				continue
			}
			delete(f.regs, v)
		}
	}
	if x.rule.Loop != nil {
		if _, ok := info.loops[to]; ok {
			x.rule.Loop(st, to)
		}
	}
	if len(to.Preds) > 1 || x.n > 2000 {
		st.gc()
		k := st.key()
		if x.seen[k] {
			return false
		}
		x.seen[k] = true
		if dbg3 {
			x.count[fmt.Sprintf("%s.%d", f.fn, to.Index)]++
			if x.count[fmt.Sprintf("%s.%d", f.fn, to.Index)]%500 == 0 {
				fmt.Fprintf(os.Stderr, "### %s.%d %d\n%s\n", f.fn, to.Index, x.count[fmt.Sprintf("%s.%d", f.fn, to.Index)], strings.Join(st.dump(), "\n"))
			}
		}
	}
	return true
}

func (x *Ex) widen(st *State, h *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term) []*Term {
	f := st.top()
	snap, ok := f.loops[h]
	if !ok {
		snap = loopSnap{phis: vals, store: st.store}
	}
	if x.rule.Witness != nil {
		// entries at other keys are not followed
		for a := range st.store {
			if (a.op == OMapElem || a.op == OMapOk) && iteratedKey(a.args[1]) {
				st.ownStore()
				delete(st.store, a)
			}
		}
	}
	visits := snap.visits + 1
	out := append([]*Term(nil), vals...)
	type w struct {
		phi  int
		addr *Term
		old  *Term
		neu  *Term
		name *Term
	}
	var ws []w
	base := strconv.Itoa(f.ctx) + "." + strconv.Itoa(instrID(h.Instrs[0])) + ";loop."
	for i, ph := range phis {
		if i < len(snap.phis) && snap.phis[i] == vals[i] {
			continue
		}
		var old *Term
		if i < len(snap.phis) {
			old = snap.phis[i]
		}
		if x.keepInLoop(old, vals[i], visits) {
			continue
		}
		ws = append(ws, w{phi: i, old: old, neu: vals[i], name: mkOpaque(base+ph.Comment+ph.Name(), ph.Type(), h.Instrs[0].Pos())})
	}
	for a, v := range st.store {
		old, ok := snap.store[a]
		if ok && old == v {
			continue
		}
		if !ok {
			// new cell: its previous content
			if visits < 4 {
				continue
			}
		}
		if x.keepInLoop(old, v, visits) {
			continue
		}
		var typ types.Type
		if p, ok := under(a.typ).(*types.Pointer); ok {
			typ = p.Elem()
		} else if v.typ != nil {
			typ = v.typ
		}
		ws = append(ws, w{phi: -1, addr: a, old: old, neu: v, name: mkOpaque(base+"cell"+strconv.Itoa(a.id), typ, h.Instrs[0].Pos())})
	}
	if len(ws) > 0 {
		// inductive bounds
		type fact struct {
			l     *linear
			hasLo bool
			lo    int64
			hasHi bool
			hi    int64
		}
		var keep []fact
		names := map[*Term]bool{}
		for _, e := range ws {
			names[e.name] = true
		}
		clean := func(l *linear, self *Term) bool {
			for t := range l.ts {
				if t == self {
					continue
				}
				for n := range names {
					if t.contains(n) {
						return false
					}
				}
			}
			return true
		}
		for _, e := range ws {
			if e.old == nil || e.neu == nil || !linearTerm(e.old) || !linearTerm(e.neu) {
				continue
			}
			d := linDiff(e.neu, e.old)
			lo, hi := st.bounds(d)
			if lo < 0 && hi > 0 {
				continue
			}
			up := lo >= 0
			down := hi <= 0
			if e.old == e.name {
				// transfer one-sided facts
				for _, i := range st.f.iv {
					c, ok := i.lin.ts[e.old]
					if !ok || !clean(i.lin, e.old) {
						continue
					}
					fa := fact{l: i.lin}
					if up && c > 0 || down && c < 0 {
						fa.hasLo, fa.lo = i.hasLo, i.lo
					}
					if up && c < 0 || down && c > 0 {
						fa.hasHi, fa.hi = i.hasHi, i.hi
					}
					if fa.hasLo || fa.hasHi {
						keep = append(keep, fa)
					}
				}
			} else {
				l := linDiff(e.name, e.old)
				if !clean(l, e.name) {
					continue
				}
				fa := fact{l: l}
				if up {
					fa.hasLo, fa.lo = true, 0
				}
				if down {
					fa.hasHi, fa.hi = true, 0
				}
				keep = append(keep, fa)
			}
		}
		var solid, filled []*Term
		if x.rule.Solid != nil {
			for _, e := range ws {
				if e.old == nil || e.neu == nil || e.name.typ == nil || !nillable(e.name.typ) {
					continue
				}
				if x.rule.Solid(st, e.old) && x.rule.Solid(st, e.neu) {
					solid = append(solid, e.name)
				}
				if isSlice(e.name.typ) && st.proves(mkLess(mkInt(0), mkLen(e.old), nil), true) && st.proves(mkLess(mkInt(0), mkLen(e.neu), nil), true) {
					filled = append(filled, e.name)
				}
			}
		}
		for _, e := range ws {
			st.age(e.name)
		}
		defer func() {
			for _, t := range solid {
				st.assume(mkEq(t, mkNil()), false)
			}
			for _, t := range filled {
				st.assume(mkLess(mkInt(0), mkLen(t), nil), true)
			}
		}()
		// values may have been renamed
		for i := range ws {
			e := &ws[i]
			_ = e
		}
		for i := range out {
			for _, e := range ws {
				n := e.name
				out[i] = out[i].subst(func(t *Term) *Term {
					if t == n {
						return mkOld(n)
					}
					return nil
				})
			}
		}
		for _, e := range ws {
			if e.phi >= 0 {
				out[e.phi] = e.name
			} else {
				st.ownStore()
				st.store[e.addr] = e.name
			}
		}
		for _, fa := range keep {
			t := fa.l
			z := &linear{c: t.c, ts: t.ts}
			tt := z.term(types.Typ[types.Int])
			if fa.hasLo {
				st.assume(mkLess(tt, mkInt(fa.lo), nil), false)
			}
			if fa.hasHi {
				st.assume(mkLess(mkInt(fa.hi), tt, nil), false)
			}
		}
	}
	f = st.top()
	if f.loops == nil {
		f.loops = map[*ssa.BasicBlock]loopSnap{}
	}
	st.storeS = true
	f.loops[h] = loopSnap{phis: append([]*Term(nil), out...), store: st.store, visits: visits}
	if visits > 30 && os.Getenv("GNMICHECK_DEBUG") == "2" {
		fmt.Fprintf(os.Stderr, "=== visit %d of block %d in %s\n%s\n", visits, h.Index, f.fn, strings.Join(st.dump(), "\n"))
	}
	if visits > 1000 {
		x.fail = "loop did not converge at " + x.p.pos(h.Instrs[0].Pos()) + " in " + f.fn.String()
	}
	return out
}

func iteratedKey(k *Term) bool {
	return k.containsIf(func(t *Term) bool { return t.op == OOpaque && strings.HasSuffix(t.sym, ";key") }) || k.op == OOld && iteratedKey(k.args[0])
}

// keepInLoop: a changed loop value from a finite domain is tracked exactly.
func (x *Ex) keepInLoop(old, v *Term, visits int) bool {
	if x.rule.Witness != nil && v.op != OOpaque && !v.containsIf(func(t *Term) bool { return t.op == OOld || t.op == OOpaque || t.op == OAppend }) && (v.typ == nil || !isInt(v.typ) && !isFloat(v.typ)) {
		return true // about a witness
	}
	if visits > 8 {
		return false
	}
	if visits <= x.rule.Unroll && (v.op == OConst || v.op == OAppend) {
		return true
	}
	switch v.op {
	case ONil, OFunc, OClosure, OGlobal:
		return true
	case OConst:
		return v.cval.Kind() != constant.Int && v.cval.Kind() != constant.Float
	}
	if v.typ != nil && (isInt(v.typ) || isFloat(v.typ)) {
		return false
	}
	if v.op == OAppend || v.op == OPure && v.sym == "concat" {
		return false
	}
	if old != nil && old != v && v.contains(old) && old.op != OConst && old.op != ONil {
		return false
	}
	return visits <= 4
}

func (x *Ex) ret(st *State, res []*Term, in ssa.Instruction) bool {
	f := st.top()
	if len(f.defers) > 0 {
		// RunDefers always precedes Return when defers exist
		f.defers = nil
	}
	if len(st.frames) == 1 {
		x.paths++
		if x.rule.Exit != nil {
			x.rule.Exit(st, res)
		}
		return false
	}
	x.emit(st, &Event{kind: EvReturn, fn: f.fn, name: fname(f.fn), args: append([]*Term(nil), f.params...), res: mkTuple(res...), instr: f.call})
	f = st.top()
	st.frames = st.frames[:len(st.frames)-1]
	var r *Term
	if len(res) == 1 {
		r = res[0]
	} else {
		r = mkTuple(res...)
	}
	if f.cont != nil {
		f.cont(x, st, r)
		return len(st.frames) > 0
	}
	x.finish(st, f.call, r, f.isDef)
	return true
}

// finish delivers a call result and advances the caller.
func (x *Ex) finish(st *State, call ssa.Instruction, r *Term, isDef bool) {
	if len(st.frames) == 0 {
		return
	}
	c := st.top()
	if !isDef {
		if v, ok := call.(ssa.Value); ok && r != nil {
			c.regs[v] = r
		}
	}
	c.idx++
}

func (x *Ex) selectStmt(st *State, f *Frame, in *ssa.Select) bool {
	type arm struct {
		ch, v *Term
		dir   types.ChanDir
		typ   types.Type
	}
	var arms []arm
	ev := &Event{kind: EvSelect, instr: in, n: len(in.States), ok: b2t(in.Blocking)}
	for _, s := range in.States {
		a := arm{ch: st.eval(s.Chan), dir: s.Dir}
		if s.Send != nil {
			a.v = st.eval(s.Send)
		}
		if c, ok := under(s.Chan.Type()).(*types.Chan); ok {
			a.typ = c.Elem()
		}
		arms = append(arms, a)
		ev.args = append(ev.args, a.ch)
	}
	x.emit(st, ev)
	mk := func(s *State, idx int) {
		tup := in.Type().(*types.Tuple)
		vals := []*Term{mkInt(int64(idx)), s.fresh(in, "selok", types.Typ[types.Bool])}
		j := 2
		for i, a := range arms {
			if a.dir == types.RecvOnly {
				if i == idx {
					vals = append(vals, s.fresh(in, "selrecv"+strconv.Itoa(i), tup.At(j).Type()))
				} else {
					vals = append(vals, zeroOf(tup.At(j).Type()))
				}
				j++
			}
		}
		s.top().regs[in] = mkTuple(vals...)
		s.top().idx++
	}
	for i, a := range arms {
		if st.isNilT(a.ch) {
			continue
		}
		s := st.clone()
		x.emit(s, &Event{kind: EvArm, instr: in, n: i, addr: a.ch, val: a.v, name: s.descOf(a.ch), what: map[bool]string{true: "recv", false: "send"}[a.dir == types.RecvOnly], ok: b2t(in.Blocking)})
		mk(s, i)
		x.fork(s)
	}
	if !in.Blocking {
		s := st.clone()
		x.emit(s, &Event{kind: EvArm, instr: in, n: -1, what: "default", ok: no})
		mk(s, -1)
		x.fork(s)
	}
	return false
}

func (x *Ex) goStmt(st *State, f *Frame, in *ssa.Go) bool {
	c := in.Common()
	fnT := st.eval(c.Value)
	var args []*Term
	for _, a := range c.Args {
		args = append(args, st.eval(a))
	}
	ev := &Event{kind: EvGo, dyn: fnT, args: args, instr: in, name: x.calleeName(st, c, fnT)}
	x.emit(st, ev)
	follow := x.rule.Go == nil || x.rule.Go(st, ev)
	var fn *ssa.Function
	if fnT.op == OFunc || fnT.op == OClosure {
		fn = fnT.fn
	}
	if c.IsInvoke() && fnT.op == OIface {
		fn = x.p.method(fnT.typ, c.Method)
		args = append([]*Term{fnT.args[0]}, args...)
	}
	if fn != nil && strings.Count(">"+st.gor+">", ">"+fn.String()+">") > 1 {
		follow = false // spawns itself over and over
	}
	if follow && fn != nil && x.p.inRepo(fn) && len(fn.Blocks) > 0 && len(st.frames) < 30 {
		g := st.clone()
		g.gor = fn.String()
		if st.gor != "" {
			g.gor = st.gor + ">" + g.gor
		}
		g.locks = nil
		keep := g.frames
		g.frames = nil
		// values of the spawning stack stay reachable through the arguments only
		_ = keep
		var free []*Term
		if fnT.op == OClosure {
			free = fnT.args
		}
		x.pushFrame(g, fn, args, free, nil, false)
		if x.rule.Started != nil {
			x.rule.Started(g, fn)
		}
		g.gc()
		k := "go" + g.key()
		if !x.seen[k] {
			x.seen[k] = true
			x.fork(g)
		}
	}
	st.top().idx++
	return true
}

// after explores a function value the root handed out, called at some later time.
func (x *Ex) after(st *State, fnT *Term, args []*Term, phase string) bool {
	fnT = strip(fnT)
	if fnT.op != OFunc && fnT.op != OClosure || fnT.fn == nil || !x.p.inRepo(fnT.fn) || len(fnT.fn.Blocks) == 0 {
		return false
	}
	g := st.clone()
	g.locks = nil
	g.frames = nil
	g.Set("phase", phase)
	var free []*Term
	if fnT.op == OClosure {
		free = fnT.args
	}
	x.pushFrame(g, fnT.fn, args, free, nil, false)
	g.gc()
	k := "after" + g.key()
	if !x.seen[k] {
		x.seen[k] = true
		x.fork(g)
	}
	return true
}

// ---- calls ----

func (x *Ex) calleeName(st *State, c *ssa.CallCommon, fnT *Term) string {
	if c.IsInvoke() {
		if fnT.op == OIface {
			if m := x.p.method(fnT.typ, c.Method); m != nil {
				return fname(m)
			}
		}
		return ifaceName(c)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}
	switch fnT.op {
	case OFunc, OClosure:
		return fname(unbound(fnT.fn))
	}
	return "dyn:" + st.descOf(fnT)
}

// unbound maps a bound-method wrapper to its method.
func unbound(fn *ssa.Function) *ssa.Function {
	if fn != nil && fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "bound method wrapper") && fn.Object() != nil {
		if m := fn.Prog.FuncValue(fn.Object().(*types.Func)); m != nil {
			return m
		}
	}
	return fn
}

func ifaceName(c *ssa.CallCommon) string {
	t := types.Unalias(c.Value.Type())
	return typeKey(t) + "." + c.Method.Name()
}

func fname(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.String()
}

func (x *Ex) call(st *State, in ssa.CallInstruction, d *deferred) bool {
	c := in.Common()
	var fnT *Term
	var args []*Term
	isDef := d != nil
	if isDef {
		fnT, args = d.fnT, d.args
	} else {
		if _, ok := c.Value.(*ssa.Builtin); !ok {
			fnT = st.eval(c.Value)
		}
		for _, a := range c.Args {
			args = append(args, st.eval(a))
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, in, b, args, isDef)
	}
	cl := &Call{instr: in, sig: c.Signature(), isDef: isDef}
	switch {
	case c.IsInvoke():
		if fnT.op == OIface {
			if m := x.p.method(fnT.typ, c.Method); m != nil {
				cl.fn = m
				cl.args = append([]*Term{fnT.args[0]}, args...)
				cl.name = fname(m)
				break
			}
		}
		if !x.panicSite(st, in, "nil dereference", mkNot(mkEq(fnT, mkNil())), fnT) {
			return false
		}
		cl.name = ifaceName(c)
		cl.args = append([]*Term{fnT}, args...)
		cl.invoke = true
	case fnT.op == OFunc || fnT.op == OClosure:
		cl.fn = fnT.fn
		cl.name = fname(fnT.fn)
		cl.args = args
		if fnT.op == OClosure {
			cl.free = fnT.args
		}
	default:
		if !x.panicSite(st, in, "nil dereference", mkNot(mkEq(fnT, mkNil())), fnT) {
			return false
		}
		cl.name = "dyn:" + st.descOf(fnT)
		cl.args = args
		cl.dyn = fnT
	}
	return x.doCall(st, cl)
}

func (x *Ex) resType(cl *Call) types.Type {
	r := cl.sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return r.At(0).Type()
	}
	return r
}

func (x *Ex) apply(st *State, cl *Call, outs []Outcome) bool {
	for i, o := range outs {
		s := st
		if i < len(outs)-1 {
			s = st.clone()
		}
		if o.do != nil && !o.do(s) {
			if s == st {
				return false
			}
			continue
		}
		if o.run != nil {
			if !x.invoke(s, cl.instr, o.run, o.cont, o.key, cl.isDef) {
				if s == st {
					return false
				}
				continue
			}
		} else {
			r := o.res
			if r == nil {
				if rt := x.resType(cl); rt != nil {
					r = s.fresh(cl.instr, shortName(cl.name), rt)
				}
			}
			x.finish(s, cl.instr, r, cl.isDef)
		}
		if s == st {
			return true
		}
		x.fork(s)
	}
	return len(outs) > 0
}

// invoke calls a function value from a model.
func (x *Ex) invoke(st *State, site ssa.Instruction, inv *Invocation, cont func(x *Ex, st *State, ret *Term), key string, isDef bool) bool {
	fnT := inv.fn
	if fnT.op == OFunc || fnT.op == OClosure {
		fn := fnT.fn
		onStack := false
		for _, f := range st.frames {
			if f.fn == fn {
				onStack = true
			}
		}
		if len(fn.Blocks) > 0 && x.p.inRepo(fn) && !onStack {
			var free []*Term
			if fnT.op == OClosure {
				free = fnT.args
			}
			x.emit(st, &Event{kind: EvEnter, fn: fn, name: fname(fn), args: inv.args, instr: site})
			x.pruneCaller(st)
			f := x.pushFrame(st, fn, inv.args, free, site, isDef)
			f.cont = cont
			f.contK = key
			if key != "" {
				f.ctx = ctxIDs2(strconv.Itoa(f.ctx) + "/" + key)
			}
			return true
		}
	}
	// unknown function value
	name := "dyn:" + st.descOf(fnT)
	if fnT.fn != nil {
		name = fname(unbound(fnT.fn))
	}
	x.emit(st, &Event{kind: EvCall, name: name, args: inv.args, dyn: fnT, instr: site})
	var r *Term
	if sig, ok := under(fnT.typ).(*types.Signature); ok {
		switch sig.Results().Len() {
		case 0:
		case 1:
			r = st.fresh(site, "cb", sig.Results().At(0).Type())
		default:
			r = st.fresh(site, "cb", sig.Results())
		}
	}
	if cont != nil {
		cont(x, st, r)
	} else {
		x.finish(st, site, r, isDef)
	}
	return true
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return strings.TrimSuffix(s, ")")
}

// pruneCaller drops the caller's registers that are dead after the call.
func (x *Ex) pruneCaller(st *State) {
	f := st.top()
	info := x.p.fnInfo(f.fn)
	live := info.liveOut(f.blk)
	used := map[ssa.Value]bool{}
	var ops []*ssa.Value
	for i := f.idx; i < len(f.blk.Instrs); i++ {
		if i < 0 {
			continue
		}
		if i == f.idx {
			if _, ok := f.blk.Instrs[i].(*ssa.RunDefers); !ok {
				continue
			}
		}
		ops = f.blk.Instrs[i].Operands(ops[:0])
		for _, o := range ops {
			if *o != nil {
				used[*o] = true
			}
		}
	}
	for v := range f.regs {
		if !live[v] && !used[v] {
			delete(f.regs, v)
		}
	}
}

func (x *Ex) doCall(st *State, cl *Call) bool {
	if x.rule.Model != nil {
		if outs, ok := x.rule.Model(st, cl); ok {
			return x.apply(st, cl, outs)
		}
	}
	if outs, ok := x.stdModel(st, cl); ok {
		return x.apply(st, cl, outs)
	}
	if x.rule.Pure != nil && x.rule.Pure(cl.name) {
		x.emit(st, &Event{kind: EvCall, name: cl.name, fn: cl.fn, args: cl.args, instr: cl.instr, dyn: cl.dyn})
		x.finish(st, cl.instr, pureResult(cl.name, x.resType(cl), cl.args), cl.isDef)
		return true
	}
	fn := cl.fn
	if fn != nil && x.p.inRepo(fn) && len(fn.Blocks) > 0 {
		if g := x.p.getter(fn); g != nil {
			r := x.getterLoad(st, cl.args[0], g)
			x.finish(st, cl.instr, r, cl.isDef)
			return true
		}
		recursive := false
		for _, f := range st.frames {
			if f.fn == fn {
				recursive = true
			}
		}
		prim := x.rule.Prim != nil && x.rule.Prim(fn)
		if !recursive && !prim && len(st.frames) < 40 {
			x.emit(st, &Event{kind: EvEnter, fn: fn, name: cl.name, args: cl.args, instr: cl.instr})
			if !cl.isDef {
				x.pruneCaller(st)
			}
			x.pushFrame(st, fn, cl.args, cl.free, cl.instr, cl.isDef)
			return true
		}
		if recursive {
			x.emit(st, &Event{kind: EvRecurse, fn: fn, name: cl.name, args: cl.args, instr: cl.instr})
		}
	}
	ev := &Event{kind: EvCall, name: cl.name, fn: fn, args: cl.args, instr: cl.instr, dyn: cl.dyn}
	x.emit(st, ev)
	// objects handed out by address may be written
	if !readOnlyCallee(cl.name) {
		for _, a := range cl.args {
			x.havoc(st, a, cl.instr)
		}
		for _, a := range cl.free {
			x.havoc(st, a, cl.instr)
		}
	}
	var r *Term
	if ev.res != nil {
		r = ev.res
	} else if rt := x.resType(cl); rt != nil {
		r = st.fresh(cl.instr, shortName(cl.name), rt)
	}
	x.finish(st, cl.instr, r, cl.isDef)
	return true
}

func pureResult(name string, rt types.Type, args []*Term) *Term {
	if rt == nil {
		return nil
	}
	if tup, ok := rt.(*types.Tuple); ok {
		var rs []*Term
		for i := 0; i < tup.Len(); i++ {
			rs = append(rs, mkPure(name+"#"+strconv.Itoa(i), tup.At(i).Type(), args...))
		}
		return mkTuple(rs...)
	}
	return mkPure(name, rt, args...)
}

// havoc forgets the contents of a local object whose address escapes to unknown code.
func (x *Ex) havoc(st *State, a *Term, in ssa.Instruction) {
	a = strip(a)
	if a.op == OSlice {
		a = a.args[0]
	}
	if a.op != OAlloc {
		return
	}
	if _, ok := under(a.typ).(*types.Pointer); !ok {
		return
	}
	if p := under(a.typ).(*types.Pointer); p != nil {
		if arr, ok := under(p.Elem()).(*types.Array); ok {
			// varargs: elements are passed by value; pointers inside may be written
			for i := int64(0); i < arr.Len() && i < 16; i++ {
				if v, ok := st.store[mkIndex(a, mkInt(i), arr.Elem())]; ok {
					x.havoc(st, v, in)
				}
			}
			return
		}
	}
	st.bump(a, st.siteName(in, "havoc"))
	st.ownStore()
	if _, ok := st.store[a]; ok || structOf(under(a.typ).(*types.Pointer).Elem()) == nil {
		delete(st.store, a)
	}
	st.setWeak(a)
}

func (x *Ex) getterLoad(st *State, recv *Term, g *getterInfo) *Term {
	if st.isNilT(recv) {
		return zeroOf(g.st.Field(g.field).Type())
	}
	addr := mkField(recv, g.st, g.owner, g.field)
	x.emit(st, &Event{kind: EvLoad, addr: addr, name: addr.fnam, what: "getter"})
	return st.load(addr, g.st.Field(g.field).Type())
}

func (x *Ex) builtin(st *State, in ssa.CallInstruction, b *ssa.Builtin, args []*Term, isDef bool) bool {
	var r *Term
	switch b.Name() {
	case "len":
		if args[0].op == OSlice || !isMapOrChan(in.Common().Args[0].Type()) {
			if a, ok := arrayLen(in.Common().Args[0].Type()); ok {
				r = mkInt(a)
			} else {
				r = mkLen(args[0])
				if r.op == OLen && st.isNilT(args[0]) {
					r = mkInt(0)
				}
			}
		} else if _, ok := under(in.Common().Args[0].Type()).(*types.Map); ok {
			r = st.mapLen(args[0])
		} else {
			r = st.fresh(in.(ssa.Instruction), "chanlen", types.Typ[types.Uint])
		}
	case "cap":
		r = tab.get(Term{op: OCap, args: []*Term{args[0]}, typ: types.Typ[types.Int]})
		st.assume(mkLess(r, mkLen(args[0]), nil), false)
	case "append":
		r = x.appendTerm(st, args)
		x.emit(st, &Event{kind: EvAppend, args: args, res: r, addr: args[0], instr: in.(ssa.Instruction), name: st.descOf(args[0])})
	case "copy":
		n := st.fresh(in.(ssa.Instruction), "copied", types.Typ[types.Uint])
		x.emit(st, &Event{kind: EvCall, name: "builtin:copy", args: args, instr: in.(ssa.Instruction)})
		d := args[0]
		if d.op == OSlice {
			d = d.args[0]
		}
		st.bump(d, st.siteName(in.(ssa.Instruction), "copy"))
		st.assume(mkLess(mkLen(args[0]), n, nil), false)
		st.assume(mkLess(mkLen(args[1]), n, nil), false)
		if d.op == OAlloc && st.decide(mkEq(mkLen(args[0]), mkLen(args[1]))) == yes && (args[0] == d || args[0].args[1].isZero()) {
			// all of a new slice: its elements are those of the source
			st.ownStore()
			st.store[contentOf(d)] = args[1]
		} else if d.op == OAlloc && (args[0] == d || args[0].args[1].isZero()) {
			// the source, and a few more elements
			if lo, hi := st.bounds(linDiff(mkLen(args[0]), mkLen(args[1]))); lo == hi && lo > 0 && lo <= 4 {
				var more []*Term
				for i := int64(0); i < lo; i++ {
					more = append(more, zeroOf(elemType(args[0])))
				}
				st.ownStore()
				st.store[contentOf(d)] = mkAppend(args[1], more...)
			}
		}
		r = n
	case "delete":
		m, k := args[0], args[1]
		x.emit(st, &Event{kind: EvMapDel, addr: m, args: args, instr: in.(ssa.Instruction), name: st.descOf(m)})
		mt := under(in.Common().Args[0].Type()).(*types.Map)
		site := st.siteName(in.(ssa.Instruction), "delete")
		st.storeTo(mkMapElem(m, k, mt.Elem()), zeroOf(mt.Elem()), mt.Elem(), site)
		st.storeTo(mkMapOk(m, k), mkBool(false), types.Typ[types.Bool], site)
		st.bumpLen(m, site)
	case "close":
		x.emit(st, &Event{kind: EvClose, addr: args[0], instr: in.(ssa.Instruction), name: st.descOf(args[0])})
	case "min", "max":
		r = mkPure("builtin:"+b.Name(), in.Common().Signature().Results().At(0).Type(), args...)
		if len(args) == 2 && linearTerm(args[0]) && linearTerm(args[1]) {
			o := st.clone()
			c := mkLess(args[1], args[0], nil)
			lo, hi := args[1], args[0]
			pick := func(smaller *Term, other *Term) *Term {
				if b.Name() == "min" {
					return smaller
				}
				return other
			}
			if o.assume(c, true) {
				x.finish(o, in.(ssa.Instruction), pick(lo, hi), isDef)
				x.fork(o)
			}
			if !st.assume(c, false) {
				return false
			}
			r = pick(args[0], args[1])
		}
	case "panic":
		x.emit(st, &Event{kind: EvPanic, args: args, instr: in.(ssa.Instruction)})
		return false
	case "clear":
		site := st.siteName(in.(ssa.Instruction), "clear")
		x.emit(st, &Event{kind: EvMapDel, addr: args[0], args: args, instr: in.(ssa.Instruction), name: st.descOf(args[0]), what: "clear"})
		st.bump(args[0], site)
	case "recover":
		r = mkNil()
	case "ssa:wrapnilchk":
		if !x.deref(st, args[0], in.(ssa.Instruction)) {
			return false
		}
		r = args[0]
	case "print", "println":
	default:
		if rt := in.Common().Signature().Results(); rt.Len() == 1 {
			r = st.fresh(in.(ssa.Instruction), b.Name(), rt.At(0).Type())
		}
	}
	x.finish(st, in.(ssa.Instruction), r, isDef)
	return true
}

func arrayLen(t types.Type) (int64, bool) {
	switch u := under(t).(type) {
	case *types.Array:
		return u.Len(), true
	case *types.Pointer:
		if a, ok := under(u.Elem()).(*types.Array); ok {
			return a.Len(), true
		}
	}
	return 0, false
}

func isMapOrChan(t types.Type) bool {
	switch under(t).(type) {
	case *types.Map, *types.Chan:
		return true
	}
	return false
}

// appendTerm builds dst ++ elems; elements of a varargs array are read out.
func (x *Ex) appendTerm(st *State, args []*Term) *Term {
	dst := args[0]
	if len(args) == 1 {
		return dst
	}
	src := args[1]
	if src.op == ONil {
		return dst
	}
	if dst.op == OSlice {
		if n, ok := mkLen(dst).intVal(); ok && n == 0 && dst.args[0].op == OAlloc {
			dst = tab.get(Term{op: OSlice, args: dst.args, sym: dst.sym, typ: dst.typ})
		}
	}
	if src.op == OSlice && src.args[0].op == OAlloc {
		if lo, ok := src.args[1].intVal(); ok {
			if hi, ok := src.args[2].intVal(); ok && hi-lo <= 16 {
				var et types.Type
				if s, ok := under(src.typ).(*types.Slice); ok {
					et = s.Elem()
				}
				if et != nil {
					var es []*Term
					for i := lo; i < hi; i++ {
						es = append(es, st.load(mkIndex(src.args[0], mkInt(i), et), et))
					}
					if len(es) == 0 {
						return dst
					}
					if dst.op == OAppend && len(dst.args) < 12 {
						return tab.get(Term{op: OAppend, args: append(append([]*Term(nil), dst.args...), es...), typ: dst.typ})
					}
					t := mkAppend(dst, es...)
					if t.typ == nil {
						t.typ = src.typ
					}
					return t
				}
			}
		}
	}
	t := mkAppend(dst, mkPure("spread", src.typ, src))
	if t.typ == nil {
		t.typ = src.typ
	}
	return t
}
