package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	instr *ssa.Defer
	fnT   *Term
	args  []*Term
}

type loopSnap struct {
	phis   []*Term
	store  map[*Term]*Term
	visits int
}

// Frame is one activation on the abstract call stack.
type Frame struct {
	fn     *ssa.Function
	blk    *ssa.BasicBlock
	idx    int
	regs   map[ssa.Value]*Term
	free   []*Term
	params []*Term
	defers []deferred
	call   ssa.Instruction // call site in the caller
	ctx    int
	loops  map[*ssa.BasicBlock]loopSnap
	iter   bool // some back edge was taken in this frame
	isDef  bool // running as a deferred call
	cont   func(x *Ex, st *State, ret *Term)
	contK  string
	shared bool
}

// Event is something the analysed program does on a path.
type Event struct {
	kind  EvKind
	name  string // callee, owner.field, ...
	fn    *ssa.Function
	args  []*Term
	addr  *Term
	val   *Term
	res   *Term
	instr ssa.Instruction
	ok    tri    // panic sites: yes = proven safe
	what  string // panic sites: kind
	n     int    // arm of a select, ...
	dyn   *Term
}

type EvKind uint8

const (
	EvCall   EvKind = iota // call of something that is not entered (before the result exists)
	EvEnter                // repository function entered
	EvReturn               // repository function left
	EvStore                // store to a field / element / pointer (not to a private local)
	EvLoad                 // load of a field
	EvMapSet
	EvMapDel
	EvMapGet
	EvSend
	EvRecv
	EvClose
	EvSelect // select about to be executed: n = number of arms, ok = blocking
	EvArm    // a select arm taken
	EvGo
	EvDefer
	EvLock   // name = owner.field, what = "W"/"R"
	EvUnlock // same
	EvSite   // possible panic site
	EvPanic  // explicit panic
	EvAppend
	EvRecurse
	EvRange
)

// State is one abstract path state.
type State struct {
	x      *Ex
	frames []*Frame
	store  map[*Term]*Term
	storeS bool
	f      *Facts
	fS     bool
	epoch  map[*Term]string
	epochS bool
	weak   map[*Term]bool
	weakS  bool
	locks  []lockHeld
	R      map[string]string // rule automaton
	RS     bool
	T      map[string]*Term // rule terms
	TS     bool
	gor    string // goroutine root name, "" for the main root
	steps  int
	trail  []string // branch decisions, for diagnostics
}

type lockHeld struct {
	addr *Term
	mode byte // 'W' or 'R'
}

func (st *State) clone() *State {
	c := *st
	c.frames = append([]*Frame(nil), st.frames...)
	for _, f := range c.frames {
		f.shared = true
	}
	st.storeS, c.storeS = true, true
	st.fS, c.fS = true, true
	st.epochS, c.epochS = true, true
	st.weakS, c.weakS = true, true
	st.RS, c.RS = true, true
	st.TS, c.TS = true, true
	c.locks = append([]lockHeld(nil), st.locks...)
	c.trail = st.trail[:len(st.trail):len(st.trail)]
	return &c
}

func (st *State) ownFacts() {
	if st.fS {
		st.f = st.f.clone()
		st.fS = false
	}
}

func copyTT(m map[*Term]*Term) map[*Term]*Term {
	c := make(map[*Term]*Term, len(m)+4)
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (st *State) ownStore() {
	if st.storeS {
		st.store = copyTT(st.store)
		st.storeS = false
	}
}
func (st *State) ownEpoch() {
	if st.epochS {
		c := make(map[*Term]string, len(st.epoch)+1)
		for k, v := range st.epoch {
			c[k] = v
		}
		st.epoch = c
		st.epochS = false
	}
}
func (st *State) setWeak(t *Term) {
	if st.weakS {
		c := make(map[*Term]bool, len(st.weak)+1)
		for k, v := range st.weak {
			c[k] = v
		}
		st.weak = c
		st.weakS = false
	}
	st.weak[t] = true
}

// Set sets a rule variable ("" removes it).
func (st *State) Set(k, v string) {
	if st.RS {
		c := make(map[string]string, len(st.R)+1)
		for a, b := range st.R {
			c[a] = b
		}
		st.R = c
		st.RS = false
	}
	if v == "" {
		delete(st.R, k)
	} else {
		st.R[k] = v
	}
}

// SetT pins a term under a rule variable (nil removes it).
func (st *State) SetT(k string, v *Term) {
	if st.TS {
		c := make(map[string]*Term, len(st.T)+1)
		for a, b := range st.T {
			c[a] = b
		}
		st.T = c
		st.TS = false
	}
	if v == nil {
		delete(st.T, k)
	} else {
		st.T[k] = v
	}
}

// Trace appends a label to a saturating trace variable.
func (st *State) Trace(k, label string) {
	cur := st.R[k]
	n := 0
	if cur != "" {
		for _, s := range strings.Split(cur, " ") {
			if s == label {
				n++
			}
		}
	}
	if n >= 2 {
		return
	}
	if cur != "" {
		cur += " "
	}
	st.Set(k, cur+label)
}

// Count adds one to a counter saturating at 3.
func (st *State) Count(k string) int {
	n, _ := strconv.Atoi(st.R[k])
	if n < 3 {
		n++
	}
	st.Set(k, strconv.Itoa(n))
	return n
}

func (st *State) top() *Frame {
	i := len(st.frames) - 1
	f := st.frames[i]
	if f.shared {
		c := *f
		c.shared = false
		c.regs = make(map[ssa.Value]*Term, len(f.regs)+8)
		for k, v := range f.regs {
			c.regs[k] = v
		}
		c.defers = append([]deferred(nil), f.defers...)
		if f.loops != nil {
			c.loops = map[*ssa.BasicBlock]loopSnap{}
			for k, v := range f.loops {
				c.loops[k] = v
			}
		}
		st.frames[i] = &c
		f = &c
	}
	return f
}

func (st *State) own(i int) *Frame {
	f := st.frames[i]
	if f.shared {
		c := *f
		c.shared = false
		c.regs = make(map[ssa.Value]*Term, len(f.regs)+8)
		for k, v := range f.regs {
			c.regs[k] = v
		}
		c.defers = append([]deferred(nil), f.defers...)
		if f.loops != nil {
			c.loops = map[*ssa.BasicBlock]loopSnap{}
			for k, v := range f.loops {
				c.loops[k] = v
			}
		}
		st.frames[i] = &c
		f = &c
	}
	return f
}

// ---- locks ----

func (st *State) lockMode(addr *Term) byte {
	m := byte(0)
	for _, l := range st.locks {
		if l.addr == addr {
			if l.mode == 'W' {
				return 'W'
			}
			m = 'R'
		}
	}
	return m
}

// holds reports whether the named mutex of base is held; need 'R' accepts both.
func (st *State) holdsField(base *Term, field string, need byte) bool {
	for _, l := range st.locks {
		if l.addr.op == OField && l.addr.args[0] == base && (field == "" || l.addr.ftyp.Field(l.addr.n).Name() == field) {
			if l.mode == 'W' || need == 'R' {
				return true
			}
		}
	}
	return false
}

// ---- memory ----

func (st *State) epochOf(addr *Term) string {
	for a := addr; a != nil; {
		if e, ok := st.epoch[a]; ok {
			return e
		}
		switch a.op {
		case OField, OIndex, OMapElem, OMapOk:
			a = a.args[0]
		default:
			a = nil
		}
	}
	return ""
}

func (st *State) bump(base *Term, site string) {
	st.ownEpoch()
	st.epoch[base] = site
	st.ownStore()
	delete(st.store, contentOf(base))
	for a := range st.store {
		if a != base && under0(a, base) {
			delete(st.store, a)
		}
	}
	// finer epochs below base are superseded
	for a := range st.epoch {
		if a != base && under0(a, base) {
			delete(st.epoch, a)
		}
	}
	if r := rootAlloc(base); r != nil {
		st.setWeak(r)
	}
}

// under0: address a lies inside the object at base.
func under0(a, base *Term) bool {
	for {
		switch a.op {
		case OField, OIndex, OMapElem, OMapOk:
			a = a.args[0]
			if a == base {
				return true
			}
		default:
			return a == base
		}
	}
}

func rootAlloc(a *Term) *Term {
	for {
		switch a.op {
		case OField, OIndex, OMapElem, OMapOk:
			a = a.args[0]
		case OAlloc:
			return a
		default:
			return nil
		}
	}
}

func zeroOf(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsNumeric != 0:
			return mkConst(mkInt(0).cval, t)
		}
		return mkNil()
	case *types.Struct:
		if isTime(t) {
			return tab.get(Term{op: OZero, sym: "time.Time", typ: t})
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return tab.get(Term{op: OStruct, args: args, typ: t, sym: typeKey(t)})
	case *types.Array:
		return tab.get(Term{op: OZero, sym: typeKey(t), typ: t})
	case *types.Tuple:
		return mkNil()
	}
	return mkNil()
}

func structOf(t types.Type) *types.Struct {
	s, _ := under(t).(*types.Struct)
	if s != nil && isTime(t) {
		return nil
	}
	return s
}

func ownerName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		s := n.Obj().Name()
		if n.Obj().Pkg() != nil {
			s = n.Obj().Pkg().Name() + "." + s
		}
		return s
	}
	return "struct"
}

func (st *State) load(addr *Term, typ types.Type) *Term {
	if v, ok := st.store[addr]; ok {
		return v
	}
	if s := structOf(typ); s != nil && addr.op != OMapElem {
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = st.load(mkField(addr, s, ownerName(typ), i), s.Field(i).Type())
		}
		return tab.get(Term{op: OStruct, args: args, typ: typ, sym: typeKey(typ)})
	}
	switch addr.op {
	case OField, OIndex:
		b := addr
		for b.op == OField {
			b = b.args[0]
		}
		if b != addr && st.decideNil(b) == yes {
			return zeroOf(typ)
		}
		// element of an append chain or slice of a known value
	case OMapElem, OMapOk:
		if st.decideNil(addr.args[0]) == yes {
			return zeroOf(typ)
		}
	}
	if r := rootAlloc(addr); r != nil && !st.weak[r] {
		return zeroOf(typ)
	}
	t := mkLoad(addr, st.epochOf(addr))
	if t.typ == nil {
		t.typ = typ
	}
	return t
}

func (st *State) storeTo(addr, val *Term, typ types.Type, site string) {
	st.ownStore()
	if s := structOf(typ); s != nil && addr.op != OMapElem {
		for i := 0; i < s.NumFields(); i++ {
			var fv *Term
			if val.op == OStruct && i < len(val.args) {
				fv = val.args[i]
			} else if val.op == OZero {
				fv = zeroOf(s.Field(i).Type())
			} else {
				fv = mkFieldVal(val, s, i)
			}
			st.storeTo(mkField(addr, s, ownerName(typ), i), fv, s.Field(i).Type(), site)
		}
		return
	}
	// stores to elements with unknown relation clobber their siblings
	if addr.op == OIndex {
		c := st.store[contentOf(addr.args[0])]
		delete(st.store, contentOf(addr.args[0]))
		if c != nil && c.op == OAppend {
			if lo, hi := st.bounds(linDiff(addr.args[1], mkLen(c.args[0]))); lo == hi && lo >= 0 && int(lo) < len(c.args)-1 {
				as := append([]*Term(nil), c.args[1:]...)
				as[lo] = val
				st.store[contentOf(addr.args[0])] = mkAppend(c.args[0], as...)
			}
		}
	}
	if addr.op == OIndex || addr.op == OMapElem || addr.op == OMapOk {
		for a := range st.store {
			if a.op == addr.op && a != addr && a.args[0] == addr.args[0] {
				if st.decide(mkEq(a.args[1], addr.args[1])) != no {
					delete(st.store, a)
				}
			}
		}
		if st.epochOf(addr.args[0]) != site {
			if r := rootAlloc(addr); r == nil {
				st.ownEpoch()
				st.epoch[addr.args[0]] = site
			}
		}
		if addr.args[1].op != OConst {
			if r := rootAlloc(addr); r != nil {
				st.setWeak(r)
			}
		}
	}
	if (addr.op == OMapElem || addr.op == OMapOk) && st.x != nil && st.x.rule.Witness != nil && addr.args[1].containsIf(func(t *Term) bool { return t.op == OOpaque && strings.HasSuffix(t.sym, ";key") }) {
		delete(st.store, addr) // not followed
		return
	}
	if addr.op == OOld || (rootOld(addr)) {
		// weak update: several objects share this name
		if cur, ok := st.store[addr]; ok && cur != val {
			delete(st.store, addr)
			st.ownEpoch()
			st.epoch[addr] = site
			return
		}
	}
	st.store[addr] = val
}

func rootOld(a *Term) bool {
	for {
		switch a.op {
		case OField, OIndex, OMapElem, OMapOk:
			a = a.args[0]
		case OOld:
			return true
		default:
			return false
		}
	}
}

func mkFieldVal(v *Term, s *types.Struct, i int) *Term {
	if v.op == OStruct {
		return v.args[i]
	}
	return tab.get(Term{op: OFieldVal, args: []*Term{v}, n: i, typ: s.Field(i).Type()})
}

// ---- renaming of re-executed sites ----

func (st *State) mentions(t *Term) bool {
	for _, f := range st.frames {
		for _, v := range f.regs {
			if v.contains(t) {
				return true
			}
		}
		for _, v := range f.free {
			if v.contains(t) {
				return true
			}
		}
		for _, v := range f.params {
			if v.contains(t) {
				return true
			}
		}
		for _, d := range f.defers {
			if d.fnT.contains(t) {
				return true
			}
			for _, a := range d.args {
				if a.contains(t) {
					return true
				}
			}
		}
	}
	for a, v := range st.store {
		if a.contains(t) || v.contains(t) {
			return true
		}
	}
	for a := range st.f.atoms {
		if a.contains(t) {
			return true
		}
	}
	for a := range st.f.eqc {
		if a.contains(t) {
			return true
		}
	}
	for _, i := range st.f.iv {
		if i.lin != nil {
			for a := range i.lin.ts {
				if a.contains(t) {
					return true
				}
			}
		}
	}
	for _, v := range st.T {
		if v.contains(t) {
			return true
		}
	}
	for _, l := range st.locks {
		if l.addr.contains(t) {
			return true
		}
	}
	return false
}

// age renames t to old(t) in the whole state.
func (st *State) age(t *Term) {
	if !st.mentions(t) {
		return
	}
	old := mkOld(t)
	st.dropFacts(func(x *Term) bool { return x.contains(old) })
	clash := st.mentionsValue(old)
	sub := func(x *Term) *Term {
		if x == t {
			return old
		}
		if x.rank == 0 && t.rank > 0 {
			return x
		}
		return nil
	}
	st.rename(sub)
	if clash {
		// two generations share a name: facts about it are no longer exact
		st.dropFacts(func(x *Term) bool { return x.contains(old) })
	}
}

func (st *State) mentionsValue(t *Term) bool {
	for _, f := range st.frames {
		for _, v := range f.regs {
			if v.contains(t) {
				return true
			}
		}
	}
	for a, v := range st.store {
		if a.contains(t) || v.contains(t) {
			return true
		}
	}
	for _, v := range st.T {
		if v.contains(t) {
			return true
		}
	}
	return false
}

func (st *State) dropFacts(p func(*Term) bool) {
	st.ownFacts()
	for a := range st.f.atoms {
		if p(a) {
			delete(st.f.atoms, a)
		}
	}
	for a := range st.f.eqc {
		if p(a) {
			delete(st.f.eqc, a)
		}
	}
	for k, i := range st.f.iv {
		for a := range i.lin.ts {
			if p(a) {
				delete(st.f.iv, k)
				break
			}
		}
	}
}

func (st *State) rename(sub func(*Term) *Term) {
	for i := range st.frames {
		f := st.own(i)
		for k, v := range f.regs {
			if w := v.subst(sub); w != v {
				f.regs[k] = w
			}
		}
		f.free = substAll(f.free, sub)
		f.params = substAll(f.params, sub)
		for j := range f.defers {
			f.defers[j].fnT = f.defers[j].fnT.subst(sub)
			f.defers[j].args = substAll(f.defers[j].args, sub)
		}
		for b, l := range f.loops {
			l.phis = substAll(l.phis, sub)
			ns := make(map[*Term]*Term, len(l.store))
			for a, v := range l.store {
				ns[a.subst(sub)] = v.subst(sub)
			}
			l.store = ns
			f.loops[b] = l
		}
	}
	ns := make(map[*Term]*Term, len(st.store))
	var dups []*Term
	for a, v := range st.store {
		a2, v2 := a.subst(sub), v.subst(sub)
		if prev, ok := ns[a2]; ok && prev != v2 {
			dups = append(dups, a2)
		}
		ns[a2] = v2
	}
	for _, d := range dups {
		delete(ns, d)
	}
	st.store, st.storeS = ns, false
	ne := make(map[*Term]string, len(st.epoch))
	for a, e := range st.epoch {
		ne[a.subst(sub)] = e
	}
	st.epoch, st.epochS = ne, false
	nw := make(map[*Term]bool, len(st.weak))
	for a, e := range st.weak {
		nw[a.subst(sub)] = e
	}
	st.weak, st.weakS = nw, false
	nf := newFacts()
	for a, v := range st.f.atoms {
		nf.atoms[a.subst(sub)] = v
	}
	for a, v := range st.f.eqc {
		nf.eqc[a.subst(sub)] = v
	}
	for k, i := range st.f.iv {
		changed := false
		nl := &linear{ts: map[*Term]int64{}}
		for t, c := range i.lin.ts {
			t2 := t.subst(sub)
			if t2 != t {
				changed = true
			}
			nl.ts[t2] += c
		}
		if !changed {
			nf.iv[k] = i
			continue
		}
		for t, c := range nl.ts {
			if c == 0 {
				delete(nl.ts, t)
			}
		}
		if len(nl.ts) == 0 {
			continue
		}
		key, sign, _ := nl.canon()
		j := i
		j.lin = nl
		if sign < 0 {
			j.hasLo, j.hasHi = i.hasHi, i.hasLo
			j.lo, j.hi = -i.hi, -i.lo
			ne := make([]int64, len(i.ne))
			for a, b := range i.ne {
				ne[len(ne)-1-a] = -b
			}
			j.ne = ne
			l2 := &linear{ts: map[*Term]int64{}}
			for t, c := range nl.ts {
				l2.ts[t] = -c
			}
			j.lin = l2
		}
		nf.iv[key] = j
	}
	st.f, st.fS = nf, false
	nt := make(map[string]*Term, len(st.T))
	for k, v := range st.T {
		nt[k] = v.subst(sub)
	}
	st.T, st.TS = nt, false
	for i := range st.locks {
		st.locks[i].addr = st.locks[i].addr.subst(sub)
	}
}

func substAll(ts []*Term, sub func(*Term) *Term) []*Term {
	var out []*Term
	for i, t := range ts {
		w := t.subst(sub)
		if w != t && out == nil {
			out = append([]*Term(nil), ts...)
		}
		if out != nil {
			out[i] = w
		}
	}
	if out == nil {
		return ts
	}
	return out
}

// ---- garbage ----

// gc drops store entries of unreachable objects and facts about unreachable unknowns.
func (st *State) gc() {
	live := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || live[t] {
			return
		}
		live[t] = true
		if t.op == OOld {
			return
		}
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, f := range st.frames {
		for _, v := range f.regs {
			mark(v)
		}
		for _, v := range f.free {
			mark(v)
		}
		for _, v := range f.params {
			mark(v)
		}
		for _, d := range f.defers {
			mark(d.fnT)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, v := range st.T {
		mark(v)
	}
	for _, l := range st.locks {
		mark(l.addr)
	}
	for ch := true; ch; {
		ch = false
		for a, v := range st.store {
			if live[v] {
				continue
			}
			b := a
			for b.op == OField || b.op == OIndex || b.op == OMapElem || b.op == OMapOk {
				b = b.args[0]
			}
			keep := true
			if b.op == OAlloc || b.rank > 0 {
				keep = live[b]
			}
			if keep {
				mark(v)
				mark(a)
				ch = true
			}
		}
	}
	for a := range st.store {
		b := a
		for b.op == OField || b.op == OIndex || b.op == OMapElem || b.op == OMapOk {
			b = b.args[0]
		}
		if (b.op == OAlloc || b.rank > 0) && !live[b] {
			st.ownStore()
			delete(st.store, a)
		}
	}
	dead := func(t *Term) bool {
		d := false
		var w func(*Term)
		w = func(t *Term) {
			if d {
				return
			}
			if (t.op == OOpaque || t.op == OOld || t.op == OAlloc) && !live[t] {
				d = true
				return
			}
			if t.op == OOld {
				return
			}
			for _, a := range t.args {
				w(a)
			}
		}
		w(t)
		return d
	}
	any := false
	for a := range st.f.atoms {
		if dead(a) {
			any = true
		}
	}
	for a := range st.f.eqc {
		if dead(a) {
			any = true
		}
	}
	for _, i := range st.f.iv {
		for a := range i.lin.ts {
			if dead(a) {
				any = true
			}
		}
	}
	if any {
		st.dropFacts(dead)
	}
	for a := range st.epoch {
		if dead(a) {
			st.ownEpoch()
			delete(st.epoch, a)
		}
	}
	for a := range st.weak {
		if dead(a) {
			if st.weakS {
				st.setWeak(a)
			}
			delete(st.weak, a)
		}
	}
}

// key identifies the state up to what can influence its future.
func (st *State) key() string {
	var b strings.Builder
	b.WriteString(st.gor)
	var s []string
	for _, f := range st.frames {
		fmt.Fprintf(&b, "[%d:%p:%d:%d:%s", f.ctx, f.fn, f.blk.Index, f.idx, f.contK)
		if f.isDef {
			b.WriteByte('D')
		}
		s = s[:0]
		for k, v := range f.regs {
			s = append(s, k.Name()+"="+strconv.Itoa(v.id))
		}
		sort.Strings(s)
		b.WriteString(strings.Join(s, ","))
		b.WriteByte('/')
		for _, v := range f.free {
			b.WriteString(strconv.Itoa(v.id))
			b.WriteByte(',')
		}
		for _, d := range f.defers {
			fmt.Fprintf(&b, "d%p:%d", d.instr, d.fnT.id)
			for _, a := range d.args {
				b.WriteByte('.')
				b.WriteString(strconv.Itoa(a.id))
			}
		}
	}
	s = s[:0]
	for a, v := range st.store {
		s = append(s, strconv.Itoa(a.id)+"="+strconv.Itoa(v.id))
	}
	sort.Strings(s)
	b.WriteString("|S")
	b.WriteString(strings.Join(s, ","))
	s = s[:0]
	for a, v := range st.epoch {
		s = append(s, strconv.Itoa(a.id)+"="+v)
	}
	sort.Strings(s)
	b.WriteString("|E")
	b.WriteString(strings.Join(s, ","))
	s = s[:0]
	for a := range st.weak {
		s = append(s, strconv.Itoa(a.id))
	}
	sort.Strings(s)
	b.WriteString("|W")
	b.WriteString(strings.Join(s, ","))
	b.WriteString("|F")
	st.f.key(&b)
	b.WriteString("|L")
	for _, l := range st.locks {
		fmt.Fprintf(&b, "%d%c,", l.addr.id, l.mode)
	}
	s = s[:0]
	for k, v := range st.R {
		s = append(s, k+"="+v)
	}
	sort.Strings(s)
	b.WriteString("|R")
	b.WriteString(strings.Join(s, ","))
	s = s[:0]
	for k, v := range st.T {
		s = append(s, k+"="+strconv.Itoa(v.id))
	}
	sort.Strings(s)
	b.WriteString("|T")
	b.WriteString(strings.Join(s, ","))
	return b.String()
}
