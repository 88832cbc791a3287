package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type interval struct {
	hasLo, hasHi bool
	lo, hi       int64
	ne           []int64
	lin          *linear // canonical linear part
}

// Facts is what a path has established about its values.
type Facts struct {
	atoms map[*Term]bool      // canonical boolean terms
	eqc   map[*Term]*Term     // term -> constant it equals
	iv    map[string]interval // canonical linear part -> bounds
}

func newFacts() *Facts {
	return &Facts{atoms: map[*Term]bool{}, eqc: map[*Term]*Term{}, iv: map[string]interval{}}
}

func (f *Facts) clone() *Facts {
	g := newFacts()
	for k, v := range f.atoms {
		g.atoms[k] = v
	}
	for k, v := range f.eqc {
		g.eqc[k] = v
	}
	for k, v := range f.iv {
		g.iv[k] = v
	}
	return g
}

func (f *Facts) key(b *strings.Builder) {
	var s []string
	for k, v := range f.atoms {
		x := strconv.Itoa(k.id)
		if v {
			x += "+"
		}
		s = append(s, x)
	}
	sort.Strings(s)
	b.WriteString(strings.Join(s, ","))
	b.WriteByte('#')
	s = s[:0]
	for k, v := range f.iv {
		x := k
		if v.hasLo {
			x += ">" + strconv.FormatInt(v.lo, 10)
		}
		if v.hasHi {
			x += "<" + strconv.FormatInt(v.hi, 10)
		}
		for _, n := range v.ne {
			x += "!" + strconv.FormatInt(n, 10)
		}
		s = append(s, x)
	}
	sort.Strings(s)
	b.WriteString(strings.Join(s, ","))
	b.WriteByte('#')
	s = s[:0]
	for k, v := range f.eqc {
		s = append(s, strconv.Itoa(k.id)+"="+strconv.Itoa(v.id))
	}
	sort.Strings(s)
	b.WriteString(strings.Join(s, ","))
}

// ---- type helpers ----

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUint(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isTime(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}
func nillable(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	}
	return false
}

// ---- conditions ----

func mkNot(t *Term) *Term {
	if t.op == ONot {
		return t.args[0]
	}
	if t.isTrue() {
		return mkBool(false)
	}
	if t.isFalse() {
		return mkBool(true)
	}
	return tab.get(Term{op: ONot, args: []*Term{t}, typ: types.Typ[types.Bool]})
}

func mkBinRaw(tok token.Token, x, y *Term, typ types.Type) *Term {
	return tab.get(Term{op: OBin, tok: tok, args: []*Term{x, y}, typ: typ})
}

func sameConst(a, b *Term) bool {
	return constant.Compare(a.cval, token.EQL, b.cval)
}

func constComparable(a, b *Term) bool {
	k := func(t *Term) int {
		switch t.cval.Kind() {
		case constant.Int, constant.Float:
			return 1
		case constant.String:
			return 2
		case constant.Bool:
			return 3
		}
		return 0
	}
	return k(a) == k(b) && k(a) != 0
}

// mkEq builds the canonical equality x == y.
func mkEq(x, y *Term) *Term {
	if y.op == ONil && x.op == OPure && x.sym == "copyof" {
		x = x.args[0]
	}
	if x.op == ONil && y.op == OPure && y.sym == "copyof" {
		y = y.args[0]
	}
	if x == y {
		return mkBool(true)
	}
	if x.op == OConst && y.op == OConst && constComparable(x, y) {
		return mkBool(sameConst(x, y))
	}
	if y.op == OConst && y.cval.Kind() == constant.Bool {
		x, y = y, x
	}
	if x.op == OConst && x.cval.Kind() == constant.Bool {
		if x.isTrue() {
			return y
		}
		return mkNot(y)
	}
	if x.op == OIface && y.op == OIface {
		if x.sym != y.sym {
			return mkBool(false)
		}
		return mkEq(x.args[0], y.args[0])
	}
	if x.op == ONil || x.op == OConst {
		x, y = y, x
	}
	if y.op == ONil {
		switch x.op {
		case OAlloc, OClosure, OFunc, OGlobal, OField, OIndex, OIface:
			return mkBool(false)
		case OAppend:
			if len(x.args) > 1 && x.args[1].sym != "spread" {
				return mkBool(false)
			}
		}
	} else if x.op == OAlloc && y.op == OAlloc && !isOldAlloc(x) && !isOldAlloc(y) {
		return mkBool(false)
	}
	if s, ok := y.strVal(); ok && s == "" {
		return mkEq(mkLen(x), mkInt(0))
	}
	if y.op != ONil && y.op != OConst && x.id > y.id {
		x, y = y, x
	}
	return mkBinRaw(token.EQL, x, y, types.Typ[types.Bool])
}

func isOldAlloc(t *Term) bool { return t.op == OOld }

func mkLen(x *Term) *Term {
	if x.op == OPure && x.sym == "copyof" {
		x = x.args[0]
	}
	switch x.op {
	case ONil:
		return mkInt(0)
	case OConst:
		if s, ok := x.strVal(); ok {
			return mkInt(int64(len(s)))
		}
	case OAppend:
		n := int64(0)
		base := mkLen(x.args[0])
		for _, a := range x.args[1:] {
			if a.op == OPure && a.sym == "spread" {
				base = mkArith(token.ADD, base, mkLen(a.args[0]), types.Typ[types.Int])
			} else {
				n++
			}
		}
		return mkArith(token.ADD, base, mkInt(n), types.Typ[types.Int])
	case OSlice:
		lo, hi := x.args[1], x.args[2]
		return mkArith(token.SUB, hi, lo, types.Typ[types.Int])
	case OPure:
		if x.sym == "concat" {
			return mkArith(token.ADD, mkLen(x.args[0]), mkLen(x.args[1]), types.Typ[types.Int])
		}
		if x.sym == "makeslice" {
			return x.args[1]
		}
	case OConv:
		if x.sym == "bytes" || x.sym == "str" {
			return mkLen(x.args[0])
		}
	}
	return tab.get(Term{op: OLen, args: []*Term{x}, typ: types.Typ[types.Int]})
}

// mkLess builds the canonical x < y.
func mkLess(x, y *Term, typ types.Type) *Term {
	if x == y {
		return mkBool(false)
	}
	if x.op == OConst && y.op == OConst && constComparable(x, y) && x.cval.Kind() != constant.Bool {
		return mkBool(constant.Compare(x.cval, token.LSS, y.cval))
	}
	t := mkBinRaw(token.LSS, x, y, types.Typ[types.Bool])
	return t
}

func linearTerm(t *Term) bool {
	if t.op == OConst {
		return t.cval.Kind() == constant.Int
	}
	if t.op == OLen || t.op == OCap || t.op == ONs {
		return true
	}
	return t.typ != nil && isInt(t.typ)
}

func mkArith(tok token.Token, x, y *Term, typ types.Type) *Term {
	if x.op == OConst && y.op == OConst {
		switch tok {
		case token.ADD, token.SUB, token.MUL:
			return mkConst(constant.BinaryOp(x.cval, tok, y.cval), typ)
		}
	}
	if (tok == token.ADD || tok == token.SUB) && linearTerm(x) && linearTerm(y) {
		// normalise so that equal linear forms are equal terms
		l := lin(x)
		k := int64(1)
		if tok == token.SUB {
			k = -1
		}
		l.add(lin(y), k)
		return l.term(typ)
	}
	if tok == token.MUL && x.op == OConst {
		x, y = y, x
	}
	return mkBinRaw(tok, x, y, typ)
}

// term rebuilds a canonical term from a linear form.
func (l *linear) term(typ types.Type) *Term {
	var ids []*Term
	for t := range l.ts {
		ids = append(ids, t)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
	var r *Term
	addPart := func(p *Term, neg bool) {
		if r == nil {
			if neg {
				r = tab.get(Term{op: ONeg, args: []*Term{p}, typ: typ})
			} else {
				r = p
			}
			return
		}
		tok := token.ADD
		if neg {
			tok = token.SUB
		}
		r = mkBinRaw(tok, r, p, typ)
	}
	for pass := 0; pass < 2; pass++ {
		for _, t := range ids {
			c := l.ts[t]
			if (c < 0) != (pass == 1) {
				continue
			}
			if c < 0 {
				c = -c
			}
			p := t
			if c != 1 {
				p = mkBinRaw(token.MUL, t, mkInt(c), typ)
			}
			addPart(p, pass == 1)
		}
	}
	if r == nil {
		return mkConst(constant.MakeInt64(l.c), typ)
	}
	if l.c != 0 {
		if l.c < 0 {
			r = mkBinRaw(token.SUB, r, mkInt(-l.c), typ)
		} else {
			r = mkBinRaw(token.ADD, r, mkInt(l.c), typ)
		}
	}
	return r
}

// ---- deciding ----

type tri int8

const (
	unknown tri = 0
	yes     tri = 1
	no      tri = -1
)

func (t tri) not() tri { return -t }
func b2t(b bool) tri {
	if b {
		return yes
	}
	return no
}

const inf = int64(1) << 61

// ownBounds gives what is known of a single integer term.
func (st *State) ownBounds(t *Term) (lo, hi int64) {
	lo, hi = -inf, inf
	if t.op == OLen || t.op == OCap {
		lo = 0
	} else if t.typ != nil && isUint(t.typ) && t.op != OBin {
		lo = 0
	}
	if t.op == OPure && t.sym == "min0" {
		lo = 0
	}
	if t.op == OPure && len(t.args) == 1 && t.sym == "rangedint" {
		lo, hi = 0, inf
	}
	if c, ok := st.f.eqc[t]; ok {
		if v, ok := c.intVal(); ok {
			return v, v
		}
	}
	if t.op == OLen {
		if st.decideNil(t.args[0]) == yes {
			return 0, 0
		}
		if c, ok := st.f.eqc[t.args[0]]; ok {
			if s, ok := c.strVal(); ok {
				return int64(len(s)), int64(len(s))
			}
		}
	}
	if t.op == OLoad {
		if b := st.loadBase(t); b != nil && st.decideNil(b) == yes {
			return 0, 0
		}
	}
	if i, ok := st.f.iv["1*"+strconv.Itoa(t.id)+";"]; ok {
		if i.hasLo && i.lo > lo {
			lo = i.lo
		}
		if i.hasHi && i.hi < hi {
			hi = i.hi
		}
	}
	return
}

// loadBase returns the pointer whose nil-ness makes a field load zero.
func (st *State) loadBase(t *Term) *Term {
	if t.op != OLoad {
		return nil
	}
	a := t.args[0]
	for a.op == OField {
		a = a.args[0]
	}
	if a == t.args[0] || a.op == OAlloc || a.op == OGlobal || a.op == OIndex || a.op == OMapElem {
		return nil
	}
	return a
}

func addSat(a, b int64) int64 {
	if a <= -inf || b <= -inf {
		return -inf
	}
	if a >= inf || b >= inf {
		return inf
	}
	return a + b
}

func mulSat(a, k int64) int64 {
	if a <= -inf || a >= inf {
		if (a < 0) != (k < 0) {
			return -inf
		}
		return inf
	}
	return a * k
}

func (st *State) sumBounds(l *linear) (lo, hi int64) {
	lo, hi = l.c, l.c
	for t, c := range l.ts {
		a, b := st.ownBounds(t)
		if c > 0 {
			lo = addSat(lo, mulSat(a, c))
			hi = addSat(hi, mulSat(b, c))
		} else {
			lo = addSat(lo, mulSat(b, c))
			hi = addSat(hi, mulSat(a, c))
		}
	}
	return
}

func (st *State) bounds1(l *linear) (lo, hi int64) {
	lo, hi = st.sumBounds(l)
	if len(l.ts) == 0 {
		return
	}
	key, sign, _ := l.canon()
	if i, ok := st.f.iv[key]; ok {
		if sign > 0 {
			if i.hasLo && l.c+i.lo > lo {
				lo = l.c + i.lo
			}
			if i.hasHi && l.c+i.hi < hi {
				hi = l.c + i.hi
			}
		} else {
			if i.hasHi && l.c-i.hi > lo {
				lo = l.c - i.hi
			}
			if i.hasLo && l.c-i.lo < hi {
				hi = l.c - i.lo
			}
		}
	}
	return
}

// bounds computes bounds of a linear form, using one or two steps of transitivity.
func (st *State) bounds(l *linear) (lo, hi int64) { return st.boundsN(l, 2) }

func (st *State) boundsN(l *linear, depth int) (lo, hi int64) {
	lo, hi = st.bounds1(l)
	if len(l.ts) == 0 || depth == 0 {
		return
	}
	for _, i := range st.f.iv {
		if i.lin == nil || len(i.lin.ts) < 2 {
			continue
		}
		share := false
		for t := range i.lin.ts {
			if _, ok := l.ts[t]; ok {
				share = true
				break
			}
		}
		if !share {
			continue
		}
		for _, k := range []int64{1, -1} {
			r := &linear{c: l.c, ts: map[*Term]int64{}}
			for t, c := range l.ts {
				r.ts[t] = c
			}
			r.add(i.lin, -k) // l = k*F + r
			if len(r.ts) >= len(l.ts)+len(i.lin.ts) {
				continue
			}
			if len(r.ts) > len(l.ts) {
				continue
			}
			rl, rh := st.boundsN(r, depth-1)
			fl, fh := -inf, inf
			if i.hasLo {
				fl = i.lo
			}
			if i.hasHi {
				fh = i.hi
			}
			if k < 0 {
				fl, fh = mulSat(fh, -1), mulSat(fl, -1)
			}
			if x := addSat(fl, rl); x > lo {
				lo = x
			}
			if x := addSat(fh, rh); x < hi {
				hi = x
			}
		}
	}
	return
}

func (st *State) neVal(l *linear, v int64) bool {
	key, sign, _ := l.canon()
	if i, ok := st.f.iv[key]; ok {
		// l = sign*K + c ; l != v  <=>  K != (v-c)*sign
		w := (v - l.c) * sign
		for _, n := range i.ne {
			if n == w {
				return true
			}
		}
	}
	return false
}

func linDiff(x, y *Term) *linear {
	l := &linear{ts: map[*Term]int64{}}
	l.add(lin(x), 1)
	l.add(lin(y), -1)
	return l
}

// decideNil reports whether a value is known to be nil.
func (st *State) decideNil(x *Term) tri {
	if x.op == OPure && x.sym == "copyof" {
		x = x.args[0]
	}
	c := mkEq(x, mkNil())
	if c.op == OConst {
		return b2t(c.isTrue())
	}
	if v, ok := st.f.atoms[c]; ok {
		return b2t(v)
	}
	switch x.op {
	case OLoad:
		a := x.args[0]
		if a.op == OGlobal && a.glob != nil && immutableGlobal(a.glob) {
			return no
		}
		if b := st.loadBase(x); b != nil && st.decideNil(b) == yes {
			return yes
		}
	case OZero:
		return yes
	case OAppend:
		if lo, _ := st.bounds(lin(mkLen(x))); lo > 0 {
			return no
		}
	case OSlice:
		return st.decideNil(x.args[0])
	}
	if nillableSliceish(x) {
		if lo, _ := st.ownBoundsLenNoNil(x); lo > 0 {
			return no
		}
	}
	return unknown
}

func nillableSliceish(x *Term) bool {
	switch under(x.typ).(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

func (st *State) ownBoundsLenNoNil(x *Term) (lo, hi int64) {
	lo, hi = 0, inf
	l := tab.get(Term{op: OLen, args: []*Term{x}, typ: types.Typ[types.Int]})
	if i, ok := st.f.iv["1*"+strconv.Itoa(l.id)+";"]; ok && i.hasLo {
		lo = i.lo
	}
	return
}

// decide evaluates a boolean term under the facts.
func (st *State) decide(t *Term) tri {
	switch t.op {
	case OConst:
		return b2t(t.isTrue())
	case ONot:
		return st.decide(t.args[0]).not()
	}
	if v, ok := st.f.atoms[t]; ok {
		return b2t(v)
	}
	switch t.op {
	case OBin:
		x, y := t.args[0], t.args[1]
		switch t.tok {
		case token.LSS:
			if linearTerm(x) && linearTerm(y) {
				lo, hi := st.bounds(linDiff(x, y))
				if hi < 0 {
					return yes
				}
				if lo >= 0 {
					return no
				}
				return unknown
			}
			if v, ok := st.f.atoms[mkLess(y, x, nil)]; ok && v {
				return no
			}
			if v, ok := st.f.atoms[mkEq(x, y)]; ok && v {
				return no
			}
		case token.EQL:
			if y.op == ONil {
				return st.decideNil(x)
			}
			if linearTerm(x) && linearTerm(y) {
				d := linDiff(x, y)
				lo, hi := st.bounds(d)
				if lo == 0 && hi == 0 {
					return yes
				}
				if lo > 0 || hi < 0 || st.neVal(d, 0) {
					return no
				}
				return unknown
			}
			cx, cy := st.constOf(x), st.constOf(y)
			if cx != nil && cy != nil && constComparable(cx, cy) {
				return b2t(sameConst(cx, cy))
			}
			nx, ny := unknown, unknown
			if nillable(x.typ) || x.op == ONil {
				nx, ny = st.decideNil(x), st.decideNil(y)
				if nx == yes && ny == yes {
					return yes
				}
				if (nx == yes && ny == no) || (nx == no && ny == yes) {
					return no
				}
			}
			if st.distinctObjects(x, y) {
				return no
			}
			if v, ok := st.f.atoms[mkLess(x, y, nil)]; ok && v {
				return no
			}
			if v, ok := st.f.atoms[mkLess(y, x, nil)]; ok && v {
				return no
			}
			// string lengths
			if isString(x.typ) {
				d := linDiff(mkLen(x), mkLen(y))
				if lo, hi := st.bounds(d); lo > 0 || hi < 0 {
					return no
				}
			}
		}
	case OType:
		x := t.args[0]
		if x.op == OIface {
			if types.IsInterface(t.typ) {
				return b2t(types.AssignableTo(x.typ, t.typ))
			}
			return b2t(x.sym == t.sym)
		}
		if st.decideNil(x) == yes {
			return no
		}
		for a, v := range st.f.atoms {
			if v && a.op == OType && a.args[0] == x && a.sym != t.sym && !types.IsInterface(a.typ) {
				if !types.IsInterface(t.typ) {
					return no
				}
				return b2t(types.AssignableTo(a.typ, t.typ))
			}
		}
		if types.IsInterface(t.typ) && x.typ != nil && types.IsInterface(x.typ) && types.AssignableTo(x.typ, t.typ) {
			if st.decideNil(x) == no {
				return yes
			}
		}
	case OLoad:
		if b := st.loadBase(t); b != nil && st.decideNil(b) == yes {
			return no
		}
	}
	return unknown
}

func (st *State) constOf(x *Term) *Term {
	if x.op == OConst {
		return x
	}
	if c, ok := st.f.eqc[x]; ok {
		return c
	}
	return nil
}

func (st *State) distinctObjects(x, y *Term) bool {
	if x.op == OAlloc && y.op == OAlloc {
		return x != y
	}
	if y.op == OAlloc {
		x, y = y, x
	}
	if x.op == OAlloc {
		switch y.op {
		case OParam, OGlobal, OField, OFree:
			return true
		case OLoad:
			return y.sym == ""
		}
	}
	return false
}

// assume adds a condition; false means the path is infeasible.
func (st *State) assume(t *Term, v bool) bool {
	if t.op == ONot {
		return st.assume(t.args[0], !v)
	}
	switch st.decide(t) {
	case yes:
		if t.op == OConst || !v {
			return v
		}
	case no:
		if t.op == OConst || v {
			return !v
		}
	}
	st.ownFacts()
	if t.op == OBin {
		x, y := t.args[0], t.args[1]
		if linearTerm(x) && linearTerm(y) && (t.tok == token.LSS || t.tok == token.EQL) {
			return st.assumeLinear(t.tok, x, y, v)
		}
		if t.tok == token.EQL {
			st.f.atoms[t] = v
			if v {
				if y.op == ONil {
					if x.op == OLen {
						return true
					}
					return true
				}
				if c := st.constOf(y); c != nil {
					st.f.eqc[x] = c
				} else if c := st.constOf(x); c != nil {
					st.f.eqc[y] = c
				}
				if nillable(x.typ) {
					nx, ny := st.decideNil(x), st.decideNil(y)
					if nx != unknown && ny == unknown {
						if !st.assume(mkEq(y, mkNil()), nx == yes) {
							return false
						}
					}
					if ny != unknown && nx == unknown {
						if !st.assume(mkEq(x, mkNil()), ny == yes) {
							return false
						}
					}
				}
				if c := st.constOf(y); c != nil {
					if s, ok := c.strVal(); ok && s != "" {
						if !st.nonzero(x) {
							return false
						}
					}
				}
				return true
			}
			if y.op == ONil {
				return st.nonzero(x)
			}
			return true
		}
	}
	st.f.atoms[t] = v
	if v && t.op == OType {
		if !st.assume(mkEq(t.args[0], mkNil()), false) {
			return false
		}
	}
	if v && t.op == OLoad {
		return st.nonzero(t)
	}
	if v && t.op == OPure && implications[t.sym] != nil {
		return implications[t.sym](st, t)
	}
	return true
}

// implications of pure predicates being true.
var implications = map[string]func(st *State, t *Term) bool{}

// nonzero records that x is not its zero value, hence what it was loaded from exists.
func (st *State) nonzero(x *Term) bool {
	if x.op == OLen {
		x = x.args[0]
		if nillable(x.typ) && st.decideNil(x) == unknown {
			st.f.atoms[mkEq(x, mkNil())] = false
		}
	}
	if b := st.loadBase(x); b != nil {
		switch st.decideNil(b) {
		case yes:
			return false
		case unknown:
			return st.assume(mkEq(b, mkNil()), false)
		}
	}
	if x.op == OSlice {
		return st.nonzero(x.args[0])
	}
	return true
}

func (st *State) assumeLinear(tok token.Token, x, y *Term, v bool) bool {
	d := linDiff(x, y)
	if len(d.ts) == 0 {
		return true
	}
	key, sign, _ := d.canon()
	i, ok := st.f.iv[key]
	if !ok || i.lin == nil {
		base := &linear{ts: map[*Term]int64{}}
		for t, c := range d.ts {
			base.ts[t] = c * sign
		}
		i.lin = base
	}
	setLo := func(b int64) { // canonical part >= b
		if !i.hasLo || b > i.lo {
			i.hasLo, i.lo = true, b
		}
	}
	setHi := func(b int64) {
		if !i.hasHi || b < i.hi {
			i.hasHi, i.hi = true, b
		}
	}
	// d = sign*K + c
	ge := func(b int64) { // d >= b
		if sign > 0 {
			setLo(b - d.c)
		} else {
			setHi(d.c - b)
		}
	}
	le := func(b int64) {
		if sign > 0 {
			setHi(b - d.c)
		} else {
			setLo(d.c - b)
		}
	}
	switch {
	case tok == token.LSS && v:
		le(-1)
	case tok == token.LSS:
		ge(0)
	case v:
		ge(0)
		le(0)
	default:
		lo, hi := st.bounds(d)
		if lo == 0 {
			ge(1)
		} else if hi == 0 {
			le(-1)
		} else {
			w := (0 - d.c) * sign
			ne := append([]int64{w}, i.ne...)
			sort.Slice(ne, func(a, b int) bool { return ne[a] < ne[b] })
			i.ne = ne
		}
	}
	// tighten with disequalities
	for ch := true; ch; {
		ch = false
		for _, n := range i.ne {
			if i.hasLo && i.lo == n {
				i.lo++
				ch = true
			}
			if i.hasHi && i.hi == n {
				i.hi--
				ch = true
			}
		}
	}
	if i.hasLo && i.hasHi && i.lo > i.hi {
		return false
	}
	st.f.iv[key] = i
	// consequences for single terms
	if len(d.ts) == 1 {
		var t *Term
		for k := range d.ts {
			t = k
		}
		lo, hi := st.ownBounds(t)
		if lo > hi {
			return false
		}
		if lo > 0 || hi < 0 {
			if !st.nonzero(t) {
				return false
			}
		}
		if c := i; c.hasLo && c.hasHi && c.lo == c.hi && i.lin.ts[t] == 1 {
			st.f.eqc[t] = mkInt(c.lo)
		}
	} else {
		if lo, hi := st.bounds(d); lo > hi {
			return false
		}
	}
	return true
}

// proves reports that the facts entail t == v.
func (st *State) proves(t *Term, v bool) bool { return st.decide(t) == b2t(v) }

// refutes / possible: the condition can still hold with the given value.
func (st *State) possible(t *Term, v bool) bool {
	c := st.clone()
	return c.assume(t, v)
}

func (st *State) provesLess(x, y *Term) bool { return st.proves(mkLess(x, y, nil), true) }
func (st *State) provesLeq(x, y *Term) bool  { return st.proves(mkLess(y, x, nil), false) }
func (st *State) nonNil(x *Term) bool        { return st.decideNil(x) == no }
func (st *State) isNilT(x *Term) bool        { return st.decideNil(x) == yes }
