package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the constructor of an abstract value.
type Op uint8

const (
	OConst    Op = iota // constant (cval)
	ONil                // nil of any nillable type
	OParam              // parameter of a root function (sym)
	OGlobal             // address of a package variable
	OFunc               // function value
	OClosure            // closure: sym fn, args bindings
	OAlloc              // address of a fresh object: site
	OField              // address of a field: args[0] base address, n field index
	OIndex              // address of a slice/array element: args[0] base, args[1] index
	OMapElem            // pseudo-address of a map element: args[0] map, args[1] key
	OMapOk              // pseudo-address of the presence bit of a map element
	OLoad               // content of an address: args[0] address, sym epoch
	OBin                // binary operation: tok
	ONot                // boolean negation
	ONeg                // arithmetic negation
	OLen                // len(x)
	OCap                // cap(x)
	OPure               // pure function application: sym name
	OOpaque             // unknown value named by the site that produced it
	OOld                // value an opaque name had in an earlier iteration
	OTuple              // multiple results
	OIface              // interface holding a value of a concrete type
	OStruct             // struct value: args are the fields
	OFieldVal           // field of an opaque struct value: n
	OSlice              // slice expression: args base, lo, hi
	OAppend             // append result: args[0] dst, rest elements
	OConv               // lossy conversion
	OTime               // time.Time: args[0] nanoseconds
	ONs                 // nanoseconds of an opaque time.Time
	OType               // dynamic type test result "x has type T": args[0]
	OZero               // zero value of an aggregate type
	OElem               // unknown element of a collection: args[0]
	OFree               // free variable of a root closure
)

// Term is a hash-consed abstract value.
type Term struct {
	id   int
	op   Op
	args []*Term
	sym  string
	n    int
	tok  token.Token
	cval constant.Value
	fn   *ssa.Function
	glob *ssa.Global
	typ  types.Type // type of the value, where known
	ftyp *types.Struct
	fnam string // owner.field name of an OField
	dep  int
	rank int // 1: mentions an opaque name
	// position of the creating site, for diagnostics
	pos token.Pos
}

type interner struct {
	m    map[string]*Term
	next int
}

var tab = &interner{m: map[string]*Term{}}

func (in *interner) get(t Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + t.op))
	b.WriteString(strconv.Itoa(t.n))
	b.WriteByte('|')
	b.WriteString(t.sym)
	b.WriteByte('|')
	if t.tok != 0 {
		b.WriteString(t.tok.String())
	}
	if t.cval != nil {
		b.WriteString(t.cval.Kind().String())
		b.WriteString(t.cval.ExactString())
	}
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if t.op == OParam && t.typ != nil {
		// methods of like-named types in different packages
		b.WriteString(types.TypeString(t.typ, nil))
	}
	k := b.String()
	if x, ok := in.m[k]; ok {
		return x
	}
	in.next++
	t.id = in.next
	for _, a := range t.args {
		if a.dep+1 > t.dep {
			t.dep = a.dep + 1
		}
		if a.rank > t.rank {
			t.rank = a.rank
		}
	}
	if t.op == OOpaque || t.op == OOld {
		t.rank = 1
	}
	p := &t
	in.m[k] = p
	return p
}

func mkConst(v constant.Value, typ types.Type) *Term {
	return tab.get(Term{op: OConst, cval: v, typ: typ})
}
func mkInt(i int64) *Term  { return tab.get(Term{op: OConst, cval: constant.MakeInt64(i)}) }
func mkBool(b bool) *Term  { return tab.get(Term{op: OConst, cval: constant.MakeBool(b)}) }
func mkStr(s string) *Term { return tab.get(Term{op: OConst, cval: constant.MakeString(s)}) }
func mkNil() *Term         { return tab.get(Term{op: ONil}) }
func mkParam(s string, typ types.Type) *Term {
	return tab.get(Term{op: OParam, sym: s, typ: typ})
}
func mkOpaque(site string, typ types.Type, pos token.Pos) *Term {
	return tab.get(Term{op: OOpaque, sym: site, typ: typ, pos: pos})
}
func mkOld(t *Term) *Term {
	if t.op == OOld {
		return t
	}
	return tab.get(Term{op: OOld, args: []*Term{t}, typ: t.typ})
}
func mkField(base *Term, st *types.Struct, owner string, i int) *Term {
	f := st.Field(i)
	return tab.get(Term{op: OField, args: []*Term{base}, n: i, sym: owner, ftyp: st, fnam: owner + "." + f.Name(), typ: types.NewPointer(f.Type())})
}
func mkIndex(base, idx *Term, elem types.Type) *Term {
	return tab.get(Term{op: OIndex, args: []*Term{base, idx}, typ: types.NewPointer(elem)})
}
func mkMapElem(m, k *Term, elem types.Type) *Term {
	return tab.get(Term{op: OMapElem, args: []*Term{m, k}, typ: types.NewPointer(elem)})
}
func mkMapOk(m, k *Term) *Term {
	return tab.get(Term{op: OMapOk, args: []*Term{m, k}, typ: types.NewPointer(types.Typ[types.Bool])})
}
func mkLoad(addr *Term, epoch string) *Term {
	var et types.Type
	if p, ok := addr.typ.(*types.Pointer); ok {
		et = p.Elem()
	}
	return tab.get(Term{op: OLoad, args: []*Term{addr}, sym: epoch, typ: et})
}
func mkTuple(ts ...*Term) *Term { return tab.get(Term{op: OTuple, args: ts}) }
func mkIface(x *Term, t types.Type) *Term {
	return tab.get(Term{op: OIface, args: []*Term{x}, sym: typeKey(t), typ: t})
}
func mkPure(name string, typ types.Type, args ...*Term) *Term {
	return tab.get(Term{op: OPure, sym: name, args: args, typ: typ})
}
func mkAppend(dst *Term, elems ...*Term) *Term {
	return tab.get(Term{op: OAppend, args: append([]*Term{dst}, elems...), typ: dst.typ})
}
func mkTypeIs(x *Term, t types.Type) *Term {
	return tab.get(Term{op: OType, args: []*Term{x}, sym: typeKey(t), typ: t})
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func (t *Term) isTrue() bool {
	return t.op == OConst && t.cval.Kind() == constant.Bool && constant.BoolVal(t.cval)
}
func (t *Term) isFalse() bool {
	return t.op == OConst && t.cval.Kind() == constant.Bool && !constant.BoolVal(t.cval)
}
func (t *Term) intVal() (int64, bool) {
	if t.op == OConst && t.cval.Kind() == constant.Int {
		return constant.Int64Val(t.cval)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == OConst && t.cval.Kind() == constant.String {
		return constant.StringVal(t.cval), true
	}
	return "", false
}

// strip removes interface boxing.
func strip(t *Term) *Term {
	for t != nil && t.op == OIface {
		t = t.args[0]
	}
	return t
}

func (t *Term) contains(x *Term) bool {
	if t == x {
		return true
	}
	if t.op == OOld {
		return false
	}
	if t.dep < x.dep || (x.rank > t.rank) {
		return false
	}
	for _, a := range t.args {
		if a.contains(x) {
			return true
		}
	}
	return false
}

func (t *Term) containsIf(p func(*Term) bool) bool {
	if p(t) {
		return true
	}
	for _, a := range t.args {
		if a.containsIf(p) {
			return true
		}
	}
	return false
}

// subst replaces every occurrence for which f returns non-nil.
func (t *Term) subst(f func(*Term) *Term) *Term {
	if r := f(t); r != nil {
		return r
	}
	if len(t.args) == 0 || t.op == OOld {
		return t
	}
	changed := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = a.subst(f)
		if na[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	c := *t
	c.args = na
	c.dep, c.rank = 0, 0
	return tab.get(c)
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// String renders a term for reports.
func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case OConst:
		return t.cval.String()
	case ONil:
		return "nil"
	case OParam, OFree:
		return t.sym
	case OGlobal:
		return "&" + t.glob.Name()
	case OFunc:
		return t.fn.Name()
	case OClosure:
		return "closure:" + t.fn.Name()
	case OAlloc:
		return "new" + strconv.Itoa(t.id)
	case OField:
		return "&" + t.args[0].deref() + "." + t.ftyp.Field(t.n).Name()
	case OIndex:
		return "&" + t.args[0].String() + "[" + t.args[1].String() + "]"
	case OMapElem:
		return "&" + t.args[0].String() + "[" + t.args[1].String() + "]"
	case OMapOk:
		return "&has(" + t.args[0].String() + "," + t.args[1].String() + ")"
	case OLoad:
		s := t.args[0].String()
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case OBin:
		return "(" + t.args[0].String() + t.tok.String() + t.args[1].String() + ")"
	case ONot:
		return "!" + t.args[0].String()
	case ONeg:
		return "-" + t.args[0].String()
	case OLen:
		return "len(" + t.args[0].String() + ")"
	case OCap:
		return "cap(" + t.args[0].String() + ")"
	case OOpaque:
		return "?" + shortSite(t.sym)
	case OOld:
		return "old(" + t.args[0].String() + ")"
	case OIface:
		return t.args[0].String()
	case OTime:
		return "T(" + t.args[0].String() + ")"
	case ONs:
		return "ns(" + t.args[0].String() + ")"
	case OType:
		return t.args[0].String() + " is " + shortType(t.typ)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	n := t.sym
	switch t.op {
	case OTuple:
		n = "tuple"
	case OStruct:
		n = "struct"
	case OFieldVal:
		n = "field" + strconv.Itoa(t.n)
	case OSlice:
		n = "slice"
	case OAppend:
		n = "append"
	case OConv:
		n = "conv:" + t.sym
	case OZero:
		n = "zero"
	case OElem:
		n = "elem"
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

func (t *Term) deref() string {
	s := t.String()
	if strings.HasPrefix(s, "&") {
		return s[1:]
	}
	return s
}

func shortSite(s string) string {
	if i := strings.LastIndex(s, ";"); i >= 0 {
		s = s[i+1:]
	}
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// ---- linear forms over integer terms ----

type linear struct {
	c  int64
	ts map[*Term]int64
}

func (l *linear) add(o *linear, k int64) {
	l.c += k * o.c
	for t, c := range o.ts {
		l.ts[t] += k * c
		if l.ts[t] == 0 {
			delete(l.ts, t)
		}
	}
}

func lin(t *Term) *linear {
	switch t.op {
	case OConst:
		if v, ok := t.intVal(); ok {
			return &linear{c: v, ts: map[*Term]int64{}}
		}
	case OBin:
		switch t.tok {
		case token.ADD, token.SUB:
			l := lin(t.args[0])
			k := int64(1)
			if t.tok == token.SUB {
				k = -1
			}
			l.add(lin(t.args[1]), k)
			return l
		case token.MUL:
			a, b := lin(t.args[0]), lin(t.args[1])
			if len(a.ts) == 0 {
				a, b = b, a
			}
			if len(b.ts) == 0 && b.c < 1<<20 && b.c > -(1<<20) {
				l := &linear{ts: map[*Term]int64{}}
				l.add(a, b.c)
				return l
			}
		}
	case ONeg:
		l := &linear{ts: map[*Term]int64{}}
		l.add(lin(t.args[0]), -1)
		return l
	case ONs:
		// nanoseconds of T(x) is x
		if t.args[0].op == OTime {
			return lin(t.args[0].args[0])
		}
	}
	return &linear{ts: map[*Term]int64{t: 1}}
}

// canon returns a canonical key for the linear part, the sign applied, and terms.
func (l *linear) canon() (key string, sign int64, ids []*Term) {
	for t := range l.ts {
		ids = append(ids, t)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
	sign = 1
	if len(ids) > 0 && l.ts[ids[0]] < 0 {
		sign = -1
	}
	var b strings.Builder
	for _, t := range ids {
		fmt.Fprintf(&b, "%d*%d;", sign*l.ts[t], t.id)
	}
	return b.String(), sign, ids
}

// fieldAddr reports the owner.field of a field address.
func (t *Term) fieldName() string {
	if t.op == OField {
		return t.fnam
	}
	return ""
}

// loadedField returns owner.field and base if t is a load of a field.
func (t *Term) loadedField() (string, *Term) {
	if t.op == OLoad && t.args[0].op == OField {
		return t.args[0].fnam, t.args[0].args[0]
	}
	return "", nil
}
