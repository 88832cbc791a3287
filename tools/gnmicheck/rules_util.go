package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldsOf lists the fields of a named struct.
func (p *Program) fieldsOf(pkg, typ string) (*types.Struct, string) {
	t := p.namedType(pkg, typ)
	if t == nil {
		return nil, ""
	}
	s, _ := under(t).(*types.Struct)
	return s, ownerName(t)
}

// field finds a field by name, falling back to the only field satisfying pred.
func (p *Program) field(pkg, typ, name string, pred func(types.Type) bool) string {
	s, owner := p.fieldsOf(pkg, typ)
	if s == nil {
		p.report("anchor", pkg+"."+typ, "the type this property is anchored at no longer exists", nil, nil)
		return "?"
	}
	found := ""
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return owner + "." + name
		}
		if pred != nil && pred(s.Field(i).Type()) {
			found = owner + "." + s.Field(i).Name()
			n++
		}
	}
	if n == 1 {
		return found
	}
	p.report("anchor", pkg+"."+typ+"."+name, "the field this property is anchored at no longer exists", nil, nil)
	return "?"
}

func isSlice(t types.Type) bool { _, ok := under(t).(*types.Slice); return ok }
func isMap(t types.Type) bool   { _, ok := under(t).(*types.Map); return ok }
func isChan(t types.Type) bool  { _, ok := under(t).(*types.Chan); return ok }

// loadOf reports whether t is a load of the named owner.field.
func loadOf(t *Term, field string) bool {
	n, _ := t.loadedField()
	return n == field
}

func hasWord(s, w string) bool {
	for _, x := range strings.Fields(s) {
		if x == w {
			return true
		}
	}
	return false
}

func indexWord(s, w string) int {
	for i, x := range strings.Fields(s) {
		if x == w {
			return i
		}
	}
	return -1
}

func lastWord(s, w string) int {
	r := -1
	for i, x := range strings.Fields(s) {
		if x == w {
			r = i
		}
	}
	return r
}

// nilErr reports whether an error result is nil / non-nil.
func (st *State) errIsNil(t *Term) tri { return st.decideNil(t) }

func (p *Program) viol(st *State, ev *Event, rule, construct, f string, a ...any) {
	var in ssa.Instruction
	if ev != nil {
		in = ev.instr
	}
	p.report(rule, construct, fmt.Sprintf(f, a...), st, in)
}

// exitViol reports at a root's exit.
func (p *Program) exitViol(st *State, rule, construct, f string, a ...any) {
	var in ssa.Instruction
	if n := len(st.frames); n > 0 {
		fr := st.frames[n-1]
		if fr.idx < len(fr.blk.Instrs) {
			in = fr.blk.Instrs[fr.idx]
		}
	}
	p.report(rule, construct, fmt.Sprintf(f, a...), st, in)
}

// asOf looks through an assertion "as:T" and interface boxing.
func asOf(t *Term) *Term {
	for {
		switch {
		case t.op == OIface:
			t = t.args[0]
		case t.op == OPure && strings.HasPrefix(t.sym, "as:"):
			t = t.args[0]
		case t.op == OPure && t.sym == "cloned":
			t = t.args[0]
		default:
			return t
		}
	}
}

func shortFn(n string) string { return strings.ReplaceAll(n, module+"/", "") }

// calls reports whether an event is a call/enter of the named function.
func (ev *Event) calls(names ...string) bool {
	if ev.kind != EvCall && ev.kind != EvEnter && ev.kind != EvRecurse {
		return false
	}
	for _, n := range names {
		if ev.name == n || strings.ReplaceAll(ev.name, module+"/", "") == n {
			return true
		}
	}
	return false
}

func itoa(n int) string { return fmt.Sprint(n) }

const subTok = token.SUB
const addTok = token.ADD

func (t *Term) isZero() bool { v, ok := t.intVal(); return ok && v == 0 }

func (ev *Event) addr0() *Term {
	if ev.addr == nil {
		return mkNil()
	}
	return ev.addr
}

// loadOfGlobal: the value of a package variable.
func loadOfGlobal(t *Term) bool { t = asOf(t); return t.op == OLoad && t.args[0].op == OGlobal }

// queueAddr is the address of a sibling field, given the address of any field of the object.
func queueAddr(a *Term, field string) *Term {
	for a.op == OField {
		b := a.args[0]
		for i := 0; i < a.ftyp.NumFields(); i++ {
			if a.sym+"."+a.ftyp.Field(i).Name() == field {
				return mkField(b, a.ftyp, a.sym, i)
			}
		}
		a = b
	}
	return mkNil()
}

// lockAddrFor finds a held mutex belonging to the object an address is in.
func lockAddrFor(st *State, a *Term) *Term {
	for _, l := range st.locks {
		if l.addr.op == OField {
			b := a
			for b.op == OField || b.op == OIndex || b.op == OMapElem {
				b = b.args[0]
				if b == l.addr.args[0] {
					return l.addr
				}
			}
		}
	}
	return nil
}

// parts flattens an append chain: single elements, and "spread" of whole slices.
func parts(t *Term) []*Term {
	switch {
	case t.op == ONil:
		return nil
	case t.op == OAppend:
		return append(parts(t.args[0]), flatSpread(t.args[1:])...)
	case t.op == OSlice:
		if n, ok := mkLen(t).intVal(); ok && n == 0 {
			return nil
		}
	case t.op == OZero:
		return nil
	}
	return []*Term{mkPure("spread", t.typ, t)}
}

func flatSpread(ts []*Term) []*Term {
	var o []*Term
	for _, t := range ts {
		if t.op == OPure && t.sym == "spread" {
			o = append(o, parts(t.args[0])...)
		} else {
			o = append(o, t)
		}
	}
	return o
}

func spread(t *Term) *Term { return mkPure("spread", t.typ, t) }

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func termList(ts []*Term) string {
	var o []string
	for _, t := range ts {
		o = append(o, t.String())
	}
	return strings.Join(o, " ++ ")
}

// coverage of a list: its elements are processed in order, each once. The
// count is exact up to 2 and "3" beyond (elements then carry widened indices).
func (st *State) coverNext(name string, list, el *Term) string {
	k := st.R["cov."+name]
	switch k {
	case "", "1":
		i := int64(0)
		if k == "1" {
			i = 1
		}
		if el != nil {
			want := st.elem(list, i, elemType(list))
			if asOf(el) != asOf(want) && !vagueIdx(el) {
				return fmt.Sprintf("element %d is processed as %s", i, el)
			}
		}
		if k == "" {
			st.Set("cov."+name, "1")
		} else {
			st.Set("cov."+name, "2")
		}
	default:
		st.Set("cov."+name, "3")
	}
	return ""
}

// vagueIdx: the term's position was widened.
func vagueIdx(t *Term) bool {
	return t.containsIf(func(u *Term) bool { return u.op == OIndex && u.args[1].op != OConst })
}

// coverDone: every element of the list has been processed.
func (st *State) coverDone(name string, list *Term) bool {
	switch k := st.R["cov."+name]; k {
	case "":
		return st.proves(mkEq(mkLen(list), mkInt(0)), true)
	case "1", "2":
		return st.proves(mkEq(mkLen(list), mkInt(int64(k[0]-'0'))), true)
	}
	return true
}

// reaches: fn may call (statically, through closures it makes, or by spawning
// if withGo) an instruction satisfying pred.
func (p *Program) reaches(fn *ssa.Function, withGo bool, pred func(in ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pred(in) {
					return true
				}
				if _, ok := in.(*ssa.Go); ok && !withGo {
					continue
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && p.inRepo(g) && walk(g) {
						return true
					}
				}
				if m, ok := in.(*ssa.MakeClosure); ok {
					onlyGo := !withGo
					if onlyGo {
						for _, r := range *m.Referrers() {
							if _, ok := r.(*ssa.Go); !ok {
								onlyGo = false
							}
						}
					}
					if !onlyGo && walk(m.Fn.(*ssa.Function)) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

// callsTo: an instruction calling the named function (or interface method).
func callsTo(names ...string) func(in ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := ""
		if c.Common().IsInvoke() {
			n = ifaceName(c.Common())
		} else if g := c.Common().StaticCallee(); g != nil {
			n = fname(g)
		}
		n = trimMod(n)
		for _, x := range names {
			if n == x {
				return true
			}
		}
		return false
	}
}

// trueAtom finds a fact that holds on this path.
func (st *State) trueAtom(pred func(t *Term) bool) bool {
	for a, v := range st.f.atoms {
		if v && pred(a) {
			return true
		}
	}
	return false
}

// uncloned maps parts of deep copies to what they were copied from.
func uncloned(t *Term) *Term {
	return t.subst(func(u *Term) *Term {
		if u.op == OPure && u.sym == "copyof" {
			return uncloned(u.args[0])
		}
		return nil
	})
}

// indexOf is the index of the slice element an address lies in, nil if none.
func indexOf(a *Term) *Term {
	for a != nil {
		switch a.op {
		case OIndex:
			return a.args[1]
		case OField:
			a = a.args[0]
		case OLoad:
			a = a.args[0]
		default:
			return nil
		}
	}
	return nil
}
