package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// purePrefixes: functions of their arguments (no effects, no hidden state).
var pureNames = map[string]bool{
	"google.golang.org/protobuf/proto.Equal": true,
	"github.com/golang/protobuf/proto.Equal": true,
	"reflect.DeepEqual":                      true,
	"reflect.TypeOf":                         true,
	"errors.Is":                              true,
	"bytes.Equal":                            true,
	"bytes.Compare":                          true,
	"math.MaxInt":                            true,
}

var purePkgs = []string{"strings.", "strconv.", "math.", "unicode.", "path.", "unicode/utf8.", "(time.Duration)", "(reflect.", "reflect.ValueOf", "regexp.QuoteMeta"}

func isPureName(n string) bool {
	if pureNames[n] {
		return true
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// readOnlyCallee: does not write through its arguments.
func readOnlyCallee(n string) bool {
	for _, p := range []string{"fmt.Print", "fmt.Fprint", "fmt.Errorf", "fmt.Sprint", "errors.", "github.com/golang/glog.", "(github.com/golang/glog.", "google.golang.org/grpc/status.", "google.golang.org/grpc.", "(*google.golang.org/grpc.", "google.golang.org/grpc/", "(*sync.", "context.", "(context.", "context.Context.", "sync.", "time.", "(time.", "(*time.", "log.", "google.golang.org/protobuf/proto.Clone", "github.com/golang/protobuf/proto.Clone", "github.com/golang/protobuf/proto.Marshal", "google.golang.org/protobuf/proto.Marshal", "google.golang.org/protobuf/encoding/prototext.Format", "google.golang.org/protobuf/encoding/prototext.Marshal", "(google.golang.org/protobuf/encoding/prototext.MarshalOptions)", "encoding/json.Marshal", "os.", "net.", "math/rand.", "(*math/rand.", "google.golang.org/grpc/peer.", "crypto/", "dyn:", "sort.Search", "github.com/cenkalti/backoff", "(*github.com/cenkalti/backoff", "github.com/openconfig/"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return isPureName(n)
}

func lockOp(n string) (mode byte, acquire, ok bool) {
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "sync.Locker.Lock":
		return 'W', true, true
	case "(*sync.RWMutex).RLock":
		return 'R', true, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "sync.Locker.Unlock":
		return 'W', false, true
	case "(*sync.RWMutex).RUnlock":
		return 'R', false, true
	}
	return 0, false, false
}

// lockOwner is the object whose fields an acquired mutex may protect.
func lockOwner(a *Term) *Term {
	if a.op == OField {
		b := a.args[0]
		return b
	}
	return nil
}

func one(r *Term) []Outcome { return []Outcome{{res: r}} }

func nonNilRes(st *State, cl *Call, typ types.Type) *Term {
	r := st.fresh(cl.instr, shortName(cl.name), typ)
	var mark func(*Term)
	mark = func(t *Term) {
		if t.op == OTuple {
			for _, a := range t.args {
				mark(a)
			}
			return
		}
		if nillable(t.typ) {
			st.assume(mkEq(t, mkNil()), false)
		}
	}
	mark(r)
	return r
}

func mkNs(t *Term) *Term {
	if t.op == OTime {
		return t.args[0]
	}
	return tab.get(Term{op: ONs, args: []*Term{t}, typ: types.Typ[types.Int64]})
}

func (st *State) acquire(a *Term, mode byte, instr ssa.Instruction) {
	st.locks = append(st.locks[:len(st.locks):len(st.locks)], lockHeld{addr: a, mode: mode})
	if b := lockOwner(a); b != nil {
		st.bumpMutable(b, st.siteName(instr, "lock"))
	}
}

func (st *State) release(a *Term, mode byte) bool {
	for i := len(st.locks) - 1; i >= 0; i-- {
		if st.locks[i].addr == a && st.locks[i].mode == mode {
			n := append([]lockHeld(nil), st.locks[:i]...)
			st.locks = append(n, st.locks[i+1:]...)
			return true
		}
	}
	return false
}

// bumpMutable forgets the fields of an object that other goroutines may have changed.
func (st *State) bumpMutable(base *Term, site string) {
	p, ok := under(base.typ).(*types.Pointer)
	if !ok {
		st.bump(base, site)
		return
	}
	s, ok := under(p.Elem()).(*types.Struct)
	if !ok {
		st.bump(base, site)
		return
	}
	maps := map[*Term]bool{}
	for i := 0; i < s.NumFields(); i++ {
		fa := mkField(base, s, ownerName(p.Elem()), i)
		if st.x.p.immutableField(s, i) {
			// the map stays, its contents do not
			if isMap(s.Field(i).Type()) && !st.x.rule.StableMaps {
				mv := st.load(fa, s.Field(i).Type())
				if mv.op != ONil {
					st.bump(mv, site)
					maps[mv] = true
				}
			}
			continue
		}
		st.ownEpoch()
		st.epoch[fa] = site
		st.ownStore()
		for a := range st.store {
			if a == fa || under0(a, fa) {
				delete(st.store, a)
			}
		}
		// contents of maps and slices held in the field get a new identity with the field
		if r := rootAlloc(base); r != nil {
			st.setWeak(r)
		}
	}
	if st.looping() {
		// a second acquisition at the same site must not revive the values of the first
		var stale []*Term
		seen := map[*Term]bool{}
		visit := func(t *Term) {
			t.containsIf(func(u *Term) bool {
				if u.op == OLoad && u.sym == site && !seen[u] && (u.args[0].op == OField && u.args[0].args[0] == base || (u.args[0].op == OMapElem || u.args[0].op == OMapOk) && maps[u.args[0].args[0]]) {
					seen[u] = true
					stale = append(stale, u)
				}
				return false
			})
		}
		st.eachTerm(visit)
		if len(stale) > 0 {
			st.renameLoads(stale)
		}
	}
}

func (st *State) eachTerm(visit func(*Term)) {
	for _, f := range st.frames {
		for _, v := range f.regs {
			visit(v)
		}
		for _, v := range f.params {
			visit(v)
		}
		for _, v := range f.free {
			visit(v)
		}
		for _, d := range f.defers {
			visit(d.fnT)
			for _, a := range d.args {
				visit(a)
			}
		}
	}
	for a, v := range st.store {
		visit(a)
		visit(v)
	}
	for _, v := range st.T {
		visit(v)
	}
	for a := range st.f.atoms {
		visit(a)
	}
	for a := range st.f.eqc {
		visit(a)
	}
	for _, i := range st.f.iv {
		for a := range i.lin.ts {
			visit(a)
		}
	}
}

// renameLoads gives stale loads an old name.
func (st *State) renameLoads(ts []*Term) {
	olds := map[*Term]*Term{}
	for _, t := range ts {
		o := mkOpaque("stale;"+t.String()+t.sym, t.typ, token.NoPos)
		olds[t] = o
	}
	st.dropFacts(func(x *Term) bool {
		return x.containsIf(func(u *Term) bool {
			for _, o := range olds {
				if u == o {
					return true
				}
			}
			return false
		})
	})
	st.rename(func(x *Term) *Term {
		if o, ok := olds[x]; ok {
			return o
		}
		return nil
	})
}

func (x *Ex) stdModel(st *State, cl *Call) ([]Outcome, bool) {
	n := cl.name
	if mode, acq, ok := lockOp(n); ok && len(cl.args) == 1 {
		a := strip(cl.args[0])
		nm := st.addrName(a)
		if acq {
			x.emit(st, &Event{kind: EvLock, addr: a, name: nm, what: string(mode), instr: cl.instr})
			st.acquire(a, mode, cl.instr)
		} else {
			ev := &Event{kind: EvUnlock, addr: a, name: nm, what: string(mode), instr: cl.instr, ok: yes}
			if !st.release(a, mode) {
				ev.ok = no
			}
			x.emit(st, ev)
		}
		return one(nil), true
	}
	emit := func() {
		x.emit(st, &Event{kind: EvCall, name: n, fn: cl.fn, args: cl.args, instr: cl.instr, dyn: cl.dyn})
	}
	if outs, ok := x.atomicModel(st, cl); ok {
		return outs, true
	}
	switch n {
	case "(*sync.Once).Do":
		emit()
		done := mkPure("oncedone", types.Typ[types.Bool], cl.args[0])
		fnT := cl.args[1]
		return []Outcome{
			{res: nil, do: func(s *State) bool { return s.assume(done, true) }},
			{do: func(s *State) bool {
				if s.decide(done) == yes {
					return false
				}
				s.ownFacts()
				return true
			}, run: &Invocation{fn: fnT}, key: "once", cont: func(x *Ex, s *State, ret *Term) {
				s.ownFacts()
				s.f.atoms[done] = true
				x.finish(s, cl.instr, nil, cl.isDef)
			}},
		}, true
	case "errors.New", "fmt.Errorf", "google.golang.org/grpc/status.Errorf", "google.golang.org/grpc/status.Error", "github.com/golang/protobuf/proto.Clone", "google.golang.org/protobuf/proto.Clone",
		"context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.Background", "context.TODO", "context.WithValue", "time.NewTimer", "time.NewTicker", "time.AfterFunc", "time.After", "context.Context.Done",
		"math/rand.New", "math/rand.NewSource", "google.golang.org/grpc.NewServer", "sync.NewCond", "google.golang.org/grpc/metadata.Pairs", "google.golang.org/grpc/metadata.NewOutgoingContext", "strings.NewReader", "strings.NewReplacer":
		emit()
		rt := x.resType(cl)
		if strings.HasSuffix(n, "proto.Clone") {
			src := strip(cl.args[0])
			r := st.freshAlloc(cl.instr, "clone", src.typ)
			// contents equal the source's
			var t *Term = r
			st.ownStore()
			for a := range st.store {
				if under0(a, t) {
					delete(st.store, a)
				}
			}
			st.setWeak(r)
			if st.isNilT(src) {
				return one(mkIface(src, cl.args[0].typ)), true
			}
			x.cloneFields(st, src, r)
			it := cl.args[0].typ
			if cl.args[0].op != OIface {
				it = rt
				return one(mkPure("cloned", rt, r)), true
			}
			return one(mkIface(r, it)), true
		}
		if n == "errors.New" || n == "fmt.Errorf" || strings.Contains(n, "status.Error") {
			// status.Error(codes.OK, ..) is nil, which nobody writes
			r := st.fresh(cl.instr, shortName(n), rt)
			st.assume(mkEq(r, mkNil()), false)
			return one(r), true
		}
		return one(nonNilRes(st, cl, rt)), true
	case "google.golang.org/grpc/status.FromError":
		emit()
		return one(mkTuple(nonNilRes(st, cl, x.resType(cl)).args...)), true
	case "errors.Is":
		// x is target when equal
		return one(x.errIs(st, cl)), true
	case "time.Unix":
		if s, ok := cl.args[0].intVal(); ok && s == 0 {
			return one(tab.get(Term{op: OTime, args: []*Term{cl.args[1]}, typ: x.resType(cl)})), true
		}
		return one(mkPure(n, x.resType(cl), cl.args...)), true
	case "(time.Time).UnixNano":
		return one(mkNs(cl.args[0])), true
	case "(time.Time).Sub":
		return one(mkArith(token.SUB, mkNs(cl.args[0]), mkNs(cl.args[1]), x.resType(cl))), true
	case "(time.Time).Add":
		return one(tab.get(Term{op: OTime, args: []*Term{mkArith(token.ADD, mkNs(cl.args[0]), cl.args[1], types.Typ[types.Int64])}, typ: x.resType(cl)})), true
	case "(time.Time).Before":
		return one(mkLess(mkNs(cl.args[0]), mkNs(cl.args[1]), nil)), true
	case "(time.Time).After":
		return one(mkLess(mkNs(cl.args[1]), mkNs(cl.args[0]), nil)), true
	case "(time.Time).Equal":
		return one(mkEq(mkNs(cl.args[0]), mkNs(cl.args[1]))), true
	case "(time.Time).Compare":
		emit()
		return nil, false
	case "(time.Time).IsZero", "(time.Time).Truncate", "(time.Time).Round", "(time.Time).UTC", "(time.Time).Format", "(time.Time).String", "(time.Duration).Nanoseconds":
		if n == "(time.Duration).Nanoseconds" {
			return one(cl.args[0]), true
		}
		if n == "(time.Time).IsZero" && cl.args[0].op == OZero {
			return one(mkBool(true)), true
		}
		return one(mkPure(n, x.resType(cl), cl.args...)), true
	case "strings.Split", "strings.SplitN":
		emit()
		r := mkPure(n, x.resType(cl), cl.args...)
		st.assume(mkLess(mkInt(0), mkLen(r), nil), true)
		return one(r), true
	case "os.Exit", "github.com/golang/glog.Exit", "github.com/golang/glog.Exitf", "github.com/golang/glog.Fatal", "github.com/golang/glog.Fatalf", "log.Fatal", "log.Fatalf", "runtime.Goexit":
		emit()
		x.emit(st, &Event{kind: EvPanic, what: "exit", args: cl.args, instr: cl.instr})
		return []Outcome{{do: func(*State) bool { return false }}}, true
	case "sort.Strings", "sort.Ints", "sort.Slice", "sort.Sort", "sort.Stable", "sort.SliceStable", "slices.Sort":
		emit()
		if len(cl.args) > 0 {
			a := strip(cl.args[0])
			b := a
			if b.op == OSlice {
				b = b.args[0]
			}
			st.bump(b, st.siteName(cl.instr, "sort"))
		}
		return one(nil), true
	}
	if cl.fn == nil || !x.p.inRepo(cl.fn) {
		if isPureName(n) {
			emit()
			return one(pureResult(n, x.resType(cl), cl.args)), true
		}
	}
	// generated protobuf accessors that are not plain getters, and reflection
	if cl.fn != nil && x.p.generated(cl.fn) && x.p.getter(cl.fn) == nil && !strings.HasPrefix(cl.fn.Name(), "Get") {
		emit()
		switch cl.fn.Name() {
		case "String", "ProtoReflect", "Descriptor", "Number", "Enum", "Type":
			return one(pureResult(n, x.resType(cl), cl.args)), true
		}
		rt := x.resType(cl)
		if rt == nil {
			return one(nil), true
		}
		return one(st.fresh(cl.instr, shortName(n), rt)), true
	}
	return nil, false
}

func (x *Ex) errIs(st *State, cl *Call) *Term {
	e := mkEq(cl.args[0], cl.args[1])
	if e.op == OConst {
		return e
	}
	return e
}

// cloneFields makes the clone's fields read as deep copies: nested pointers and
// slices become "clone of" terms, scalars are equal.
func (x *Ex) cloneFields(st *State, src, dst *Term) {
	p, ok := under(src.typ).(*types.Pointer)
	if !ok {
		return
	}
	s, ok := under(p.Elem()).(*types.Struct)
	if !ok {
		return
	}
	on := ownerName(p.Elem())
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		v := st.load(mkField(src, s, on, i), f.Type())
		if _, basic := under(f.Type()).(*types.Basic); x.rule.DeepClone && !basic && v.op != ONil {
			v = mkPure("copyof", f.Type(), v, dst)
		}
		st.storeTo(mkField(dst, s, on, i), v, f.Type(), "clone")
	}
}

// atomicModel: sync/atomic operations on a cell. Cells of shared objects hold
// an unknown value at every operation.
func (x *Ex) atomicModel(st *State, cl *Call) ([]Outcome, bool) {
	n := cl.name
	op := ""
	var addr *Term
	var typ types.Type
	rest := cl.args
	switch {
	case strings.HasPrefix(n, "(*sync/atomic."):
		i := strings.Index(n, ").")
		op = n[i+2:]
		kind := n[len("(*sync/atomic."):i]
		a := strip(cl.args[0])
		p, ok := under(a.typ).(*types.Pointer)
		if !ok {
			return nil, false
		}
		s, ok := under(p.Elem()).(*types.Struct)
		if !ok {
			return nil, false
		}
		switch kind {
		case "Bool":
			typ = types.Typ[types.Bool]
		case "Int32":
			typ = types.Typ[types.Int32]
		case "Int64":
			typ = types.Typ[types.Int64]
		case "Uint32":
			typ = types.Typ[types.Uint32]
		case "Uint64":
			typ = types.Typ[types.Uint64]
		default:
			return nil, false
		}
		addr = mkField(a, s, "atomic."+kind, s.NumFields()-1)
		rest = cl.args[1:]
	case strings.HasPrefix(n, "sync/atomic."):
		op = n[len("sync/atomic."):]
		for k, t := range map[string]types.Type{"Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32], "Uint64": types.Typ[types.Uint64]} {
			if strings.HasSuffix(op, k) {
				op, typ = strings.TrimSuffix(op, k), t
				break
			}
		}
		if typ == nil {
			return nil, false
		}
		addr, rest = strip(cl.args[0]), cl.args[1:]
	default:
		return nil, false
	}
	site := st.siteName(cl.instr, "atomic")
	if rootAlloc(addr) == nil {
		st.bump(addr, site)
		st.ownStore()
		delete(st.store, addr)
	}
	cur := st.load(addr, typ)
	x.emit(st, &Event{kind: EvCall, name: n, fn: cl.fn, args: cl.args, instr: cl.instr, addr: addr})
	switch op {
	case "Load":
		return one(cur), true
	case "Store":
		st.storeTo(addr, rest[0], typ, site)
		return one(nil), true
	case "Swap":
		st.storeTo(addr, rest[0], typ, site)
		return one(cur), true
	case "Add":
		v := mkArith(token.ADD, cur, rest[0], typ)
		st.storeTo(addr, v, typ, site)
		return one(v), true
	case "CompareAndSwap":
		eq := mkEq(cur, rest[0])
		return []Outcome{
			{res: mkBool(true), do: func(s *State) bool {
				if !s.assume(eq, true) {
					return false
				}
				s.storeTo(addr, rest[1], typ, site)
				return true
			}},
			{res: mkBool(false), do: func(s *State) bool { return s.assume(eq, false) }},
		}, true
	}
	return nil, false
}
