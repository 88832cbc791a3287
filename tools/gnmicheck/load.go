package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const module = "github.com/openconfig/gnmi"

// Program is the analysed repository.
type Program struct {
	refd     map[*ssa.Function]bool
	refNames map[string]bool
	root     string
	pkgs     []*packages.Package
	prog     *ssa.Program
	ssa      map[string]*ssa.Package // by path relative to the module
	fset     *token.FileSet
	infos    map[*ssa.Function]*fnInfo
	gets     map[*ssa.Function]*getterInfo
	immut    map[string]bool // struct field -> immutable
	globs    map[*ssa.Global]bool
	nfuncs   int
	nfiles   int

	prop  string
	viols []Violation
	// judged, if set, says whether a rule's findings count (a component's rules
	// run for another property)
	judged  func(rule, construct string) bool
	vseen   map[string]bool
	obl     map[string]int
	oblSeen map[string]bool
	roots   []string
	states  int
	paths   int
	insns   int
	fns     map[*ssa.Function]bool
	nsites  int
	notes   []string
	known   []string
	cg      *callGraph
}

// Violation is one broken obligation.
type Violation struct {
	Rule, Construct, Msg, Pos string
	Stack                     []string
}

type fnInfo struct {
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
	fn     *ssa.Function
}

type getterInfo struct {
	st    *types.Struct
	owner string
	field int
}

var theProgram *Program

func load(root string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  root,
		Fset: token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{root: root, pkgs: pkgs, prog: prog, fset: cfg.Fset, ssa: map[string]*ssa.Package{}, infos: map[*ssa.Function]*fnInfo{}, gets: map[*ssa.Function]*getterInfo{}, immut: map[string]bool{}, globs: map[*ssa.Global]bool{}, vseen: map[string]bool{}, obl: map[string]int{}, oblSeen: map[string]bool{}, fns: map[*ssa.Function]bool{}}
	theProgram = p
	for _, q := range pkgs {
		sp := prog.Package(q.Types)
		if sp == nil {
			continue
		}
		sp.Build()
		p.ssa[strings.TrimPrefix(strings.TrimPrefix(q.PkgPath, module), "/")] = sp
		p.nfiles += len(q.CompiledGoFiles)
	}
	// packages of the module reached only as dependencies
	for _, sp := range prog.AllPackages() {
		if strings.HasPrefix(sp.Pkg.Path(), module) {
			sp.Build()
		}
	}
	p.scanFields()
	return p, nil
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	pk := fn.Package()
	if pk == nil {
		if fn.Origin() != nil {
			return p.inRepo(fn.Origin())
		}
		if fn.Parent() != nil {
			return p.inRepo(fn.Parent())
		}
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), module)
		}
		return false
	}
	return strings.HasPrefix(pk.Pkg.Path(), module)
}

func (p *Program) generated(fn *ssa.Function) bool {
	if fn.Pos() == token.NoPos {
		return false
	}
	return strings.HasSuffix(p.prog.Fset.Position(fn.Pos()).Filename, ".pb.go")
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

// getter recognises generated protobuf getters: nil-safe loads of a field.
func (p *Program) getter(fn *ssa.Function) *getterInfo {
	if g, ok := p.gets[fn]; ok {
		return g
	}
	p.gets[fn] = nil
	if !strings.HasPrefix(fn.Name(), "Get") || !p.generated(fn) || fn.Signature.Recv() == nil || len(fn.Params) != 1 {
		return nil
	}
	pt, ok := under(fn.Signature.Recv().Type()).(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := under(pt.Elem()).(*types.Struct)
	if !ok {
		return nil
	}
	name := strings.TrimPrefix(fn.Name(), "Get")
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name && fn.Signature.Results().Len() == 1 && types.Identical(s.Field(i).Type(), fn.Signature.Results().At(0).Type()) {
			g := &getterInfo{st: s, owner: ownerName(pt.Elem()), field: i}
			p.gets[fn] = g
			return g
		}
	}
	return nil
}

func (p *Program) fnInfo(fn *ssa.Function) *fnInfo {
	if i, ok := p.infos[fn]; ok {
		return i
	}
	info := &fnInfo{loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, fn: fn}
	p.infos[fn] = info
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				body := info.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					info.loops[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	// liveness
	type set = map[ssa.Value]bool
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.FreeVar:
			return false
		}
		return true
	}
	for _, b := range fn.Blocks {
		info.liveIn[b] = set{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := set{}
			for v := range info.liveOut(b) {
				live[v] = true
			}
			var ops []*ssa.Value
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if *o != nil && isReg(*o) {
						live[*o] = true
					}
				}
			}
			if len(live) != len(info.liveIn[b]) {
				info.liveIn[b] = live
				ch = true
			}
		}
	}
	return info
}

func (i *fnInfo) liveOut(b *ssa.BasicBlock) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range i.liveIn[s] {
			out[v] = true
		}
		pi := -1
		for k, p := range s.Preds {
			if p == b {
				pi = k
			}
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for k, p := range s.Preds {
				if p == b || k == pi {
					switch ph.Edges[k].(type) {
					case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.FreeVar:
					default:
						out[ph.Edges[k]] = true
					}
				}
			}
		}
	}
	return out
}

// repoFuncs lists every function of the module with a body.
func (p *Program) repoFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.prog) {
		if p.inRepo(fn) && len(fn.Blocks) > 0 && !p.generated(fn) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].String() != out[j].String() {
			return out[i].String() < out[j].String()
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

func fieldKey(s *types.Struct, i int) string {
	return fmt.Sprintf("%p/%d", s, i)
}

// scanFields finds struct fields that are written only while their object is
// under construction (base is an allocation of the writing function).
func (p *Program) scanFields() {
	mut := map[string]bool{}
	seen := map[string]bool{}
	fns := p.repoFuncs()
	p.nfuncs = len(fns)
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && fn.Name() != "init" {
						p.globs[g] = true // assigned outside initialisation
					}
				}
				if fa, ok := in.(*ssa.FieldAddr); ok {
					s := under(under(fa.X.Type()).(*types.Pointer).Elem()).(*types.Struct)
					k := fieldKey(s, fa.Field)
					seen[k] = true
					_, local := fa.X.(*ssa.Alloc)
					for _, r := range *fa.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp:
						case *ssa.DebugRef:
						case *ssa.Store:
							if r.Addr == fa && !local {
								mut[k] = true
							}
							if r.Val == fa {
								mut[k] = true
							}
						case *ssa.FieldAddr, *ssa.IndexAddr:
							// nested: conservative unless it is only read
							for _, u := range *r.(ssa.Value).Referrers() {
								switch u := u.(type) {
								case *ssa.DebugRef:
								case *ssa.UnOp:
									if u.Op != token.MUL {
										mut[k] = true
									}
								default:
									mut[k] = true
								}
							}
						default:
							// address passed on, e.g. mutex methods
							if _, ok := under(s.Field(fa.Field).Type()).(*types.Struct); !ok {
								mut[k] = true
							} else {
								mut[k] = true
							}
						}
					}
				}
			}
		}
	}
	for k := range seen {
		p.immut[k] = !mut[k]
	}
}

func (p *Program) immutableField(s *types.Struct, i int) bool {
	if v, ok := p.immut[fieldKey(s, i)]; ok {
		return v
	}
	return true
}

// immutableGlobal: assigned only by its initialiser, to something non-nil.
func immutableGlobal(g *ssa.Global) bool {
	p := theProgram
	if p.globs[g] {
		return false
	}
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), module) {
		// sentinel errors and the like of the libraries
		et := g.Type().(*types.Pointer).Elem()
		return types.Identical(et, types.Universe.Lookup("error").Type())
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return false
	}
	ok := false
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, k := in.(*ssa.Store); k && s.Addr == g {
				if c, isC := s.Val.(*ssa.Const); isC && c.Value == nil {
					return false
				}
				ok = true
			}
		}
	}
	return ok
}

func (p *Program) pos(pos token.Pos) string {
	if pos == token.NoPos {
		return "-"
	}
	q := p.prog.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// posOf finds a position for an instruction that may have none of its own.
func (p *Program) posOf(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos() != token.NoPos {
		return p.pos(in.Pos())
	}
	if s, ok := in.(*ssa.If); ok && s.Cond.Pos() != token.NoPos {
		return p.pos(s.Cond.Pos())
	}
	b := in.Block()
	if b != nil {
		for i, x := range b.Instrs {
			if x == in {
				for j := i; j >= 0; j-- {
					if b.Instrs[j].Pos() != token.NoPos {
						return p.pos(b.Instrs[j].Pos())
					}
				}
			}
		}
		return p.pos(in.Parent().Pos())
	}
	return "-"
}

// fn finds a function by package path and name, "Type.Method" for methods.
func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.ssa[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		t, ok := sp.Members[name[:i]].(*ssa.Type)
		if !ok {
			return nil
		}
		for _, T := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
			ms := p.prog.MethodSets.MethodSet(T)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == name[i+1:] {
					m := p.prog.MethodValue(ms.At(k))
					return m
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

// mustFn is fn, reporting a missing anchor as a violation.
func (p *Program) mustFn(pkg, name string) *ssa.Function {
	f := p.fn(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		p.report("anchor", pkg+"."+name, "the function this property is anchored at no longer exists: the rule cannot be decided", nil, nil)
		return nil
	}
	return f
}

func (p *Program) namedType(pkg, name string) types.Type {
	sp := p.ssa[pkg]
	if sp == nil {
		return nil
	}
	if t, ok := sp.Members[name].(*ssa.Type); ok {
		return t.Type()
	}
	return nil
}

// ---- reporting ----

func (p *Program) note(x *Ex) {
	p.roots = append(p.roots, x.root)
	p.states += x.n
	p.paths += x.paths
	p.insns += x.insn
	for f := range x.fns {
		p.fns[f] = true
	}
	p.nsites += len(x.sites)
	if x.fail != "" {
		p.report("analysis", x.root, x.fail, nil, nil)
	}
	if os.Getenv("GNMICHECK_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "root %s: %d states, %d exits, %d instructions, %d functions %s\n", x.root, x.n, x.paths, x.insn, len(x.fns), x.fail)
	}
}

// report records a violation once per rule and construct.
func (p *Program) report(rule, construct, msg string, st *State, in ssa.Instruction) {
	pos := "-"
	if in != nil {
		pos = p.posOf(in)
	}
	k := rule + "|" + construct + "|" + pos
	if p.vseen[k] || p.judged != nil && !p.judged(rule, construct) {
		return
	}
	p.vseen[k] = true
	v := Violation{Rule: rule, Construct: construct, Msg: msg, Pos: pos}
	if st != nil {
		v.Stack = st.stack()
		if st.gor != "" {
			v.Stack = append(v.Stack, "in goroutine "+st.gor)
		}
		if os.Getenv("GNMICHECK_DEBUG") != "" {
			v.Stack = append(v.Stack, st.dump()...)
		}
	}
	p.viols = append(p.viols, v)
}

func (st *State) stack() []string {
	var out []string
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		var in ssa.Instruction
		if f.blk != nil && f.idx >= 0 && f.idx < len(f.blk.Instrs) {
			in = f.blk.Instrs[f.idx]
		}
		out = append(out, fmt.Sprintf("%s (%s)", f.fn.String(), st.x.p.posOf(in)))
	}
	return out
}

func (st *State) dump() []string {
	var out []string
	var at []string
	for a, v := range st.f.atoms {
		at = append(at, fmt.Sprintf("%v:%s", v, a))
	}
	for _, i := range st.f.iv {
		s := i.lin.term(types.Typ[types.Int]).String()
		if i.hasLo {
			s = fmt.Sprintf("%d<=", i.lo) + s
		}
		if i.hasHi {
			s += fmt.Sprintf("<=%d", i.hi)
		}
		if len(i.ne) > 0 {
			s += fmt.Sprintf(" !=%v", i.ne)
		}
		at = append(at, s)
	}
	sort.Strings(at)
	out = append(out, "facts: "+strings.Join(at, " ; "))
	var ss []string
	for a, v := range st.store {
		ss = append(ss, a.String()+"="+v.String())
	}
	sort.Strings(ss)
	out = append(out, "store: "+strings.Join(ss, " ; "))
	var rs []string
	for a, v := range st.R {
		rs = append(rs, a+"="+v)
	}
	for a, v := range st.T {
		rs = append(rs, a+"="+v.String())
	}
	sort.Strings(rs)
	out = append(out, "rule: "+strings.Join(rs, " ; "))
	var ls []string
	for _, l := range st.locks {
		ls = append(ls, string(l.mode)+l.addr.String())
	}
	out = append(out, "locks: "+strings.Join(ls, " "))
	out = append(out, "trail: "+strings.Join(st.trail, " > "))
	return out
}

// ob counts one obligation instance (rule + construct).
func (p *Program) ob(rule, construct string) {
	k := rule + "|" + construct
	if !p.oblSeen[k] {
		p.oblSeen[k] = true
		p.obl[rule]++
	}
}

// need fails when a rule had fewer instances than confirmed by hand.
func (p *Program) need(rule string, min int) {
	if p.obl[rule] < min {
		p.report("vacuous", rule, fmt.Sprintf("the rule matched %d constructs, at least %d expected: what it checks has disappeared", p.obl[rule], min), nil, nil)
	}
}

func (p *Program) notef(f string, a ...any) { p.notes = append(p.notes, fmt.Sprintf(f, a...)) }
