package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Static call-graph rules: what a function may reach, through static calls,
// interface dispatch to repository types, closures and function values of a
// matching signature.

// callGraph resolves calls inside the repository.
type callGraph struct {
	p       *Program
	taken   map[string][]*ssa.Function // address-taken functions by signature
	methods map[string][]*ssa.Function // repo methods by name
}

func (p *Program) graph() *callGraph {
	if p.cg != nil {
		return p.cg
	}
	g := &callGraph{p: p, taken: map[string][]*ssa.Function{}, methods: map[string][]*ssa.Function{}}
	p.cg = g
	seen := map[*ssa.Function]bool{}
	for _, f := range p.repoFuncs() {
		if f.Signature.Recv() != nil {
			g.methods[f.Name()] = append(g.methods[f.Name()], f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					fn, ok := (*o).(*ssa.Function)
					if !ok || seen[fn] {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == ssa.Value(fn) && !c.Common().IsInvoke() {
						continue
					}
					// closures that are only spawned run elsewhere
					if m, ok := in.(*ssa.MakeClosure); ok && onlySpawned(m) {
						continue
					}
					seen[fn] = true
					k := sigKey(fn.Signature)
					g.taken[k] = append(g.taken[k], fn)
				}
			}
		}
	}
	return g
}

func onlySpawned(m *ssa.MakeClosure) bool {
	for _, r := range *m.Referrers() {
		if _, ok := r.(*ssa.Go); !ok {
			return false
		}
	}
	return len(*m.Referrers()) > 0
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

// callees of one call instruction, inside the repository.
func (g *callGraph) callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if cc.IsInvoke() {
		it, ok := under(cc.Value.Type()).(*types.Interface)
		if !ok {
			return nil
		}
		var o []*ssa.Function
		for _, m := range g.methods[cc.Method.Name()] {
			rt := m.Signature.Recv().Type()
			if types.Implements(rt, it) || types.Implements(types.NewPointer(deref(rt)), it) {
				o = append(o, m)
			}
		}
		return o
	}
	if f := cc.StaticCallee(); f != nil {
		if g.p.inRepo(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	s, ok := under(cc.Value.Type()).(*types.Signature)
	if !ok || s.Params().Len() == 0 && s.Results().Len() == 0 {
		return nil
	}
	return g.taken[sigKey(s)]
}

// find searches what f may reach, without following goroutines, for an
// instruction satisfying pred; it returns the call path to it.
func (g *callGraph) find(f *ssa.Function, skip func(*ssa.Function) bool, pred func(ssa.Instruction) string) (path []*ssa.Function, at ssa.Instruction, what string) {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, stack []*ssa.Function) bool
	walk = func(f *ssa.Function, stack []*ssa.Function) bool {
		if f == nil || seen[f] || skip != nil && skip(f) {
			return false
		}
		seen[f] = true
		g.p.fns[f] = true
		stack = append(stack, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if w := pred(in); w != "" {
					path, at, what = append([]*ssa.Function{}, stack...), in, w
					return true
				}
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, h := range g.callees(c) {
						if walk(h, stack) {
							return true
						}
					}
				}
				if m, ok := in.(*ssa.MakeClosure); ok && !onlySpawned(m) {
					if walk(m.Fn.(*ssa.Function), stack) {
						return true
					}
				}
			}
		}
		return false
	}
	walk(f, nil)
	return
}

func pathString(fs []*ssa.Function) string {
	var o []string
	for _, f := range fs {
		o = append(o, trimMod(fname(f)))
	}
	return strings.Join(o, " -> ")
}

// waits describes an instruction that may wait for another goroutine's
// progress, "" if it cannot.
func waits(in ssa.Instruction) string {
	switch i := in.(type) {
	case *ssa.Send:
		return "sends on a channel"
	case *ssa.UnOp:
		if i.Op == token.ARROW {
			return "receives from a channel"
		}
	case *ssa.Select:
		if i.Blocking {
			return "blocks in a select"
		}
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Go); ok {
			return ""
		}
		cc := i.Common()
		n := ""
		if cc.IsInvoke() {
			n = cc.Method.Name()
			pk := ""
			if cc.Method.Pkg() != nil {
				pk = cc.Method.Pkg().Path()
			}
			if n == "Send" || n == "Recv" || n == "SendMsg" || n == "RecvMsg" {
				return "waits for the stream (" + n + ")"
			}
			_ = pk
			return ""
		}
		if f := cc.StaticCallee(); f != nil {
			n = trimMod(fname(f))
			switch n {
			case "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
				return "calls " + n
			}
			if strings.HasPrefix(n, "google.golang.org/grpc.") && strings.Contains(n, "Server).Serve") {
				return "calls " + n
			}
		}
	}
	return ""
}

// nonBlocking: the ingest path never waits for a subscriber.
func nonBlocking(p *Program, roots ...*ssa.Function) {
	g := p.graph()
	for _, f := range roots {
		if f == nil {
			continue
		}
		name := trimMod(fname(f))
		p.ob("ingest-nonblocking", name)
		path, at, what := g.find(f, nil, waits)
		if at != nil {
			p.report("ingest-nonblocking", name, "accepting an update "+what+", reached through "+pathString(path), nil, at)
		}
	}
}
