package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Edge is one resolved call.
type Edge struct {
	Caller *ssa.Function
	Site   ssa.CallInstruction
	Callee *ssa.Function
	Go     bool // started with go
	Defer  bool
}

// CallGraph over production functions: static calls, closures, bound methods, interface calls (all
// production implementations) and function values (all address-taken functions of the same type).
type CallGraph struct {
	Out map[*ssa.Function][]Edge
	In  map[*ssa.Function][]Edge
}

// unwrap follows synthetic wrappers (bound methods, promoted methods, thunks) to the source function.
func unwrap(fn *ssa.Function) *ssa.Function {
	for n := 0; n < 5 && fn != nil && fn.Synthetic != "" && fn.Blocks != nil; n++ {
		var next *ssa.Function
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil {
						next = s
					}
				}
			}
		}
		if next == nil {
			return fn
		}
		fn = next
	}
	return fn
}

func (p *Program) addressTaken() map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var callee ssa.Value
				if c, ok := i.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range i.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if *op == callee {
						n := 0
						for _, a := range i.(ssa.CallInstruction).Common().Args {
							if a == callee {
								n++
							}
						}
						if n == 0 {
							continue // the callee position is not an address-taking use
						}
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						if _, isMC := i.(*ssa.MakeClosure); !isMC {
							res[unwrap(v)] = true
						}
					case *ssa.MakeClosure:
						res[unwrap(v.Fn.(*ssa.Function))] = true
					}
				}
			}
		}
	}
	return res
}

// implementers returns the production methods an interface method call can reach.
func (p *Program) implementers(iface *types.Interface, m *types.Func) []*ssa.Function {
	key := types.TypeString(iface, nil) + "." + m.Name()
	if r, ok := p.implCache[key]; ok {
		return r
	}
	var res []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, pk := range p.Order {
		if !pk.Own {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			for _, tt := range []types.Type{t, types.NewPointer(t)} {
				if !types.Implements(tt, iface) {
					continue
				}
				sel := p.SSA.MethodSets.MethodSet(tt).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				f := unwrap(p.SSA.MethodValue(sel))
				if f != nil && p.prod(f) && !seen[f] {
					seen[f] = true
					res = append(res, f)
				}
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].String() < res[j].String() })
	p.implCache[key] = res
	return res
}

// fnValues traces a function value to the functions it can be, within the enclosing function. ok is
// false when some source is not a known function.
func fnValues(v ssa.Value, seen map[ssa.Value]bool) (res []*ssa.Function, ok bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{unwrap(x)}, true
	case *ssa.MakeClosure:
		return []*ssa.Function{unwrap(x.Fn.(*ssa.Function))}, true
	case *ssa.ChangeType:
		return fnValues(x.X, seen)
	case *ssa.Phi:
		ok = true
		for _, e := range x.Edges {
			r, o := fnValues(e, seen)
			res = append(res, r...)
			ok = ok && o
		}
		return res, ok
	case *ssa.Const:
		return nil, true
	case *ssa.UnOp:
		// a local function variable: every store to it
		if a, isA := x.X.(*ssa.Alloc); isA {
			ok = true
			any := false
			for _, r := range *a.Referrers() {
				if st, isS := r.(*ssa.Store); isS && st.Addr == a {
					any = true
					rr, o := fnValues(st.Val, seen)
					res = append(res, rr...)
					ok = ok && o
				}
			}
			return res, ok && any
		}
		if fv, isFV := x.X.(*ssa.FreeVar); isFV {
			if b := freeVarBinding(fv); b != nil {
				if a, isA := b.(*ssa.Alloc); isA {
					ok = true
					any := false
					for _, r := range *a.Referrers() {
						if st, isS := r.(*ssa.Store); isS && st.Addr == a {
							any = true
							rr, o := fnValues(st.Val, seen)
							res = append(res, rr...)
							ok = ok && o
						}
					}
					return res, ok && any
				}
			}
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return fnValues(b, seen)
		}
	}
	return nil, false
}

// freeVarBinding returns the value bound to a free variable when its closure is made exactly once.
func freeVarBinding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	par := fn.Parent()
	if par == nil || idx < 0 {
		return nil
	}
	var res ssa.Value
	n := 0
	for _, b := range par.Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == fn {
				res = mc.Bindings[idx]
				n++
			}
		}
	}
	if n == 1 {
		return res
	}
	return nil
}

// Callees resolves a call site to production functions. Dynamic calls resolve by signature.
func (p *Program) Callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		if it == nil {
			return nil
		}
		return p.implementers(it, c.Method)
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	if fns, ok := fnValues(c.Value, map[ssa.Value]bool{}); ok {
		var res []*ssa.Function
		for _, f := range fns {
			if p.prod(f) {
				res = append(res, f)
			}
		}
		return res
	}
	var res []*ssa.Function
	sig := c.Signature()
	for f := range p.taken() {
		if !p.prod(f) {
			continue
		}
		fs := f.Signature
		if fs.Recv() != nil {
			fs = types.NewSignatureType(nil, nil, nil, fs.Params(), fs.Results(), fs.Variadic())
		}
		if types.Identical(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()), fs) {
			res = append(res, f)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].String() < res[j].String() })
	return res
}

var takenCache map[*ssa.Function]bool

func (p *Program) taken() map[*ssa.Function]bool {
	if takenCache == nil {
		takenCache = p.addressTaken()
	}
	return takenCache
}

func (p *Program) Graph() *CallGraph {
	if p.cg != nil {
		return p.cg
	}
	g := &CallGraph{Out: map[*ssa.Function][]Edge{}, In: map[*ssa.Function][]Edge{}}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				_, isGo := i.(*ssa.Go)
				_, isDefer := i.(*ssa.Defer)
				for _, callee := range p.Callees(c.Common()) {
					e := Edge{fn, c, callee, isGo, isDefer}
					g.Out[fn] = append(g.Out[fn], e)
					g.In[callee] = append(g.In[callee], e)
				}
			}
		}
	}
	p.cg = g
	return g
}

// Reach returns every function reachable from roots (including through go statements).
func (p *Program) Reach(roots []*ssa.Function) map[*ssa.Function]bool {
	g := p.Graph()
	res := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if res[f] {
			return
		}
		res[f] = true
		for _, e := range g.Out[f] {
			visit(e.Callee)
		}
		for _, a := range f.AnonFuncs {
			// a closure created here may be called by whoever receives it (sort, sync.Once, ...)
			visit(a)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return res
}

// calleeObj is the types.Func called by c (static or interface), or nil.
func calleeObj(c *ssa.CallCommon) *types.Func {
	if c.IsInvoke() {
		return c.Method
	}
	if f := c.StaticCallee(); f != nil {
		if o := f.Object(); o != nil {
			fo, _ := o.(*types.Func)
			return fo
		}
		f = unwrap(f)
		if o := f.Object(); o != nil {
			fo, _ := o.(*types.Func)
			return fo
		}
	}
	return nil
}

// calleeName is "pkg/path.Func" or "pkg/path.(T).M" of the called function ("" for dynamic calls).
func calleeName(c *ssa.CallCommon) string {
	o := calleeObj(c)
	if o == nil {
		if b, ok := c.Value.(*ssa.Builtin); ok {
			return "builtin." + b.Name()
		}
		return ""
	}
	return objName(o)
}

func objName(o *types.Func) string {
	sig := o.Type().(*types.Signature)
	pk := ""
	if o.Pkg() != nil {
		pk = o.Pkg().Path()
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			pk2 := pk
			if n.Obj().Pkg() != nil {
				pk2 = n.Obj().Pkg().Path()
			}
			return pk2 + ".(" + n.Obj().Name() + ")." + o.Name()
		}
		return pk + ".(?)." + o.Name()
	}
	return pk + "." + o.Name()
}
