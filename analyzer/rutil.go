package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// own returns the full name of something in the module: own("core.(EngineCallback).OnWorkFailed").
func own(s string) string { return modPath + "/" + s }

// typ looks up a named type, e.g. "worker/types.WorkRequest"; module packages need no prefix.
func (p *Program) typ(s string) *types.Named {
	i := strings.LastIndex(s, ".")
	path, name := s[:i], s[i+1:]
	pk := p.Pkgs[modPath+"/"+path]
	if pk == nil {
		pk = p.Pkgs[path]
	}
	if pk == nil {
		panic("package " + path + " not found")
	}
	o, ok := pk.Types.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		panic("type " + s + " not found")
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		panic("type " + s + " is not a named type")
	}
	return n
}

// constInt looks up an integer constant.
func (p *Program) constInt(s string) int64 {
	i := strings.LastIndex(s, ".")
	pk := p.Pkgs[modPath+"/"+s[:i]]
	if pk == nil {
		panic("package of " + s + " not found")
	}
	c, ok := pk.Types.Scope().Lookup(s[i+1:]).(*types.Const)
	if !ok {
		panic("constant " + s + " not found")
	}
	n, ok := constant.Int64Val(constant.ToInt(c.Val()))
	if !ok {
		panic("constant " + s + " is not an integer")
	}
	return n
}

// fieldVar finds a field of a named struct.
func (p *Program) fieldVar(typ, field string) *types.Var {
	st, ok := p.typ(typ).Underlying().(*types.Struct)
	if !ok {
		panic(typ + " is not a struct")
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i)
		}
	}
	panic("field " + typ + "." + field + " not found")
}

// impls returns the production implementations of one method of an interface.
func (p *Program) impls(iface, method string) []*ssa.Function {
	n := p.typ(iface)
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		panic(iface + " is not an interface")
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == method {
			r := p.implementers(it, it.Method(i))
			if len(r) == 0 {
				panic("no implementation of " + iface + "." + method)
			}
			return r
		}
	}
	panic("method " + iface + "." + method + " not found")
}

func (p *Program) ifaceMethods(iface string) []string {
	it := p.typ(iface).Underlying().(*types.Interface)
	var r []string
	for i := 0; i < it.NumMethods(); i++ {
		r = append(r, it.Method(i).Name())
	}
	sort.Strings(r)
	return r
}

// method finds a declared method (or function when typ has no dot-paren) of the module.
func (p *Program) fn(name string) *ssa.Function {
	for _, f := range p.Funcs {
		if o, ok := f.Object().(*types.Func); ok && objName(o) == own(name) {
			return f
		}
	}
	panic("function " + name + " not found")
}

// methodsOf returns all production methods declared on a named type.
func (p *Program) methodsOf(typ string) []*ssa.Function {
	n := p.typ(typ)
	var r []*ssa.Function
	for _, f := range p.Funcs {
		o, ok := f.Object().(*types.Func)
		if !ok {
			continue
		}
		rv := o.Type().(*types.Signature).Recv()
		if rv == nil {
			continue
		}
		t := rv.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if types.Identical(t, n) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// isType tells whether t (or what it points to) is the named type.
func (p *Program) isType(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj() == p.typ(name).Obj()
}

// mapOf: t is a map whose element is (a pointer to) the named type.
func (p *Program) mapOf(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && p.isType(m.Elem(), name)
}

func (p *Program) sliceOf(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Slice)
	return ok && p.isType(m.Elem(), name)
}

// constVal is the value of a package level constant.
func (p *Program) constVal(s string) constant.Value {
	i := strings.LastIndex(s, ".")
	if pk := p.Pkgs[modPath+"/"+s[:i]]; pk != nil {
		if c, ok := pk.Types.Scope().Lookup(s[i+1:]).(*types.Const); ok {
			return c.Val()
		}
	}
	panic("constant " + s + " not found")
}

func tConstStr(s string) *Term { return tConst(constant.MakeString(s)) }

// sliceOfPtr: a slice of pointers to the type with this full name.
func (p *Program) sliceOfPtr(t types.Type, full string) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && s.Elem().String() == "*"+full
}

// fieldNamed finds a (possibly promoted) field of the struct t points to; only direct fields are returned.
func (in *Interp) fieldNamed(t types.Type, name string) *types.Var {
	if t == nil {
		return nil
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	f, _ := o.(*types.Var)
	return f
}

// funcTaking: t is a function type whose only parameters are of the named types.
func (p *Program) funcTaking(t types.Type, names ...string) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() != len(names) {
		return false
	}
	for i, n := range names {
		if !p.isType(s.Params().At(i).Type(), n) {
			return false
		}
	}
	return true
}

// interp gives an interpreter with the inferred lock guards.
func (p *Program) interp() *Interp {
	in := NewInterp(p)
	in.Guard = p.Locks().GuardOf()
	return in
}

// field reads a field of the object t points to (or of the struct value t).
func (in *Interp) get(st *State, t *Term, f *types.Var) *Term {
	t = unIface(t)
	if t.op == "struct" || t.op == "zero" {
		return in.fieldVal(t, f)
	}
	return in.load(nil, st, tFieldAddr(t, f), f.Type(), nil)
}

var workTypes = []string{"EcKeygen", "EcSigning", "EdKeygen", "EdSigning"}

// withWorkType fixes every field of type WorkType to one work type.
func (p *Program) withWorkType(in *Interp, name string) {
	wt := p.typ("worker/types.WorkType")
	v := tInt(p.constInt("worker/types." + name))
	in.FieldVal = func(f *types.Var, base *Term, st *State) *Term {
		if types.Identical(f.Type(), wt) {
			return v
		}
		return nil
	}
}

func isKeygenType(n string) bool { return strings.HasSuffix(n, "Keygen") }

// handled ends a call event without effects and with unknown results.
func (e *CallEvent) unknown() []Out { return e.In.opaque(e) }

// inert is unknown for a callee that does not change the objects it is given.
func (e *CallEvent) inert() []Out {
	return []Out{{st: e.St, rets: e.In.results(e, e.Name)}}
}

func (e *CallEvent) pos() token.Pos { return e.Site.Pos() }

func (s *State) add(key string) int {
	n := 0
	fmt.Sscan(s.auto[key], &n)
	n++
	if n > 3 {
		n = 3
	}
	s.auto[key] = fmt.Sprint(n)
	return n
}

func (s *State) num(key string) int {
	n := 0
	fmt.Sscan(s.auto[key], &n)
	return n
}

// path renders how a state was reached.
func (s *State) path() string {
	t := s.trace
	if len(t) > 14 {
		t = append(append([]string{}, t[:4]...), append([]string{"..."}, t[len(t)-10:]...)...)
	}
	return strings.Join(t, "; ")
}

func (in *Interp) heldWrite(st *State) bool {
	for _, m := range st.held {
		if m == 2 {
			return true
		}
	}
	return false
}

func retPos(o Out) token.Pos {
	if o.at == nil {
		return token.NoPos
	}
	return instrPos(o.at)
}

// mapUpdates lists the places that store into a map whose elements are the named type.
func (p *Program) mapUpdates(name string) []*ssa.MapUpdate {
	var r []*ssa.MapUpdate
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if m, ok := i.(*ssa.MapUpdate); ok && p.mapOf(m.Map.Type(), name) {
					r = append(r, m)
				}
			}
		}
	}
	return r
}

// relevant returns the functions from which an instruction satisfying pred can be reached.
func (p *Program) relevant(pred func(ssa.Instruction) bool) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	g := p.Graph()
	add = func(f *ssa.Function) {
		if f == nil || res[f] {
			return
		}
		res[f] = true
		for _, e := range g.In[f] {
			add(e.Caller)
		}
		add(f.Parent())
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if pred(i) {
					add(f)
				}
			}
		}
	}
	return res
}

// simple: small own functions without loops that only call other simple functions; they are always inlined.
func (p *Program) simple(f *ssa.Function) bool {
	if p.simples == nil {
		p.simples = map[*ssa.Function]int{}
	}
	switch p.simples[f] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	p.simples[f] = 3 // in progress
	ok := f.Blocks != nil && p.isOwn(f) && len(f.Blocks) <= 9
	n := 0
	for _, b := range f.Blocks {
		if !ok {
			break
		}
		n += len(b.Instrs)
		for _, s := range b.Succs {
			if s.Dominates(b) {
				ok = false
			}
		}
		for _, i := range b.Instrs {
			c, isC := i.(ssa.CallInstruction)
			if !isC || c.Common().IsInvoke() {
				continue
			}
			for _, cl := range p.Callees(c.Common()) {
				if p.isOwn(cl) && !p.simple(cl) {
					ok = false
				}
			}
		}
	}
	if ok && n <= 90 {
		p.simples[f] = 1
		return true
	}
	p.simples[f] = 2
	return false
}

// only keeps every function opaque that is neither simple nor leads to an instruction of interest.
func (in *Interp) only(pred func(ssa.Instruction) bool) {
	rel := in.P.relevant(pred)
	in.NoInline = func(f *ssa.Function) bool { return !rel[f] && !in.P.simple(f) }
}

// touches: the instruction reads or writes a field, map or slice whose type satisfies pred.
func touches(i ssa.Instruction, pred func(types.Type) bool) bool {
	for _, op := range i.Operands(nil) {
		if *op != nil && pred((*op).Type()) {
			return true
		}
	}
	return false
}

// callsIface: the instruction calls a method of one of the named interfaces.
func callsIface(i ssa.Instruction, prefix ...string) bool {
	c, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	n := calleeName(c.Common())
	for _, x := range prefix {
		if strings.HasPrefix(n, own(x)) {
			return true
		}
	}
	return false
}

// argType is the static type of argument i (the receiver does not count).
func (e *CallEvent) argType(i int) types.Type {
	a := e.Com.Args
	if len(a) > len(e.Args) {
		a = a[len(a)-len(e.Args):]
	}
	if i >= len(a) {
		return nil
	}
	return a[i].Type()
}

// recvType is the static type of the receiver of a method or interface call.
func (e *CallEvent) recvType() types.Type {
	switch {
	case e.Com.IsInvoke():
		return e.Com.Value.Type()
	case e.Obj != nil && e.Obj.Type().(*types.Signature).Recv() != nil && len(e.Com.Args) > len(e.Args):
		return e.Com.Args[0].Type()
	case e.Recv != nil:
		return e.Recv.typ
	}
	return nil
}

// sentinel: the package variable holds an error made when the program started and is never changed.
func (p *Program) sentinel(key string) bool {
	if p.sentinels == nil {
		p.sentinels = map[string]bool{}
		bad := map[string]bool{}
		for _, pkg := range p.SSA.AllPackages() {
			for _, m := range pkg.Members {
				g, ok := m.(*ssa.Global)
				if !ok || !types.Identical(g.Type().Underlying().(*types.Pointer).Elem(), errorType) {
					continue
				}
				if !p.inModule(pkg.Pkg.Path() + ".x") {
					p.sentinels["g:"+g.String()] = strings.HasPrefix(g.Name(), "Err") || g.Name() == "EOF"
				}
			}
		}
		for _, f := range p.AllFuncs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok && types.Identical(s.Val.Type(), errorType) {
							c, isCall := s.Val.(*ssa.Call)
							n := ""
							if isCall {
								n = calleeName(c.Common())
							}
							if f.Name() == "init" && (n == "errors.New" || n == "fmt.Errorf") {
								p.sentinels["g:"+g.String()] = true
							} else {
								bad["g:"+g.String()] = true
							}
							continue
						}
					}
					for _, op := range i.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							if u, ok := i.(*ssa.UnOp); ok && u.X == g {
								continue
							}
							bad["g:"+g.String()] = true // its address is taken
						}
					}
				}
			}
		}
		for k := range bad {
			delete(p.sentinels, k)
		}
	}
	return p.sentinels[key]
}
