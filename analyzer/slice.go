package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Slicer follows a value back to everything it is computed from: flow-insensitive, through calls (returning to the
// call a function was entered from), local variables, and the elements of locally built collections.
type Slicer struct {
	P *Program
	// Stop is asked about every source; true ends the search there.
	Stop func(s Source) bool
	// Control includes the conditions that choose between values.
	Control bool
	// Fields follows a field to every value stored to it anywhere.
	Fields bool
	// Callers follows a parameter of the function the search started in to all callers.
	Callers bool
	seen    map[sliceNode]bool
	Nodes   map[ssa.Value]bool
	// Order lists where the search went, for reports.
	via map[sliceNode]sliceNode
}

type callCtx struct {
	site ssa.CallInstruction
	up   *callCtx
	n    int
}

type sliceNode struct {
	v ssa.Value
	c *callCtx
}

// Source is a leaf or a waypoint of the search.
type Source struct {
	Kind  string // call, field, global, param, const, maprange, recv, free
	Name  string
	Field *types.Var
	V     ssa.Value
	Args  []ssa.Value
	Pos   token.Pos
	Path  []ssa.Value
}

func (p *Program) slicer(stop func(Source) bool) *Slicer {
	return &Slicer{P: p, Stop: stop, seen: map[sliceNode]bool{}, Nodes: map[ssa.Value]bool{}, via: map[sliceNode]sliceNode{}}
}

func (s *Slicer) fieldStores() map[*types.Var][]*ssa.Store {
	if s.P.fieldStoreIdx != nil {
		return s.P.fieldStoreIdx
	}
	idx := map[*types.Var][]*ssa.Store{}
	for _, f := range s.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fv := fieldOf(st.Addr); fv != nil {
						idx[fv] = append(idx[fv], st)
					}
				}
			}
		}
	}
	s.P.fieldStoreIdx = idx
	return idx
}

// fieldOf: the field an address or value selects.
func fieldOf(v ssa.Value) *types.Var {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		pt, ok := x.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
			return st.Field(x.Field)
		}
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return st.Field(x.Field)
		}
	}
	return nil
}

var callCtxs = map[callKey]*callCtx{}

type callKey struct {
	site ssa.CallInstruction
	up   *callCtx
}

func pushCtx(site ssa.CallInstruction, up *callCtx) *callCtx {
	n := 1
	if up != nil {
		n = up.n + 1
	}
	k := callKey{site, up}
	if c := callCtxs[k]; c != nil {
		return c
	}
	c := &callCtx{site, up, n}
	callCtxs[k] = c
	return c
}

// Run follows v.
func (s *Slicer) Run(v ssa.Value) { s.visit(v, nil, sliceNode{}) }

func (s *Slicer) path(n sliceNode) []ssa.Value {
	var r []ssa.Value
	for n.v != nil && len(r) < 40 {
		r = append(r, n.v)
		n = s.via[n]
	}
	return r
}

func (s *Slicer) emit(n sliceNode, src Source) bool {
	src.V = n.v
	if !src.Pos.IsValid() {
		src.Pos = n.v.Pos()
	}
	if s.Stop == nil {
		return false
	}
	src.Path = s.path(n)
	return s.Stop(src)
}

func (s *Slicer) visit(v ssa.Value, c *callCtx, from sliceNode) {
	if v == nil {
		return
	}
	n := sliceNode{v, c}
	if s.seen[n] {
		return
	}
	s.seen[n] = true
	s.Nodes[v] = true
	s.via[n] = from
	go1 := func(x ssa.Value) { s.visit(x, c, n) }
	switch x := v.(type) {
	case *ssa.Const:
		s.emit(n, Source{Kind: "const"})
	case *ssa.Function, *ssa.Builtin:
	case *ssa.Global:
		if s.emit(n, Source{Kind: "global", Name: x.String()}) {
			return
		}
	case *ssa.Parameter:
		if c != nil {
			cm := c.site.Common()
			fn := x.Parent()
			for k, pr := range fn.Params {
				if pr != x {
					continue
				}
				if cm.IsInvoke() {
					if k == 0 {
						s.visit(cm.Value, c.up, n)
					} else if k-1 < len(cm.Args) {
						s.visit(cm.Args[k-1], c.up, n)
					}
				} else if k < len(cm.Args) {
					s.visit(cm.Args[k], c.up, n)
				}
			}
			return
		}
		if s.Callers {
			if calls := s.P.callersOf(x.Parent()); len(calls) > 0 {
				if s.emit(n, Source{Kind: "passed", Name: x.Name()}) {
					return
				}
				for _, site := range calls {
					cm := site.Common()
					for k, pr := range x.Parent().Params {
						if pr != x {
							continue
						}
						if cm.IsInvoke() {
							if k == 0 {
								s.visit(cm.Value, nil, n)
							} else if k-1 < len(cm.Args) {
								s.visit(cm.Args[k-1], nil, n)
							}
						} else if k < len(cm.Args) {
							s.visit(cm.Args[k], nil, n)
						}
					}
				}
				return
			}
		}
		s.emit(n, Source{Kind: "param", Name: x.Name()})
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			s.visit(b, nil, n)
		} else {
			s.emit(n, Source{Kind: "free", Name: x.Name()})
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			go1(e)
		}
		if s.Control {
			for _, pr := range x.Block().Preds {
				for b := pr; b != nil; b = b.Idom() {
					if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
						go1(i.Cond)
					}
					if b == x.Block().Idom() {
						break
					}
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			if s.emit(n, Source{Kind: "recv"}) {
				return
			}
			go1(x.X)
			return
		}
		go1(x.X)
	case *ssa.BinOp:
		go1(x.X)
		go1(x.Y)
	case *ssa.Convert:
		go1(x.X)
	case *ssa.ChangeType:
		go1(x.X)
	case *ssa.ChangeInterface:
		go1(x.X)
	case *ssa.MakeInterface:
		go1(x.X)
	case *ssa.TypeAssert:
		go1(x.X)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			s.call(n, call, x.Index, c)
			return
		}
		go1(x.Tuple)
	case *ssa.Call:
		s.call(n, x, 0, c)
	case *ssa.FieldAddr, *ssa.Field:
		f := fieldOf(x)
		if s.emit(n, Source{Kind: "field", Field: f, Name: s.P.ownerOf(f) + "." + f.Name()}) {
			return
		}
		var base ssa.Value
		if a, ok := x.(*ssa.FieldAddr); ok {
			base = a.X
		} else {
			base = x.(*ssa.Field).X
		}
		if vals, ok := s.localField(base, f); ok {
			for _, w := range vals {
				go1(w)
			}
			return
		}
		if ws := s.fieldStores()[f]; s.Fields && len(ws) > 0 {
			for _, w := range ws {
				s.visit(w.Val, nil, n)
			}
			return
		}
		go1(base)
	case *ssa.IndexAddr:
		go1(x.X)
		go1(x.Index)
	case *ssa.Index:
		go1(x.X)
		go1(x.Index)
	case *ssa.Lookup:
		go1(x.X)
		go1(x.Index)
	case *ssa.Slice:
		go1(x.X)
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			if s.emit(n, Source{Kind: "maprange"}) {
				return
			}
		}
		go1(x.X)
	case *ssa.Next:
		go1(x.Iter)
	case *ssa.Select:
		if s.emit(n, Source{Kind: "recv"}) {
			return
		}
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			go1(b)
		}
	case *ssa.MakeSlice:
		go1(x.Len)
		s.written(x, n, c)
	case *ssa.MakeMap, *ssa.MakeChan:
		s.written(x, n, c)
	case *ssa.Alloc:
		s.written(x, n, c)
	}
}

// localField: the values stored to one field of an object built in this function, if it is only used field by field.
func (s *Slicer) localField(base ssa.Value, f *types.Var) ([]ssa.Value, bool) {
	a, ok := base.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	var r []ssa.Value
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.FieldAddr:
			if fieldOf(x) != f {
				continue
			}
			for _, r2 := range *x.Referrers() {
				switch y := r2.(type) {
				case *ssa.Store:
					if y.Addr == x {
						r = append(r, y.Val)
					}
				case *ssa.UnOp:
				default:
					return nil, false
				}
			}
		case *ssa.Store:
			if x.Addr == a {
				return nil, false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		}
	}
	return r, true
}

// written follows what is written into storage created here.
func (s *Slicer) written(v ssa.Value, n sliceNode, c *callCtx) {
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, ref := range *refs {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == v {
				s.visit(x.Val, c, n)
			}
		case *ssa.FieldAddr:
			if x.X == v {
				s.written(x, n, c)
			}
		case *ssa.IndexAddr:
			if x.X == v {
				s.written(x, n, c)
			}
		case *ssa.MapUpdate:
			if x.Map == v {
				s.visit(x.Key, c, n)
				s.visit(x.Value, c, n)
			}
		case *ssa.Slice:
			if x.X == v {
				s.written(x, n, c)
			}
		case *ssa.MakeInterface:
			s.written(x, n, c)
		case *ssa.ChangeInterface:
			s.written(x, n, c)
		case *ssa.Send:
			if x.Chan == v {
				s.visit(x.X, c, n)
			}
		case ssa.CallInstruction:
			cm := x.Common()
			if b, ok := cm.Value.(*ssa.Builtin); ok {
				if b.Name() == "copy" && cm.Args[0] == v {
					s.visit(cm.Args[1], c, n)
				}
				continue
			}
			// whoever gets the storage may write to it
			recvArg := cm.IsInvoke() && cm.Value == v
			isArg := recvArg
			for _, a := range cm.Args {
				isArg = isArg || a == v
			}
			if !isArg {
				continue
			}
			callees := s.P.Callees(cm)
			inside := len(callees) > 0
			for _, f := range callees {
				inside = inside && s.P.isOwn(f) && len(f.Blocks) > 0
			}
			if inside {
				for _, f := range callees {
					for k, pr := range f.Params {
						var a ssa.Value
						if cm.IsInvoke() {
							if k > 0 && k-1 < len(cm.Args) {
								a = cm.Args[k-1]
							}
						} else if k < len(cm.Args) {
							a = cm.Args[k]
						}
						if a == v {
							s.writtenIn(pr, n, pushCtx(x, c))
						}
					}
				}
				continue
			}
			name := calleeName(cm)
			if noWrite(name) {
				continue
			}
			src := Source{Kind: "call", Name: name, Args: cm.Args, Pos: x.Pos()}
			if s.emit(n, src) {
				continue
			}
			if cm.IsInvoke() && cm.Value != v {
				s.visit(cm.Value, c, n)
			}
			for _, a := range cm.Args {
				if a != v {
					s.visit(a, c, n)
				}
			}
		}
	}
}

func (s *Slicer) writtenIn(pr *ssa.Parameter, n sliceNode, c *callCtx) {
	k := sliceNode{pr, c}
	if s.seen[k] || c.n > 8 {
		return
	}
	s.seen[k] = true
	s.written(pr, n, c)
}

// noWrite: calls which do not write into what they are given.
func noWrite(name string) bool {
	return strings.HasPrefix(name, "fmt.") && !strings.HasPrefix(name, "fmt.F") && !strings.Contains(name, "can") ||
		strings.HasPrefix(name, "strings.") && !strings.Contains(name, "(") || strings.HasPrefix(name, "github.com/sisu-network/lib/log.") ||
		strings.HasPrefix(name, "encoding/hex.EncodeToString") || strings.HasPrefix(name, "encoding/json.Marshal") || name == "bytes.Equal" || name == "bytes.Compare"
}

func (s *Slicer) call(n sliceNode, x *ssa.Call, idx int, c *callCtx) {
	cm := x.Common()
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			if s.emit(n, Source{Kind: "len"}) {
				return
			}
		}
		for _, a := range cm.Args {
			s.visit(a, c, n)
		}
		return
	}
	callees := s.P.Callees(cm)
	inside := len(callees) > 0
	for _, f := range callees {
		inside = inside && s.P.isOwn(f) && len(f.Blocks) > 0
	}
	name := calleeName(cm)
	if s.emit(n, Source{Kind: "call", Name: name, Args: cm.Args, Pos: x.Pos()}) {
		return
	}
	if inside && (c == nil || c.n < 8) {
		for _, f := range callees {
			f = unwrap(f)
			nc := pushCtx(x, c)
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
					s.visit(r.Results[idx], nc, n)
					if s.Control {
						for d := b; d != nil; d = d.Idom() {
							if i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && d != b {
								s.visit(i.Cond, nc, n)
							}
						}
					}
				}
			}
		}
		return
	}
	if cm.IsInvoke() || cm.StaticCallee() == nil {
		s.visit(cm.Value, c, n)
	}
	for _, a := range cm.Args {
		s.visit(a, c, n)
	}
	// an object may have been fed before (hash.Write ... hash.Sum)
	var recv ssa.Value
	if cm.IsInvoke() {
		recv = cm.Value
	} else if sg := cm.Signature(); sg.Recv() != nil && len(cm.Args) > 0 {
		recv = cm.Args[0]
	}
	if recv != nil {
		s.written(recv, n, c)
	}
}

// callersOf lists the calls of f in production code.
func (p *Program) callersOf(f *ssa.Function) []ssa.CallInstruction {
	if p.callerIdx == nil {
		p.callerIdx = map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok {
						for _, t := range p.Callees(ci.Common()) {
							t = unwrap(t)
							p.callerIdx[t] = append(p.callerIdx[t], ci)
						}
					}
				}
			}
		}
	}
	return p.callerIdx[f]
}
