package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runFrom executes block b from instruction i.
// push continues at a successor. Booleans carried around a loop are decided first, so that they stay precise.
func (in *Interp) push(fr *Frame, succ, b *ssa.BasicBlock, env map[ssa.Value]*Term, st *State, df []deferred, queue *[]work) {
	if succ.Dominates(b) {
		idx := -1
		for i, p := range succ.Preds {
			if p == b {
				idx = i
			}
		}
		for _, x := range succ.Instrs {
			phi, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			if !isBoolT(phi.Type()) {
				continue
			}
			v := in.val(fr, env, phi.Edges[idx])
			if v.isConst() || st.truth(v) >= 0 {
				continue
			}
			f := st.clone()
			if f.assume(v, false) {
				if in.OnBranch != nil {
					in.OnBranch(fr, f, nil, v, false)
				}
				in.push(fr, succ, b, env, f, df, queue)
			}
			if !st.assume(v, true) {
				return
			}
			if in.OnBranch != nil {
				in.OnBranch(fr, st, nil, v, true)
			}
		}
	}
	if in.OnBackEdge != nil && succ.Dominates(b) {
		in.OnBackEdge(fr, st, succ, b)
	}
	if in.Forget {
		in.forget(fr, succ, b, env, st, df)
	}
	*queue = append(*queue, work{succ, b, env, st, df})
}

func (in *Interp) runFrom(fr *Frame, b *ssa.BasicBlock, i int, env map[ssa.Value]*Term, st *State, df []deferred, queue *[]work, outs *[]Out, outSeen map[string]bool) {
	for ; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		in.Steps++
		if in.Steps > in.MaxStep {
			panic("path exploration of " + fname(fr.fn) + " exceeded its bound")
		}
		if in.Forget {
			fr.env, fr.block = env, b
		}
		if in.OnInstr != nil {
			fr.env = env
			in.OnInstr(fr, st, ins)
		}
		switch x := ins.(type) {
		case *ssa.If:
			c := in.val(fr, env, x.Cond)
			switch st.truth(c) {
			case 1:
				in.push(fr, b.Succs[0], b, env, st, df, queue)
			case 0:
				in.push(fr, b.Succs[1], b, env, st, df, queue)
			default:
				f := st.clone()
				if f.assume(c, false) {
					f.step("%s: %s is false", in.P.pos(instrPos(x)), c)
					if in.OnBranch != nil {
						in.OnBranch(fr, f, x, c, false)
					}
					in.push(fr, b.Succs[1], b, env, f, df, queue)
				}
				if st.assume(c, true) {
					st.step("%s: %s is true", in.P.pos(instrPos(x)), c)
					if in.OnBranch != nil {
						in.OnBranch(fr, st, x, c, true)
					}
					in.push(fr, b.Succs[0], b, env, st, df, queue)
				}
			}
			return
		case *ssa.Jump:
			in.push(fr, b.Succs[0], b, env, st, df, queue)
			return
		case *ssa.Panic:
			*outs = append(*outs, Out{st: st, panic: true, at: x})
			return
		case *ssa.Return:
			rets := make([]*Term, len(x.Results))
			for k, r := range x.Results {
				rets[k] = in.val(fr, env, r)
			}
			if in.OnReturn != nil {
				fr.env = env
				in.OnReturn(fr, st, x, rets)
			}
			in.Paths++
			*outs = append(*outs, Out{st: st, rets: rets, at: x})
			return
		case *ssa.RunDefers:
			conts := []Out{{st: st}}
			for k := len(df) - 1; k >= 0; k-- {
				var next []Out
				for _, c := range conts {
					os := in.call(fr, env, c.st, df[k].site, df[k].call, df[k].fnT, df[k].args, false)
					for _, o := range os {
						if !o.panic {
							next = append(next, o)
						}
					}
				}
				conts = dedupe(next)
			}
			if len(conts) == 0 {
				return
			}
			for _, c := range conts[1:] {
				in.runFrom(fr, b, i+1, env, c.st, df, queue, outs, outSeen)
			}
			st = conts[0].st
		case *ssa.Defer:
			fnT, args := in.callArgs(fr, env, &x.Call)
			df = append(df[:len(df):len(df)], deferred{&x.Call, x, fnT, args})
		case *ssa.Go:
			fnT, args := in.callArgs(fr, env, &x.Call)
			if in.InlineGo {
				held := st.held
				st.held = map[string]int{}
				os := in.call(fr, env, st, x, &x.Call, fnT, args, true)
				os = dedupe(os)
				for k, o := range os {
					o.st.held = cp(held)
					if k == len(os)-1 {
						st = o.st
					} else {
						in.runFrom(fr, b, i+1, env, o.st, df, queue, outs, outSeen)
					}
				}
				if len(os) == 0 {
					return
				}
			} else {
				// still give the hook the event
				if in.OnCall != nil {
					e := in.event(fr, env, st, x, &x.Call, fnT, args, true)
					in.OnCall(e)
				}
			}
		case *ssa.Call:
			fnT, args := in.callArgs(fr, env, &x.Call)
			os := in.call(fr, env, st, x, &x.Call, fnT, args, false)
			var conts []Out
			for _, o := range os {
				if o.panic {
					*outs = append(*outs, o)
				} else {
					conts = append(conts, o)
				}
			}
			if len(conts) == 0 {
				return
			}
			for k, o := range conts {
				e := env
				if k < len(conts)-1 {
					e = cp(env)
				}
				if len(o.rets) == 1 {
					e[x] = o.rets[0]
				} else {
					e[x] = tTuple(o.rets...)
				}
				if k < len(conts)-1 {
					in.runFrom(fr, b, i+1, e, o.st, df, queue, outs, outSeen)
				} else {
					st = o.st
				}
			}
		case *ssa.Lookup:
			in.simple(fr, env, st, ins)
			if !x.CommaOk {
				continue
			}
			// whether the key is present is decided now: the map can change before the answer is used
			t := env[x]
			if st.truth(t.args[1]) < 0 {
				f, e := st.clone(), cp(env)
				if f.assume(t.args[1], false) {
					f.step("%s: %s is false", in.P.pos(instrPos(x)), t.args[1])
					e[x] = tTuple(t.args[0], tFalse)
					in.runFrom(fr, b, i+1, e, f, df, queue, outs, outSeen)
				}
				if !st.assume(t.args[1], true) {
					return
				}
				st.step("%s: %s is true", in.P.pos(instrPos(x)), t.args[1])
			}
			env[x] = tTuple(t.args[0], tBool(st.truth(t.args[1]) == 1))
		case *ssa.Select:
			conts := in.selectStmt(fr, env, st, x)
			for k, c := range conts {
				e := env
				if k < len(conts)-1 {
					e = cp(env)
				}
				e[x] = c.rets[0]
				if k < len(conts)-1 {
					in.runFrom(fr, b, i+1, e, c.st, df, queue, outs, outSeen)
				} else {
					st = c.st
				}
			}
			if len(conts) == 0 {
				return
			}
		default:
			if !in.simple(fr, env, st, ins) {
				*outs = append(*outs, Out{st: st, panic: true, at: ins})
				return
			}
		}
	}
}

func (in *Interp) callArgs(fr *Frame, env map[ssa.Value]*Term, c *ssa.CallCommon) (*Term, []*Term) {
	fnT := in.val(fr, env, c.Value)
	var args []*Term
	for _, a := range c.Args {
		args = append(args, in.val(fr, env, a))
	}
	return fnT, args
}

func (in *Interp) fresh(fr *Frame, st *State, i ssa.Instruction, name string, typ types.Type) *Term {
	s := tSym(name+"#"+in.id(i), fr.ctx+"^"+funcID(fr.fn), typ)
	st.kill(s)
	return s
}

var funcIDs = map[*ssa.Function]string{}

func funcID(f *ssa.Function) string {
	if s, ok := funcIDs[f]; ok {
		return s
	}
	s := fmt.Sprint(len(funcIDs))
	funcIDs[f] = s
	return s
}

func (in *Interp) selectStmt(fr *Frame, env map[ssa.Value]*Term, st *State, x *ssa.Select) []Out {
	var res []Out
	mk := func(s *State, idx int) {
		ts := []*Term{tInt(int64(idx)), in.fresh(fr, s, x, "recvOk", types.Typ[types.Bool])}
		for k, sst := range x.States {
			if sst.Dir == types.RecvOnly {
				et := sst.Chan.Type().Underlying().(*types.Chan).Elem()
				var v *Term
				if k == idx {
					v = in.fresh(fr, s, x, fmt.Sprintf("recv%d", k), et)
				} else {
					v = zero(et)
				}
				ts = append(ts, v)
			}
		}
		res = append(res, Out{st: s, rets: []*Term{tTuple(ts...)}})
	}
	for k, sst := range x.States {
		s := st.clone()
		ch := in.val(fr, env, sst.Chan)
		s.step("%s: select case %d (%s)", in.P.pos(sst.Pos), k, ch)
		if sst.Dir == types.SendOnly {
			if in.OnSend != nil {
				in.OnSend(fr, s, x, ch, in.val(fr, env, sst.Send), x.Blocking)
			}
		} else if in.OnRecv != nil {
			in.OnRecv(fr, s, x, ch, x.Blocking)
		}
		if st.known(ch, tNil) == 1 {
			continue
		}
		mk(s, k)
	}
	if !x.Blocking {
		s := st.clone()
		s.step("%s: select default", in.P.pos(instrPos(x)))
		mk(s, -1)
	}
	return res
}

// simple executes an instruction with one continuation. false means the path ends in a panic.
func (in *Interp) simple(fr *Frame, env map[ssa.Value]*Term, st *State, ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.Alloc:
		a := tAlloc(x, "al#"+in.id(x)+":"+funcID(fr.fn), fr.ctx, x.Type())
		st.kill(a)
		for m := range st.mem {
			if m.root() == a || m == a {
				delete(st.mem, m)
			}
		}
		delete(st.havoc, a)
		env[x] = a
	case *ssa.MakeChan, *ssa.MakeSlice, *ssa.MakeMap:
		v := x.(ssa.Value)
		a := tAlloc(ins, "mk#"+in.id(ins)+":"+funcID(fr.fn), fr.ctx, v.Type())
		st.kill(a)
		for m := range st.mem {
			if m.root() == a {
				delete(st.mem, m)
			}
		}
		delete(st.havoc, a)
		env[v] = a
		if ms, ok := ins.(*ssa.MakeSlice); ok {
			l := in.val(fr, env, ms.Len)
			st.setLen(a, l)
		}
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, in.val(fr, env, b))
		}
		env[x] = tClosure(x.Fn.(*ssa.Function), bs)
	case *ssa.MakeInterface:
		env[x] = tIface(x.X.Type(), in.val(fr, env, x.X))
	case *ssa.ChangeInterface:
		env[x] = in.val(fr, env, x.X)
	case *ssa.ChangeType:
		env[x] = in.val(fr, env, x.X)
	case *ssa.Convert:
		v := st.resolve(in.val(fr, env, x.X))
		ft, fok := x.X.Type().Underlying().(*types.Basic)
		tt, tok := x.Type().Underlying().(*types.Basic)
		switch {
		case fok && tok && ft.Info()&types.IsInteger != 0 && tt.Info()&types.IsInteger != 0:
			env[x] = v
			// conversions to 64 bits are assumed not to lose anything
			if tlo, thi, small := smallInt(tt); small && !v.isConst() {
				lo, hi := st.bounds(toLin(v))
				if flo, fhi, ok := smallInt(ft); ok {
					lo, hi = max(lo, flo), min(hi, fhi)
				}
				if lo < tlo || hi > thi {
					env[x] = tApp("conv["+types.TypeString(x.Type(), nil)+"]", v)
					if env[x].typ == nil {
						env[x].typ = x.Type()
					}
				}
			}
		case fok && tok && ft.Info()&types.IsString != 0 && tt.Info()&types.IsString != 0:
			env[x] = v
		default:
			t := tApp("conv["+types.TypeString(x.Type(), nil)+"]", v)
			if t.typ == nil {
				t.typ = x.Type()
			}
			if !isNillable(x.X.Type()) && isNillable(x.Type()) {
				t.nonnil = true
			} else if v.nonnil {
				t.nonnil = true
			}
			env[x] = t
		}
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		env[ins.(ssa.Value)] = tApp("conv", in.val(fr, env, *ins.Operands(nil)[0]))
	case *ssa.FieldAddr:
		base := in.val(fr, env, x.X)
		f := in.fieldOf(x.X.Type(), x.Field)
		if st.known(base, tNil) == 1 {
			return false
		}
		if base.op != "alloc" && base.op != "fa" && base.op != "ia" && st.known(base, tNil) < 0 {
			st.assumeNeq(base, tNil) // otherwise the path ends here
		}
		env[x] = tFieldAddr(base, f)
	case *ssa.Field:
		v := in.val(fr, env, x.X)
		f := in.fieldOf(x.X.Type(), x.Field)
		if in.FieldVal != nil {
			if o := in.FieldVal(f, v, st); o != nil && v.op != "struct" {
				env[x] = o
				break
			}
		}
		env[x] = in.fieldVal(v, f)
	case *ssa.IndexAddr:
		base := in.val(fr, env, x.X)
		idx := in.val(fr, env, x.Index)
		if base.op == "slice" && len(base.args) == 3 {
			// slicing of a known backing array keeps element addresses when it starts at 0
			if base.args[1] == tNil || base.args[1].key == tInt(0).key {
				base = base.args[0]
			}
		}
		env[x] = tIndexAddr(base, idx)
	case *ssa.Index:
		env[x] = tLoad(tIndexAddr(in.val(fr, env, x.X), in.val(fr, env, x.Index)), "", x.Type())
	case *ssa.Slice:
		b := in.val(fr, env, x.X)
		lo, hi := tNil, tNil
		if x.Low != nil {
			lo = in.val(fr, env, x.Low)
		}
		if x.High != nil {
			hi = in.val(fr, env, x.High)
		}
		t := tApp("slice", b, lo, hi)
		if t.typ == nil {
			t.typ = x.Type()
		}
		t.nonnil = b.nonnil
		if _, isSlice := x.X.Type().Underlying().(*types.Slice); isSlice && x.High == nil && x.Low != nil {
			// otherwise the path ends here
			if !st.assumeLin(linSub(toLin(tLen(b)), toLin(lo)), 0, posInf) || !st.assumeLin(toLin(lo), 0, posInf) {
				return false
			}
		}
		if x.Max != nil && hi != tNil && st.known(in.val(fr, env, x.Max), hi) == 1 { // appending to it copies
			c := tApp("concat", tNil, t)
			if c.typ == nil {
				c.typ = x.Type()
			}
			if lo == tNil {
				st.setLen(c, hi)
			}
			t = c
		}
		env[x] = t
	case *ssa.UnOp:
		v := in.val(fr, env, x.X)
		switch x.Op {
		case token.MUL:
			if st.known(v, tNil) == 1 {
				return false
			}
			env[x] = in.load(fr, st, v, x.Type(), x)
		case token.NOT:
			env[x] = tNot(v)
		case token.SUB:
			if n, ok := v.intVal(); ok {
				env[x] = tInt(-n)
			} else {
				env[x] = tApp("-", tInt(0), v)
			}
		case token.ARROW:
			if in.OnRecv != nil {
				in.OnRecv(fr, st, x, v, true)
			}
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			if x.CommaOk {
				env[x] = tTuple(in.fresh(fr, st, x, "recv", et), in.fresh(fr, st, x, "recvOk", types.Typ[types.Bool]))
			} else {
				env[x] = in.fresh(fr, st, x, "recv", et)
			}
		default:
			env[x] = tApp("un"+x.Op.String(), v)
		}
	case *ssa.BinOp:
		env[x] = in.binop(st, x.Op, in.val(fr, env, x.X), in.val(fr, env, x.Y), x.Type())
	case *ssa.Store:
		a, v := in.val(fr, env, x.Addr), in.val(fr, env, x.Val)
		if st.known(a, tNil) == 1 {
			return false
		}
		if in.OnStore != nil {
			in.OnStore(fr, st, x, a, v)
		}
		in.store(st, a, v, x.Val.Type())
	case *ssa.MapUpdate:
		m, k, v := in.val(fr, env, x.Map), in.val(fr, env, x.Key), in.val(fr, env, x.Value)
		if in.OnMapUpdate != nil {
			in.OnMapUpdate(fr, st, x, m, k, v)
		}
		la := tApp("lookup", m, k)
		for a := range st.mem {
			if a.op == "lookup" && a.args[0] == m && a != la && !(a.args[1].isConst() && k.isConst()) {
				delete(st.mem, a)
			}
		}
		st.mem[la] = v
		st.facts[tApp("haskey", m, k)] = true
	case *ssa.Lookup:
		m, k := in.val(fr, env, x.X), in.val(fr, env, x.Index)
		la := tApp("lookup", m, k)
		v, ok := st.mem[la]
		if !ok {
			v = la
			if la.typ == nil {
				if mt, isM := x.X.Type().Underlying().(*types.Map); isM {
					la.typ = mt.Elem()
				} else {
					la.typ = x.Type()
				}
			}
			if m.op == "alloc" && st.havoc[m] == "" && in.emptyMap(st, m) {
				v = zero(la.typ)
			}
		}
		if x.CommaOk {
			env[x] = tTuple(v, tApp("haskey", m, k))
		} else {
			env[x] = v
		}
	case *ssa.Extract:
		t := in.val(fr, env, x.Tuple)
		if t.op == "tuple" && x.Index < len(t.args) {
			env[x] = t.args[x.Index]
		} else {
			r := tApp(fmt.Sprintf("ex%d", x.Index), t)
			if r.typ == nil {
				r.typ = x.Type()
			}
			env[x] = r
		}
	case *ssa.TypeAssert:
		v := in.val(fr, env, x.X)
		var val, ok *Term
		if v.op == "iface" {
			if types.IsInterface(x.AssertedType) {
				val, ok = v, tBool(types.Implements(v.typ, x.AssertedType.Underlying().(*types.Interface)))
			} else if types.Identical(v.typ, x.AssertedType) {
				val, ok = v.args[0], tTrue
			} else {
				val, ok = zero(x.AssertedType), tFalse
			}
		} else {
			ts := types.TypeString(x.AssertedType, nil)
			ok = tApp("is["+ts+"]", v)
			val = tApp("as", v, tConst(constant.MakeString(ts)))
			if val.typ == nil {
				val.typ = x.AssertedType
			}
		}
		if x.CommaOk {
			env[x] = tTuple(val, ok)
		} else {
			if st.truth(ok) == 0 {
				return false
			}
			env[x] = val
		}
	case *ssa.Range:
		env[x] = tApp("range", in.val(fr, env, x.X))
	case *ssa.Next:
		r := in.val(fr, env, x.Iter)
		tt := x.Type().(*types.Tuple)
		ok := in.fresh(fr, st, x, "next", types.Typ[types.Bool])
		k := in.fresh(fr, st, x, "key", tt.At(1).Type())
		v := in.fresh(fr, st, x, "val", tt.At(2).Type())
		if !x.IsString && len(r.args) == 1 {
			v = tApp("lookup", r.args[0], k)
			if v.typ == nil {
				v.typ = tt.At(2).Type()
			}
			if r.args[0] == tNil || (r.args[0].op == "alloc" && st.havoc[r.args[0]] == "" && in.emptyMap(st, r.args[0])) {
				ok = tFalse
			}
		}
		env[x] = tTuple(ok, k, v)
	case *ssa.Send:
		ch, v := in.val(fr, env, x.Chan), in.val(fr, env, x.X)
		if in.OnSend != nil {
			in.OnSend(fr, st, x, ch, v, true)
		}
	case *ssa.DebugRef:
	default:
		panic(fmt.Sprintf("instruction %T not modelled", ins))
	}
	return true
}

// emptyMap: nothing was put into a map made on this path.
func (in *Interp) emptyMap(st *State, m *Term) bool {
	if _, ok := m.site.(*ssa.MakeMap); !ok {
		return false
	}
	for a := range st.mem {
		if a.op == "lookup" && a.args[0] == m {
			return false
		}
	}
	return st.auto["mapdirty:"+m.key] == ""
}

func tLen(x *Term) *Term {
	if x == tNil {
		return tInt(0)
	}
	if s, ok := x.strVal(); ok {
		return tInt(int64(len(s)))
	}
	if x.op == "slice" && (x.args[1] == tNil || x.args[1] == tInt(0)) && x.args[2] != tNil {
		return x.args[2]
	}
	t := tApp("len", x)
	return t
}

// setLen records the length of a new list.
func (s *State) setLen(t, n *Term) {
	l := tLen(t)
	if l.op != "len" {
		return
	}
	if n = s.resolve(n); n == l {
		return
	}
	s.eq[l] = n
}

func tNot(v *Term) *Term {
	if b, ok := v.boolVal(); ok {
		return tBool(!b)
	}
	if v.op == "not" {
		return v.args[0]
	}
	return tApp("not", v)
}

func (in *Interp) binop(st *State, op token.Token, a, b *Term, typ types.Type) *Term {
	a, b = st.resolve(a), st.resolve(b)
	if a.op == "const" && b.op == "const" {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.con.Kind() == b.con.Kind() {
				return tBool(constant.Compare(a.con, op, b.con))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return tConst(constant.BinaryOp(a.con, op, b.con))
		case token.QUO, token.REM:
			if n, ok := b.intVal(); ok && n != 0 && a.con.Kind() == constant.Int {
				if op == token.QUO {
					op = token.QUO_ASSIGN
				}
				return tConst(constant.BinaryOp(a.con, op, b.con))
			}
		}
	}
	switch op {
	case token.EQL:
		if r := st.known(a, b); r >= 0 {
			return tBool(r == 1)
		}
		return eqTerm(a, b)
	case token.NEQ:
		return tNot(in.binop(st, token.EQL, a, b, typ))
	case token.LSS:
		return tApp("lt", a, b)
	case token.GTR:
		return tApp("lt", b, a)
	case token.LEQ:
		return tNot(tApp("lt", b, a))
	case token.GEQ:
		return tNot(tApp("lt", a, b))
	}
	name := op.String()
	if op == token.ADD || op == token.MUL {
		// commutative on integers
		if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && a.key > b.key {
			a, b = b, a
		}
	}
	t := tApp(name, a, b)
	if t.typ == nil {
		t.typ = typ
	}
	if op == token.ADD || op == token.SUB || op == token.MUL {
		if lo, hi, ok := smallInt(typ); ok {
			// the result may not fit
			if tlo, thi := st.bounds(toLin(t)); tlo < lo || thi > hi {
				w := tApp("wrap", t)
				w.typ = typ
				return w
			}
		}
	}
	return t
}

// smallInt gives the range of an integer type of at most 32 bits.
func smallInt(t types.Type) (int64, int64, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return -1 << 7, 1<<7 - 1, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint8:
		return 0, 1<<8 - 1, true
	case types.Uint16:
		return 0, 1<<16 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	}
	return 0, 0, false
}

// ---- calls -----------------------------------------------------------------------------------------

func (in *Interp) event(fr *Frame, env map[ssa.Value]*Term, st *State, site ssa.CallInstruction, c *ssa.CallCommon, fnT *Term, args []*Term, isGo bool) *CallEvent {
	e := &CallEvent{In: in, Site: site, Com: c, Frame: fr, St: st, Args: args, FnT: fnT, Go: isGo}
	if c.IsInvoke() {
		e.Obj = c.Method
		e.Recv = fnT
		e.FnT = nil
	} else {
		e.Obj = calleeObj(c)
		if e.Obj == nil && (fnT.op == "func" || fnT.op == "closure") {
			f := unwrap(fnT.fn)
			if o, ok := f.Object().(*types.Func); ok {
				e.Obj = o
				if fnT.op == "closure" && f != fnT.fn && len(fnT.args) == 1 { // bound method
					e.Recv = fnT.args[0]
				}
			}
		}
		if e.Obj != nil && e.Obj.Type().(*types.Signature).Recv() != nil && e.Recv == nil && len(args) > 0 {
			if sc := c.StaticCallee(); sc == nil || sc.Synthetic == "" || !strings.HasPrefix(sc.Synthetic, "bound") {
				e.Recv = args[0]
				e.Args = args[1:]
			}
		}
	}
	if e.Obj != nil {
		e.Name = objName(e.Obj)
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		e.Name = "builtin." + b.Name()
	}
	return e
}

func (in *Interp) call(fr *Frame, env map[ssa.Value]*Term, st *State, site ssa.CallInstruction, c *ssa.CallCommon, fnT *Term, args []*Term, isGo bool) []Out {
	fr.env = env
	e := in.event(fr, env, st, site, c, fnT, args, isGo)
	if in.OnCall != nil {
		if outs, ok := in.OnCall(e); ok {
			return outs
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(fr, st, site, b.Name(), args)
	}
	if outs, ok := in.model(e); ok {
		return outs
	}
	// resolve
	var targets []*ssa.Function
	var binds []*Term
	cargs := args
	switch {
	case c.IsInvoke():
		recv := fnT
		if recv.op == "iface" {
			if sel := in.P.SSA.MethodSets.MethodSet(recv.typ).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				f := unwrap(in.P.SSA.MethodValue(sel))
				if f != nil {
					targets = []*ssa.Function{f}
				}
			}
			recv = recv.args[0]
		} else {
			if st.known(recv, tNil) == 1 {
				return []Out{{st: st, panic: true, at: site}}
			}
			targets = in.P.Callees(c)
		}
		cargs = append([]*Term{recv}, args...)
	case fnT.op == "func":
		targets = []*ssa.Function{fnT.fn}
	case fnT.op == "closure":
		targets = []*ssa.Function{fnT.fn}
		binds = fnT.args
	default:
		if fnT == tNil {
			return []Out{{st: st, panic: true, at: site}}
		}
		targets = in.P.Callees(c)
		if len(targets) == 1 && targets[0].Signature.Recv() != nil {
			// a bound method whose receiver is unknown
			cargs = append([]*Term{tSymNN("recv:"+targets[0].Name(), fr.ctx, targets[0].Params[0].Type())}, args...)
		}
	}
	var usable []*ssa.Function
	for _, f := range targets {
		if in.canInline(fr, f) {
			usable = append(usable, f)
		}
	}
	if len(usable) == len(targets) && (len(usable) == 1 || in.Multi && len(usable) > 0) {
		var outs []Out
		for k, f := range usable {
			s := st
			if k < len(usable)-1 {
				s = st.clone()
			}
			sub := &Frame{fn: f, env: map[ssa.Value]*Term{}, ctx: fr.ctx + funcID(fr.fn) + "." + in.id(site) + ">", parent: fr, site: site, depth: fr.depth + 1, isGo: isGo}
			s.step("%s: call %s", in.P.pos(site.Pos()), fname(f))
			outs = append(outs, in.exec(sub, f, cargs, binds, s)...)
		}
		return outs
	}
	return in.opaque(e)
}

func (in *Interp) canInline(fr *Frame, f *ssa.Function) bool {
	if f.Blocks == nil || !in.P.isOwn(f) {
		return false
	}
	if fr.depth >= in.MaxDepth || fr.onStack(f) {
		return false
	}
	fl := in.P.Fset.Position(f.Pos()).Filename
	if strings.HasSuffix(fl, "/mock.go") || strings.HasSuffix(fl, "test_utils.go") {
		return false
	}
	if in.NoInline != nil && in.NoInline(f) {
		return false
	}
	return true
}

// opaque gives a call fresh results and lets it write through the objects it was given.
func (in *Interp) opaque(e *CallEvent) []Out {
	name := e.Name
	if name == "" {
		name = "dynamic:" + e.FnT.String()
	}
	in.Opaque[name]++
	if !readOnlyCallee(name) {
		at := e.Frame.ctx + funcID(e.Frame.fn) + "." + in.id(e.Site)
		for _, a := range e.Args {
			in.havocArg(e.St, a, at, 0)
		}
		if e.Recv != nil {
			in.havocArg(e.St, e.Recv, at, 0)
		}
		if e.FnT != nil && e.FnT.op == "closure" {
			for _, b := range e.FnT.args {
				in.havocArg(e.St, b, at, 0)
			}
		}
	}
	return []Out{{st: e.St, rets: in.results(e, name)}}
}

func (in *Interp) results(e *CallEvent, name string) []*Term {
	sig := e.Com.Signature()
	var rets []*Term
	short := name
	if k := strings.LastIndex(short, "/"); k >= 0 {
		short = short[k+1:]
	}
	if pureCallee(name) {
		all := append([]*Term{}, e.Args...)
		if e.Recv != nil {
			all = append([]*Term{e.Recv}, all...)
		}
		for k := 0; k < sig.Results().Len(); k++ {
			t := tApp(fmt.Sprintf("%s:%d", short, k), all...)
			if t.typ == nil {
				t.typ = sig.Results().At(k).Type()
			}
			rets = append(rets, t)
		}
		return rets
	}
	for k := 0; k < sig.Results().Len(); k++ {
		t := in.fresh(e.Frame, e.St, e.Site, fmt.Sprintf("%s:%d", short, k), sig.Results().At(k).Type())
		rets = append(rets, t)
		if nonNilResult[name] {
			e.St.assumeNeq(t, tNil)
		}
	}
	return rets
}

var nonNilResult = map[string]bool{
	"fmt.Errorf": true, "errors.New": true, "time.After": true, "time.NewTimer": true, "context.Background": true,
}

func readOnlyCallee(n string) bool {
	for _, p := range []string{"github.com/sisu-network/lib/log.", "fmt.", "encoding/json.Marshal", "encoding/hex.", "errors.", "strings.", "bytes.", "strconv.", "time.", "crypto/sha256."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func pureCallee(n string) bool {
	for _, p := range []string{"bytes.Equal", "bytes.Compare", "strings.", "strconv.", "encoding/hex.", "github.com/sisu-network/tss-lib/tss.(PartyID).", "github.com/sisu-network/tss-lib/tss.(MessageWrapper_PartyID).",
		"github.com/libp2p/go-libp2p/core/peer.(ID).String", "crypto/sha256.Sum256", "github.com/cosmos/cosmos-sdk/crypto/types.(PubKey).", "github.com/cosmos/cosmos-sdk/crypto/types.(PrivKey).PubKey",
		"github.com/cosmos/cosmos-sdk/crypto/types.(PrivKey).Bytes", "github.com/cosmos/cosmos-sdk/crypto/types.(PrivKey).Type",
		"github.com/cosmos/cosmos-sdk/crypto/types.(LedgerPrivKey)", "github.com/sisu-network/tss-lib/tss.(Message).", "github.com/sisu-network/tss-lib/tss.(ParsedMessage).Get"} {
		if strings.HasPrefix(n, p) {
			return n != "github.com/sisu-network/tss-lib/tss.(Message).WireBytes"
		}
	}
	return false
}

func (in *Interp) builtin(fr *Frame, st *State, site ssa.CallInstruction, name string, args []*Term) []Out {
	var r *Term
	switch name {
	case "len":
		r = tLen(args[0])
		if args[0].op == "slice" && args[0].args[2] == tNil {
			base, lo := args[0].args[0], args[0].args[1]
			if lo == tNil {
				lo = tInt(0)
			}
			if base.op == "alloc" {
				if pt, ok := base.typ.Underlying().(*types.Pointer); ok {
					if at, ok := pt.Elem().Underlying().(*types.Array); ok {
						r = tApp("-", tInt(at.Len()), lo)
						if n, ok := lo.intVal(); ok {
							r = tInt(at.Len() - n)
						}
					}
				}
			} else {
				r = tApp("-", tLen(base), lo)
				if lo == tInt(0) {
					r = tLen(base)
				}
			}
		} else if args[0].op == "slice" {
			lo := args[0].args[1]
			if lo == tNil {
				r = args[0].args[2]
			} else {
				r = tApp("-", args[0].args[2], lo)
			}
		}
		if r.typ == nil {
			r.typ = types.Typ[types.Int]
		}
	case "cap":
		r = tApp("cap", args[0])
	case "append":
		r = in.appendTerm(fr, st, site, args)
	case "delete":
		m := args[0]
		for a := range st.mem {
			if a.op == "lookup" && a.args[0] == m {
				delete(st.mem, a)
			}
		}
		for f := range st.facts {
			if (f.op == "haskey") && f.args[0] == m {
				delete(st.facts, f)
			}
		}
		st.facts[tApp("haskey", m, args[1])] = false
		return []Out{{st: st}}
	case "copy":
		in.havocArg(st, args[0], fr.ctx+funcID(fr.fn)+"."+in.id(site), 0)
		r = in.fresh(fr, st, site, "copy", types.Typ[types.Int])
	case "recover":
		r = in.fresh(fr, st, site, "recover", nil)
	case "panic":
		return []Out{{st: st, panic: true, at: site}}
	case "close", "print", "println", "clear":
		return []Out{{st: st}}
	default:
		v, _ := site.(ssa.Value)
		var ty types.Type
		if v != nil {
			ty = v.Type()
		}
		r = in.fresh(fr, st, site, name, ty)
	}
	return []Out{{st: st, rets: []*Term{r}}}
}

// appendTerm models append(base, elems...): the elements are kept when they are known.
func (in *Interp) appendTerm(fr *Frame, st *State, site ssa.CallInstruction, args []*Term) *Term {
	if len(args) < 2 {
		return args[0]
	}
	va := args[1]
	var elems []*Term
	known := false
	if va.op == "slice" && va.args[0].op == "alloc" && va.args[1] == tNil && va.args[2] == tNil {
		if pt, ok := va.args[0].typ.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				known = true
				for k := int64(0); k < at.Len(); k++ {
					elems = append(elems, in.load(fr, st, tIndexAddr(va.args[0], tInt(k)), at.Elem(), site))
				}
			}
		}
	}
	var t *Term
	if known {
		t = tApp("append", append([]*Term{args[0]}, elems...)...)
		t.nonnil = true
		t.n = int64(len(elems))
		st.setLen(t, addConst(tLen(args[0]), int64(len(elems))))
	} else {
		t = tApp("concat", args[0], va)
	}
	if v, ok := site.(ssa.Value); ok && t.typ == nil {
		t.typ = v.Type()
	}
	return t
}

func addConst(t *Term, n int64) *Term {
	if n == 0 {
		return t
	}
	if m, ok := t.intVal(); ok {
		return tInt(m + n)
	}
	a, b := t, tInt(n)
	if a.key > b.key {
		a, b = b, a
	}
	r := tApp("+", a, b)
	if r.typ == nil {
		r.typ = types.Typ[types.Int]
	}
	return r
}

// lockKey returns the instance key and the type key of a mutex receiver term.
func lockKey(t *Term) (string, string) {
	x := t
	for x.op == "ld" {
		x = x.args[0]
	}
	if x.op == "fa" {
		return t.key, varKey(x.field)
	}
	return t.key, t.key
}

func varKey(f *types.Var) string {
	return fmt.Sprintf("%s@%d", f.Name(), f.Pos())
}

func (in *Interp) acquire(e *CallEvent, mode int) {
	k, tk := lockKey(e.Recv)
	e.St.held[k] = mode
	at := "L" + e.Frame.ctx + funcID(e.Frame.fn) + "." + in.id(e.Site)
	// everything this lock protects may have changed since it was last held
	for a := range e.St.mem {
		guarded := false
		a.walk(func(x *Term) {
			if x.op == "fa" && in.Guard[x.field] == tk && x.root().op != "alloc" {
				guarded = true
			}
		})
		if guarded {
			delete(e.St.mem, a)
		}
	}
	// facts about values read under an earlier acquisition at this same point are about old values
	has := func(t *Term) bool {
		h := false
		t.walk(func(x *Term) {
			if x.op == "ld" && x.args[0].op == "fa" && in.Guard[x.args[0].field] == tk && strings.Contains(x.key, ";"+at) {
				h = true
			}
		})
		return h
	}
	for t := range e.St.facts {
		if has(t) {
			delete(e.St.facts, t)
		}
	}
	for t := range e.St.eq {
		if has(t) {
			delete(e.St.eq, t)
		}
	}
	for t := range e.St.neq {
		if has(t) {
			delete(e.St.neq, t)
		}
	}
	for t := range e.St.iv {
		if has(t) {
			delete(e.St.iv, t)
		}
	}
	e.St.acq[tk] = at
}

// model gives precise effects to the primitives the code is built from.
func (in *Interp) model(e *CallEvent) ([]Out, bool) {
	st := e.St
	one := func(rets ...*Term) ([]Out, bool) { return []Out{{st: st, rets: rets}}, true }
	switch e.Name {
	case "sync.(Mutex).Lock", "sync.(RWMutex).Lock":
		in.acquire(e, 2)
		return one()
	case "sync.(RWMutex).RLock":
		in.acquire(e, 1)
		return one()
	case "sync.(Mutex).Unlock", "sync.(RWMutex).Unlock", "sync.(RWMutex).RUnlock":
		k, _ := lockKey(e.Recv)
		delete(st.held, k)
		return one()
	case "go.uber.org/atomic.NewBool":
		a := tAlloc(e.Site, "atomic#"+in.id(e.Site)+":"+funcID(e.Frame.fn), e.Frame.ctx, e.Com.Signature().Results().At(0).Type())
		in.store(st, tApp("atomicval", a), e.Args[0], types.Typ[types.Bool])
		return one(a)
	}
	if strings.HasPrefix(e.Name, "go.uber.org/atomic.(") || strings.HasPrefix(e.Name, "sync/atomic.(") {
		i := strings.LastIndex(e.Name, ".")
		meth := e.Name[i+1:]
		cell := tApp("atomicval", e.Recv)
		rt := types.Type(types.Typ[types.Bool])
		if e.Com.Signature().Results().Len() > 0 {
			rt = e.Com.Signature().Results().At(0).Type()
		}
		get := func() *Term {
			if v, ok := st.mem[cell]; ok {
				return v
			}
			return tLoad(cell, "", rt)
		}
		switch meth {
		case "Load":
			return one(get())
		case "Store":
			if in.OnStore != nil {
				in.OnStore(e.Frame, st, e.Site, cell, e.Args[0])
			}
			st.mem[cell] = e.Args[0]
			return one()
		case "Swap":
			old := get()
			if in.OnStore != nil {
				in.OnStore(e.Frame, st, e.Site, cell, e.Args[0])
			}
			st.mem[cell] = e.Args[0]
			return one(old)
		case "CAS", "CompareAndSwap":
			old := get()
			c := in.binop(st, token.EQL, old, e.Args[0], rt)
			var outs []Out
			f := st.clone()
			if f.assume(c, false) {
				outs = append(outs, Out{st: f, rets: []*Term{tFalse}})
			}
			if st.assume(c, true) {
				if in.OnStore != nil {
					in.OnStore(e.Frame, st, e.Site, cell, e.Args[1])
				}
				st.mem[cell] = e.Args[1]
				st.auto["cas:"+e.Recv.key] = "1"
				outs = append(outs, Out{st: st, rets: []*Term{tTrue}})
			}
			return outs, true
		}
	}
	return nil, false
}
