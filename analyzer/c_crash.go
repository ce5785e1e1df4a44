package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", false, checkNoCrash)
}

// crash looks for what a message from outside could make the node panic with.
type crash struct {
	p    *Program
	r    *Report
	in   *Interp
	late map[*types.Var]bool // fields that are not set when their struct is made
	// what holds for every message that is sent over a channel (by element type)
	sent map[string]map[*types.Var]bool
	seen map[ssa.Instruction]bool
	c    string
	few  bool // only look into messages
}

// outside: the type is one of those messages are decoded into.
func (p *Program) outside(t types.Type) bool {
	t = derefT(t)
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch strings.TrimPrefix(n.Obj().Pkg().Path(), own("")) {
	case "types/common":
		return true
	case "p2p/types":
		return n.Obj().Name() == "P2PMessage"
	}
	return false
}

// outsideField: the field belongs to a message.
func (p *Program) outsideField(f *types.Var) bool {
	return f != nil && f.Pkg() != nil && strings.TrimPrefix(f.Pkg().Path(), own("")) == "types/common"
}

// direct: the value itself, and not only where it is found, comes from a message.
func (x *crash) direct(t *Term) bool {
	switch t.op {
	case "ld":
		a := t.args[0]
		return a.op == "fa" && x.p.outsideField(a.field) || a.op == "ia" && x.direct(a.args[0])
	case "as", "lookup", "haskey":
		return false
	}
	for _, a := range t.args {
		if x.direct(a) {
			return true
		}
	}
	return received(t) && t.typ != nil && x.p.outside(t.typ)
}

func received(t *Term) bool {
	return t.op == "sym" && strings.HasPrefix(strings.TrimLeft(t.key, "$!"), "recv")
}

// nilable tells whether t could be nil as far as the path knows, and why.
func (x *crash) nilable(st *State, t *Term) string {
	if t == tNil {
		return "nothing"
	}
	if st.isNonNil(t) {
		return ""
	}
	t = unIface(t)
	switch t.op {
	case "ld":
		a := t.args[0]
		switch {
		case a.op == "fa" && x.p.outsideField(a.field):
			if b := a.args[0]; (received(b) || b.op == "as") && b.typ != nil && x.sent[b.typ.String()][a.field] {
				return ""
			}
			return "a part of a message that may be missing"
		case a.op == "fa" && x.late[a.field]:
			return "something that is only set later"
		case a.op == "ia" && x.direct(a.args[0]):
			return "an element of a message that may be missing"
		}
	case "lookup":
		if st.truth(tApp("haskey", t.args...)) == 1 {
			return ""
		}
		return "an entry that may not exist"
	}
	return ""
}

func (x *crash) deref(fr *Frame, st *State, v ssa.Value, at ssa.Instruction) {
	t := x.in.val(fr, fr.env, v)
	switch v.Type().Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
	default:
		return
	}
	x.seen[at] = true
	x.r.Counts["dereferences"]++
	if why := x.nilable(st, t); why != "" {
		x.r.bad("nothing-missing", x.c, instrPos(at), "%s is used in %s without knowing that it is there (%s); path: %s", t, fname(fr.fn), why, st.path())
	} else if x.direct(t) || t.op == "lookup" {
		x.r.ok("nothing-missing", fname(fr.fn), instrPos(at), "what is used is known to be there")
	}
}

func (x *crash) index(fr *Frame, st *State, list, idx ssa.Value, at ssa.Instruction) {
	l, i := x.in.val(fr, fr.env, list), x.in.val(fr, fr.env, idx)
	if !x.direct(l) && !x.direct(i) && !(l.op == "sym" && !strings.Contains(l.key, "next")) {
		return
	}
	if _, ok := derefT(list.Type()).Underlying().(*types.Map); ok {
		return
	}
	n := tLen(l)
	if at, ok := derefT(list.Type()).Underlying().(*types.Array); ok {
		n = tInt(at.Len())
	}
	lo, _ := st.bounds(toLin(i))
	gap, _ := st.bounds(linSub(toLin(n), toLin(i)))
	x.r.check(lo >= 0 && gap >= 1, "in-range", fname(fr.fn), instrPos(at), "element %s of %s, which comes from outside, is used; path: %s", i, l, st.path())
}

// leadsTo are the functions that get to an instruction of interest without calling through an interface or a function value.
func (p *Program) leadsTo(pred func(ssa.Instruction) bool) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	for more := true; more; {
		more = false
		for _, f := range p.Funcs {
			if set[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					hit := pred(i)
					if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
						hit = hit || set[c.Common().StaticCallee()]
					}
					if m, ok := i.(*ssa.MakeClosure); ok {
						hit = hit || set[m.Fn.(*ssa.Function)]
					}
					if hit && !set[f] {
						set[f], more = true, true
					}
				}
			}
		}
	}
	return set
}

// relevant: the instruction looks into a message or makes something that may be missing.
func (x *crash) relevant(i ssa.Instruction) bool {
	pointer := func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Pointer)
		return ok
	}
	switch v := i.(type) {
	case *ssa.FieldAddr:
		if x.p.outside(v.X.Type()) {
			for _, u := range *v.Referrers() {
				if _, ok := u.(*ssa.UnOp); ok {
					return true
				}
			}
			return false
		}
		s, ok := derefT(v.X.Type()).Underlying().(*types.Struct)
		return ok && !x.few && x.late[s.Field(v.Field)]
	case *ssa.Lookup:
		return !x.few && pointer(v.Type())
	case *ssa.Return:
		if x.few {
			return false
		}
		for _, q := range v.Results {
			if k, ok := q.(*ssa.Const); ok && k.IsNil() && pointer(q.Type()) {
				return true
			}
		}
	}
	return false
}

func (x *crash) setup(in *Interp, c string) {
	p, r := x.p, x.r
	x.in, x.c = in, c
	in.InlineGo = true
	in.Multi = true
	in.Forget = true
	in.only(x.relevant)
	if x.few {
		set := p.leadsTo(x.relevant)
		in.NoInline = func(f *ssa.Function) bool { return !set[f] }
	}
	in.Roots = func(st *State) []*Term {
		// what is known to be there stays known
		var l []*Term
		for t := range st.neq {
			if t.op == "ld" && x.direct(t) && !t.mentions(func(y *Term) bool { return y.loopVar() }) {
				l = append(l, t)
			}
		}
		return l
	}
	in.MaxStep = 6_000_000
	in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
		switch v := i.(type) {
		case *ssa.FieldAddr:
			x.deref(fr, st, v.X, i)
		case *ssa.UnOp:
			if v.Op == token.MUL {
				x.deref(fr, st, v.X, i)
			}
		case *ssa.Store:
			x.deref(fr, st, v.Addr, i)
		case *ssa.IndexAddr:
			x.index(fr, st, v.X, v.Index, i)
		case *ssa.Index:
			x.index(fr, st, v.X, v.Index, i)
		case *ssa.Lookup:
			if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				x.index(fr, st, v.X, v.Index, i)
			}
		case *ssa.Slice:
			l := in.val(fr, fr.env, v.X)
			if !x.direct(l) {
				return
			}
			lo, hi := tInt(0), tLen(l)
			if v.Low != nil {
				lo = in.val(fr, fr.env, v.Low)
			}
			if v.High != nil {
				hi = in.val(fr, fr.env, v.High)
			}
			a, _ := st.bounds(toLin(lo))
			b, _ := st.bounds(linSub(toLin(hi), toLin(lo)))
			d, _ := st.bounds(linSub(toLin(tLen(l)), toLin(hi)))
			r.check(a >= 0 && b >= 0 && d >= 0, "in-range", fname(fr.fn), instrPos(i), "[%s:%s] of %s, which comes from outside, is used; path: %s", lo, hi, l, st.path())
		case *ssa.MakeSlice:
			if n := in.val(fr, fr.env, v.Len); x.direct(n) {
				lo, _ := st.bounds(toLin(n))
				r.check(lo >= 0, "in-range", fname(fr.fn), instrPos(i), "a list of %s elements, a number that comes from outside, is made; path: %s", n, st.path())
			}
		case *ssa.BinOp:
			if n := in.val(fr, fr.env, v.Y); (v.Op == token.QUO || v.Op == token.REM) && x.direct(n) {
				if b, ok := v.Y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					r.check(st.known(n, tInt(0)) == 0, "in-range", fname(fr.fn), instrPos(i), "a number is divided by %s, which comes from outside; path: %s", n, st.path())
				}
			}
		case *ssa.TypeAssert:
			if y := in.val(fr, fr.env, v.X); !v.CommaOk && y.op != "iface" && x.direct(y) {
				r.bad("in-range", fname(fr.fn), instrPos(i), "%s is taken for a %s; path: %s", y, v.AssertedType, st.path())
			}
		case *ssa.Panic:
			r.bad("no-panic", c, instrPos(i), "%s panics; path: %s", fname(fr.fn), st.path())
		case ssa.CallInstruction:
			if c := v.Common(); c.IsInvoke() {
				x.deref(fr, st, c.Value, i)
			} else if c.StaticCallee() == nil {
				if _, ok := c.Value.(*ssa.Builtin); !ok {
					x.deref(fr, st, c.Value, i)
				}
			}
		}
	}
	given := func(st *State, t *Term, at token.Pos, to string) {
		r.check(st.isNonNil(t), "handed-on", c, at, "what is handed on to %s may be nothing (%s); path: %s", to, t, st.path())
	}
	// keep notes which parts of the messages that are sent or kept are always there
	keep := func(st *State, v *Term, typ types.Type) {
		s, ok := derefT(typ).Underlying().(*types.Struct)
		if !ok {
			return
		}
		facts := map[*types.Var]bool{}
		for k := 0; k < s.NumFields(); k++ {
			if st.isNonNil(in.get(st, v, s.Field(k))) {
				facts[s.Field(k)] = true
			}
		}
		if old := x.sent[typ.String()]; old != nil {
			for f := range old {
				if !facts[f] {
					delete(old, f)
				}
			}
		} else {
			x.sent[typ.String()] = facts
		}
	}
	in.OnSend = func(fr *Frame, st *State, i ssa.Instruction, ch, v *Term, blocking bool) {
		var typ types.Type
		switch s := i.(type) {
		case *ssa.Send:
			typ = s.X.Type()
		case *ssa.Select:
			for _, k := range s.States {
				if k.Dir == types.SendOnly && in.val(fr, fr.env, k.Send) == v {
					typ = k.Send.Type()
				}
			}
		}
		if typ == nil || !p.outside(typ) {
			return
		}
		given(st, v, instrPos(i), "the reader of a channel")
		x.seen[i] = true
		keep(st, v, typ)
	}
	in.OnCall = func(e *CallEvent) ([]Out, bool) {
		n := strings.TrimPrefix(e.Name, own(""))
		for _, a := range []string{"os.Exit", "log.Fatal", "log.Panic"} {
			if strings.HasPrefix(e.Name, a) {
				r.bad("no-panic", c, e.pos(), "%s ends the process; path: %s", e.Name, e.St.path())
			}
		}
		if !strings.HasPrefix(e.Name, "builtin.") && !strings.HasPrefix(e.Name, "github.com/sisu-network/lib/log.") {
			for k, a := range e.Args {
				if !namedAs(derefT(e.argType(k)), "github.com/sisu-network/tss-lib/tss.PartyID") {
					continue
				}
				if why := x.nilable(e.St, a); why != "" {
					r.bad("handed-on", c, e.pos(), "the party handed on to %s may be nothing (%s); path: %s", e.Name, why, e.St.path())
				} else {
					r.ok("handed-on", fname(e.Frame.fn), e.pos(), "the party handed on is there")
				}
			}
		}
		if p.dynCall(e.Com, "worker.SelectionResult") || p.dynCall(e.Com, "worker.ExecutionResult") {
			return e.unknown(), true
		}
		switch {
		case strings.HasPrefix(n, "worker.(Worker)."), strings.HasPrefix(n, "p2p.(P2PDataListener)."), n == "core/cache.(MessageCache).AddMessage", n == "core/cache.(WorkMessageCache).Add":
			for k, a := range e.Args {
				if p.outside(e.argType(k)) {
					given(e.St, a, e.pos(), n)
					if p.isType(e.argType(k), "types/common.SignedMessage") {
						keep(e.St, a, e.argType(k))
					}
				}
			}
			return e.unknown(), true
		case strings.HasPrefix(n, "db.("), strings.HasPrefix(n, "core.(EngineCallback)."), strings.HasPrefix(n, "worker.(WorkerCallback)."), strings.HasPrefix(n, "worker/interfaces.("),
			strings.HasPrefix(n, "p2p.(ConnectionManager)."), strings.HasPrefix(n, "core/signer."), strings.HasPrefix(n, "core/components.("):
			return e.unknown(), true
		case strings.HasPrefix(e.Name, "github.com/sisu-network/lib/log."):
			return e.inert(), true
		}
		return nil, false
	}
}

// lateFields are the fields of the named structs that are not set when a value of the struct is made.
func (p *Program) lateFields(names ...string) map[*types.Var]bool {
	late := map[*types.Var]bool{}
	for _, name := range names {
		typ := p.typ(name)
		s, ok := typ.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					al, ok := i.(*ssa.Alloc)
					if !ok || !types.Identical(derefT(al.Type()), typ) {
						continue
					}
					set := map[int]bool{}
					for _, ref := range *al.Referrers() {
						switch u := ref.(type) {
						case *ssa.FieldAddr:
							for _, w := range *u.Referrers() {
								if st, ok := w.(*ssa.Store); ok && st.Addr == u {
									set[u.Field] = true
								}
							}
						case *ssa.Store:
							if u.Addr == al {
								for k := 0; k < s.NumFields(); k++ {
									set[k] = true
								}
							}
						}
					}
					for k := 0; k < s.NumFields(); k++ {
						switch s.Field(k).Type().Underlying().(type) {
						case *types.Pointer, *types.Interface:
							if !set[k] {
								late[s.Field(k)] = true
							}
						}
					}
				}
			}
		}
	}
	return late
}

func checkNoCrash(r *Report) {
	p := r.P
	r.rule("nothing-missing", "what a message may leave out, an entry that may not exist and what is only set later are used only where they are known to be there")
	r.rule("in-range", "no list or text from outside is indexed, cut, divided by or taken for another type beyond what the path knows about it")
	r.rule("handed-on", "whatever is handed on to a worker, to a cache or over a channel is a message")
	r.rule("no-panic", "nothing that handles messages panics or ends the process deliberately")
	x := &crash{p: p, r: r, seen: map[ssa.Instruction]bool{}, sent: map[string]map[*types.Var]bool{}}
	x.late = p.lateFields("worker.DefaultWorker")
	roots := 0
	run := func(f *ssa.Function, nonNil bool) {
		in := p.interp()
		x.setup(in, fname(f))
		var args []*Term
		for k, q := range f.Params {
			if k > 0 && nonNil && p.outside(q.Type()) {
				args = append(args, tSymNN(q.Name(), "", q.Type()))
			} else {
				args = append(args, in.paramTerm(q))
			}
		}
		in.Run(f, nil, args)
		r.check(in.Paths > 0, "no-panic", fname(f), f.Pos(), "no path through the handling was found")
		roots++
		r.Counts["paths"] += in.Paths
	}
	for _, f := range p.impls("worker.Worker", "ProcessNewMessage") {
		run(f, true)
	}
	for _, f := range p.impls("p2p.P2PDataListener", "OnNetworkMessage") {
		run(f, true)
	}
	for _, n := range []string{"worker.PreworkSelection", "worker.WorkerExecutor"} {
		takes := map[*ssa.Function]bool{}
		for _, f := range p.methodsOf(n) {
			for _, q := range f.Params[1:] {
				takes[f] = takes[f] || p.sliceOf(q.Type(), "types/common.TssMessage")
			}
		}
		x.few = true
		for _, f := range p.entriesOf(takes, n) {
			run(f, true)
		}
	}
	x.few = false
	for h := range p.streamHandlers() {
		run(h, false)
	}
	r.Counts["roots"] = roots
	r.floor("nothing-missing", 4)
	r.floor("handed-on", 2)
}
