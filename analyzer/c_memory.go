package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", false, checkBoundedMemory)
	register("C32", false, checkQueues)
}

// ---- lists as sequences ------------------------------------------------------------------------

// part of a list: one element, or the elements lo..hi of another list (hi == nil: to its end).
type part struct {
	elem   *Term
	base   *Term
	lo, hi *Term
}

// overwrites: appending to t may overwrite elements of the list t is the beginning of.
func (st *State) overwrites(t *Term) bool {
	t = st.resolve(t)
	return t.op == "slice" && t.args[2] != tNil && t.args[0].op != "alloc"
}

// seqOf splits a list term into parts; ok is false when its content is unknown.
func (in *Interp) seqOf(st *State, t *Term) (ps []part, ok bool) {
	t = st.resolve(t)
	switch {
	case t == tNil:
		return nil, true
	case t.op == "append":
		ps, ok = in.seqOf(st, t.args[0])
		ps = append([]part{}, ps...)
		if !ok || st.overwrites(t.args[0]) {
			return nil, false
		}
		for _, a := range t.args[1:] {
			ps = append(ps, part{elem: a})
		}
		return ps, true
	case t.op == "concat":
		ps, ok = in.seqOf(st, t.args[0])
		qs, ok2 := in.seqOf(st, t.args[1])
		if !ok || !ok2 || st.overwrites(t.args[0]) {
			return nil, false
		}
		return append(append([]part{}, ps...), qs...), true
	case t.op == "slice":
		b := t.args[0]
		lo := t.args[1]
		if lo == tNil {
			lo = tInt(0)
		}
		if b.op == "alloc" {
			at := arrayOf(b)
			if at == nil {
				return nil, false
			}
			l, ok1 := lo.intVal()
			h := at.Len()
			ok2 := true
			if t.args[2] != tNil {
				h, ok2 = t.args[2].intVal()
			}
			if !ok1 || !ok2 {
				return nil, false
			}
			for k := l; k < h; k++ {
				v, has := st.mem[tIndexAddr(b, tInt(k))]
				if !has {
					return nil, false
				}
				ps = append(ps, part{elem: v})
			}
			return ps, true
		}
		if b.op == "append" || b.op == "concat" {
			l, ok := lo.intVal()
			if !ok || t.args[2] != tNil {
				return nil, false
			}
			ps, ok = in.seqOf(st, b)
			for ok && l > 0 { // drop the first l elements
				if len(ps) == 0 {
					return nil, false
				}
				if ps[0].elem != nil {
					ps, l = ps[1:], l-1
					continue
				}
				if have, _ := st.bounds(in.lenOf(ps[:1])); have < l {
					return nil, false
				}
				q := ps[0]
				q.lo = addConst(q.lo, l)
				ps, l = append([]part{q}, ps[1:]...), 0
			}
			return ps, ok
		}
		hi := t.args[2]
		if hi == tNil {
			hi = nil
		}
		return []part{{base: b, lo: lo, hi: hi}}, true
	case t.op == "alloc":
		if n, ok := st.mem[tLen(t)]; ok && n == tInt(0) {
			return nil, true
		}
		if st.known(tLen(t), tInt(0)) == 1 {
			return nil, true
		}
		return nil, false
	}
	return []part{{base: t, lo: tInt(0)}}, true
}

func arrayOf(b *Term) *types.Array {
	if b.typ == nil {
		return nil
	}
	pt, ok := b.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	at, _ := pt.Elem().Underlying().(*types.Array)
	return at
}

// sameInt: a and b are known to be the same number.
func (st *State) sameInt(a, b *Term) bool {
	lo, hi := st.bounds(linSub(toLin(a), toLin(b)))
	return lo == 0 && hi == 0
}

// covers: the parts with a base are exactly the list old in order; the elements in between are returned with the index
// of old they are put in front of.
func (st *State) covers(ps []part, old *Term) (elems []*Term, at []*Term, ok bool) {
	pos := tInt(0)
	for _, q := range ps {
		switch {
		case q.elem != nil:
			elems = append(elems, q.elem)
			at = append(at, pos)
		case q.base != old || pos == nil || !st.sameInt(q.lo, pos):
			return nil, nil, false
		default:
			pos = q.hi
		}
	}
	if pos != nil {
		lo, hi := st.bounds(linSub(toLin(pos), toLin(tLen(old))))
		if lo != 0 || hi != 0 {
			return nil, nil, false
		}
	}
	return elems, at, true
}

// ---- bounded memory ----------------------------------------------------------------------------

func checkBoundedMemory(r *Report) {
	p := r.P
	r.rule("read", "what is allocated for a message before it was read is at most the largest message")
	r.rule("kept", "the messages kept for one sender are at most the limit: when it is reached, the oldest message of this sender, and of no other, makes room")
	r.rule("resend", "the ring of messages kept for resending never holds more than its size, and what is overwritten is forgotten by its index as well")
	max := p.constInt("p2p.MaxPayload")
	for h := range p.streamHandlers() {
		in := p.interp()
		in.InlineGo = true
		c := fname(h)
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if o, ok := e.byteOrder(); ok {
				return o, true
			}
			if e.Name == own("p2p.(P2PDataListener).OnNetworkMessage") {
				return e.inert(), true
			}
			if strings.HasPrefix(e.Name, "io.ReadAll") || strings.HasPrefix(e.Name, "io/ioutil.ReadAll") || strings.HasSuffix(e.Name, "(Buffer).ReadFrom") || e.Name == "io.Copy" {
				r.bad("read", c, e.pos(), "%s reads without a limit", e.Name)
			}
			return e.reads(func(n string) {})
		}
		in.OnBackEdge = func(fr *Frame, st *State, header, from *ssa.BasicBlock) { delete(st.auto, "reads") }
		in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
			ms, ok := i.(*ssa.MakeSlice)
			if !ok {
				return
			}
			for _, v := range []ssa.Value{ms.Len, ms.Cap} {
				_, hi := st.bounds(toLin(in.val(fr, fr.env, v)))
				r.check(hi <= max, "read", c, i.Pos(), "%s bytes are allocated without a limit; path: %s", in.val(fr, fr.env, v), st.path())
			}
		}
		in.Run(h, nil, nil)
	}
	r.floor("read", 1)

	limit := p.constInt("core/cache.MaxMessagePerNode")
	fromF := p.fieldVar("types/common.TssMessage", "From")
	n := 0
	for _, root := range p.methodsOf("core/cache.MessageCache") {
		if len(root.Params) != 2 || !p.isType(root.Params[1].Type(), "types/common.TssMessage") {
			continue
		}
		in := p.interp()
		c := fname(root)
		msg := in.paramTerm(root.Params[1])
		from := in.fieldVal(msg, fromF)
		isList := func(t types.Type) bool { return p.sliceOf(t, "types/common.TssMessage") }
		in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
			// what was kept before satisfies the limit
			if u, ok := i.(*ssa.UnOp); ok && isList(u.Type()) {
				v := in.load(fr, st, in.val(fr, fr.env, u.X), u.Type(), i)
				if v.op == "ld" {
					st.assumeLin(toLin(tLen(v)), 0, limit)
				}
			}
			if l, ok := i.(*ssa.Lookup); ok && !l.CommaOk && isList(l.Type()) {
				st.assumeLin(toLin(tLen(tApp("lookup", in.val(fr, fr.env, l.X), in.val(fr, fr.env, l.Index)))), 0, limit)
			}
		}
		lists := map[string]*Term{}
		stored := func(st *State, i ssa.Instruction, v *Term) {
			n++
			lists[v.key] = v
			st.auto["list"] = v.key
		}
		in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) {
			if s, ok := i.(*ssa.Store); ok && isList(s.Val.Type()) && addr.op == "fa" {
				stored(st, i, val)
			}
		}
		in.OnMapUpdate = func(fr *Frame, st *State, i *ssa.MapUpdate, m, k, v *Term) {
			if k != from {
				r.bad("kept", c, i.Pos(), "a message is kept under %s instead of its sender", k)
			}
			if isList(i.Value.Type()) {
				stored(st, i, v)
			} else if v.op == "alloc" || v.op == "struct" {
				st.auto["entry"] = v.key
			} else {
				ok := v.mentions(func(y *Term) bool { return y.op == "lookup" && y.args[1] == from })
				r.check(ok, "kept", c, i.Pos(), "the messages of %s become those of the sender", v)
			}
		}
		for _, o := range in.Run(root, nil, nil) {
			if o.panic {
				continue
			}
			v := lists[o.st.auto["list"]]
			if v == nil {
				r.bad("kept", c, retPos(o), "the message is not kept; path: %s", o.st.path())
				continue
			}
			ps, ok := in.seqOf(o.st, v)
			if !ok || len(ps) == 0 || ps[len(ps)-1].elem != msg || len(ps) > 2 || len(ps) == 2 && (ps[0].elem != nil || ps[0].hi != nil) {
				r.bad("kept", c, retPos(o), "the kept messages are not the previous ones (without the oldest) followed by the new one: %s; path: %s", v, o.st.path())
				continue
			}
			_, hi := o.st.bounds(in.lenOf(ps))
			r.check(hi <= limit, "kept", c, retPos(o), "more than %d messages are kept for a sender: %s; path: %s", limit, v, o.st.path())
			if len(ps) == 2 {
				drop, known := ps[0].lo.intVal()
				have, _ := o.st.bounds(toLin(tLen(ps[0].base)))
				r.check(known && (drop == 0 || drop == 1 && have >= limit), "kept", c, retPos(o), "messages are dropped although there is room: %s; path: %s", v, o.st.path())
			}
		}
	}
	if n == 0 {
		r.bad("kept", "cache", 0, "undecided: no place found where messages are kept")
	}
	p.checkRing(r)
}

// lenOf is the length of a list.
func (in *Interp) lenOf(ps []part) lin {
	l := lin{co: map[*Term]int64{}}
	add := func(x lin, m int64) {
		l.k += m * x.k
		for t, c := range x.co {
			l.co[t] += m * c
			if l.co[t] == 0 {
				delete(l.co, t)
			}
		}
	}
	for _, q := range ps {
		if q.elem != nil {
			l.k++
			continue
		}
		hi := q.hi
		if hi == nil {
			hi = tLen(q.base)
		}
		add(toLin(hi), 1)
		add(toLin(q.lo), -1)
	}
	return l
}

// checkRing: the messages kept for resending.
func (p *Program) checkRing(r *Report) {
	n := 0
	for _, root := range p.impls("tools.CircularQueue", "Add") {
		in := p.interp()
		c := fname(root)
		// the slot that is written: list[tail % size]
		var tail, size, head *types.Var
		for _, b := range root.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
					if bo, ok := ia.Index.(*ssa.BinOp); ok && bo.Op.String() == "%" {
						tail, size = fieldRead(bo.X), fieldRead(bo.Y)
					}
				}
			}
		}
		recv := in.paramTerm(root.Params[0])
		if tail == nil || size == nil {
			r.bad("resend", c, root.Pos(), "undecided: the ring is not written at a position modulo its size")
			continue
		}
		// the other end: what the tail is compared with
		for _, b := range root.Blocks {
			for _, i := range b.Instrs {
				if bo, ok := i.(*ssa.BinOp); ok && bo.Op.String() == "-" && fieldRead(bo.X) == tail {
					head = fieldRead(bo.Y)
				}
			}
		}
		if head == nil {
			r.bad("resend", c, root.Pos(), "undecided: the fill of the ring is not computed")
			continue
		}
		T, H, S := in.fieldVal(recv, tail), in.fieldVal(recv, head), in.fieldVal(recv, size)
		fill := func(st *State, t, h *Term) lin { return linSub(linSub(toLin(t), toLin(h)), toLin(S)) }
		in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
			u, ok := i.(*ssa.UnOp)
			if !ok {
				return
			}
			if f := fieldRead(u); f == nil || f != tail && f != head && f != size {
				return
			}
			t, h, s := in.get(st, recv, tail), in.get(st, recv, head), in.get(st, recv, size)
			if t.op == "ld" && h.op == "ld" && s.op == "ld" { // not written yet
				T, H, S = t, h, s
				st.assumeLin(fill(st, T, H), negInf, 0)
			}
		}
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if e.Name == "builtin.delete" {
				k := e.Args[1]
				if k.op == "ld" && k.args[0].op == "fa" {
					e.St.auto["deleted"] = k.args[0].args[0].key
				}
			}
			return nil, false
		}
		m := 0
		in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) {
			if s, ok := i.(*ssa.Store); !ok || addr.op != "ia" || s == nil {
				return
			} else if ia, ok := s.Addr.(*ssa.IndexAddr); !ok || fieldRead(ia.X) == nil {
				return
			}
			n++
			m++
			st.auto["slot"] = "1"
			h := in.get(st, recv, head)
			if h == H { // nothing makes room
				_, hi := st.bounds(fill(st, T, H))
				r.check(hi < 0, "resend", c, i.Pos(), "an element is overwritten without being dropped; path: %s", st.path())
				return
			}
			gone := false
			for f, v := range st.facts {
				// the index points to a newer element with the same key
				if !v && f.op == "eq" && (f.args[0].op == "lookup" && f.args[0].args[1].contains(f.args[1]) || f.args[1].op == "lookup" && f.args[1].args[1].contains(f.args[0])) {
					gone = true
				}
			}
			r.check(gone || st.auto["deleted"] != "", "resend", c, i.Pos(), "the overwritten element stays in the index; path: %s", st.path())
		}
		for _, o := range in.Run(root, nil, nil) {
			if o.panic {
				continue
			}
			_, hi := o.st.bounds(fill(o.st, in.get(o.st, recv, tail), in.get(o.st, recv, head)))
			r.check(hi <= 0, "resend", c, retPos(o), "the ring grows beyond its size; path: %s", o.st.path())
			r.check(o.st.auto["slot"] != "", "resend", c, retPos(o), "the element is not stored; path: %s", o.st.path())
		}
		if m == 0 {
			r.bad("resend", c, root.Pos(), "undecided: nothing is stored")
		}
	}
	// the rings belong to one sender each
	fromF := p.fieldVar("types/common.SignedMessage", "From")
	for _, root := range p.methodsOf("core/cache.WorkMessageCache") {
		var msg *ssa.Parameter
		for _, q := range root.Params {
			if p.isType(q.Type(), "types/common.SignedMessage") {
				msg = q
			}
		}
		if msg == nil {
			continue
		}
		in := p.interp()
		c := fname(root)
		from := in.fieldVal(in.paramTerm(msg), fromF)
		var keyP *Term
		for _, q := range root.Params {
			if q.Type().String() == "string" {
				keyP = in.paramTerm(q)
			}
		}
		in.OnMapUpdate = func(fr *Frame, st *State, i *ssa.MapUpdate, m, k, v *Term) {
			r.check(k == from, "resend", c, i.Pos(), "a message is kept for resending under %s instead of its sender", k)
		}
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			switch e.Name {
			case own("tools.NewCircularQueue"):
				outs := e.unknown()
				e.St.assumeNeq(outs[0].rets[0], tNil)
				e.St.auto["new"] = outs[0].rets[0].key
				return outs, true
			case own("tools.(CircularQueue).Add"):
				okRing := e.Recv.key == e.St.auto["new"] || e.Recv.op == "lookup" && e.Recv.args[1] == from
				okVal := len(e.Args) == 2 && unIface(e.Args[1]) == in.paramTerm(msg) && e.Args[0] == keyP
				r.check(okRing && okVal, "resend", c, e.pos(), "%v is added to %s", e.Args, e.Recv)
				e.St.auto["added"] = "1"
				return e.inert(), true
			}
			return nil, false
		}
		for _, o := range in.Run(root, nil, nil) {
			if !o.panic {
				r.check(o.st.auto["added"] != "", "resend", c, retPos(o), "the message is not kept for resending; path: %s", o.st.path())
			}
		}
	}
	if n == 0 {
		r.bad("resend", "ring", 0, "undecided: no ring found")
	}
	r.floor("resend", 4)
}

// fieldRead is the field of the receiver whose value v is.
func fieldRead(v ssa.Value) *types.Var {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(fa.Field)
}

// ---- queue and cache contents ------------------------------------------------------------------

func (p *Program) methodsOfT(n *types.Named) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.Funcs {
		if recvNamed(f) == n.Obj() && f.Parent() == nil {
			r = append(r, f)
		}
	}
	return r
}

func checkQueues(r *Report) {
	p := r.P
	r.rule("queued", "a request is refused exactly when its id is queued already; otherwise it is put between requests of the queue, which stay in order, and none is lost or repeated")
	r.rule("order", "requests of higher priority come first, those of equal priority in the order they came; key generation has priority over signing")
	r.rule("popped", "the first request is taken from a queue that is not empty, and removed from it")
	r.rule("sorted-out", "taking the messages of a work out of the cache returns every kept message of that work and kind and keeps all others")
	p.checkRequestQueue(r)
	p.checkPriorities(r)
	p.checkSortedOut(r)
	r.floor("queued", 2)
	r.floor("order", 3)
	r.floor("popped", 2)
	r.floor("sorted-out", 1)
}

func (p *Program) checkPriorities(r *Report) {
	for _, root := range p.methodsOf("worker/types.WorkRequest") {
		if root.Object().Name() != "GetPriority" {
			continue
		}
		val := map[string]int64{}
		for _, wt := range workTypes {
			in := p.interp()
			p.withWorkType(in, wt)
			for _, o := range in.Run(root, nil, nil) {
				if o.panic {
					continue
				}
				v, ok := o.rets[0].intVal()
				if old, dup := val[wt]; !ok || dup && old != v {
					r.bad("order", fname(root)+" of "+wt, retPos(o), "undecided: the priority is %s", o.rets[0])
				}
				val[wt] = v
			}
		}
		for _, a := range workTypes {
			for _, b := range workTypes {
				switch {
				case a < b && isKeygenType(a) == isKeygenType(b):
					r.check(val[a] == val[b], "order", fname(root)+" of "+a+" and "+b, root.Pos(), "the priorities are %d and %d", val[a], val[b])
				case isKeygenType(a) && !isKeygenType(b):
					r.check(val[a] > val[b], "order", fname(root)+" of "+a+" and "+b, root.Pos(), "the priorities are %d and %d", val[a], val[b])
				}
			}
		}
	}
}

func (p *Program) checkRequestQueue(r *Report) {
	wr := "worker/types.WorkRequest"
	ctor := p.fn("core.NewRequestQueue")
	pt, _ := ctor.Signature.Results().At(0).Type().(*types.Pointer)
	if pt == nil {
		r.bad("queued", "queue", 0, "undecided: the queue is no pointer")
		return
	}
	qn, _ := pt.Elem().(*types.Named)
	idF := p.fieldVar(wr, "WorkId")
	isList := func(t types.Type) bool { return p.sliceOf(t, wr) }
	var listF *types.Var
	qs := qn.Underlying().(*types.Struct)
	for i := 0; i < qs.NumFields(); i++ {
		if isList(qs.Field(i).Type()) {
			listF = qs.Field(i)
		}
	}
	if listF == nil {
		r.bad("queued", "queue", 0, "undecided: the queue has no list of requests")
		return
	}
	prio := func(t *Term) *Term {
		x := tApp("prio", t)
		x.typ = types.Typ[types.Int]
		return x
	}
	for _, root := range p.methodsOfT(qn) {
		sig := root.Signature
		in := p.interp()
		c := fname(root)
		recv := in.paramTerm(root.Params[0])
		var old *Term
		in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
			if u, ok := i.(*ssa.UnOp); ok && isList(u.Type()) {
				if v := in.get(st, recv, listF); v.op == "ld" {
					old = v
				}
			}
		}
		lists := map[string]*Term{}
		in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) {
			switch {
			case addr.op == "fa" && addr.field == listF && addr.args[0] == recv:
				lists[val.key] = val
				st.auto["list"] = val.key
			case addr.op == "ia" && old != nil && addr.args[0].contains(old):
				r.bad("queued", c, i.Pos(), "undecided: an element of the queue is overwritten; path: %s", st.path())
			}
		}
		switch {
		case sig.Params().Len() == 1 && p.isType(sig.Params().At(0).Type(), wr): // adding
			work := in.paramTerm(root.Params[1])
			id := in.fieldVal(work, idF)
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				if e.Name == own("worker/types.(WorkRequest).GetPriority") {
					return []Out{{st: e.St, rets: []*Term{prio(e.Recv)}}}, true
				}
				return nil, false
			}
			higher := func(st *State, x *Term) int { return st.truth(tApp("lt", prio(x), prio(work))) } // the new one has priority over x
			in.eachElem(func(t *Term) bool { return old != nil && t == old }, func(fr *Frame, st *State, x *Term, h *ssa.BasicBlock) {
				other := st.known(in.get(st, x, idF), id) == 0
				cmp := higher(st, x)
				if !other && cmp < 0 {
					r.bad("queued", c, instrPos(h.Instrs[0]), "a request of the queue is passed over without being looked at; path: %s", st.path())
				}
				if cmp < 0 {
					if st.auto["ids"] == "" {
						st.auto["ids"] = "1"
					}
					return
				}
				dir := "front"
				if cmp == 1 {
					dir = "back"
				}
				if st.auto["dir"] != "" && st.auto["dir"] != dir {
					r.bad("order", c, instrPos(h.Instrs[0]), "requests of higher and of lower priority are passed over; path: %s", st.path())
				}
				if st.auto["dir"] == "" { // where the search starts
					idx := x.args[0].args[1]
					want := tInt(0)
					if dir == "back" {
						want = addConst(tLen(old), -1)
					}
					r.check(st.sameInt(idx, want), "order", c, instrPos(h.Instrs[0]), "the search for the place starts at %s", idx)
				}
				st.auto["dir"] = dir
			})
			prevBack := in.OnBackEdge
			in.OnBackEdge = func(fr *Frame, st *State, header, from *ssa.BasicBlock) {
				looked := st.auto["elem"] != ""
				prevBack(fr, st, header, from)
				if !looked {
					return
				}
				for k, pr := range header.Preds {
					if pr != from {
						continue
					}
					for _, i := range header.Instrs {
						ph, ok := i.(*ssa.Phi)
						if !ok {
							break
						}
						if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
							continue
						}
						lo, hi := st.bounds(linSub(toLin(in.val(fr, fr.env, ph.Edges[k])), toLin(in.val(fr, fr.env, ph))))
						okStep := lo == hi && (lo == 0 || lo == 1 || lo == -1)
						r.check(okStep, "queued", c, instrPos(ph), "requests are skipped: the position changes by %d to %d", lo, hi)
					}
				}
			}
			for _, o := range in.Run(root, nil, nil) {
				if o.panic || len(o.rets) != 1 {
					continue
				}
				st := o.st
				v := lists[st.auto["list"]]
				if st.truth(o.rets[0]) == 0 {
					same := false
					for f, v := range st.facts {
						if v && f.op == "eq" && (f.args[0] == id || f.args[1] == id) {
							same = true
						}
					}
					r.check(same && v == nil, "queued", c, retPos(o), "a request is refused although its id is not known to be queued; path: %s", st.path())
					continue
				}
				if v == nil {
					r.bad("queued", c, retPos(o), "the request is accepted but not queued; path: %s", st.path())
					continue
				}
				ps, ok := in.seqOf(st, v)
				var es, at []*Term
				if ok {
					es, at, ok = st.covers(ps, old)
				}
				if !ok || len(es) != 1 || es[0] != work {
					r.bad("queued", c, retPos(o), "the queue becomes %s instead of the previous requests and the new one; path: %s", v, st.path())
					continue
				}
				r.check(true, "queued", c, retPos(o), "")
				k := at[0]
				placed := false
				if k == nil { // at the end
					k = tLen(old)
				}
				empty := st.sameInt(tLen(old), tInt(0))
				start, end := st.sameInt(k, tInt(0)), st.sameInt(k, tLen(old))
				left, right := start || empty, end || empty
				for f := range st.facts {
					if f.op != "lt" {
						continue
					}
					for _, a := range f.args {
						if a.op != "prio" || a == prio(work) || a.args[0].op != "ld" || a.args[0].args[0].op != "ia" {
							continue
						}
						x := a.args[0]
						idx := x.args[0].args[1]
						if st.sameInt(addConst(idx, 1), k) && higher(st, x) == 0 {
							left = true
						}
						if st.sameInt(idx, k) && higher(st, x) == 1 {
							right = true
						}
					}
				}
				for l := range st.iv {
					for _, a := range append([]*Term{l}, l.args...) {
						if a.op == "prio" && a != prio(work) && a.args[0].op == "ld" && a.args[0].args[0].op == "ia" {
							x := a.args[0]
							idx := x.args[0].args[1]
							if st.sameInt(addConst(idx, 1), k) && higher(st, x) == 0 {
								left = true
							}
							if st.sameInt(idx, k) && higher(st, x) == 1 {
								right = true
							}
						}
					}
				}
				switch st.auto["dir"] {
				case "back":
					placed = left
				case "front":
					placed = right
				default:
					placed = left || right
				}
				r.check(placed, "order", c, retPos(o), "the request is put at position %s without regard to priority; path: %s", k, st.path())
			}
		case sig.Params().Len() == 0 && sig.Results().Len() == 1 && p.isType(sig.Results().At(0).Type(), wr): // taking
			for _, o := range in.Run(root, nil, nil) {
				if o.panic || old == nil {
					continue
				}
				st := o.st
				v := lists[st.auto["list"]]
				if st.known(o.rets[0], tNil) == 1 {
					_, hi := st.bounds(toLin(tLen(old)))
					r.check(v == nil && hi == 0, "popped", c, retPos(o), "nothing is taken although the queue may hold requests; path: %s", st.path())
					continue
				}
				first := o.rets[0].op == "ld" && o.rets[0].args[0].op == "ia" && o.rets[0].args[0].args[0] == old && st.sameInt(o.rets[0].args[0].args[1], tInt(0))
				okRest := false
				if v != nil {
					ps, ok := in.seqOf(st, v)
					okRest = ok && len(ps) == 1 && ps[0].base == old && st.sameInt(ps[0].lo, tInt(1)) && ps[0].hi == nil
				}
				r.check(first && okRest, "popped", c, retPos(o), "%s is taken and the queue becomes %s; path: %s", o.rets[0], v, st.path())
			}
		}
	}
}

// accumulated tells where a list ends up: returned by the root, or stored in an object.
func accumulated(p *Program, root *ssa.Function, v ssa.Value) (ret, stored bool) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, i := range *v.Referrers() {
			switch x := i.(type) {
			case *ssa.Phi:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case *ssa.Slice:
				walk(x)
			case *ssa.Extract:
				walk(x)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					walk(x)
				}
			case *ssa.MapUpdate:
				stored = stored || x.Value == v
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					for _, l := range *al.Referrers() {
						if u, ok := l.(*ssa.UnOp); ok {
							walk(u)
						}
					}
					continue
				}
				if _, ok := x.Addr.(*ssa.FieldAddr); ok {
					stored = true
				}
			case *ssa.Return:
				f := x.Parent()
				if f == root {
					ret = true
					continue
				}
				for k, res := range x.Results {
					if res != v {
						continue
					}
					for _, e := range p.Graph().In[f] {
						c, ok := e.Site.(*ssa.Call)
						if !ok {
							continue
						}
						if len(x.Results) == 1 {
							walk(c)
							continue
						}
						for _, q := range *c.Referrers() {
							if ex, ok := q.(*ssa.Extract); ok && ex.Index == k {
								walk(ex)
							}
						}
					}
				}
			}
		}
	}
	walk(v)
	return
}

func (p *Program) checkSortedOut(r *Report) {
	tssT := "types/common.TssMessage"
	idF, typF := p.fieldVar(tssT, "WorkId"), p.fieldVar(tssT, "Type")
	root := p.fn("core/cache.(MessageCache).PopAllMessages")
	in := p.interp()
	c := fname(root)
	var workId, filter *Term
	for _, q := range root.Params[1:] {
		if _, ok := q.Type().Underlying().(*types.Map); ok {
			filter = in.paramTerm(q)
		} else {
			workId = in.paramTerm(q)
		}
	}
	if workId == nil || filter == nil {
		r.bad("sorted-out", c, root.Pos(), "undecided: unexpected parameters")
		return
	}
	isList := func(t types.Type) bool { return p.sliceOf(t, tssT) }
	in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
		x, ok := i.(*ssa.Call)
		if !ok {
			return
		}
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || !isList(x.Type()) {
			return
		}
		ret, stored := accumulated(p, root, x)
		t := in.appendTerm(fr, st.clone(), x, []*Term{in.val(fr, fr.env, x.Call.Args[0]), in.val(fr, fr.env, x.Call.Args[1])})
		if t.op != "append" {
			r.bad("sorted-out", c, i.Pos(), "undecided: messages are moved in one go")
			return
		}
		for _, a := range t.args[1:] {
			if ret {
				st.auto["took"] += a.key
				st.auto["any"] = "1"
			}
			if stored {
				st.auto["kept"] += a.key
			}
		}
	}
	in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) {
		if s, ok := i.(*ssa.Store); ok && isList(s.Val.Type()) && addr.op == "fa" {
			st.auto["wrote"] = "1"
		}
	}
	in.OnMapUpdate = func(fr *Frame, st *State, i *ssa.MapUpdate, m, k, v *Term) {
		if isList(i.Value.Type()) {
			st.auto["wrote"] = "1"
		}
	}
	in.eachElem(func(t *Term) bool { return t.op == "ld" && t.args[0].op == "fa" && isList(t.args[0].field.Type()) }, func(fr *Frame, st *State, x *Term, h *ssa.BasicBlock) {
		took, kept := st.auto["took"] == x.key, st.auto["kept"] == x.key
		same := st.known(in.get(st, x, idF), workId)
		want := -1
		noFilter := st.known(filter, tNil)
		sel := st.truth(tApp("lookup", filter, in.get(st, x, typF)))
		switch {
		case same == 0 || noFilter == 0 && sel == 0:
			want = 0
		case same == 1 && (noFilter == 1 || sel == 1):
			want = 1
		}
		good := want == 1 && took && st.auto["kept"] == "" || want == 0 && kept && st.auto["took"] == ""
		r.check(good, "sorted-out", c, instrPos(h.Instrs[0]), "a message is returned: %v, kept: %v (of the work: %d, kind wanted: %d); path: %s", took, kept, same, sel, st.path())
		delete(st.auto, "took")
		delete(st.auto, "kept")
		st.auto["inner"] = "1"
	}, func(st *State, x *Term, at token.Pos) {
		r.bad("sorted-out", c, at, "the remaining messages are not looked at; path: %s", st.path())
	})
	back := in.OnBackEdge
	in.OnBackEdge = func(fr *Frame, st *State, header, from *ssa.BasicBlock) {
		back(fr, st, header, from)
		if st.auto["inner"] != "" { // the loop over the messages of a sender goes on
			delete(st.auto, "inner")
			return
		}
		r.check(st.auto["any"] == "" || st.auto["wrote"] != "", "sorted-out", c, instrPos(header.Instrs[0]), "messages that are returned stay in the cache; path: %s", st.path())
		delete(st.auto, "any")
		delete(st.auto, "wrote")
	}
	in.Run(root, nil, nil)
}
