package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", false, checkRequests)
}

// What the client asks for over the API: which work the engine is given for it.

// heartStep: the instruction concerns requests of the client.
func heartStep(p *Program, i ssa.Instruction) bool {
	if callsIface(i, "core.(Engine).", "db.(Database).") {
		return true
	}
	if c, ok := i.(ssa.CallInstruction); ok && (calleeName(c.Common()) == own("core.NewNode") || calleeName(c.Common()) == own("core.NewNodes")) {
		return true
	}
	if fa, ok := i.(*ssa.FieldAddr); ok {
		return p.isType(fa.X.Type(), "worker/types.WorkRequest") || p.isType(fa.X.Type(), "types.PubKeyWrapper")
	}
	if fa, ok := i.(*ssa.Field); ok {
		return p.isType(fa.X.Type(), "types.PubKeyWrapper")
	}
	if ia, ok := i.(*ssa.IndexAddr); ok {
		return p.sliceOfPtr(ia.X.Type(), "github.com/sisu-network/tss-lib/tss.PartyID") || p.sliceOfPtr(ia.X.Type(), own("core.Node"))
	}
	if c, ok := i.(*ssa.Call); ok {
		return strings.Contains(calleeName(&c.Call), "sync/atomic") || strings.Contains(calleeName(&c.Call), "go.uber.org/atomic")
	}
	return false
}

type requestRun struct {
	f    *ssa.Function
	in   *Interp
	l    *loopLists
	outs []Out
	reqs []requestUse
	srcs map[*Term][]*Term
}

type requestUse struct {
	st  *State
	req *Term
	pos token.Pos
}

func (x *requestRun) get(u requestUse, field string) *Term {
	return x.in.get(u.st, u.req, x.in.P.fieldVar("worker/types.WorkRequest", field))
}

func (p *Program) runRequest(f *ssa.Function, opaqueThreshold bool) *requestRun {
	in := p.interp()
	x := &requestRun{f: f, in: in}
	in.only(func(i ssa.Instruction) bool { return heartStep(p, i) })
	x.l = in.lists(isSliceT)
	in.OnCall = func(e *CallEvent) ([]Out, bool) {
		switch {
		case e.Name == own("core.(Engine).AddRequest"):
			x.reqs = append(x.reqs, requestUse{e.St.clone(), unIface(e.Args[0]), e.pos()})
			e.St.add("requests")
			bad := e.St.clone()
			errT := in.fresh(e.Frame, bad, e.Site, "err", errorType)
			bad.assumeNeq(errT, tNil)
			bad.auto["refused"] = errT.key
			return []Out{{st: e.St, rets: []*Term{tNil}}, {st: bad, rets: []*Term{errT}}}, true
		case e.Name == own("core.(Engine).AddNodes"):
			e.St.auto["nodes"] = tLen(unIface(e.Args[0])).key
			return e.inert(), true
		case e.Name == own("core.NewNode"), e.Name == own("core.NewNodes"), opaqueThreshold && e.Name == own("utils.GetThreshold"), strings.HasSuffix(e.Name, "/tss.NewPartyID"):
			return e.pure(), true
		case strings.HasSuffix(e.Name, "/tss.SortPartyIDs"):
			rs := e.pure()
			e.St.setLen(rs[0].rets[0], tLen(unIface(e.Args[0])))
			return rs, true
		case strings.HasPrefix(e.Name, own("db.(Database).Load")):
			rs := in.results(e, e.Name)
			what := e.Name
			if len(e.Args) > 0 {
				what += " " + e.Args[0].key
			}
			e.St.auto["loaded:"+rs[0].key] = what
			if len(rs) == 2 {
				return e.split(rs[0], "failed"), true
			}
			return []Out{{st: e.St, rets: rs}}, true
		case strings.HasPrefix(e.Name, own("core.(Engine).")), strings.HasPrefix(e.Name, own("db.(Database).")), strings.HasPrefix(e.Name, own("client.(Client).")):
			return e.inert(), true
		}
		return nil, false
	}
	for _, o := range in.Run(f, nil, nil) {
		if !o.panic {
			x.outs = append(x.outs, o)
		}
	}
	return x
}

// paramOf: the parameter of a function with the given type.
func paramOf(f *ssa.Function, pred func(types.Type) bool) *ssa.Parameter {
	for _, v := range f.Params {
		if pred(v.Type()) {
			return v
		}
	}
	return nil
}

// sameCount: the number n is that of the elements of a list: it is its length, or the length of a
// list that gets one element in every iteration over it.
func (x *requestRun) sameCount(st *State, n, list *Term) bool {
	return x.sameCountDepth(st, n, list, 4)
}

func (x *requestRun) sameCountDepth(st *State, n, list *Term, depth int) bool {
	if st.sameNum(n, tLen(list)) {
		return true
	}
	if depth == 0 {
		return false
	}
	cand := map[*Term]bool{n: true, st.resolve(n): true}
	for t := range st.lens() {
		if st.sameNum(t, n) {
			cand[t] = true
		}
	}
	for t := range cand {
		if t.op != "len" {
			continue
		}
		l := t.args[0]
		for st.resolve(tLen(l)).op == "len" && st.resolve(tLen(l)).args[0] != l {
			l = st.resolve(tLen(l)).args[0]
		}
		parts, prob := x.l.args(st, l)
		if prob != "" || len(parts) != 1 || parts[0].item != nil || len(parts[0].each) == 0 {
			continue
		}
		good := true
		for _, src := range x.sources(l, parts[0]) {
			if src == nil || src != list && !x.sameCountDepth(st, tLen(src), list, depth-1) {
				good = false
				break
			}
		}
		if good {
			return true
		}
	}
	return false
}

// sources: the lists whose elements the iterations made the elements of a list from; nil when an
// iteration does not add exactly one element.
func (x *requestRun) sources(l *Term, part argPart) []*Term {
	if r, ok := x.srcs[l]; ok {
		return r
	}
	seen := map[*Term]bool{}
	var r []*Term
	for k, it := range part.each {
		var src *Term
		if len(it) == 1 {
			src = x.sourceList(part.st[k], it[0])
		}
		if !seen[src] {
			seen[src] = true
			r = append(r, src)
		}
	}
	if x.srcs == nil {
		x.srcs = map[*Term][]*Term{}
	}
	x.srcs[l] = r
	return r
}

// sourceList: the list whose current element a value was made from.
func (x *requestRun) sourceList(st *State, v *Term) *Term {
	v = unIface(v)
	if v.op == "alloc" {
		v = x.in.content(st, v)
	}
	var src *Term
	v.walk(func(t *Term) {
		if src == nil && t.op == "ia" {
			src = t.args[0]
		}
	})
	return src
}

func checkRequests(r *Report) {
	p := r.P
	r.rule("gate", "work is given to the engine only while the client has declared itself ready, which it can only do after the private key was set; otherwise the request is answered with an error")
	r.rule("kind", "the engine gets the work the request asks for: of the operation and the key type, with the client's id for a keygen and the stored key share of the key type for a signing; a key type that is not known is an error")
	r.rule("parties", "the work is given the parties of all keys of the request, of which there is at least one, or none because a key is not valid; their nodes were made known to the engine before")
	r.rule("messages", "a signing work has the bytes and the chain of every message of the request, in the order of the request, and their number as its batch size")
	r.rule("reported", "a request that is accepted was given to the engine exactly once; one that the engine refuses or never gets is answered with an error")

	gate := p.readyFields()
	r.floor("gate", 1)
	n := map[string]bool{}
	for _, m := range []string{"KeyGen", "KeySign"} {
		for _, f := range p.impls("server.Api", m) {
			if !p.relevant(func(i ssa.Instruction) bool { return callsIface(i, "core.(Engine).AddRequest") })[f] {
				continue
			}
			x := p.runRequest(f, true)
			r.Counts["paths"] += x.in.Paths
			n[m] = true
			p.checkRequest(r, x, m == "KeyGen", gate)
		}
	}
	r.check(len(n) == 2, "kind", "the API", token.NoPos, "the operations of the API that reach the engine are %v", keysSorted(n))
	p.checkReady(r, gate)
}

// readyFields: what SetSisuReady stores its argument in.
func (p *Program) readyFields() map[*types.Var]bool {
	r := map[*types.Var]bool{}
	for _, f := range p.impls("server.Api", "SetSisuReady") {
		in := p.interp()
		in.only(func(i ssa.Instruction) bool {
			return callsIface(i, "p2p.(ConnectionManager).AddListener") || p.setsFlag(i)
		})
		in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) {
			if fa := fieldCell(addr); fa != nil && isBoolish(unIface(val)) {
				r[fa] = true
			}
		}
		in.Run(f, nil, nil)
	}
	return r
}

func isBoolish(t *Term) bool {
	return t.typ != nil && isBoolT(t.typ) || t.con != nil && t.con.Kind() == constant.Bool
}

// fieldCell: the field a store writes (directly or as an atomic cell).
func fieldCell(addr *Term) *types.Var {
	if addr.op == "atomicval" {
		addr = addr.args[0]
	}
	for addr.op == "ld" {
		addr = addr.args[0]
	}
	if addr.op == "fa" {
		return addr.field
	}
	return nil
}

// setsFlag: the instruction stores a value that is or contains a boolean, or calls an atomic operation.
func (p *Program) setsFlag(i ssa.Instruction) bool {
	if c, ok := i.(ssa.CallInstruction); ok {
		n := calleeName(c.Common())
		return strings.Contains(n, "sync/atomic") || strings.Contains(n, "go.uber.org/atomic")
	}
	if s, ok := i.(*ssa.Store); ok {
		_, isField := s.Addr.(*ssa.FieldAddr)
		return isField && isBoolT(s.Val.Type())
	}
	return false
}

// knownTrue: the flag kept in one of the fields is true on this path.
func knownTrue(st *State, fields map[*types.Var]bool) bool {
	isFlag := func(t *Term) bool {
		for t.op == "iface" || t.op == "as" {
			t = t.args[0]
		}
		if t.op == "ld" {
			f := fieldCell(t.args[0])
			return f != nil && fields[f]
		}
		return false
	}
	isTrue := func(t *Term) bool {
		t = unIface(t)
		return t.op == "const" && t.con != nil && t.con.Kind() == constant.Bool && constant.BoolVal(t.con)
	}
	for t, v := range st.facts {
		if !v {
			continue
		}
		if isFlag(t) {
			return true
		}
		if t.op == "eq" && (isTrue(t.args[0]) && isFlag(t.args[1]) || isTrue(t.args[1]) && isFlag(t.args[0])) {
			return true
		}
	}
	for a, b := range st.eq {
		if isFlag(a) && isTrue(b) || isFlag(b) && isTrue(a) {
			return true
		}
	}
	return false
}

func (p *Program) checkRequest(r *Report, x *requestRun, keygen bool, gate map[*types.Var]bool) {
	f := x.f
	name := fname(f)
	keys := paramOf(f, p.isKeyList)
	sreq := paramOf(f, func(t types.Type) bool { return p.isType(t, "types.KeysignRequest") })
	r.check(keys != nil && (keygen || sreq != nil), "parties", name, f.Pos(), "the parameters of the operation are not those the property is about")
	if keys == nil || !keygen && sreq == nil {
		return
	}
	keysT := x.in.paramTerm(keys)
	// the key type and the id the client gives
	var keyType, id *Term
	var strs []*Term
	for _, v := range f.Params {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			strs = append(strs, x.in.paramTerm(v))
		}
	}
	if keygen && len(strs) == 2 {
		id, keyType = strs[0], strs[1]
	}
	wt := map[string]string{}
	r.floor("kind", 4)
	seen := map[string]bool{}
	for _, u := range x.reqs {
		c := name + " " + p.pos(u.pos)
		r.check(knownTrue(u.st, gate), "gate", c, u.pos, "the work is given to the engine on a path where the client is not known to be ready (%s)", u.st.path())
		// the kind
		typ, ok := u.st.resolve(x.get(u, "WorkType")).intVal()
		got := ""
		for _, w := range workTypes {
			if ok && p.constInt("worker/types."+w) == typ {
				got = w
			}
		}
		if got == "" {
			r.bad("kind", c, u.pos, "the type of the work is not known")
			continue
		}
		seen[got] = true
		kt := keyType
		if !keygen {
			kt = x.in.get(u.st, x.in.paramTerm(sreq), p.fieldVar("types.KeysignRequest", "KeyType"))
		}
		if kt == nil {
			r.bad("kind", c, u.pos, "the key type of the request is not known")
			continue
		}
		want := map[bool]string{true: "ecdsa", false: "eddsa"}[strings.HasPrefix(got, "Ec")]
		r.check(u.st.known(kt, tConstStr(want)) == 1 && isKeygenType(got) == keygen, "kind", name+" "+got, u.pos, "a work of type %s is made where the key type is not known to be %s (%s)", got, want, u.st.path())
		wt[got] = want
		if keygen {
			r.check(u.st.known(x.get(u, "WorkId"), id) == 1, "kind", name+" "+got+" id", u.pos, "the id of the keygen work is %s, not the one the client gave", x.get(u, "WorkId"))
			g := x.get(u, "KeygenType")
			r.check(u.st.known(g, tConstStr(want)) == 1 || u.st.known(g, kt) == 1, "kind", name+" "+got+" key type", u.pos, "the key type of the work is %s", g)
		} else {
			field, load := "EcSigningInput", "LoadEcKeygen"
			if want == "eddsa" {
				field, load = "EdSigningInput", "LoadEdKeygen"
			}
			in := x.get(u, field)
			l := u.st.auto["loaded:"+in.key]
			what, arg, _ := strings.Cut(l, " ")
			r.check(what == own("db.(Database)."+load) && (arg == kt.key || arg == tConstStr(want).key) && u.st.isNonNil(in), "kind", name+" "+got+" key share", u.pos, "the work signs with %s, which is not known to be the stored key share of the key type (%s)", in, u.st.path())
		}
		// the parties
		np := x.get(u, "N")
		all := x.get(u, "AllParties")
		r.check(x.sameCount(u.st, np, keysT), "parties", name+" "+got+" number", u.pos, "the number of parties of the work is %s, not that of the keys of the request (%s)", np, u.st.path())
		r.check(u.st.sameNum(tLen(all), np), "parties", name+" "+got+" list", u.pos, "the work has %s parties in its list, and its number of parties is %s", tLen(all), np)
		lo, _ := u.st.bounds(toLin(tLen(keysT)))
		nlo, _ := u.st.bounds(toLin(np))
		r.check(lo > 0 || nlo > 0 || u.st.known(np, tInt(0)) == 0 || u.st.known(tLen(keysT), tInt(0)) == 0, "parties", name+" "+got+" empty", u.pos, "a request without keys becomes a work without parties (%s)", u.st.path())
		nodes := u.st.auto["nodes"]
		okNodes := false
		for t := range u.st.lens() {
			if t.key != nodes {
				continue
			}
			// every key has a node
			for _, n := range []*Term{np, tLen(keysT)} {
				lo, _ := u.st.bounds(linSub(toLin(t), toLin(n)))
				okNodes = okNodes || lo >= 0 || u.st.sameNum(t, n)
			}
		}
		for t, v := range u.st.facts {
			for k := 0; v && t.op == "eq" && k < 2; k++ {
				okNodes = okNodes || t.args[k].key == nodes && u.st.sameNum(t.args[1-k], np)
			}
		}
		r.check(okNodes, "parties", name+" "+got+" nodes", u.pos, "the work is made on a path where the nodes of all its keys are not known to be valid and known to the engine (%s)", u.st.path())
		if !keygen {
			p.checkRequestMessages(r, x, u, name+" "+got, x.in.paramTerm(sreq))
		}
	}
	for _, w := range workTypes {
		if isKeygenType(w) == keygen {
			r.check(seen[w], "kind", name+" "+w+" made", f.Pos(), "no request becomes a work of this type")
		}
	}
	for _, o := range x.outs {
		pos := retPos(o)
		n := o.st.num("requests")
		err := o.rets[0]
		isErr := o.st.known(err, tNil) == 0
		isNil := o.st.known(err, tNil) == 1
		c := name + " " + p.pos(pos)
		switch {
		case n > 1:
			r.bad("reported", c, pos, "the work of one request is given to the engine more than once (%s)", o.st.path())
		case n == 1 && o.st.auto["refused"] != "":
			r.check(isErr, "reported", c+" refused", pos, "the engine refuses the work and the client is not told (%s)", o.st.path())
		case n == 1:
			r.check(isNil, "reported", c+" accepted", pos, "the engine accepted the work and the client gets %s (%s)", err, o.st.path())
		default:
			r.check(isErr, "reported", c+" not given", pos, "nothing was given to the engine and the client gets %s (%s)", err, o.st.path())
		}
	}
}

// lens: the length terms a path has facts about.
func (s *State) lens() map[*Term]bool {
	r := map[*Term]bool{}
	add := func(t *Term) {
		t.walk(func(x *Term) {
			if x.op == "len" {
				r[x] = true
			}
		})
	}
	for t := range s.facts {
		add(t)
	}
	for a, b := range s.eq {
		add(a)
		add(b)
	}
	for t := range s.iv {
		add(t)
	}
	for t := range s.neq {
		add(t)
	}
	return r
}

func (p *Program) checkRequestMessages(r *Report, x *requestRun, u requestUse, c string, req *Term) {
	list := x.in.get(u.st, req, p.fieldVar("types.KeysignRequest", "KeysignMessages"))
	for _, w := range []struct{ field, from string }{{"Messages", "BytesToSign"}, {"Chains", "OutChain"}} {
		t := x.get(u, w.field)
		parts, prob := x.l.args(u.st, t)
		src := p.fieldVar("types.KeysignMessage", w.from)
		if prob == "" && (len(parts) != 1 || parts[0].item != nil) {
			prob = "it is not made from the messages of the request alone"
		}
		if prob == "" {
			for _, it := range parts[0].each {
				if len(it) != 1 {
					prob = fmt.Sprintf("an iteration adds %d elements", len(it))
					break
				}
				v := unIface(it[0])
				var el *Term
				if v.op == "ld" && v.args[0].op == "fa" && v.args[0].field == src {
					el = v.args[0].args[0]
				}
				for el != nil && (el.op == "ld" || el.op == "ia") {
					if el.op == "ia" {
						break
					}
					el = el.args[0]
				}
				if el == nil || el.op != "ia" || u.st.known(el.args[0], list) != 1 {
					prob = fmt.Sprintf("an element of it is %s", v)
				}
			}
		}
		r.check(prob == "", "messages", c+" "+w.field, u.pos, "the list is not that of the request's messages: %s", prob)
		r.check(x.sameCount(u.st, tLen(t), list), "messages", c+" number of "+w.field, u.pos, "the work has %s entries for the messages of the request", tLen(t))
	}
	r.check(x.sameCount(u.st, x.get(u, "BatchSize"), list), "messages", c+" batch", u.pos, "the batch size of the work is %s, not the number of messages", x.get(u, "BatchSize"))
}

// checkReady: readiness is what the client said last, and it cannot be claimed before the key was set.
func (p *Program) checkReady(r *Report, gate map[*types.Var]bool) {
	keyFields := map[*types.Var]bool{}
	rel := map[*ssa.Function]bool{}
	for _, f := range p.impls("server.Api", "SetPrivKey") {
		for g := range p.reachOwn(f) {
			rel[g] = true
		}
	}
	for fv, ss := range (&Slicer{P: p}).fieldStores() {
		for _, s := range ss {
			if rel[s.Parent()] && !isNilConst(s.Val) {
				keyFields[fv] = true
			}
		}
	}
	for _, f := range p.impls("server.Api", "SetSisuReady") {
		reaches := false
		for g := range p.reachOwn(f) {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					reaches = reaches || p.setsFlag(i)
				}
			}
		}
		if !reaches {
			continue
		}
		arg := paramOf(f, func(t types.Type) bool { return isBoolT(t) })
		if arg == nil {
			r.bad("gate", fname(f), f.Pos(), "the operation has no flag")
			continue
		}
		in := p.interp()
		argT := in.paramTerm(arg)
		in.only(func(i ssa.Instruction) bool {
			return callsIface(i, "p2p.(ConnectionManager).AddListener") || p.setsFlag(i)
		})
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if e.Name == own("p2p.(ConnectionManager).AddListener") {
				e.St.add("listening")
				return e.inert(), true
			}
			if strings.HasPrefix(e.Name, own("p2p.(")) || strings.HasPrefix(e.Name, own("core.(Engine).")) {
				return e.inert(), true
			}
			return nil, false
		}
		in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) {
			if fa := fieldCell(addr); fa != nil && gate[fa] {
				val = unIface(val)
				set := st.truth(val)
				if set < 0 && st.known(val, argT) == 1 {
					set = st.truth(argT)
				}
				switch {
				case set == 0:
					st.auto["ready"] = "no"
					return
				case set == 1:
					st.auto["ready"] = "yes"
				default:
					st.auto["ready"] = "arg"
				}
				ok := false
				for t := range st.neq {
					if t.op == "ld" && t.args[0].op == "fa" && keyFields[t.args[0].field] && st.isNonNil(t) {
						ok = true
					}
				}
				if !ok && set < 0 {
					// the value is the argument itself: it may be true
					ok = st.truth(argT) == 0
				}
				r.check(ok, "gate", "readiness "+p.pos(instrPos(i)), instrPos(i), "the client can become ready before the private key was set (%s)", st.path())
			}
		}
		outs := in.Run(f, nil, nil)
		r.Counts["paths"] += in.Paths
		for _, o := range outs {
			if o.panic {
				continue
			}
			c := fname(f) + " " + p.pos(retPos(o))
			v := o.st.auto["ready"]
			a := o.st.truth(argT)
			if a != 1 {
				r.check(v == "no" || v == "arg", "gate", c+" off", retPos(o), "the client says that it is not ready and this is not kept (%s)", o.st.path())
			}
			if v == "yes" || v == "arg" && a != 0 {
				r.check(o.st.num("listening") == 1, "gate", c+" listening", retPos(o), "the client is ready and the engine does not listen to the network (%s)", o.st.path())
			}
			if a == 1 && v == "no" {
				r.bad("gate", c+" on", retPos(o), "the client says that it is ready and the opposite is kept (%s)", o.st.path())
			}
		}
	}
}

// isKeyList: the public keys of a client's request.
func (p *Program) isKeyList(t types.Type) bool {
	return p.sliceOf(t, "types.PubKeyWrapper") || p.sliceOfPtr(t, own("types.PubKeyWrapper"))
}
