package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", false, checkSelectionAuthority)
}

const pidType = "github.com/sisu-network/tss-lib/tss.PartyID"

// partyID gives the id of a party.
func (in *Interp) partyID(st *State, party *Term) *Term {
	if s, ok := st.load(in, party, "MessageWrapper_PartyID"); ok {
		if id, ok := st.load(in, s, "Id"); ok {
			return id
		}
	}
	return nil
}

// load reads the field with this name of the object t points to.
func (st *State) load(in *Interp, t *Term, name string) (*Term, bool) {
	t = unIface(t)
	if t.typ == nil {
		return nil, false
	}
	pt, ok := t.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return in.get(st, t, s.Field(i)), true
		}
	}
	return nil, false
}

// isPartyIDOf: t is the id of a party; the party is returned.
func idOwner(t *Term) *Term {
	if t == nil || t.op != "ld" || t.args[0].op != "fa" || t.args[0].field.Name() != "Id" {
		return nil
	}
	b := t.args[0].args[0]
	if b.op == "ld" && b.args[0].op == "fa" && b.args[0].field.Anonymous() {
		return b.args[0].args[0]
	}
	return b
}

// elemOf: the list a term was read from as an element.
func elemOf(t *Term) *Term {
	if t != nil && t.op == "ld" && t.args[0].op == "ia" {
		return t.args[0].args[0]
	}
	return nil
}

// fieldOfT: t was read from a field with this name.
func readOf(t *Term, names ...string) bool {
	if t == nil || t.op != "ld" || t.args[0].op != "fa" {
		return false
	}
	for _, n := range names {
		if t.args[0].field.Name() == n {
			return true
		}
	}
	return false
}

// equalTo lists the terms known to be equal to t.
func (st *State) equalTo(t *Term) []*Term {
	var r []*Term
	for f, v := range st.facts {
		if v && f.op == "eq" {
			if f.args[0] == t {
				r = append(r, f.args[1])
			}
			if f.args[1] == t {
				r = append(r, f.args[0])
			}
		}
	}
	for a, b := range st.eq {
		if a == t {
			r = append(r, b)
		}
		if b == t {
			r = append(r, a)
		}
	}
	return r
}

func checkSelectionAuthority(r *Report) {
	p := r.P
	r.rule("from-leader", "the outcome of a selection is taken only from a message of the leader of the work")
	r.rule("as-leader", "only the leader asks for availability and announces an outcome; a member answers the leader, and nobody else")
	r.rule("validated", "a member accepts a selection only if it names enough different known parties (for a keygen all of them) and no presigns or one per message, which it has itself")
	r.rule("counted", "the leader counts a party as available only if it is the leader itself or a known party which answered yes")
	r.rule("enough", "the leader announces success only with enough available parties, and with exactly as many as needed, itself included")
	r.rule("table", "the table of available parties only grows, and hands out no more parties than asked for, all from the table and none of them the excluded one")
	preT := p.typ("types/common.PreExecOutputMessage")
	tssT := p.typ("types/common.TssMessage")
	if preT == nil || tssT == nil {
		r.bad("from-leader", "types", 0, "message types not found")
		return
	}
	isPre := func(t types.Type) bool {
		pt, ok := t.Underlying().(*types.Pointer)
		return ok && types.Identical(pt.Elem(), preT)
	}
	yes := p.constVal("types/common.AvailabilityResponseMessage_YES")
	reqF := p.fieldVar("worker.PreworkSelection", "request")
	wr := "worker/types.WorkRequest"
	thrF, nF, batchF, msgsF := p.fieldVar(wr, "Threshold"), p.fieldVar(wr, "N"), p.fieldVar(wr, "BatchSize"), p.fieldVar(wr, "Messages")
	succF := p.fieldVar("worker.SelectionResult", "Success")
	exclF := p.fieldVar("worker.SelectionResult", "IsNodeExcluded")
	pidsF := p.fieldVar("worker.SelectionResult", "SelectedPids")
	presF := p.fieldVar("worker.SelectionResult", "PresignIds")
	leaderF := p.leaderField()
	if leaderF == nil {
		r.bad("from-leader", "worker.PreworkSelection", 0, "no field keeps the chosen leader")
		return
	}
	isLeader := func(t *Term) bool {
		o := idOwner(t)
		return o != nil && o.op == "ld" && o.args[0].op == "fa" && o.args[0].field == leaderF
	}
	isMine := func(t *Term) bool { return t != nil && ownPidID(t) && !isLeader(t) }
	isKnownList := func(t *Term) bool { return readOf(t, "allParties", "AllParties") }
	// fact: two ids are the same, the first of the wanted kind
	fact := func(st *State, a, b func(*Term) bool) bool {
		for f, v := range st.facts {
			if v && f.op == "eq" && (a(f.args[0]) && b(f.args[1]) || a(f.args[1]) && b(f.args[0])) {
				return true
			}
		}
		for x, y := range st.eq {
			if a(x) && b(y) || a(y) && b(x) {
				return true
			}
		}
		return false
	}
	// fromLeader: message m was sent by the leader, possibly by way of a party with the same id
	fromLeader := func(in *Interp, st *State, m *Term) bool {
		from, ok := st.load(in, m, "From")
		if !ok {
			return false
		}
		seen := map[*Term]bool{from: true}
		todo := []*Term{from}
		for len(todo) > 0 {
			x := todo[0]
			todo = todo[1:]
			if isLeader(x) {
				return true
			}
			for _, y := range st.equalTo(x) {
				if !seen[y] {
					seen[y] = true
					todo = append(todo, y)
				}
			}
		}
		return false
	}
	amLeader := func(st *State) bool { return fact(st, isMine, isLeader) }
	interesting := func(i ssa.Instruction) bool {
		if p.reportsSelection(i) || callsIface(i, "worker/interfaces.(MessageDispatcher).") {
			return true
		}
		switch x := i.(type) {
		case *ssa.FieldAddr:
			n := x.X.Type().String()
			return isPre(x.X.Type()) || strings.HasSuffix(n, "MessageWrapper_PartyID")
		case *ssa.MapUpdate, *ssa.Send:
			return true
		}
		return false
	}
	setup := func(in *Interp, c string, enough func(*State) bool) {
		in.InlineGo = true
		in.only(interesting)
		in.Forget = true
		in.Roots = func(st *State) []*Term {
			var l []*Term
			for _, v := range st.auto {
				if t := p.preTerms[v]; t != nil {
					l = append(l, t)
				}
			}
			return l
		}
		use := func(st *State, b *Term, at token.Pos) {
			if b.op == "ld" && b.args[0].op == "fa" && isPre(b.args[0].field.Type()) {
				m := b.args[0].args[0]
				r.check(fromLeader(in, st, m), "from-leader", c, at, "an outcome is used without knowing that the leader sent it; path: %s", st.path())
			}
		}
		in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
			ld, ok := i.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				return
			}
			switch a := ld.X.(type) {
			case *ssa.FieldAddr:
				if isPre(a.X.Type()) {
					b := in.val(fr, fr.env, a.X)
					use(st, b, instrPos(i))
					st.auto["pre"] = b.key
					p.preTerms[b.key] = b
				}
			case *ssa.IndexAddr:
				if l := in.val(fr, fr.env, a.X); readOf(l, "Pids") && isPre(l.args[0].args[0].typ) {
					x := in.load(fr, st, in.val(fr, fr.env, a), ld.Type(), i)
					h := loopOf(stripConv(a.Index), i.Block())
					if h == nil {
						return
					}
					id := fr.ctx + funcID(fr.fn) + "#" + strconv.Itoa(h.Index)
					if cur := st.auto["cur"]; cur != "" && cur != id {
						st.auto["all:"+cur] = "no" // left in the middle
					}
					st.auto["cur"] = id
					st.auto["elem"] = x.key
					p.preTerms[x.key] = x
					st.auto["marked"] = ""
				}
			}
		}
		in.OnMapUpdate = func(fr *Frame, st *State, i *ssa.MapUpdate, m, k, v *Term) {
			if k.key == st.auto["elem"] && k.key != "" {
				if st.truth(tApp("lookup", m, k)) == 0 || st.truth(tApp("haskey", m, k)) == 0 || in.emptyMap(st, m) {
					st.auto["marked"] = "new"
				}
			}
			if pt, ok := v.typ.(*types.Pointer); ok && strings.HasSuffix(pt.Elem().String(), "worker.partyInfo") || p.isAvailable(m) {
				st.auto["counted"] = "1"
				r.check(p.mayCount(in, st, k, isMine, isKnownList, tConst(yes)), "counted", c, instrPos(i), "a party is counted as available without its positive answer; path: %s", st.path())
			}
		}
		in.OnBackEdge = func(fr *Frame, st *State, header, from *ssa.BasicBlock) {
			id := fr.ctx + funcID(fr.fn) + "#" + strconv.Itoa(header.Index)
			if st.auto["cur"] != id {
				return
			}
			x := p.preTerms[st.auto["elem"]]
			known := x != nil && fact(st, func(t *Term) bool { return t == x }, func(t *Term) bool {
				l := elemOf(idOwner(t))
				return l != nil && isKnownList(l)
			})
			if known && st.auto["marked"] == "new" && st.auto["all:"+id] != "no" {
				st.auto["all:"+id] = "yes"
			} else {
				st.auto["all:"+id] = "no"
			}
			delete(st.auto, "cur")
			delete(st.auto, "elem")
			delete(st.auto, "marked")
		}
		in.OnBranch = func(fr *Frame, st *State, i *ssa.If, cond *Term, v bool) {
			if enough != nil && cond.mentions(func(t *Term) bool { return p.isAvailable(t) }) && enough(st) {
				st.auto["enough"] = "yes"
			}
		}
		in.OnSend = func(fr *Frame, st *State, i ssa.Instruction, ch, v *Term, blocking bool) {
			use(st, v, instrPos(i))
		}
	}
	p.preTerms = map[string]*Term{}
	// the round itself
	roots := p.entriesOf(p.relevant(p.reportsSelection), "worker.PreworkSelection")
	for _, root := range roots {
		recv := func(in *Interp) *Term { return in.paramTerm(root.Params[0]) }
		accepted, announced := 0, 0
		for _, wt := range workTypes {
			in := p.interp()
			p.withWorkType(in, wt)
			c := fname(root) + " for " + wt
			need := func(st *State) *Term {
				req := in.get(st, recv(in), reqF)
				if isKeygenType(wt) {
					return addConst(in.get(st, req, nF), -1)
				}
				return in.get(st, req, thrF)
			}
			setup(in, c, func(st *State) bool { return p.enoughAvailable(st, need(st)) })
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				st := e.St
				switch {
				case p.dynCall(e.Com, "worker.SelectionResult"):
					v := e.Args[0]
					if st.truth(in.fieldVal(v, succF)) == 0 {
						return nil, true
					}
					if st.truth(in.fieldVal(v, succF)) != 1 {
						r.bad("validated", c, e.pos(), "cannot decide whether the selection succeeded; path: %s", st.path())
						return nil, true
					}
					req := in.get(st, recv(in), reqF)
					thr, batch := in.get(st, req, thrF), in.get(st, req, batchF)
					if amLeader(st) {
						announced++
						r.check(st.auto["enough"] == "yes", "enough", c, e.pos(), "success although the number of available parties was not found to be enough; path: %s", st.path())
						l := in.fieldVal(v, pidsF)
						own := st.auto["asked"] == "ok" && in.othersAndMe(st, l, isMine)
						ids := in.fieldVal(v, presF)
						if pre := l.key == st.auto["setPids"]; pre {
							msgs := tLen(in.get(st, req, msgsF))
							lo, hi := st.bounds(linSub(toLin(tLen(ids)), toLin(msgs)))
							r.check(ids.key == st.auto["setIDs"] && (lo == 0 && hi == 0 || st.truth(eqTerm(tLen(ids), batch)) == 1), "enough", c, e.pos(), "the parties of a presign set are selected without its presigns, or without one per message (%s); path: %s", ids, st.path())
							own = true
						} else {
							r.check(ids == tNil || st.known(ids, tNil) == 1, "enough", c, e.pos(), "presigns are used by other parties than those which made them; path: %s", st.path())
						}
						r.check(st.auto["sent"] == "1" && st.auto["sentIDs"] == ids.key, "enough", c, e.pos(), "the announced outcome is not the one used; path: %s", st.path())
						r.check(own, "enough", c, e.pos(), "the selected parties are neither those of a presign set nor the needed number of others and this node (%s); path: %s", l, st.path())
						return nil, true
					}
					accepted++
					b := p.preTerms[st.auto["pre"]]
					if b == nil {
						r.bad("from-leader", c, e.pos(), "a member reports success without an outcome of the leader; path: %s", st.path())
						return nil, true
					}
					r.check(st.truth(in.fieldNamedVal(st, b, "Success")) == 1, "validated", c, e.pos(), "the leader did not announce success; path: %s", st.path())
					pids, pres := in.fieldNamedVal(st, b, "Pids"), in.fieldNamedVal(st, b, "PresignIds")
					lo, _ := st.bounds(linSub(toLin(tLen(pids)), toLin(thr)))
					r.check(lo >= 1, "validated", c, e.pos(), "possibly not more parties than the threshold; path: %s", st.path())
					if isKeygenType(wt) {
						all := fact(st, func(t *Term) bool { return t == tLen(pids) }, func(t *Term) bool { return isLen(t) && isKnownList(t.args[0]) })
						r.check(all, "validated", c, e.pos(), "a keygen possibly without some of the parties; path: %s", st.path())
					}
					good := false
					for h, v := range st.auto {
						good = good || strings.HasPrefix(h, "all:") && v == "yes" && st.auto["cur"] != h[4:]
					}
					_, hi := st.bounds(toLin(tLen(pids)))
					r.check(good || hi == 0, "validated", c, e.pos(), "not every selected party was found to be a known one named once; path: %s", st.path())
					_, hi = st.bounds(toLin(tLen(pres)))
					okPre := hi == 0 || st.truth(eqTerm(tLen(pres), batch)) == 1 || st.known(pres, tNil) == 1
					r.check(okPre, "validated", c, e.pos(), "the number of presigns is neither zero nor the number of messages; path: %s", st.path())
					if st.truth(in.fieldVal(v, exclF)) != 1 {
						used := in.fieldVal(v, presF)
						if used != tNil && !(used.op == "zero") && hi != 0 && st.known(used, tNil) != 1 {
							r.check(used == pres && st.auto["loaded"] == pres.key && st.auto["loadErr"] == "no", "validated", c, e.pos(), "presigns which this node could not load are accepted; path: %s", st.path())
						} else if hi != 0 {
							_, h2 := st.bounds(toLin(tLen(pres)))
							r.check(h2 == 0 || isKeygenType(wt), "validated", c, e.pos(), "the presigns of the leader are dropped; path: %s", st.path())
						}
					}
					return nil, true
				case strings.HasPrefix(e.Name, own("core/components.(AvailablePresigns).")):
					outs := e.unknown()
					for _, o := range outs {
						if len(o.rets) == 2 {
							p.preTerms[o.rets[0].key], p.preTerms[o.rets[1].key] = o.rets[0], o.rets[1]
							o.st.auto["setIDs"], o.st.auto["setPids"] = o.rets[0].key, o.rets[1].key
						}
					}
					return outs, true
				case e.Name == own("db.(Database).LoadPresign"):
					outs := e.unknown()
					bad := outs[0]
					bad.st = bad.st.clone()
					bad.st.assumeNeq(outs[0].rets[1], tNil)
					bad.st.auto["loadErr"] = "yes"
					st.auto["loaded"] = e.Args[0].key
					st.auto["loadErr"] = "no"
					outs[0].st.assume(eqTerm(outs[0].rets[1], tNil), true)
					return append(outs, bad), true
				case strings.HasPrefix(e.Name, own("worker/interfaces.(MessageDispatcher).")):
					p.checkSent(r, in, e, c, isMine, isLeader, amLeader(st))
					return e.unknown(), true
				}
				if callee := e.Com.StaticCallee(); callee != nil && recvNamed(callee) != nil && recvNamed(callee).Name() == "AvailableParties" {
					for k, a := range e.Args {
						if b, ok := e.argType(k).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && sliceResult(e.Com) {
							if lo, hi := st.bounds(linSub(toLin(a), toLin(need(st)))); lo == 0 && hi == 0 {
								st.auto["asked"] = "ok"
							} else {
								st.auto["asked"] = "other"
							}
						}
					}
					if sliceResult(e.Com) {
						return e.inert(), true
					}
				}
				return nil, false
			}
			in.Run(root, nil, nil)
			r.Counts["paths"] += in.Paths
		}
		if accepted == 0 || announced == 0 {
			r.bad("validated", fname(root), root.Pos(), "no accepted selection (%d) or no announced one (%d) found", accepted, announced)
		}
	}
	// messages of others
	for _, root := range p.entriesOf(p.relevant(func(i ssa.Instruction) bool {
		return touches(i, func(t types.Type) bool {
			c, ok := t.Underlying().(*types.Chan)
			return ok && strings.Contains(c.Elem().String(), "types/common.")
		})
	}), "worker.PreworkSelection") {
		if len(root.Params) != 2 || !p.isType(root.Params[1].Type(), "types/common.TssMessage") {
			continue
		}
		in := p.interp()
		c := fname(root)
		setup(in, c, nil)
		sends := 0
		prev := in.OnSend
		msg := in.paramTerm(root.Params[1])
		in.OnSend = func(fr *Frame, st *State, i ssa.Instruction, ch, v *Term, blocking bool) {
			sends++
			prev(fr, st, i, ch, v, blocking)
			if !isPre(v.typ) {
				r.check(v == msg, "from-leader", c, instrPos(i), "something else than the message is passed on (%s)", v)
			}
		}
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if strings.HasPrefix(e.Name, own("worker/interfaces.(MessageDispatcher).")) {
				r.check(fromLeader(in, e.St, msg), "as-leader", c, e.pos(), "another node than the leader gets an answer; path: %s", e.St.path())
				if len(e.Args) == 2 {
					id := in.partyID(e.St, e.Args[0])
					from, _ := e.St.load(in, msg, "From")
					same := isLeader(id)
					for _, x := range e.St.equalTo(id) {
						same = same || x == from || isLeader(x)
					}
					r.check(same, "as-leader", c, e.pos(), "the answer goes to %s instead of the leader; path: %s", e.Args[0], e.St.path())
				}
				return e.unknown(), true
			}
			return nil, false
		}
		in.Run(root, nil, nil)
		r.Counts["paths"] += in.Paths
		if sends == 0 {
			r.bad("from-leader", c, root.Pos(), "no message is passed on")
		}
	}
	p.checkPartyTable(r)
	r.floor("table", 2)
	r.floor("from-leader", 2)
	r.floor("as-leader", 3)
	r.floor("validated", 4)
	r.floor("counted", 1)
	r.floor("enough", 3)
}

func sliceResult(c *ssa.CallCommon) bool {
	res := c.Signature().Results()
	if res.Len() == 0 {
		return false
	}
	_, ok := res.At(0).Type().Underlying().(*types.Slice)
	return ok
}

// checkSent: what a node may send in a selection round.
func (p *Program) checkSent(r *Report, in *Interp, e *CallEvent, c string, isMine, isLeader func(*Term) bool, leader bool) {
	if len(e.Args) != 2 {
		return
	}
	typ, ok := e.St.load(in, e.Args[1], "Type")
	n, isNum := typ.intVal()
	if !ok || !isNum {
		r.bad("as-leader", c, e.pos(), "a message of unknown type is sent (%v); path: %s", typ, e.St.path())
		return
	}
	name := ""
	for k, v := range p.msgTypes() {
		if v == n {
			name = k
		}
	}
	switch {
	case strings.HasSuffix(name, "AVAILABILITY_RESPONSE"):
		id := in.partyID(e.St, e.Args[0])
		to := isLeader(id)
		for _, x := range e.St.equalTo(id) {
			to = to || isLeader(x)
		}
		r.check(to && !leader, "as-leader", c, e.pos(), "an availability answer goes to %s; path: %s", e.Args[0], e.St.path())
	case strings.HasSuffix(name, "AVAILABILITY_REQUEST"), strings.HasSuffix(name, "PRE_EXEC_OUTPUT"):
		if pre, ok := e.St.load(in, e.Args[1], "PreExecOutputMessage"); ok && strings.HasSuffix(name, "OUTPUT") {
			e.St.auto["sent"] = strconv.Itoa(e.St.truth(in.fieldNamedVal(e.St, pre, "Success")))
			e.St.auto["sentIDs"] = in.fieldNamedVal(e.St, pre, "PresignIds").key
		}
		r.check(leader, "as-leader", c, e.pos(), "a %s is sent by a node that is not known to be the leader; path: %s", name, e.St.path())
	default:
		r.bad("as-leader", c, e.pos(), "a message of type %s is sent", name)
	}
}

// enoughAvailable: on this path the number of available parties was found to exceed need.
func (p *Program) enoughAvailable(st *State, need *Term) bool {
	cand := map[*Term]bool{}
	note := func(t *Term) {
		t.walk(func(x *Term) {
			if isLen(x) && p.isAvailable(x.args[0]) {
				cand[x] = true
			}
		})
	}
	for t := range st.facts {
		note(t)
	}
	for t := range st.iv {
		note(t)
	}
	for t := range st.eq {
		note(t)
	}
	for t := range cand {
		if lo, _ := st.bounds(linSub(toLin(t), toLin(need))); lo >= 1 {
			return true
		}
	}
	return false
}

// isAvailable: the table of the available parties.
func (p *Program) isAvailable(m *Term) bool {
	return m.op == "ld" && m.args[0].op == "fa" && p.ownerOf(m.args[0].field) == "worker.AvailableParties"
}

// mayCount: k is the id of this node, or of a known party whose message says yes.
func (p *Program) mayCount(in *Interp, st *State, k *Term, isMine, isKnownList func(*Term) bool, yes *Term) bool {
	if isMine(k) {
		return true
	}
	l := elemOf(idOwner(k))
	if l == nil || !isKnownList(l) {
		return false
	}
	for _, x := range st.equalTo(k) {
		if !readOf(x, "From") {
			continue
		}
		m := x.args[0].args[0]
		resp, ok := st.load(in, m, "AvailabilityResponseMessage")
		if !ok {
			continue
		}
		a, ok := st.load(in, resp, "Answer")
		if ok && st.truth(eqTerm(a, yes)) == 1 {
			return true
		}
	}
	return false
}

// leaderField is the field of a selection round which keeps what ChooseLeader returned.
func (p *Program) leaderField() *types.Var {
	ch := p.fn("worker.ChooseLeader")
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !p.isType(fa.X.Type(), "worker.PreworkSelection") {
					continue
				}
				if c, ok := st.Val.(*ssa.Call); ok {
					for _, cl := range p.Callees(c.Common()) {
						if unwrap(cl) == ch {
							return p.structField(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
						}
					}
				}
			}
		}
	}
	return nil
}

func (in *Interp) fieldNamedVal(st *State, b *Term, name string) *Term {
	if v, ok := st.load(in, b, name); ok {
		return v
	}
	return tSym("no field "+name, "", nil)
}

// othersAndMe: the list is another one with this node added, before or after.
func (in *Interp) othersAndMe(st *State, l *Term, isMine func(*Term) bool) bool {
	if len(l.args) != 2 {
		return false
	}
	only := func(t *Term) bool {
		b := t
		if b.op == "slice" && b.args[1] == tNil && b.args[2] == tNil {
			b = b.args[0]
		}
		v, ok := st.mem[tIndexAddr(b, tInt(0))]
		return ok && arrayLen(b) == 1 && isMine(in.partyID(st, v))
	}
	switch l.op {
	case "append":
		return isMine(in.partyID(st, l.args[1]))
	case "concat":
		return only(l.args[0]) != only(l.args[1])
	}
	return false
}

// arrayLen: the length of the array t points to, or -1.
func arrayLen(t *Term) int64 {
	if t.typ == nil {
		return -1
	}
	pt, ok := t.typ.Underlying().(*types.Pointer)
	if !ok {
		return -1
	}
	at, ok := pt.Elem().Underlying().(*types.Array)
	if !ok {
		return -1
	}
	return at.Len()
}

// checkPartyTable: the table of available parties never shrinks, and a number of parties asked for is never exceeded.
func (p *Program) checkPartyTable(r *Report) {
	typ := p.typ("worker.AvailableParties")
	if typ == nil {
		r.bad("table", "worker.AvailableParties", 0, "type not found")
		return
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				bi, ok := ci.Common().Value.(*ssa.Builtin)
				if !ok || bi.Name() != "delete" {
					continue
				}
				ld, ok := ci.Common().Args[0].(*ssa.UnOp)
				if !ok {
					continue
				}
				if fa, ok := ld.X.(*ssa.FieldAddr); ok && p.isType(fa.X.Type(), "worker.AvailableParties") {
					r.bad("table", fname(f), instrPos(i), "a party is removed from the table")
				}
			}
		}
	}
	r.ok("table", "worker.AvailableParties", 0, "")
	for _, f := range p.methodsOf("worker.AvailableParties") {
		var n, excl *ssa.Parameter
		for _, x := range f.Params[1:] {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				n = x
			}
			if pt, ok := x.Type().(*types.Pointer); ok && strings.HasSuffix(pt.Elem().String(), "tss.PartyID") {
				excl = x
			}
		}
		res := f.Signature.Results()
		if n == nil || excl == nil || res.Len() != 1 {
			continue
		}
		if _, ok := res.At(0).Type().Underlying().(*types.Slice); !ok {
			continue
		}
		in := p.interp()
		c := fname(f)
		nT, exID := in.paramTerm(n), in.partyID
		in.OnInstr = func(*Frame, *State, ssa.Instruction) {}
		grown := func(st *State, v *Term, at token.Pos) {
			for ; v.op == "append"; v = v.args[0] {
				for _, x := range v.args[1:] {
					id := in.partyID(st, x)
					r.check(id != nil && st.known(id, exID(st, in.paramTerm(excl))) == 0, "table", c, at, "the excluded party may be handed out; path: %s", st.path())
					from := x.mentions(func(t *Term) bool { return p.isAvailable(t) }) || strings.Contains(x.key, "next") || strings.Contains(x.key, "range")
					r.check(from, "table", c, at, "a party which is not in the table is handed out (%s); path: %s", x, st.path())
				}
			}
		}
		in.OnBackEdge = func(fr *Frame, st *State, header, from *ssa.BasicBlock) {
			for k, pr := range header.Preds {
				if pr != from {
					continue
				}
				for _, i := range header.Instrs {
					phi, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					if !types.Identical(phi.Type(), res.At(0).Type()) {
						continue
					}
					v := in.val(fr, fr.env, phi.Edges[k])
					if v.op != "append" {
						continue
					}
					grown(st, v, instrPos(phi))
					below := false
					for _, l := range []*Term{v, v.args[0]} {
						_, hi := st.bounds(linSub(toLin(tLen(l)), toLin(nT)))
						below = below || hi < 0 || st.known(tLen(l), nT) == 0
					}
					r.check(len(v.args) == 2 && below, "table", c, instrPos(header.Instrs[len(header.Instrs)-1]), "more parties than asked for are collected; path: %s", st.path())
				}
			}
		}
		for _, o := range in.Run(f, nil, nil) {
			if o.panic {
				continue
			}
			grown(o.st, o.rets[0], retPos(o))
			r.ok("table", c, retPos(o), "")
		}
	}
}
