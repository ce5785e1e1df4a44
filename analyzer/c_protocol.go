package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", false, checkProtocol)
}

// parties: the constructor of the protocol party of a work type, and the field with its key share.
var protocolOf = map[string]struct{ party, input string }{
	"EcKeygen":  {"ecdsa/keygen", ""},
	"EcSigning": {"ecdsa/signing", "EcSigningInput"},
	"EdKeygen":  {"eddsa/keygen", ""},
	"EdSigning": {"eddsa/signing", "EdSigningInput"},
}

func checkProtocol(r *Report) {
	p := r.P
	r.rule("threshold", "the threshold of a work is such that a signature needs at least two thirds of its parties and can be made by all of them, for every number of parties")
	r.rule("needed", "a keygen needs all its parties, a signing as many as its threshold says (threshold plus one)")
	r.rule("parameters", "an execution runs the protocol among the parties selected for it, as this node, with their number and the threshold of its request")
	r.rule("self", "the party a node runs an execution as has its own id and key, and the position that id has among the selected parties")
	r.rule("party", "each job runs the protocol of the type of its work, with the key share (for a keygen the loaded pre-parameters) of its request and the channels the job listens on")
	r.rule("jobs", "an execution makes and starts jobs for every type of work")

	p.checkThresholds(r)
	p.checkNeeded(r)
	p.checkJobs(r)
	p.checkSelf(r)
}

// checkSelf: the identity an execution runs with.
func (p *Program) checkSelf(r *Report) {
	f := p.fn("worker.NewWorkerExecutor")
	pid := paramOf(f, func(t types.Type) bool { return namedAs(derefT(t), tssLib+"tss.PartyID") })
	list := paramOf(f, func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && namedAs(derefT(s.Elem()), tssLib+"tss.PartyID")
	})
	selfF := p.fieldOfType("worker.WorkerExecutor", func(t types.Type) bool { return namedAs(derefT(t), tssLib+"tss.PartyID") })
	c := fname(f)
	if pid == nil || list == nil || selfF == nil {
		r.bad("self", c, f.Pos(), "the execution has no party of its own")
		return
	}
	in := p.interp()
	in.OnCall = func(e *CallEvent) ([]Out, bool) {
		if strings.HasPrefix(e.Name, tssLib) {
			return e.pure(), true
		}
		return nil, false
	}
	own, all := in.paramTerm(pid), in.paramTerm(list)
	from := func(t *Term, base *Term, field string) bool { // t is a field (or method value of that name) of base
		if strings.HasSuffix(t.op, "."+field+"#0") && len(t.args) > 0 {
			return t.args[0] == base || t.args[0].mentions(func(x *Term) bool { return x == base })
		}
		return t.op == "ld" && t.args[0].op == "fa" && t.args[0].field.Name() == field && t.args[0].args[0].mentions(func(x *Term) bool { return x == base })
	}
	isSelf := func(t *Term) bool {
		return t == own || t.op == tssLib+"tss.NewPartyID#0" && from(t.args[0], own, "Id") && from(t.args[2], own, "KeyInt")
	}
	set := 0
	in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) {
		if addr.op != "fa" || addr.field.Name() != "Index" || !isSelf(addr.args[0]) {
			return
		}
		set++
		el := val
		for el.op == "ld" || el.op == "fa" {
			if el.op == "ld" && el.args[0].op == "ia" {
				break
			}
			el = el.args[0]
		}
		ok := el.op == "ld" && el.args[0].args[0] == all && from(val, el, "Index")
		if !ok {
			// the position in the list itself
			r.bad("self", c+" index", instrPos(i), "the position of this node is %s, not that of its party among the selected ones", val)
			return
		}
		same := false
		for t, v := range st.facts {
			if v && t.op == "eq" && (from(t.args[0], own, "Id") && from(t.args[1], el, "Id") || from(t.args[1], own, "Id") && from(t.args[0], el, "Id")) {
				same = true
			}
		}
		for a, b := range st.eq {
			same = same || from(a, own, "Id") && from(b, el, "Id") || from(b, own, "Id") && from(a, el, "Id")
		}
		r.check(same, "self", c+" index", instrPos(i), "the position of this node is taken from a party that is not known to be it (%s)", st.path())
	}
	for _, o := range in.Run(f, nil, nil) {
		if o.panic {
			continue
		}
		self := in.get(o.st, o.rets[0], selfF)
		r.check(isSelf(self) && self != own, "self", c, retPos(o), "the execution runs as %s, not as a copy of this node's party", self)
	}
	r.check(set > 0, "self", c+" index", f.Pos(), "the position of this node among the selected parties is not set")
}

// fieldOfType: the field of a structure whose type satisfies pred.
func (p *Program) fieldOfType(typ string, pred func(types.Type) bool) *types.Var {
	st, ok := p.typ(typ).Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		if pred(st.Field(i).Type()) {
			return st.Field(i)
		}
	}
	return nil
}

// floorForm writes a number as floor((a*n+b)/c) for one other number n.
func floorForm(t *Term) (a, b, c int64, n *Term) {
	l := toLin(t)
	if len(l.co) == 0 {
		return 0, l.k, 1, nil
	}
	if len(l.co) != 1 {
		return 0, 0, 0, nil
	}
	for x, m := range l.co {
		k, ok := int64(0), false
		if x.op == "/" {
			k, ok = x.args[1].intVal()
		}
		if !ok {
			return m, l.k, 1, x
		}
		a, b, c, n = floorForm(x.args[0])
		if m != 1 || k <= 0 || c == 0 || a < 0 || a+b < 0 {
			return 0, 0, 0, nil
		}
		c *= k
		b += l.k * c
	}
	return
}

func (p *Program) checkThresholds(r *Report) {
	reach := p.relevant(func(i ssa.Instruction) bool { return callsIface(i, "core.(Engine).AddRequest") })
	r.floor("threshold", 2)
	for _, m := range []string{"KeyGen", "KeySign", "BlockEnd"} {
		for _, f := range p.impls("server.Api", m) {
			if !reach[f] {
				continue
			}
			x := p.runRequest(f, false)
			r.Counts["paths"] += x.in.Paths
			for _, u := range x.reqs {
				c := fname(f) + " " + p.pos(u.pos)
				n, t := x.get(u, "N"), u.st.resolve(x.get(u, "Threshold"))
				a, b, k, num := floorForm(t)
				if k == 0 {
					r.bad("threshold", c, u.pos, "the threshold of the work is %s, which is not a fraction of one number", t)
					continue
				}
				lo, hi := int64(1), int64(0) // all numbers of parties
				if v, ok := u.st.resolve(n).intVal(); ok {
					lo, hi = v, v
				} else if num != nil && !u.st.sameNum(num, n) && !x.sameCount(u.st, num, x.in.get(u.st, u.req, p.fieldVar("worker/types.WorkRequest", "AllParties"))) && !x.sameKeys(u.st, num, n) {
					r.bad("threshold", c, u.pos, "the threshold of the work is computed from %s, and it has %s parties", num, n)
					continue
				} else if num == nil {
					r.bad("threshold", c, u.pos, "the threshold of the work is %d whatever the number of its parties", b)
					continue
				}
				ok := true
				if hi >= lo {
					v := floorDiv(a*lo+b, k)
					ok = lo >= 1 && v+1 <= lo && 3*(v+1) >= 2*lo
				} else {
					// floor((a*n+b)/k) >= (a*n+b-k+1)/k, so threshold+1 >= 2n/3 if 3*(a*n+b+1) >= 2*n*k;
					// threshold < n if a*n+b < n*k. Both are linear in n, which is at least 1.
					ok = 3*a >= 2*k && 3*(a+b+1) >= 2*k && a <= k && a+b < k
				}
				r.check(ok, "threshold", c, u.pos, "with the threshold floor((%d*n+%d)/%d) less than two thirds of the n parties can sign, or all of them cannot", a, b, k)
			}
		}
	}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && a < 0 {
		q--
	}
	return q
}

// sameKeys: both numbers are that of the keys of the client's request.
func (x *requestRun) sameKeys(st *State, a, b *Term) bool {
	keys := paramOf(x.f, x.in.P.isKeyList)
	if keys == nil {
		return false
	}
	k := x.in.paramTerm(keys)
	return x.sameCount(st, a, k) && x.sameCount(st, b, k)
}

func (p *Program) checkNeeded(r *Report) {
	f := p.fn("worker/types.(WorkRequest).GetMinPartyCount")
	for _, wt := range workTypes {
		in := p.interp()
		p.withWorkType(in, wt)
		req := in.paramTerm(f.Params[0])
		for _, o := range in.Run(f, nil, nil) {
			if o.panic {
				continue
			}
			nF, tF := p.fieldVar("worker/types.WorkRequest", "N"), p.fieldVar("worker/types.WorkRequest", "Threshold")
			want := linSub(toLin(o.rets[0]), toLin(in.get(o.st, req, nF)))
			if !isKeygenType(wt) {
				want = linSub(toLin(o.rets[0]), toLin(in.get(o.st, req, tF)))
				want.k--
			}
			if lo, hi := o.st.bounds(want); isKeygenType(wt) && (lo != 0 || hi != 0) {
				// the number of parties is also that of their list
				want = linSub(toLin(o.rets[0]), toLin(tLen(in.get(o.st, req, p.fieldVar("worker/types.WorkRequest", "AllParties")))))
			}
			lo, hi := o.st.bounds(want)
			r.check(lo == 0 && hi == 0, "needed", fname(f)+" for "+wt, retPos(o), "%s needs %s parties", wt, o.rets[0])
		}
	}
	r.floor("needed", 4)
}

func (p *Program) checkJobs(r *Report) {
	isJobStore := func(i ssa.Instruction) bool {
		st, ok := i.(*ssa.Store)
		return ok && p.isType(st.Val.Type(), "worker.Job")
	}
	partyF := p.fieldVar("worker.Job", "party")
	threshF := p.fieldVar("worker/types.WorkRequest", "Threshold")
	made, started := map[string]bool{}, map[string]bool{}
	for _, root := range []*ssa.Function{p.fn("worker.(WorkerExecutor).Init")} {
		for _, wt := range workTypes {
			in := p.interp()
			p.withWorkType(in, wt)
			in.only(func(i ssa.Instruction) bool {
				return isJobStore(i) || callsName(i, tssLib) || callsName(i, own("worker.(Job).Start")) || callsName(i, own("db.(Database).LoadPreparams"))
			})
			c := fname(root) + " for " + wt
			want := protocolOf[wt]
			jobs, starts := 0, 0
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				switch {
				case e.Name == own("worker.(Job).Start"):
					starts++
					return e.unknown(), true
				case e.Name == own("db.(Database).LoadPreparams"):
					t := tAppNN("loadedpreparams")
					t.typ = e.Com.Signature().Results().At(0).Type()
					return e.split(t, "failed"), true
				case strings.HasPrefix(e.Name, own("worker.NewWorkerExecutor")), strings.HasPrefix(e.Name, own("worker/components.")), strings.HasPrefix(e.Name, own("worker/interfaces.")):
					return e.inert(), true
				case strings.HasPrefix(e.Name, tssLib) && strings.HasSuffix(e.Name, ".NewLocalParty"):
					// with the elements of a variadic argument
					for k, a := range e.Args {
						base := a
						for base.op == "slice" {
							base = base.args[0]
						}
						var els []*Term
						for addr, v := range e.St.mem {
							for addr.op == "fa" {
								addr = addr.args[0]
							}
							if addr.op == "ia" && addr.args[0] == base && base.op == "alloc" {
								els = append(els, v)
							}
						}
						sort.Slice(els, func(i, j int) bool { return els[i].key < els[j].key })
						if len(els) > 0 {
							e.Args[k] = tApp("variadic", els...)
						}
					}
					return e.pure(), true
				case e.Obj != nil && (e.Obj.Pkg() == nil || !strings.HasPrefix(e.Obj.Pkg().Path(), modPath)) && !strings.HasPrefix(e.Name, "builtin.") && !strings.HasPrefix(e.Name, "sync.") && !strings.Contains(e.Name, "atomic") && !strings.Contains(e.Name, "/log."):
					return e.pure(), true
				}
				return nil, false
			}
			in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) {
				if addr.op != "ia" || val.typ == nil || !p.isType(val.typ, "worker.Job") || val == tNil {
					return
				}
				jobs++
				pos := instrPos(i)
				party := unIface(in.get(st, val, partyF))
				if !strings.HasPrefix(party.op, tssLib) || !strings.HasSuffix(party.op, ".NewLocalParty#0") {
					r.bad("party", c, pos, "the party of the job is %s", party)
					return
				}
				r.check(strings.HasPrefix(party.op, tssLib+want.party+"."), "party", c+" protocol", pos, "a job of a %s runs %s", wt, party.op)
				var params, share *Term
				for _, a := range party.args {
					switch {
					case a.op == tssLib+"tss.NewParameters#0":
						params = a
					case a.mentions(func(x *Term) bool {
						return x.op == "fa" && (strings.HasSuffix(x.field.Name(), "Input") || strings.HasSuffix(x.field.Name(), "Preparams"))
					}) || a.mentions(func(x *Term) bool { return x.op == "loadedpreparams" }):
						share = a
					}
				}
				if params == nil {
					r.bad("parameters", c, pos, "the protocol is not given the parameters of the execution (%s)", party)
					return
				}
				ctx, self, count, thr := params.args[0], params.args[1], params.args[2], params.args[3]
				r.check(isLoadOf(thr, threshF), "parameters", c+" threshold", pos, "the protocol runs with the threshold %s, not that of the work", thr)
				r.check(ctx.op == tssLib+"tss.NewPeerContext#0" && st.known(tLen(ctx.args[0]), count) == 1, "parameters", c+" parties", pos, "the protocol runs among %s as %s parties", ctx, count)
				r.check(namedAs(derefT(self.typ), tssLib+"tss.PartyID") && self.op == "ld", "parameters", c+" self", pos, "the protocol runs as %s", self)
				if want.input == "" {
					if wt == "EcKeygen" {
						r.check(share != nil, "party", c+" share", pos, "the keygen does not use pre-parameters (%s)", party)
					}
				} else {
					ok := share != nil && share.mentions(func(x *Term) bool {
						return x.op == "fa" && x.field == p.fieldVar("worker/types.WorkRequest", want.input)
					})
					r.check(ok, "party", c+" share", pos, "a %s does not use the key share of its request (%s)", wt, party)
				}
			}
			in.Run(root, nil, nil)
			r.Counts["paths"] += in.Paths
			made[wt], started[wt] = made[wt] || jobs > 0, started[wt] || starts > 0 && jobs > 0
		}
	}
	for _, wt := range workTypes {
		r.check(made[wt] && started[wt], "jobs", wt, token.NoPos, "no job is made for this type of work, or none is started")
	}
}
