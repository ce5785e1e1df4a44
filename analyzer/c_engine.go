package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", false, checkWorkerTable)
	register("C07", false, checkEngineOutcome)
	register("C08", false, checkHeartResults)
}

func engineRoots(p *Program) []*ssa.Function {
	var roots []*ssa.Function
	for _, ifc := range []string{"core.Engine", "worker.WorkerCallback"} {
		for _, m := range p.ifaceMethods(ifc) {
			for _, f := range p.impls(ifc, m) {
				if strings.HasPrefix(fnPkgPath(f), modPath+"/core") {
					roots = append(roots, f)
				}
			}
		}
	}
	return roots
}

// workState: the instruction concerns running works: the worker table, the queue, starting a worker or telling the callback.
func workState(p *Program, i ssa.Instruction) bool {
	return callsIface(i, "core.(EngineCallback).", "worker.(Worker).Start") || touches(i, func(t types.Type) bool {
		return p.mapOf(t, "worker.Worker") || p.sliceOf(t, "worker/types.WorkRequest")
	})
}

func isStore(i ssa.Instruction) bool {
	_, ok := i.(*ssa.Store)
	return ok
}

func checkWorkerTable(r *Report) {
	p := r.P
	r.rule("worker-limit", "a worker is only added to the table of running workers after the same critical section established that fewer than MaxWorker are running")
	r.rule("worker-unique", "a worker is only added under an id for which the same critical section established that no worker is running, and the id is the one of the request the worker executes")
	r.rule("worker-lock", "the table is changed with its lock held exclusively")
	r.rule("started", "a worker that is added is started in the same call")
	limit := p.constInt("core.MaxWorker")
	visited := map[ssa.Instruction]bool{}
	idF := p.fieldVar("worker/types.WorkRequest", "WorkId")
	for _, root := range engineRoots(p) {
		in := p.interp()
		in.only(func(i ssa.Instruction) bool {
			return workState(p, i) || touches(i, func(t types.Type) bool { return p.isType(t, "worker.DefaultWorker") }) && isStore(i)
		})
		in.InlineGo = true
		in.OnMapUpdate = func(fr *Frame, st *State, i *ssa.MapUpdate, m, k, v *Term) {
			if !p.mapOf(i.Map.Type(), "worker.Worker") {
				return
			}
			if m.root().op == "alloc" { // the table is being constructed
				return
			}
			visited[i] = true
			c := fname(fr.fn) + " from " + fname(root)
			_, hi := st.bounds(toLin(tLen(m)))
			r.check(hi < limit, "worker-limit", c, i.Pos(), "a worker is added although %d or more could be running; path: %s", limit, st.path())
			absent := st.known(in.lookup(st, m, k), tNil) == 1 || st.holds(tApp("haskey", m, k), false)
			fromReq := k.op == "ld" && k.args[0].op == "fa" && k.args[0].field == idF
			if !absent {
				r.bad("worker-unique", c, i.Pos(), "a running worker with the same id could be replaced; path: %s", st.path())
			} else if !fromReq {
				r.bad("worker-unique", c, i.Pos(), "the worker is not registered under the id of its request (%s)", k)
			} else {
				r.ok("worker-unique", c, i.Pos(), "")
			}
			r.check(in.heldWrite(st), "worker-lock", c, i.Pos(), "no lock held exclusively; path: %s", st.path())
			st.auto["added"] = "1"
			if v.op == "iface" || v.op == "alloc" {
				reqF := p.fieldVar("worker.DefaultWorker", "request")
				if q := in.get(st, v, reqF); fromReq && q != k.args[0].args[0] {
					r.bad("worker-unique", c, i.Pos(), "the worker executes another request than the one it is registered for")
				}
			}
		}
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if e.Name == own("worker.(Worker).Start") {
				delete(e.St.auto, "added")
				return e.unknown(), true
			}
			if strings.HasPrefix(e.Name, own("worker.(Worker).")) || strings.HasPrefix(e.Name, own("core.(EngineCallback).")) {
				return e.unknown(), true
			}
			return nil, false
		}
		for _, o := range in.Run(root, nil, nil) {
			if o.panic {
				continue
			}
			r.check(o.st.auto["added"] == "", "started", fname(root), retPos(o), "a worker was added but not started; path: %s", o.st.path())
		}
		r.Counts["paths"] += in.Paths
	}
	for _, m := range p.mapUpdates("worker.Worker") {
		if !visited[m] && m.Parent().Name() != "init" {
			r.bad("worker-limit", fname(m.Parent()), m.Pos(), "this change of the worker table is not reached from the engine's entry points and could not be decided")
		}
	}
	r.floor("worker-limit", 1)
	r.floor("worker-unique", 1)
	r.floor("started", 4)
}

func (in *Interp) lookup(st *State, m, k *Term) *Term {
	la := tApp("lookup", m, k)
	if v, ok := st.mem[la]; ok {
		return v
	}
	return la
}

// verifies: the call verifies something with a function of another module.
func (p *Program) verifies(c *ssa.CallCommon) bool {
	n := calleeName(c)
	rs := c.Signature().Results()
	return !p.inModule(n) && strings.HasPrefix(n[strings.LastIndex(n, ".")+1:], "Verify") && rs.Len() == 1 && isBoolT(rs.At(0).Type())
}

func checkEngineOutcome(r *Report) {
	p := r.P
	r.rule("one-outcome", "a work that fails, ends or runs without this node is reported to the engine callback exactly once, with the call, outcome and request that belong to it, for all four work types")
	r.rule("slot-freed", "the worker of the ended work is removed from the table, under its own id")
	r.rule("next-started", "after the slot is freed the next queued work is started unless the queue is empty or the limit is reached")
	idF := p.fieldVar("worker/types.WorkRequest", "WorkId")
	type want struct{ method, call, outcome string }
	for _, root := range []string{"OnNodeNotSelected", "OnWorkFailed", "OnWorkerResult"} {
		for _, fn := range p.impls("worker.WorkerCallback", root) {
			for _, wt := range workTypes {
				in := p.interp()
				in.InlineGo = true
				p.withWorkType(in, wt)
				in.only(func(i ssa.Instruction) bool {
					c, ok := i.(ssa.CallInstruction)
					return workState(p, i) || ok && p.verifies(c.Common())
				})
				in.FieldVal = nil
				p.withWorkType(in, wt)
				// a queued request is never nil: AddRequest validates it before it is queued
				in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
					if ia, ok := i.(*ssa.IndexAddr); ok && p.sliceOf(ia.X.Type(), "worker/types.WorkRequest") {
						st.assumeNeq(in.load(fr, st, tIndexAddr(in.val(fr, fr.env, ia.X), in.val(fr, fr.env, ia.Index)), ia.Type().Underlying().(*types.Pointer).Elem(), nil), tNil)
					}
				}
				req := tSymNN(fn.Params[1].Name(), "", fn.Params[1].Type())
				id := tLoad(tFieldAddr(req, idF), "", idF.Type())
				var w want
				switch {
				case root == "OnWorkFailed":
					w = want{root, "OnWorkFailed", ""}
				case root == "OnNodeNotSelected" && isKeygenType(wt):
					w = want{root, "", ""}
				case root == "OnNodeNotSelected":
					w = want{root, "OnWorkSigningFinished", "types.OutcometNotSelected"}
				case isKeygenType(wt):
					w = want{root, "OnWorkKeygenFinished", "types.OutcomeSuccess"}
				default:
					w = want{root, "OnWorkSigningFinished", "types.OutcomeSuccess"}
				}
				c := fname(fn) + " for " + wt
				in.OnCall = func(e *CallEvent) ([]Out, bool) {
					switch {
					case strings.HasPrefix(e.Name, own("core.(EngineCallback).")):
						m := e.Obj.Name()
						e.St.add("outcomes")
						unfit := m == "OnWorkFailed" && e.St.auto["invalid"] != ""
						if m != w.call && w.call != "" && !unfit {
							r.bad("one-outcome", c, e.pos(), "reported with %s instead of %s; path: %s", m, w.call, e.St.path())
						}
						var res *Term
						switch m {
						case "OnWorkKeygenFinished":
							res = e.Args[0]
							f := p.fieldVar("types.KeygenResult", "KeyType")
							want := tLoad(tFieldAddr(req, p.fieldVar("worker/types.WorkRequest", "KeygenType")), "", f.Type())
							if got := in.get(e.St, res, f); got != want {
								r.bad("one-outcome", c, e.pos(), "the key type of the result is not the one of the request (%s)", got)
							}
						default:
							if e.Args[0] != req {
								r.bad("one-outcome", c, e.pos(), "reported for another request (%s)", e.Args[0])
							}
							if m == "OnWorkSigningFinished" {
								res = e.Args[1]
							}
						}
						if res != nil && w.outcome != "" {
							typ := "types.KeygenResult"
							if m == "OnWorkSigningFinished" {
								typ = "types.KeysignResult"
							}
							got := in.get(e.St, res, p.fieldVar(typ, "Outcome"))
							n, ok := got.intVal()
							if !ok || n != p.constInt(w.outcome) {
								r.bad("one-outcome", c, e.pos(), "the reported outcome is %s instead of %s", got, w.outcome)
							}
						}
						return e.unknown(), true
					case p.verifies(e.Com):
						// a result that turns out to be invalid is a failure
						bad := e.St.clone()
						bad.auto["invalid"] = "1"
						return []Out{{st: e.St, rets: []*Term{tTrue}}, {st: bad, rets: []*Term{tFalse}}}, true
					case e.Name == "builtin.delete" && p.mapOf(e.Com.Args[0].Type(), "worker.Worker"):
						if e.Args[1] == id {
							e.St.add("freed")
						} else {
							r.bad("slot-freed", c, e.pos(), "the worker with id %s is removed instead of the ended one", e.Args[1])
						}
						delete(e.St.auto, "next")
					case e.Name == own("worker.(Worker).Start"):
						e.St.auto["next"] = "1"
						return e.unknown(), true
					}
					return nil, false
				}
				args := []*Term{in.paramTerm(fn.Params[0]), req}
				if len(fn.Params) > 2 {
					args = append(args, tSymNN(fn.Params[2].Name(), "", fn.Params[2].Type()))
				}
				n := 0
				for _, o := range in.Run(fn, nil, args) {
					if o.panic {
						continue
					}
					n++
					noWorker := false
					for t, v := range o.st.eq {
						if v == tNil && t.op == "lookup" && t.args[1] == id && p.isType(t.typ, "worker.Worker") {
							noWorker = true
						}
					}
					k := o.st.num("outcomes")
					freed := o.st.num("freed") > 0
					switch {
					case noWorker && k == 0 && !freed:
						r.ok("one-outcome", c, retPos(o), "the work is not running")
						continue
					case k == 1 && w.call != "", w.call == "" && k <= 1:
						r.ok("one-outcome", c, retPos(o), "")
					default:
						r.bad("one-outcome", c, retPos(o), "%d outcomes reported on one path; path: %s", k, o.st.path())
					}
					r.check(freed, "slot-freed", c, retPos(o), "the worker stays in the table on this path: %s", o.st.path())
					if freed {
						r.check(o.st.auto["next"] != "" || nothingToStart(p, o.st), "next-started", c, retPos(o), "no queued work is started after the slot is freed; path: %s", o.st.path())
					}
				}
				if n == 0 {
					r.bad("one-outcome", c, fn.Pos(), "no path completes")
				}
				r.Counts["paths"] += in.Paths
			}
		}
	}
	r.floor("one-outcome", 4)
	r.floor("slot-freed", 4)
	r.floor("next-started", 4)
}

// nothingToStart: the path established that the queue is empty or that the worker limit is reached.
func nothingToStart(p *Program, st *State) bool {
	limit := p.constInt("core.MaxWorker")
	for t := range st.iv {
		if t.op == "len" && p.mapOf(t.args[0].typ, "worker.Worker") {
			if lo, _ := st.bounds(toLin(t)); lo >= limit {
				return true
			}
		}
		if t.op == "len" && p.sliceOf(t.args[0].typ, "worker/types.WorkRequest") {
			if _, hi := st.bounds(toLin(t)); hi <= 0 {
				return true
			}
		}
	}
	for t, v := range st.eq {
		if t.op != "len" {
			continue
		}
		n, ok := v.intVal()
		if ok && p.mapOf(t.args[0].typ, "worker.Worker") && n >= limit {
			return true
		}
		if ok && p.sliceOf(t.args[0].typ, "worker/types.WorkRequest") && n <= 0 {
			return true
		}
	}
	return false
}

func checkHeartResults(r *Report) {
	p := r.P
	r.rule("posted-once", "every outcome the engine reports is posted to the client exactly once, with the method and outcome that belong to it")
	r.rule("original-request", "a posted signing result carries the pending request of its own work, which is taken out of the pending list, in one critical section")
	r.rule("pending-first", "a signing request is pending before its work is handed to the engine, and a failed hand-over removes it again and returns the error")
	reqF := p.fieldVar("types.KeysignResult", "Request")
	idF := p.fieldVar("worker/types.WorkRequest", "WorkId")
	heartState := func(i ssa.Instruction) bool {
		return callsIface(i, "client.(Client).Post", "core.(Engine).AddRequest") || touches(i, func(t types.Type) bool { return p.mapOf(t, "types.KeysignRequest") })
	}
	leadsToAdd := p.relevant(func(i ssa.Instruction) bool { return callsIface(i, "core.(Engine).AddRequest") })
	isPend := func(t *Term) bool {
		return t.op == "lookup" && t.args[0].typ != nil && p.mapOf(t.args[0].typ, "types.KeysignRequest")
	}
	for _, m := range []string{"OnWorkKeygenFinished", "OnWorkSigningFinished", "OnWorkFailed"} {
		for _, fn := range p.impls("core.EngineCallback", m) {
			for _, wt := range workTypes {
				if m == "OnWorkKeygenFinished" && !isKeygenType(wt) || m == "OnWorkSigningFinished" && isKeygenType(wt) {
					continue
				}
				in := p.interp()
				in.only(heartState)
				in.InlineGo = true
				p.withWorkType(in, wt)
				c := fname(fn) + " for " + wt
				wantCall := "PostKeysignResult"
				if isKeygenType(wt) {
					wantCall = "PostKeygenResult"
				}
				var args []*Term
				for _, q := range fn.Params {
					args = append(args, tSymNN(q.Name(), "", q.Type()))
				}
				in.OnCall = func(e *CallEvent) ([]Out, bool) {
					if e.Name == "builtin.delete" && p.mapOf(e.Com.Args[0].Type(), "types.KeysignRequest") {
						k := e.Args[1]
						if !(k.op == "ld" && k.args[0].op == "fa" && k.args[0].field == idF && k.args[0].args[0] == args[1]) {
							r.bad("original-request", c, e.pos(), "another work's request (%s) is removed from the pending list", k)
						}
						e.St.auto["taken"] = e.Args[0].key
						return nil, false
					}
					if !strings.HasPrefix(e.Name, own("client.(Client).Post")) {
						return nil, false
					}
					e.St.add("posts")
					if e.Obj.Name() != wantCall {
						r.bad("posted-once", c, e.pos(), "posted with %s instead of %s", e.Obj.Name(), wantCall)
						return e.unknown(), true
					}
					res := e.Args[0]
					if m != "OnWorkFailed" {
						if res != args[len(args)-1] {
							r.bad("posted-once", c, e.pos(), "another result than the engine's is posted")
						}
						of := "types.KeysignResult"
						if isKeygenType(wt) {
							of = "types.KeygenResult"
						}
						f := p.fieldVar(of, "Outcome")
						if got := in.get(e.St, res, f); got != tLoad(tFieldAddr(res, f), "", f.Type()) {
							r.bad("posted-once", c, e.pos(), "the engine's outcome is changed to %s", got)
						}
					} else {
						of := "types.KeysignResult"
						if isKeygenType(wt) {
							of = "types.KeygenResult"
							if got := in.get(e.St, res, p.fieldVar(of, "KeyType")); got.op != "ld" || got.args[0].field != p.fieldVar("worker/types.WorkRequest", "KeygenType") {
								r.bad("posted-once", c, e.pos(), "the key type of the failed request is missing")
							}
						}
						got := in.get(e.St, res, p.fieldVar(of, "Outcome"))
						if n, ok := got.intVal(); !ok || n != p.constInt("types.OutcomeFailure") {
							r.bad("posted-once", c, e.pos(), "a failed work is posted with outcome %s", got)
						}
					}
					if !isKeygenType(wt) {
						v := in.get(e.St, res, reqF)
						k := (*Term)(nil)
						if isPend(v) {
							k = v.args[1]
						}
						switch {
						case k == nil:
							r.bad("original-request", c, e.pos(), "the posted result carries %s instead of the pending request", v)
						case !(k.op == "ld" && k.args[0].op == "fa" && k.args[0].field == idF && k.args[0].args[0] == args[1]):
							r.bad("original-request", c, e.pos(), "the posted result carries the request of another work (%s)", k)
						case e.St.auto["taken"] != v.args[0].key:
							r.bad("original-request", c, e.pos(), "the pending request is not removed in the critical section that read it")
						default:
							r.ok("original-request", c, e.pos(), "")
						}
					}
					return e.unknown(), true
				}
				n := 0
				for _, o := range in.Run(fn, nil, args) {
					if o.panic {
						continue
					}
					n++
					k := o.st.num("posts")
					r.check(k == 1, "posted-once", c, retPos(o), "%d results posted on one path; path: %s", k, o.st.path())
				}
				if n == 0 {
					r.bad("posted-once", c, fn.Pos(), "no path completes")
				}
				r.Counts["paths"] += in.Paths
			}
		}
	}
	// the pending list when a signing work is added
	n := 0
	for _, fn := range p.methodsOf("core.Heart") {
		var reqP *ssa.Parameter
		for _, q := range fn.Params {
			if p.isType(q.Type(), "types.KeysignRequest") {
				reqP = q
			}
		}
		if reqP == nil || !strings.Contains(fn.Signature.Results().String(), "error") {
			continue
		}
		if !leadsToAdd[fn] {
			continue
		}
		in := p.interp()
		in.only(heartState)
		in.InlineGo = true
		c := fname(fn)
		req := in.paramTerm(reqP)
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if e.Name == "builtin.delete" && p.mapOf(e.Com.Args[0].Type(), "types.KeysignRequest") {
				e.St.auto["removed"] = e.Args[1].key
				return nil, false
			}
			if e.Name != own("core.(Engine).AddRequest") {
				return nil, false
			}
			n++
			id := in.get(e.St, e.Args[0], idF)
			found := false
			for a, v := range e.St.mem {
				if isPend(a) && v == req && a.args[1] == id {
					found = true
				}
			}
			r.check(found, "pending-first", c, e.pos(), "the work %s is handed to the engine before its request is pending; path: %s", id, e.St.path())
			e.St.auto["added"] = "ok"
			e.St.auto["id"] = id.key
			outs := e.unknown()
			err := outs[0].rets[len(outs[0].rets)-1]
			bad := outs[0]
			bad.st = bad.st.clone()
			bad.st.auto["added"] = "failed"
			bad.st.assumeNeq(err, tNil)
			outs[0].st.assume(eqTerm(err, tNil), true)
			return append(outs, bad), true
		}
		for _, o := range in.Run(fn, nil, nil) {
			if o.panic || o.st.auto["added"] == "" {
				continue
			}
			err := o.rets[len(o.rets)-1]
			if o.st.auto["added"] == "ok" {
				r.check(o.st.auto["removed"] == "", "pending-first", c, retPos(o), "the request of a work the engine accepted is removed; path: %s", o.st.path())
				continue
			}
			r.check(o.st.isNonNil(err), "pending-first", c, retPos(o), "the engine's error is not returned to the caller; path: %s", o.st.path())
			prior := false // the entry belongs to an earlier request for the same work
			for t, v := range o.st.facts {
				if v && t.op == "haskey" && t.args[1].key == o.st.auto["id"] {
					prior = true
				}
			}
			for t, v := range o.st.neq {
				if isPend(t) && v[tNil] && t.args[1].key == o.st.auto["id"] {
					prior = true
				}
			}
			r.check(prior || o.st.auto["removed"] == o.st.auto["id"], "pending-first", c, retPos(o), "a request the engine rejected stays pending; path: %s", o.st.path())
		}
		r.Counts["paths"] += in.Paths
	}
	r.floor("posted-once", 4)
	r.floor("original-request", 1)
	r.floor("pending-first", 1)
}
