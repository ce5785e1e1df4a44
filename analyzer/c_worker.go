package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", false, checkSelectionOutcome)
}

// dynCall: the call goes through a function value whose parameters are of the named types.
func (p *Program) dynCall(c *ssa.CallCommon, names ...string) bool {
	if c.IsInvoke() || c.StaticCallee() != nil {
		return false
	}
	return p.funcTaking(c.Value.Type(), names...)
}

// entries returns the functions of set that are called from outside set (or not at all), or started from set's methods of another type.
func (p *Program) entriesOf(set map[*ssa.Function]bool, typ string) []*ssa.Function {
	var r []*ssa.Function
	g := p.Graph()
	for _, f := range p.methodsOf(typ) {
		if !set[f] {
			continue
		}
		inner := false
		for _, e := range g.In[f] {
			if recvNamed(topFn(e.Caller)) == recvNamed(f) {
				inner = true
			} else {
				inner = false
				break
			}
		}
		if !inner {
			r = append(r, f)
		}
	}
	return r
}

func topFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func recvNamed(f *ssa.Function) *types.TypeName {
	o, ok := f.Object().(*types.Func)
	if !ok {
		return nil
	}
	rv := o.Type().(*types.Signature).Recv()
	if rv == nil {
		return nil
	}
	t := rv.Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj()
	}
	return nil
}

// ownPidID: the id of a party kept in a field of the receiver.
func ownPidID(t *Term) bool {
	if t.op != "ld" || t.args[0].op != "fa" || t.args[0].field.Name() != "Id" {
		return false
	}
	b := t.args[0].args[0]
	if b.op == "ld" && b.args[0].op == "fa" && b.args[0].field.Anonymous() {
		b = b.args[0].args[0]
	}
	return b.op == "ld" && b.args[0].op == "fa" && b.args[0].args[0].op == "sym" && !strings.Contains(b.args[0].args[0].key, "next#")
}

func (p *Program) reportsSelection(i ssa.Instruction) bool {
	c, ok := i.(ssa.CallInstruction)
	return ok && p.dynCall(c.Common(), "worker.SelectionResult")
}

// selectionHandlers are the functions that get the result of a selection round.
func (p *Program) selectionHandlers() []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if !p.reportsSelection(i) {
					continue
				}
				for _, h := range p.Callees(i.(ssa.CallInstruction).Common()) {
					if h = unwrap(h); !seen[h] {
						seen[h] = true
						r = append(r, h)
					}
				}
			}
		}
	}
	return r
}

func checkSelectionOutcome(r *Report) {
	p := r.P
	r.rule("one-selection-result", "every completed selection round reports exactly one result, for all four work types, as leader and as member")
	r.rule("announced", "the leader announces the result it uses itself, exactly once: success, participants and presigns are the same")
	r.rule("result-handled", "every selection result leads to exactly one of: the failure callback (failure), the not-selected callback (excluded), one executor initialised and run (selected)")
	isResult := p.reportsSelection
	set := p.relevant(isResult)
	succF := p.fieldVar("worker.SelectionResult", "Success")
	exclF := p.fieldVar("worker.SelectionResult", "IsNodeExcluded")
	pidsF := p.fieldVar("worker.SelectionResult", "SelectedPids")
	preF := p.fieldVar("worker.SelectionResult", "PresignIds")
	roots := p.entriesOf(set, "worker.PreworkSelection")
	if len(roots) != 1 {
		r.bad("one-selection-result", "roots", 0, "expected one way to run a selection round, found %d", len(roots))
	}
	for _, root := range roots {
		leaders, members := 0, 0
		for _, wt := range workTypes {
			in := p.interp()
			p.withWorkType(in, wt)
			in.InlineGo = true
			in.only(func(i ssa.Instruction) bool {
				return isResult(i) || callsIface(i, "types/common.NewPreExecOutputMessage")
			})
			c := fname(root) + " for " + wt
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				switch {
				case p.dynCall(e.Com, "worker.SelectionResult"):
					e.St.add("results")
					v := e.Args[0]
					e.St.auto["success"] = in.fieldVal(v, succF).key
					e.St.auto["pids"] = in.fieldVal(v, pidsF).key
					e.St.auto["presigns"] = in.fieldVal(v, preF).key
					return e.unknown(), true
				case e.Name == own("types/common.NewPreExecOutputMessage"):
					e.St.auto["out"] = e.Args[3].key + "|" + e.Args[4].key + "|" + e.Args[5].key
					outs := e.unknown()
					e.St.auto["msg"] = outs[0].rets[0].key
					return outs, true
				case strings.HasPrefix(e.Name, own("worker/interfaces.(MessageDispatcher).Broadcast")):
					if e.Args[1].key == e.St.auto["msg"] {
						e.St.add("announced")
					}
					return e.unknown(), true
				}
				return nil, false
			}
			n := 0
			for _, o := range in.Run(root, nil, nil) {
				if o.panic {
					continue
				}
				n++
				k := o.st.num("results")
				r.check(k == 1, "one-selection-result", c, retPos(o), "%d results on one path; path: %s", k, o.st.path())
				leader := false
				for t, v := range o.st.facts {
					if v && t.op == "eq" && ownPidID(t.args[0]) && ownPidID(t.args[1]) {
						leader = true
					}
				}
				if leader {
					leaders++
					want := o.st.auto["success"] + "|" + o.st.auto["presigns"] + "|" + o.st.auto["pids"]
					got := o.st.auto["out"]
					if strings.HasPrefix(want, "false") || o.st.auto["success"] == tBool(false).key {
						want, got = o.st.auto["success"], strings.SplitN(got, "|", 2)[0]
					}
					r.check(o.st.num("announced") == 1 && got == want, "announced", c, retPos(o), "announced %d times, %s instead of %s; path: %s", o.st.num("announced"), got, want, o.st.path())
				} else {
					members++
					r.check(o.st.num("announced") == 0, "announced", c, retPos(o), "a member announces a selection; path: %s", o.st.path())
				}
			}
			r.Counts["paths"] += in.Paths
			if n == 0 {
				r.bad("one-selection-result", c, root.Pos(), "no path completes")
			}
		}
		if leaders == 0 || members == 0 {
			r.bad("one-selection-result", fname(root), root.Pos(), "leader and member paths are not both found (%d, %d)", leaders, members)
		}
	}
	// what the worker does with the result
	reqF := p.fieldVar("worker.DefaultWorker", "request")
	for _, h := range p.selectionHandlers() {
		for _, wt := range workTypes {
			for _, kind := range []string{"failure", "excluded", "selected"} {
				in := p.interp()
				p.withWorkType(in, wt)
				in.InlineGo = true
				in.only(func(i ssa.Instruction) bool {
					return callsIface(i, "worker.(WorkerCallback).On", "worker.(WorkerExecutor).Init", "worker.(WorkerExecutor).Run")
				})
				noExec := in.NoInline
				in.NoInline = func(f *ssa.Function) bool {
					return noExec(f) || recvNamed(f) != nil && recvNamed(f).Name() == "WorkerExecutor"
				}
				c := fname(h) + " for " + wt + ", " + kind
				recv := in.paramTerm(h.Params[0])
				req := tLoad(tFieldAddr(recv, reqF), "", reqF.Type())
				res := in.paramTerm(h.Params[len(h.Params)-1])
				st := newState()
				st.assume(in.fieldVal(res, succF), kind != "failure")
				if kind != "failure" {
					st.assume(in.fieldVal(res, exclF), kind == "excluded")
				}
				in.OnCall = func(e *CallEvent) ([]Out, bool) {
					switch {
					case strings.HasPrefix(e.Name, own("worker.(WorkerCallback).On")):
						e.St.add(e.Obj.Name())
						e.St.add("callbacks")
						if e.Args[0] != req {
							r.bad("result-handled", c, e.pos(), "reported for another request (%s)", e.Args[0])
						}
						return e.unknown(), true
					case e.Name == own("worker.NewWorkerExecutor"):
						if pids := in.fieldVal(res, pidsF); !e.Args[3].contains(pids) {
							r.bad("result-handled", c, e.pos(), "the executor runs with %s instead of the selected parties", e.Args[3])
						}
						if e.Args[0] != req {
							r.bad("result-handled", c, e.pos(), "the executor runs another request (%s)", e.Args[0])
						}
						outs := e.unknown()
						e.St.assumeNeq(outs[0].rets[0], tNil)
						return outs, true
					case e.Name == own("worker.(WorkerExecutor).Init"):
						e.St.add("init")
						e.St.auto["exec"] = e.Recv.key
						outs := e.unknown()
						bad := outs[0]
						bad.st = bad.st.clone()
						bad.st.auto["initerr"] = "1"
						bad.st.assumeNeq(outs[0].rets[0], tNil)
						outs[0].st.assume(eqTerm(outs[0].rets[0], tNil), true)
						return append(outs, bad), true
					case e.Name == own("worker.(WorkerExecutor).Run"):
						if e.Recv.key == e.St.auto["exec"] {
							e.St.add("run")
						}
						return e.unknown(), true
					}
					return nil, false
				}
				n := 0
				for _, o := range in.Run(h, st, nil) {
					if o.panic {
						continue
					}
					n++
					cb, init, run := o.st.num("callbacks"), o.st.num("init"), o.st.num("run")
					ok := false
					switch kind {
					case "failure":
						ok = cb == 1 && o.st.num("OnWorkFailed") == 1 && init+run == 0
					case "excluded":
						ok = cb == 1 && o.st.num("OnNodeNotSelected") == 1 && init+run == 0
					case "selected":
						ok = cb == 0 && init == 1 && (run == 1 && o.st.auto["initerr"] == "" || run <= 1 && o.st.auto["initerr"] != "")
					}
					r.check(ok, "result-handled", c, retPos(o), "%d callbacks, %d executors initialised, %d run; path: %s", cb, init, run, o.st.path())
				}
				if n == 0 {
					r.bad("result-handled", c, h.Pos(), "no path completes")
				}
				r.Counts["paths"] += in.Paths
			}
		}
	}
	r.floor("one-selection-result", 2)
	r.floor("announced", 2)
	r.floor("result-handled", 6)
}
