package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", false, checkExecutorOutcome)
}

// stopFlag follows the test-and-set of a boolean flag of the object t points to, whatever way it is written:
// an atomic CAS or Swap, or a read that returned false and a write of true in one critical section.
type stopFlag struct {
	p   *Program
	in  *Interp
	typ string
	won func(st *State)
}

func (s *stopFlag) isFlag(recv *Term) bool {
	x := recv
	if x.op == "ld" {
		x = x.args[0]
	}
	return x.op == "fa" && s.p.ownerOf(x.field) == s.typ
}

// fieldOwner names the struct type of the module that declares a field.
func (p *Program) ownerOf(f *types.Var) string {
	if p.owners == nil {
		p.owners = map[*types.Var]string{}
		for path, pk := range p.Pkgs {
			if !strings.HasPrefix(path, modPath) {
				continue
			}
			sc := pk.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				st, ok := tn.Type().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					p.owners[st.Field(i)] = strings.TrimPrefix(path, modPath+"/") + "." + n
				}
			}
		}
	}
	return p.owners[f]
}

func (s *stopFlag) call(e *CallEvent) ([]Out, bool) {
	st := e.St
	switch {
	case strings.HasPrefix(e.Name, "sync.(") && strings.HasSuffix(e.Name, "nlock"):
		for k := range st.auto {
			if strings.HasPrefix(k, "tested:") {
				delete(st.auto, k)
			}
		}
		return nil, false
	case strings.Contains(e.Name, "atomic.(Bool).") && s.isFlag(e.Recv):
		cell := tApp("atomicval", e.Recv)
		switch e.Obj.Name() {
		case "Load":
			if s.in.heldWrite(st) {
				st.auto["tested:"+cell.key] = "1"
			}
		case "Store":
			if v, ok := e.Args[0].boolVal(); ok && v {
				st.auto["flag"] = "set"
				if st.auto["tested:"+cell.key] != "" && s.known(st, cell) == 0 {
					s.won(st)
				}
			}
		case "Swap", "CAS", "CompareAndSwap":
			outs, ok := s.in.model(e)
			if !ok {
				return nil, false
			}
			var res []Out
			for _, o := range outs {
				if e.Obj.Name() == "Swap" {
					t, f := o, o
					f.st = o.st.clone()
					// the old value decides
					if f.st.assume(o.rets[0], false) {
						f.rets = []*Term{tFalse}
						f.st.auto["flag"] = "set"
						s.won(f.st)
						res = append(res, f)
					}
					if t.st.assume(o.rets[0], true) {
						t.rets = []*Term{tTrue}
						res = append(res, t)
					}
					continue
				}
				if b, ok := o.rets[0].boolVal(); ok && b {
					o.st.auto["flag"] = "set"
					s.won(o.st)
				}
				res = append(res, o)
			}
			return res, true
		}
	}
	return nil, false
}

func (s *stopFlag) known(st *State, cell *Term) int {
	v, ok := st.mem[cell]
	if !ok {
		v = tLoad(cell, "", types.Typ[types.Bool])
	}
	return st.truth(v)
}

// store handles a plain boolean flag.
func (s *stopFlag) store(st *State, addr, val *Term) {
	if addr.op != "fa" || s.p.ownerOf(addr.field) != s.typ || !types.Identical(addr.field.Type(), types.Typ[types.Bool]) {
		return
	}
	if v, ok := val.boolVal(); ok && v && s.in.heldWrite(st) {
		st.auto["flag"] = "set"
		if st.truth(s.in.load(nil, st, addr, addr.field.Type(), nil)) == 0 {
			s.won(st)
		}
	}
}

func checkExecutorOutcome(r *Report) {
	p := r.P
	r.rule("one-end", "the executor's end is reported at most once: each report is made by the one caller that moved the stop flag from false to true atomically, and that caller always reports")
	r.rule("init-error-reported", "initialisation that fails, and a job that cannot be started, end the executor with a reported failure")
	r.rule("all-results-end", "the last job result ends the executor; before that no result does")
	r.rule("success-complete", "success is reported only with the results of all jobs, when every one of them was looked at and succeeded")
	r.rule("job-reports", "a job that started stops listening only after it reported a result, and reports no failure after a success")
	isEnd := func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && p.dynCall(c.Common(), "worker.WorkerExecutor", "worker.ExecutionResult")
	}
	jobSuccF := p.fieldVar("worker.JobResult", "Success")
	succF := p.fieldVar("worker.ExecutionResult", "Success")
	resF := p.fieldVar("worker.ExecutionResult", "JobResults")
	batchF := p.fieldVar("worker/types.WorkRequest", "BatchSize")
	set := p.relevant(isEnd)
	roots := p.entriesOf(set, "worker.WorkerExecutor")
	readsSucc := func(i ssa.Instruction) bool {
		f, ok := i.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		return p.structField(f.X.Type(), f.Field) == jobSuccF
	}
	isJobResultRoot := map[*ssa.Function]bool{}
	for _, f := range p.impls("worker.JobCallback", "OnJobResult") {
		isJobResultRoot[f] = true
	}
	ends, lastSeen := 0, 0
	for _, root := range roots {
		in := p.interp()
		in.InlineGo = true
		in.only(func(i ssa.Instruction) bool { return isEnd(i) || readsSucc(i) })
		base := in.NoInline
		in.NoInline = func(f *ssa.Function) bool {
			return base(f) || strings.HasPrefix(f.Name(), "New") || recvNamed(f) != nil && recvNamed(f).Name() == "Job" || fnPkgPath(f) == own("worker/components")
		}
		sf := &stopFlag{p: p, in: in, typ: "worker.WorkerExecutor", won: func(st *State) { st.auto["won"] = "1" }}
		c := fname(root)
		in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) { sf.store(st, addr, val) }
		latch := func(st *State) {
			for t, v := range st.facts {
				if t.op == "ld" && t.args[0].op == "fa" && t.args[0].field == jobSuccF {
					if v {
						st.auto["sawok"] = "1"
					} else {
						st.auto["sawfail"] = "1"
					}
				}
			}
		}
		in.OnBranch = func(fr *Frame, st *State, i *ssa.If, cond *Term, v bool) { latch(st) }
		// isTotal: the number of jobs of the executor
		isTotal := func(t *Term) bool {
			return isLoadOf(t, batchF) || t.op == "len" && (p.sliceOf(t.args[0].typ, "worker.JobResult") || p.sliceOf(t.args[0].typ, "worker.Job"))
		}
		// full: all results are in (yes), or some are not (no). A number that is the one and less than the
		// other number of jobs makes the path impossible, as they are the same.
		full := func(st *State) (yes, no, impossible bool) {
			is, less := map[*Term]bool{}, map[*Term]bool{}
			defer func() {
				for x := range is {
					impossible = impossible || less[x]
				}
			}()
			try := func(x, total *Term) {
				if x == total || x.isConst() || isTotal(x) || x.induction() {
					return
				}
				lo, hi := st.bounds(linSub(toLin(x), toLin(total)))
				if lo >= 0 {
					yes = true
					is[x] = true
				}
				if hi < 0 || st.neq[x][total] || st.neq[total][x] {
					no = true
				}
				if hi < 0 {
					less[x] = true
				}
			}
			for t := range st.iv {
				for _, x := range t.args {
					for _, y := range t.args {
						if isTotal(y) {
							try(x, y)
						}
					}
				}
				if isTotal(t) { // the counter was a constant on this path
					if _, hi := st.bounds(toLin(t)); hi < posInf {
						yes = true
					}
				}
			}
			for t, v := range st.facts {
				if t.op == "eq" && (isTotal(t.args[0]) || isTotal(t.args[1])) && !(isTotal(t.args[0]) && isTotal(t.args[1])) {
					yes, no = yes || v, no || !v
				}
			}
			for x, m := range st.neq {
				for y := range m {
					if isTotal(y) {
						try(x, y)
					} else if isTotal(x) {
						if y.isConst() {
							no = true
						} else {
							try(y, x)
						}
					}
				}
			}
			return
		}
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if p.dynCall(e.Com, "worker.WorkerExecutor", "worker.ExecutionResult") {
				ends++
				e.St.add("ends")
				r.check(e.St.auto["won"] == "1", "one-end", c, e.pos(), "the end is reported without having moved the stop flag from false to true atomically; path: %s", e.St.path())
				e.St.auto["won"] = "reported"
				res := e.Args[1]
				ok := in.fieldVal(res, succF)
				if b, isB := ok.boolVal(); isB && !b {
					e.St.auto["reported"] = "failure"
					return e.unknown(), true
				}
				e.St.auto["reported"] = "success"
				latch(e.St)
				if in.fieldVal(res, resF) == tNil {
					r.bad("success-complete", c, e.pos(), "success is reported without results")
				}
				r.check(e.St.auto["sawfail"] == "" && e.St.auto["sawok"] != "", "success-complete", c, e.pos(), "success is reported although a job failed or no job result was looked at; path: %s", e.St.path())
				return e.unknown(), true
			}
			if strings.HasPrefix(e.Name, own("worker/components.(MessageMonitor).")) || strings.HasPrefix(e.Name, own("worker/interfaces.(MessageDispatcher).")) {
				return []Out{{st: e.St}}, true
			}
			if e.Name == own("worker.(Job).Start") {
				outs := e.unknown()
				bad := outs[0]
				bad.st = bad.st.clone()
				bad.st.auto["starterr"] = "1"
				bad.st.assumeNeq(outs[0].rets[0], tNil)
				outs[0].st.assume(eqTerm(outs[0].rets[0], tNil), true)
				return append(outs, bad), true
			}
			return sf.call(e)
		}
		st := newState()
		var recvReq *Term
		for _, f := range structFields(p.typ("worker.WorkerExecutor")) {
			if p.isType(f.Type(), "worker/types.WorkRequest") {
				recvReq = tLoad(tFieldAddr(in.paramTerm(root.Params[0]), f), "", f.Type())
			}
		}
		if recvReq != nil {
			st.assumeLin(toLin(tLoad(tFieldAddr(recvReq, batchF), "", batchF.Type())), 1, posInf)
		}
		for _, o := range in.Run(root, st, nil) {
			if o.panic {
				continue
			}
			latch(o.st)
			r.check(o.st.auto["won"] != "1", "one-end", c, retPos(o), "the stop flag is set but the end is not reported; path: %s", o.st.path())
			wasStopped := false
			for t, v := range o.st.facts {
				if v && t.op == "ld" && t.args[0].op == "atomicval" && sf.isFlag(t.args[0].args[0]) || v && t.op == "ld" && t.args[0].op == "fa" && p.ownerOf(t.args[0].field) == "worker.WorkerExecutor" {
					wasStopped = true
				}
			}
			done := o.st.auto["reported"] != "" || wasStopped
			if len(o.rets) == 1 && o.rets[0] != tNil && o.st.known(o.rets[0], tNil) != 1 && root.Name() == "Init" {
				r.check(done, "init-error-reported", c, retPos(o), "an error is returned without the failure having been reported; path: %s", o.st.path())
			}
			if o.st.auto["starterr"] != "" {
				r.check(done, "init-error-reported", c, retPos(o), "a job could not be started and no failure was reported; path: %s", o.st.path())
			}
			if isJobResultRoot[root] {
				yes, no, impossible := full(o.st)
				if impossible {
					continue
				}
				if o.st.auto["sawok"] == "" && o.st.auto["sawfail"] == "" && !yes {
					no = true // no result is in, and there is at least one job
				}
				switch {
				case wasStopped:
				case o.st.auto["reported"] != "":
					lastSeen++
					r.check(yes && !no, "all-results-end", c, retPos(o), "the end is reported before the results of all jobs are in; path: %s", o.st.path())
				default:
					lastSeen++
					r.check(no, "all-results-end", c, retPos(o), "the last result does not end the executor; path: %s", o.st.path())
				}
				if yes && !wasStopped && o.st.auto["reported"] == "failure" && o.st.auto["sawfail"] == "" {
					r.bad("all-results-end", c, retPos(o), "failure is reported although no job failed; path: %s", o.st.path())
				}
			}
		}
		r.Counts["paths"] += in.Paths
	}
	// jobs
	var jobRoots []*ssa.Function
	toCb := p.relevant(func(i ssa.Instruction) bool { return callsIface(i, "worker.(JobCallback).OnJobResult") })
	for _, f := range p.methodsOf("worker.Job") {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if g, ok := i.(*ssa.Go); ok {
					for _, cl := range p.Callees(g.Common()) {
						if !toCb[cl] || recvNamed(topFn(cl)) != recvNamed(f) {
							continue
						}
						if cl.Parent() == nil || callsBlocking(cl) {
							jobRoots = append(jobRoots, cl)
						}
					}
				}
			}
		}
	}
	if len(jobRoots) == 0 {
		r.bad("job-reports", "worker.Job", 0, "no goroutine of a job reports its result")
	}
	dataFields := []*types.Var{}
	for _, f := range structFields(p.typ("worker.JobResult")) {
		if _, ok := f.Type().Underlying().(*types.Pointer); ok {
			dataFields = append(dataFields, f)
		}
	}
	for _, root := range jobRoots {
		in := p.interp()
		in.InlineGo = true
		c := fname(root)
		st := newState()
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			switch {
			case e.Name == own("worker.(JobCallback).OnJobResult"):
				v := in.fieldVal(e.Args[1], jobSuccF)
				if b, ok := v.boolVal(); ok && b {
					n := 0
					for _, f := range dataFields {
						if in.fieldVal(e.Args[1], f) != tNil {
							n++
						}
					}
					r.check(n == 1, "job-reports", c, e.pos(), "a successful result carries %d outputs", n)
					e.St.auto["reported"] = "success"
				} else {
					r.check(e.St.auto["reported"] != "success", "job-reports", c, e.pos(), "a failure is reported after a success; path: %s", e.St.path())
					if e.St.auto["reported"] == "" {
						e.St.auto["reported"] = "failure"
					}
				}
				return []Out{{st: e.St}}, true
			case strings.HasPrefix(e.Name, own("worker.(JobCallback).")):
				return []Out{{st: e.St}}, true
			case e.Obj != nil && e.Obj.Name() == "Type" && e.Com.IsInvoke():
				return []Out{{st: e.St, rets: in.results(e, e.Name)}}, true
			}
			return nil, false
		}
		for _, f := range structFields(p.typ("worker.Job")) {
			if strings.Contains(f.Type().String(), "atomic.Bool") {
				a := tFieldAddr(in.paramTerm(root.Params[0]), f)
				if _, ok := f.Type().Underlying().(*types.Pointer); ok {
					a = tLoad(a, "", f.Type())
				}
				st.mem[tApp("atomicval", a)] = tFalse
			}
		}
		for _, o := range in.Run(root, st, nil) {
			if o.panic {
				continue
			}
			r.check(o.st.auto["reported"] != "", "job-reports", c, retPos(o), "the job stops listening without having reported a result; path: %s", o.st.path())
		}
		r.Counts["paths"] += in.Paths
	}
	if ends == 0 {
		r.bad("one-end", "worker.WorkerExecutor", 0, "no report of the executor's end was found")
	}
	r.floor("one-end", 2)
	r.floor("init-error-reported", 1)
	r.floor("all-results-end", 1)
	r.floor("success-complete", 1)
	r.floor("job-reports", 1)
}

func callsBlocking(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Select); ok {
				return true
			}
		}
	}
	return false
}

func isLoadOf(t *Term, f *types.Var) bool {
	return t.op == "ld" && t.args[0].op == "fa" && t.args[0].field == f
}

func structFields(n *types.Named) []*types.Var {
	st := n.Underlying().(*types.Struct)
	var r []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		r = append(r, st.Field(i))
	}
	return r
}

// structField is field k of the struct t (or of what t points to).
func (p *Program) structField(t types.Type, k int) *types.Var {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || k >= st.NumFields() {
		return nil
	}
	return st.Field(k)
}
