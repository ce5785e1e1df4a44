package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", false, checkResultsPersisted)
	register("C30", false, checkBatchOrder)
}

// pure makes a call a function of its arguments, looking through pointers to locally built structs.
func (e *CallEvent) pure() []Out {
	in := e.In
	var args []*Term
	if e.Recv != nil {
		args = append(args, e.Recv)
	}
	args = append(args, e.Args...)
	for k, a := range args {
		args[k] = in.content(e.St, a)
	}
	var rets []*Term
	for k := 0; k < e.Com.Signature().Results().Len(); k++ {
		t := tApp(e.Name+"#"+string(rune('0'+k)), args...)
		if t.typ == nil {
			t.typ = e.Com.Signature().Results().At(k).Type()
		}
		rets = append(rets, t)
	}
	return []Out{{st: e.St, rets: rets}}
}

// content of an object built on this path: its fields (or elements at constant positions).
func (in *Interp) content(st *State, a *Term) *Term {
	a = unIface(a)
	if a.op != "alloc" {
		return a
	}
	var parts []*Term
	if pt, ok := a.typ.Underlying().(*types.Pointer); ok {
		if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if v, ok := st.mem[tFieldAddr(a, s.Field(i))]; ok {
					parts = append(parts, tApp("field:"+s.Field(i).Name(), v))
				}
			}
			return tApp("obj", parts...)
		}
		if v, ok := st.mem[a]; ok {
			return v
		}
	}
	return a
}

func (t *Term) mentions(pred func(*Term) bool) bool {
	f := false
	t.walk(func(x *Term) {
		if pred(x) {
			f = true
		}
	})
	return f
}

func (t *Term) find(op string) *Term {
	var r *Term
	t.walk(func(x *Term) {
		if r == nil && x.op == op {
			r = x
		}
	})
	return r
}

func checkResultsPersisted(r *Report) {
	p := r.P
	r.rule("saved-first", "a work is reported as successful only if its execution succeeded and, for a keygen, only after the key share was stored without error, under the request's key type, id and parties and by the method for its scheme")
	r.rule("one-report", "the end of an execution is reported to the engine exactly once, as a failure if it failed or could not be stored")
	r.rule("public-key", "the public key a keygen reports is built from the x and y coordinates of the generated key of its scheme")
	isEnd := func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && p.dynCall(c.Common(), "worker.WorkerExecutor", "worker.ExecutionResult")
	}
	handlers := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if isEnd(i) {
					for _, h := range p.Callees(i.(ssa.CallInstruction).Common()) {
						handlers[unwrap(h)] = true
					}
				}
			}
		}
	}
	succF := p.fieldVar("worker.ExecutionResult", "Success")
	resF := p.fieldVar("worker.ExecutionResult", "JobResults")
	reqF := p.fieldVar("worker.DefaultWorker", "request")
	wr := "worker/types.WorkRequest"
	for h := range handlers {
		for _, wt := range workTypes {
			in := p.interp()
			p.withWorkType(in, wt)
			in.InlineGo = true
			in.only(func(i ssa.Instruction) bool {
				return callsIface(i, "worker.(WorkerCallback).On", "db.(Database).Save")
			})
			c := fname(h) + " for " + wt
			recv := in.paramTerm(h.Params[0])
			req := tLoad(tFieldAddr(recv, reqF), "", reqF.Type())
			res := in.paramTerm(h.Params[len(h.Params)-1])
			wantSave := ""
			switch wt {
			case "EcKeygen":
				wantSave = "SaveEcKeygen"
			case "EdKeygen":
				wantSave = "SaveEdKeygen"
			}
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				switch {
				case strings.HasPrefix(e.Name, own("db.(Database).Save")):
					if e.Obj.Name() != wantSave {
						return e.unknown(), true
					}
					good := e.Args[0] == in.get(e.St, req, p.fieldVar(wr, "KeygenType")) && e.Args[1] == in.get(e.St, req, p.fieldVar(wr, "WorkId")) &&
						e.Args[2] == in.get(e.St, req, p.fieldVar(wr, "AllParties"))
					r.check(good, "saved-first", c, e.pos(), "the key share is stored under (%s, %s, %s) instead of the request's key type, id and parties", e.Args[0], e.Args[1], e.Args[2])
					outs := e.unknown()
					bad := outs[0]
					bad.st = bad.st.clone()
					bad.st.assumeNeq(outs[0].rets[0], tNil)
					bad.st.auto["save"] = "failed"
					outs[0].st.assume(eqTerm(outs[0].rets[0], tNil), true)
					outs[0].st.auto["save"] = "ok"
					return append(outs, bad), true
				case strings.HasPrefix(e.Name, own("worker.(WorkerCallback).On")):
					e.St.add("reports")
					if e.Args[0] != req {
						r.bad("one-report", c, e.pos(), "reported for another request (%s)", e.Args[0])
					}
					m := e.Obj.Name()
					e.St.auto["report"] = m
					if m == "OnWorkerResult" {
						r.check(e.St.truth(in.fieldVal(res, succF)) == 1, "saved-first", c, e.pos(), "success is reported for an execution that did not succeed; path: %s", e.St.path())
						if wantSave != "" {
							r.check(e.St.auto["save"] == "ok", "saved-first", c, e.pos(), "success is reported although the key share was not stored (%s); path: %s", e.St.auto["save"], e.St.path())
						}
						if got := in.get(e.St, e.Args[1], p.fieldVar("worker.WorkerResult", "JobResults")); got != in.fieldVal(res, resF) {
							r.bad("saved-first", c, e.pos(), "other results (%s) than those of the execution are reported", got)
						}
					}
					return []Out{{st: e.St}}, true
				}
				return nil, false
			}
			n := 0
			for _, o := range in.Run(h, nil, nil) {
				if o.panic {
					continue
				}
				n++
				k := o.st.num("reports")
				bad := o.st.truth(in.fieldVal(res, succF)) == 0 || o.st.auto["save"] == "failed"
				want := "OnWorkerResult"
				if bad {
					want = "OnWorkFailed"
				}
				r.check(k == 1 && o.st.auto["report"] == want, "one-report", c, retPos(o), "%d reports, last %s, expected %s; path: %s", k, o.st.auto["report"], want, o.st.path())
			}
			if n == 0 {
				r.bad("one-report", c, h.Pos(), "no path completes")
			}
			r.Counts["paths"] += in.Paths
		}
	}
	// the public key in the result
	for _, fn := range p.impls("worker.WorkerCallback", "OnWorkerResult") {
		for _, wt := range []string{"EcKeygen", "EdKeygen"} {
			in := p.interp()
			p.withWorkType(in, wt)
			in.only(func(i ssa.Instruction) bool { return callsIface(i, "core.(EngineCallback).") })
			c := fname(fn) + " for " + wt
			pub := map[string]string{"EcKeygen": "ECDSAPub", "EdKeygen": "EDDSAPub"}[wt]
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				switch {
				case strings.HasPrefix(e.Name, own("core.(EngineCallback).")):
					if e.Obj.Name() != "OnWorkKeygenFinished" {
						return []Out{{st: e.St}}, true
					}
					key := in.get(e.St, e.Args[0], p.fieldVar("types.KeygenResult", "PubKeyBytes"))
					has := func(t *Term, coord string) bool {
						return t != nil && t.mentions(func(x *Term) bool {
							return strings.HasSuffix(x.op, "(ECPoint)."+coord+"#0") && x.mentions(func(y *Term) bool { return y.op == "fa" && y.field.Name() == pub })
						})
					}
					var x, y *Term
					if o := key.find("field:X"); o != nil {
						x, y = o, key.find("field:Y")
					} else {
						key.walk(func(t *Term) {
							if strings.HasSuffix(t.op, "NewPublicKey#0") && len(t.args) >= 2 {
								x, y = t.args[len(t.args)-2], t.args[len(t.args)-1]
							}
						})
					}
					r.check(has(x, "X") && has(y, "Y") && !has(x, "Y") && !has(y, "X"), "public-key", c, e.pos(), "the reported public key (%s) is not built from the coordinates of %s", key, pub)
					return []Out{{st: e.St}}, true
				case e.Obj != nil && (e.Obj.Pkg() == nil || !strings.HasPrefix(e.Obj.Pkg().Path(), modPath)) && !strings.HasPrefix(e.Name, "builtin.") && !strings.HasPrefix(e.Name, "sync.") && !strings.Contains(e.Name, "atomic"):
					return e.pure(), true
				}
				return nil, false
			}
			in.Run(fn, nil, nil)
			r.Counts["paths"] += in.Paths
		}
	}
	r.floor("saved-first", 2)
	r.floor("one-report", 2)
	r.floor("public-key", 1)
}

// batchElem: elements of the lists that carry one entry per message of a batch.
func (p *Program) batchElem(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Name() + "." + n.Obj().Name() {
	case "worker.JobResult", "worker.Job", "common.ECSignature", "common.SignatureData", "signing.SignatureData", "signing.SignatureData_OneRoundData",
		"keygen.LocalPartySaveData", "types.KeysignMessage", "common.UpdateMessage", "tss.ParsedMessage", "tss.Message":
		return true
	}
	return false
}

func sliceElem(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return x.Elem()
	case *types.Array:
		return x.Elem()
	}
	return nil
}

// elemSources finds the batch elements a value was computed from, without going around loops.
func (p *Program) elemSources(v ssa.Value, seen map[ssa.Value]bool, found map[*ssa.IndexAddr]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi, *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return
	case *ssa.IndexAddr:
		if e := sliceElem(x.X.Type()); e != nil && p.batchElem(e) {
			if _, isSlice := x.X.Type().Underlying().(*types.Slice); isSlice {
				found[x] = true
			}
		}
		return
	case *ssa.Alloc:
		for _, ref := range *x.Referrers() {
			switch y := ref.(type) {
			case *ssa.Store:
				if y.Addr == x {
					p.elemSources(y.Val, seen, found)
				}
			case *ssa.FieldAddr:
				for _, r2 := range *y.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
						p.elemSources(st.Val, seen, found)
					}
				}
			}
		}
		return
	case ssa.Instruction:
		for _, op := range x.Operands(nil) {
			if *op != nil {
				p.elemSources(*op, seen, found)
			}
		}
	}
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func checkBatchOrder(r *Report) {
	p := r.P
	r.rule("same-position", "an entry of a batch list is computed only from the entries at the same position of other batch lists")
	r.rule("complete", "a list built entry by entry from a batch list gets exactly one entry for every entry of that list, in its order")
	r.rule("job-input", "job number i of a signing work gets message i and presign i of the batch and knows its number")
	r.rule("job-output", "a message or result of a job is recorded at the job's own number")
	r.rule("job-message", "entry i of an update message goes to job i")
	r.rule("own-position", "a goroutine which handles an entry of a batch has its own copy of the entry's position")
	r.rule("signature-bytes", "an ECDSA signature is reported as R, then S, then the recovery byte of the same job output")
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || sliceElem(ia.X.Type()) == nil {
					continue
				}
				if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				found := map[*ssa.IndexAddr]bool{}
				p.elemSources(st.Val, map[ssa.Value]bool{}, found)
				for src := range found {
					a, bb := stripConv(src.Index), stripConv(ia.Index)
					same := a == bb
					if ca, ok := a.(*ssa.Const); ok {
						if cb, ok := bb.(*ssa.Const); ok {
							same = ca.Int64() == cb.Int64()
						}
					}
					r.check(same, "same-position", fname(f), st.Pos(), "entry %s of the list is computed from entry %s of another", bb.Name(), a.Name())
				}
			}
		}
	}
	p.checkComplete(r)
	// jobs
	external := func(e *CallEvent) bool {
		return e.Obj != nil && (e.Obj.Pkg() == nil || !strings.HasPrefix(e.Obj.Pkg().Path(), modPath)) && !strings.HasPrefix(e.Name, "builtin.") && !strings.HasPrefix(e.Name, "sync.") && !strings.Contains(e.Name, "atomic") && !strings.Contains(e.Name, "/log.")
	}
	idxF := p.fieldVar("worker.Job", "index")
	partyF := p.fieldVar("worker.Job", "party")
	at := func(elem string, idx *Term) func(*Term) bool { // an element of a list at idx
		return func(x *Term) bool { return x.op == "ia" && x.args[1] == idx && strings.Contains(x.args[0].key, elem) }
	}
	for _, root := range []*ssa.Function{p.fn("worker.(WorkerExecutor).Init")} {
		for _, wt := range []string{"EcSigning", "EdSigning"} {
			in := p.interp()
			p.withWorkType(in, wt)
			in.only(func(i ssa.Instruction) bool {
				st, ok := i.(*ssa.Store)
				if !ok {
					return false
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				return ok && p.sliceOf(ia.X.Type(), "worker.Job")
			})
			c := fname(root) + " for " + wt
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				if e.Name == own("worker.(Job).Start") {
					return e.unknown(), true
				}
				if external(e) {
					return e.pure(), true
				}
				return nil, false
			}
			in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) {
				if addr.op != "ia" || !p.isType(val.typ, "worker.Job") {
					return
				}
				idx := addr.args[1]
				r.check(in.get(st, val, idxF) == idx, "job-input", c, instrPos(i), "job %s knows number %s", idx, in.get(st, val, idxF))
				party := in.get(st, val, partyF)
				noMsg := false // the job has no message: it only makes a presign
				for t, v := range st.eq {
					noMsg = noMsg || v == tNil && t.mentions(at(".Messages", idx))
				}
				r.check(noMsg || party.mentions(at(".Messages", idx)), "job-input", c, instrPos(i), "job %s does not sign message %s (%s)", idx, idx, party)
				if wt == "EcSigning" {
					pre := party.mentions(func(x *Term) bool {
						return x.op == "ia" && x.args[1] == idx && strings.Contains(x.args[0].typString(), "OneRoundData")
					})
					any := party.mentions(func(x *Term) bool { return x.op == "ia" && strings.Contains(x.args[0].typString(), "OneRoundData") })
					if any {
						r.check(pre, "job-input", c, instrPos(i), "job %s does not use presign %s", idx, idx)
						st.auto["presign"] = "1"
					}
				}
			}
			seen := false
			for _, o := range in.Run(root, nil, nil) {
				if o.st.auto["presign"] != "" || wt == "EdSigning" {
					seen = true
				}
			}
			if !seen {
				r.bad("job-input", c, root.Pos(), "no job uses a presign")
			}
			r.Counts["paths"] += in.Paths
		}
	}
	for _, m := range p.ifaceMethods("worker.JobCallback") {
		for _, fn := range p.impls("worker.JobCallback", m) {
			in := p.interp()
			in.NoInline = func(f *ssa.Function) bool { return !p.simple(f) }
			n := 0
			job, val := in.paramTerm(fn.Params[1]), in.paramTerm(fn.Params[2])
			want := tLoad(tFieldAddr(job, idxF), "", idxF.Type())
			in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, v *Term) {
				if addr.op != "ia" {
					return
				}
				if unIface(v) != val && st.mem[v] != val && !(v.op == "alloc" && p.isType(v.typ, "worker.JobResult")) {
					return
				}
				n++
				r.check(addr.args[1] == want, "job-output", fname(fn), instrPos(i), "recorded at %s instead of the job's number", addr.args[1])
			}
			in.Run(fn, nil, nil)
			if n == 0 {
				r.bad("job-output", fname(fn), fn.Pos(), "what the job produced is not recorded by its number")
			}
			r.Counts["paths"] += in.Paths
		}
	}
	// update messages
	up := p.relevant(func(i ssa.Instruction) bool {
		return callsName(i, "github.com/sisu-network/tss-lib/tss.(Party).Update")
	})
	n := 0
	for _, root := range p.entriesOf(up, "worker.WorkerExecutor") {
		if len(root.Params) != 2 || !p.isType(root.Params[1].Type(), "types/common.TssMessage") {
			continue
		}
		in := p.interp()
		in.InlineGo = true
		in.only(func(i ssa.Instruction) bool {
			return callsName(i, "github.com/sisu-network/tss-lib/tss.(Party).Update")
		})
		c := fname(root)
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if strings.HasPrefix(e.Name, "github.com/sisu-network/tss-lib/tss.(Party).Update") {
				n++
				var ji, mi *Term
				e.Recv.walk(func(x *Term) {
					if x.op == "ia" && p.sliceOf(x.args[0].typ, "worker.Job") {
						ji = x.args[1]
					}
				})
				e.Args[0].walk(func(x *Term) {
					if x.op == "ia" && (strings.Contains(x.args[0].typString(), "ParsedMessage") || strings.Contains(x.args[0].typString(), "UpdateMessage")) {
						mi = x.args[1]
					}
				})
				r.check(ji != nil && ji == mi, "job-message", c, e.pos(), "job %s is updated with entry %s of the message; path: %s", ji, mi, e.St.path())
				return nil, true // the path has shown what it can
			}
			if p.dynCall(e.Com, "worker.WorkerExecutor", "worker.ExecutionResult") || strings.HasPrefix(e.Name, own("worker/components.(MessageMonitor).")) {
				return []Out{{st: e.St}}, true
			}
			if external(e) && e.Obj.Name() != "Unmarshal" {
				return e.pure(), true
			}
			return nil, false
		}
		in.Run(root, nil, nil)
		r.Counts["paths"] += in.Paths
	}
	if n == 0 {
		r.bad("job-message", "worker.WorkerExecutor", 0, "no update message reaches a job")
	}
	// the bytes of a signature
	for _, fn := range p.impls("worker.WorkerCallback", "OnWorkerResult") {
		in := p.interp()
		p.withWorkType(in, "EcSigning")
		in.only(func(i ssa.Instruction) bool { return callsIface(i, "core.(EngineCallback).") })
		c := fname(fn)
		last := map[*Term]*Term{}
		pos := map[*Term]token.Pos{}
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if strings.HasPrefix(e.Name, own("core.(EngineCallback).")) {
				return []Out{{st: e.St}}, true
			}
			if external(e) || strings.HasPrefix(e.Name, own("utils.")) {
				return e.pure(), true
			}
			return nil, false
		}
		in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) {
			if addr.op == "ia" && addr.args[0].typ != nil && strings.HasSuffix(addr.args[0].typ.String(), "[][]byte") {
				last[addr] = val
				pos[addr] = instrPos(i)
			}
		}
		in.Run(fn, nil, nil)
		if len(last) == 0 {
			r.bad("signature-bytes", c, fn.Pos(), "no signature is built")
		}
		for addr, val := range last {
			var order []string
			val.walk(func(x *Term) {
				if x.op == "fa" && strings.HasSuffix(x.field.Pkg().Path(), "tss-lib/common") {
					switch x.field.Name() {
					case "R", "S", "SignatureRecovery":
						order = append(order, x.field.Name())
					}
				}
			})
			got := strings.Join(order, " ")
			r.check(got == "R S SignatureRecovery", "signature-bytes", c, pos[addr], "the signature consists of: %s", got)
		}
		r.Counts["paths"] += in.Paths
	}
	for _, cs := range r.P.captured() {
		t := cs.al.Type().(*types.Pointer).Elem()
		b, isBasic := t.Underlying().(*types.Basic)
		if !r.P.batchElem(t) && !(isBasic && b.Info()&types.IsInteger != 0) {
			continue
		}
		if cs.store != nil {
			r.bad("own-position", cs.name, instrPos(cs.site), "the goroutine may see the position of another entry: the variable is assigned again at %s", r.P.pos(instrPos(cs.store)))
		} else {
			r.ok("own-position", cs.name, instrPos(cs.site), "")
		}
	}
	r.floor("same-position", 3)
	r.floor("complete", 2)
	r.floor("job-input", 1)
	r.floor("job-output", 1)
	r.floor("job-message", 1)
	r.floor("signature-bytes", 1)
}

func callsName(i ssa.Instruction, prefix string) bool {
	c, ok := i.(ssa.CallInstruction)
	return ok && strings.HasPrefix(calleeName(c.Common()), prefix)
}

func (t *Term) typString() string {
	if t.typ == nil {
		return ""
	}
	return t.typ.String()
}

// listKey: what identifies the list an element is written to.
func listKey(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// checkComplete: loops over a batch list which build another list write one entry per iteration.
func (p *Program) checkComplete(r *Report) {
	for _, f := range p.Funcs {
		type target struct {
			key    ssa.Value
			header *ssa.BasicBlock
		}
		writes := map[target]map[*ssa.BasicBlock]int{}
		pos := map[target]token.Pos{}
		accs := map[target]ssa.Value{}
		var order []target
		all := map[ssa.Value][]*ssa.BasicBlock{}
		note := func(i ssa.Instruction, key, val ssa.Value, acc ssa.Value) {
			all[key] = append(all[key], i.Block())
			found := map[*ssa.IndexAddr]bool{}
			p.elemSources(val, map[ssa.Value]bool{}, found)
			for src := range found {
				h := loopOf(stripConv(src.Index), i.Block())
				if h == nil {
					continue
				}
				t := target{key, h}
				if writes[t] == nil {
					writes[t] = map[*ssa.BasicBlock]int{}
					order = append(order, t)
				}
				writes[t][i.Block()]++
				pos[t] = instrPos(i)
				if acc != nil {
					accs[t] = acc
				}
				return
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
							note(i, listKey(ia.X), x.Val, nil)
						}
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(x.Call.Args) == 2 {
						sl, ok := x.Call.Args[1].(*ssa.Slice)
						if !ok {
							continue
						}
						al, ok := sl.X.(*ssa.Alloc)
						if !ok || al.Comment != "varargs" {
							continue
						}
						key := listKey(x.Call.Args[0])
						for _, ref := range *al.Referrers() {
							if ia, ok := ref.(*ssa.IndexAddr); ok {
								for _, r2 := range *ia.Referrers() {
									if st, ok := r2.(*ssa.Store); ok {
										note(i, key, st.Val, key)
									}
								}
							}
						}
					}
				}
			}
		}
		for _, t := range order {
			c := fname(f)
			body := naturalLoop(t.header)
			twice := false
			for _, b := range all[t.key] { // whatever is written there
				if writes[t][b] == 0 {
					writes[t][b] = 1
				}
			}
			for _, n := range writes[t] {
				twice = twice || n > 1 && accs[t] != nil
			}
			var latches []*ssa.BasicBlock
			for _, pr := range t.header.Preds {
				if t.header.Dominates(pr) {
					latches = append(latches, pr)
				}
			}
			skipped := false
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock)
			walk = func(b *ssa.BasicBlock) {
				if seen[b] || !body[b] || writes[t][b] > 0 {
					return
				}
				seen[b] = true
				for _, l := range latches {
					if b == l {
						skipped = true
					}
				}
				for _, s := range b.Succs {
					if s != t.header {
						walk(s)
					}
				}
			}
			for _, s := range t.header.Succs {
				walk(s)
			}
			r.check(!skipped && !twice, "complete", c, pos[t], "an entry of the batch may be left out of (or twice in) the list built from it, the following ones get other positions")
			if phi, ok := accs[t].(*ssa.Phi); ok && phi.Block() == t.header {
				for k, e := range phi.Edges {
					if !t.header.Dominates(t.header.Preds[k]) {
						r.check(emptyList(e), "complete", c, pos[t], "the list built from a batch does not start empty")
					}
				}
			}
		}
	}
}

func emptyList(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.MakeSlice:
		c, ok := x.Len.(*ssa.Const)
		return ok && c.Int64() == 0
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		if c, ok := x.High.(*ssa.Const); ok && c.Int64() == 0 {
			return true
		}
		a, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		return ok && a.Len() == 0
	}
	return false
}

// loopOf: the header of the loop around b in which the position counts up from its first entry.
func loopOf(idx ssa.Value, b *ssa.BasicBlock) *ssa.BasicBlock {
	if bo, ok := idx.(*ssa.BinOp); ok && bo.Op == token.ADD {
		idx = bo.X
	}
	phi, ok := idx.(*ssa.Phi)
	if !ok || !phi.Block().Dominates(b) {
		return nil
	}
	if !naturalLoop(phi.Block())[b] {
		return nil
	}
	return phi.Block()
}

func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}
		body[b] = true
		for _, p := range b.Preds {
			add(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			add(p)
		}
	}
	return body
}
