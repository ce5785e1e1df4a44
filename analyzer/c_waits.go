package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", false, checkWaits)
}

// timeCalls gives terms to points in time and to what fires at them.
func (e *CallEvent) timeCalls() ([]Out, bool) {
	one := func(t *Term) ([]Out, bool) {
		if t.typ == nil {
			t.typ = e.Com.Signature().Results().At(0).Type()
		}
		return []Out{{st: e.St, rets: []*Term{t}}}, true
	}
	switch e.Name {
	case "time.Now":
		return one(tApp("now", tConstStr(e.St.auto["waits"])))
	case "time.After":
		return one(tAppNN("timer", e.Args[0], tConstStr(e.St.auto["waits"])))
	case "time.NewTimer":
		return one(tAppNN("newtimer", e.Args[0], tConstStr(e.St.auto["waits"])))
	case "time.Until":
		return one(tApp("sub", e.Args[0], tApp("now", tConstStr(e.St.auto["waits"]))))
	case "time.(Time).Add":
		return one(tApp("add", e.Recv, e.Args[0]))
	case "time.(Time).Sub":
		return one(tApp("sub", e.Recv, e.Args[0]))
	case "time.(Timer).Stop", "time.(Timer).Reset":
		if strings.HasSuffix(e.Name, "Reset") {
			e.St.auto["reset"] = "yes"
		}
		return e.inert(), true
	case "context.WithTimeout", "context.WithDeadline":
		x := e.Args[1]
		if e.Name == "context.WithDeadline" {
			x = tApp("sub", x, tApp("now", tConstStr(e.St.auto["waits"])))
		}
		c := tAppNN("ctx", x, tConstStr(e.St.auto["waits"]))
		rets := e.In.results(e, e.Name)
		c.typ = rets[0].typ
		rets[0] = c
		return []Out{{st: e.St, rets: rets}}, true
	}
	if e.Com.IsInvoke() && strings.HasSuffix(e.Name, "context.(Context).Done") && e.Recv != nil && unIface(e.Recv).op == "ctx" {
		return one(tAppNN("timer", unIface(e.Recv).args...))
	}
	return nil, false
}

// timerOf: the channel fires after this duration, counted from this point.
func timerOf(ch *Term) (d, since *Term, ok bool) {
	if ch.op == "ld" && ch.args[0].op == "fa" && ch.args[0].field.Name() == "C" {
		ch = ch.args[0].args[0]
	}
	if ch.op == "timer" || ch.op == "newtimer" {
		return ch.args[0], ch.args[1], true
	}
	return nil, nil, false
}

// limitOf is the time after which the whole wait ends, if it has one however often it is resumed.
func limitOf(ch *Term) *Term {
	d, since, ok := timerOf(ch)
	start := tConstStr("")
	switch {
	case !ok:
		return nil
	case d.op == "sub" && d.args[0].op == "add" && d.args[0].args[0] == tApp("now", start):
		if t := d.args[1]; t.op == "now" && t.args[0] == since || t.op == "sym" {
			return d.args[0].args[1] // what is left of it
		}
		return nil
	case since == start && d.op != "sub":
		return d
	}
	return nil
}

// givenConfig: the value is a parameter, field or result, not a literal.
func givenConfig(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.UnOp:
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			return true
		}
		for _, ref := range *a.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
				return givenConfig(st.Val)
			}
		}
		return false
	}
	return true
}

func isClosure(v ssa.Value) bool {
	_, ok := v.(*ssa.MakeClosure)
	return ok
}

func isTimerChan(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		return calleeName(x.Common()) == "time.After"
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		return ok && namedAs(derefT(fa.X.Type()), "time.Timer") || ok && namedAs(derefT(fa.X.Type()), "time.Ticker")
	}
	return false
}

func checkWaits(r *Report) {
	p := r.P
	r.rule("bounded", "every wait for a message, a result or a free place has a time limit; nothing waits at a channel without one")
	r.rule("limit", "the limit of a wait is the configured one of its kind: of the leader's or the member's selection round, or of the job, and it holds for the whole wait however often something arrives; once it is reached the wait is over")
	r.rule("jobs", "a job is given the time configured for its kind of work")
	r.rule("defaults", "by default every limit is positive and members wait longer for the leader than the leader for members")
	r.rule("told", "what a handler of messages leaves for a wait is kept until the wait takes it: the place for it is not empty-sized")
	r.rule("network", "opening a stream is limited in time and so is every write to it")
	cfgT := "core/config.TimeoutConfig"
	field := func(n string) *types.Var { return p.fieldVar(cfgT, n) }
	visited := map[ssa.Instruction]bool{}
	var jobField *types.Var
	isWait := func(i ssa.Instruction) bool {
		s, ok := i.(*ssa.Select)
		return ok && s.Blocking
	}
	walk := func(root *ssa.Function, isJob bool) {
		in := p.interp()
		in.InlineGo = true
		in.Forget = true
		set := p.leadsTo(func(i ssa.Instruction) bool {
			return isWait(i) || callsName(i, "time.") || callsName(i, "context.")
		})
		in.NoInline = func(f *ssa.Function) bool { return !set[f] }
		c := fname(root)
		waits := map[string]bool{}
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if o, ok := e.timeCalls(); ok {
				return o, true
			}
			if e.Com.IsInvoke() || e.Com.StaticCallee() == nil && e.Com.Method == nil && !strings.HasPrefix(e.Name, "builtin.") && !isClosure(e.Com.Value) || strings.HasPrefix(e.Name, tssLib) {
				return e.inert(), true // what is called back or sent: not a part of the wait
			}
			return nil, false
		}
		in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
			if !isWait(i) {
				return
			}
			s := i.(*ssa.Select)
			visited[i] = true
			var limit *Term
			has := false
			var wants []string
			for _, ss := range s.States {
				ch := in.val(fr, fr.env, ss.Chan)
				if _, _, ok := timerOf(ch); ok {
					has = true
					if limit == nil {
						limit = limitOf(ch)
					}
					continue
				}
				if isJob {
					continue
				}
				switch et := ss.Chan.Type().Underlying().(*types.Chan).Elem(); {
				case p.isType(et, "types/common.PreExecOutputMessage"):
					wants = append(wants, "SelectionMemberTimeout")
				case p.isType(et, "types/common.TssMessage"):
					wants = append(wants, "SelectionLeaderTimeout")
				}
			}
			pos := instrPos(i)
			r.check(has, "bounded", c+" "+p.pos(pos), pos, "a wait has no time limit; path: %s", st.path())
			r.check(st.auto["over"] == "", "limit", c+" end", pos, "the wait goes on after its time is over; path: %s", st.path())
			if !has {
				return
			}
			if limit == nil || st.auto["reset"] != "" {
				r.bad("limit", c, pos, "the limit starts anew during the wait, or is not a time from its start; path: %s", st.path())
			} else if isJob {
				ok := limit.op == "ld" && limit.args[0].op == "fa" && derefT(limit.args[0].args[0].typ) != nil && p.isType(derefT(limit.args[0].args[0].typ), "worker.Job")
				r.check(ok, "limit", c, pos, "the limit of a job is %s", limit)
				if ok {
					jobField = limit.args[0].field
				}
				waits["job"] = true
			} else {
				for _, w := range wants {
					r.check(isLoadOf(limit, field(w)), "limit", c+" "+w, pos, "the limit is %s instead of the configured %s", limit, w)
					waits[w] = true
				}
			}
			st.auto["waits"] = "1"
		}
		in.OnRecv = func(fr *Frame, st *State, i ssa.Instruction, ch *Term, blocking bool) {
			if _, _, ok := timerOf(ch); ok {
				st.auto["over"] = "yes"
			}
		}
		in.Run(root, nil, nil)
		r.Counts["paths"] += in.Paths
		want := []string{"SelectionLeaderTimeout", "SelectionMemberTimeout"}
		if isJob {
			want = []string{"job"}
		}
		for _, w := range want {
			if !waits[w] {
				r.bad("limit", c+" "+w, root.Pos(), "undecided: no such wait was found")
			}
		}
	}
	sel := p.relevant(p.reportsSelection)
	for _, root := range p.entriesOf(sel, "worker.PreworkSelection") {
		walk(root, false)
	}
	walk(p.fn("worker.(Job).Start"), true)
	p.checkOtherWaits(r, visited)
	if jobField != nil {
		p.checkJobTimes(r, jobField)
	}
	p.checkDefaults(r, cfgT)
	p.checkNetworkTimes(r)
	// nobody is given limits that are not set
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				cc, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, a := range cc.Common().Args {
					if _, ptr := a.Type().Underlying().(*types.Pointer); !ptr && p.isType(a.Type(), cfgT) {
						r.check(givenConfig(a), "limit", fname(f)+" to "+calleeName(cc.Common()), i.Pos(), "is given limits that were made up here")
					}
				}
			}
		}
	}
	r.floor("bounded", 3)
	r.floor("limit", 3)
	r.floor("jobs", 3)
	r.floor("told", 1)
	r.floor("network", 2)
}

// every other operation that can wait at a channel, and where others leave something for it.
func (p *Program) checkOtherWaits(r *Report, visited map[ssa.Instruction]bool) {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.UnOp:
					if x.Op == token.ARROW && !isTimerChan(x.X) && x.X.Type().Underlying().(*types.Chan).Elem().String() != "os.Signal" {
						r.bad("bounded", fname(f), x.Pos(), "waits for a channel without a limit")
					}
				case *ssa.Send:
					if !ownChan(x.Chan) || !p.roomy(x.Chan, map[ssa.Value]bool{}) || inCycle(b) {
						r.bad("bounded", fname(f), x.Pos(), "waits for a free place in a channel without a limit")
					}
				case *ssa.Select:
					if x.Blocking && !visited[i] {
						timed := len(x.States) > 0
						for _, s := range x.States {
							timed = timed && isTimerChan(s.Chan)
						}
						r.check(timed, "bounded", fname(f)+" "+p.pos(instrPos(i)), instrPos(i), "undecided: a wait nothing is known about")
					}
					for _, s := range x.States {
						if s.Dir == types.SendOnly && !x.Blocking {
							r.check(p.roomy(s.Chan, map[ssa.Value]bool{}), "told", fname(f)+" "+s.Chan.Type().String(), s.Pos, "what is sent is lost when nobody waits yet: the channel may have no place for it")
						}
					}
				}
			}
		}
	}
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			todo = append(todo, x.Succs...)
		}
	}
	return false
}

// ownChan: the channel belongs to the function (or the one it is a closure of) alone.
func ownChan(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeChan, *ssa.FreeVar:
		return true
	case *ssa.ChangeType:
		return ownChan(x.X)
	case *ssa.UnOp:
		switch x.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			return true
		}
	}
	return false
}

// roomy: every channel the value can be was made with a place for at least one element.
func (p *Program) roomy(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeChan:
		s := x.Size
		for {
			if c, ok := s.(*ssa.Convert); ok {
				s = c.X
				continue
			}
			break
		}
		switch y := s.(type) {
		case *ssa.Const:
			return y.Int64() >= 1
		case *ssa.Call: // the length of a list of parties, messages ...
			b, ok := y.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "len"
		case *ssa.BinOp:
			if k, ok := y.Y.(*ssa.Const); ok && y.Op == token.ADD {
				return k.Int64() >= 1
			}
		}
		return false
	case *ssa.ChangeType:
		return p.roomy(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.roomy(e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			return p.roomy(fv, seen)
		}
		n := 0
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			fld := p.structField(derefT(fa.X.Type()), fa.Field)
			for _, f := range p.Funcs {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						st, ok := i.(*ssa.Store)
						if !ok {
							continue
						}
						a, ok := st.Addr.(*ssa.FieldAddr)
						if !ok || p.structField(derefT(a.X.Type()), a.Field) != fld {
							continue
						}
						n++
						if !p.roomy(st.Val, seen) {
							return false
						}
					}
				}
			}
			return n > 0
		}
		for _, ref := range *x.X.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == x.X {
				n++
				if !p.roomy(st.Val, seen) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.FreeVar:
		fn := x.Parent()
		n := 0
		for _, ref := range *fn.Referrers() {
			if mc, ok := ref.(*ssa.MakeClosure); ok {
				for k, fv := range fn.FreeVars {
					if fv == x {
						n++
						if a, ok := mc.Bindings[k].(*ssa.Alloc); ok {
							for _, ref := range *a.Referrers() {
								if st, ok := ref.(*ssa.Store); ok && !p.roomy(st.Val, seen) {
									return false
								}
							}
						} else if !p.roomy(mc.Bindings[k], seen) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	case *ssa.Parameter:
		n := 0
		for _, e := range p.Graph().In[x.Parent()] {
			for k, q := range x.Parent().Params {
				if q != x || e.Site == nil {
					continue
				}
				args := e.Site.Common().Args
				if e.Site.Common().IsInvoke() {
					k--
				}
				if k < 0 || k >= len(args) || !p.roomy(args[k], seen) {
					return false
				}
				n++
			}
		}
		return n > 0
	}
	return false
}

// the time a job gets, per kind of work.
func (p *Program) checkJobTimes(r *Report, f *types.Var) {
	want := map[string][]string{
		"EcKeygen": {"KeygenJobTimeout"}, "EdKeygen": {"KeygenJobTimeout"},
		"EcSigning": {"SigningJobTimeout", "PresignJobTimeout"}, "EdSigning": {"SigningJobTimeout"},
	}
	root := p.fn("worker.(WorkerExecutor).Init")
	for _, wt := range workTypes {
		in := p.interp()
		p.withWorkType(in, wt)
		in.only(func(i ssa.Instruction) bool {
			st, ok := i.(*ssa.Store)
			return ok && p.isType(st.Val.Type(), "worker.Job") || callsName(i, own("worker.(Job).Start"))
		})
		c := fname(root) + " for " + wt
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			switch {
			case e.Name == own("worker.(Job).Start"):
				return e.unknown(), true
			case strings.HasPrefix(e.Name, own("worker/components.")), strings.HasPrefix(e.Name, own("worker/interfaces.")), strings.HasPrefix(e.Name, tssLib):
				return e.inert(), true
			}
			return nil, false
		}
		n := 0
		in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) {
			if addr.op != "ia" || val.typ == nil || !p.isType(val.typ, "worker.Job") || val == tNil {
				return
			}
			n++
			t := in.get(st, val, f)
			ok := false
			for _, w := range want[wt] {
				ok = ok || isLoadOf(t, p.fieldVar("core/config.TimeoutConfig", w))
			}
			r.check(ok, "jobs", c, instrPos(i), "a job of a %s is given the time %s instead of the configured %s", wt, t, want[wt][0])
		}
		in.Run(root, nil, nil)
		r.Counts["paths"] += in.Paths
		if n == 0 {
			r.bad("jobs", c, root.Pos(), "undecided: no job is made")
		}
	}
}

func (p *Program) checkDefaults(r *Report, cfgT string) {
	n := 0
	for _, f := range p.Funcs {
		res := f.Signature.Results()
		if f.Signature.Recv() != nil || f.Parent() != nil || f.Signature.Params().Len() > 0 || res.Len() != 1 || !p.isType(res.At(0).Type(), cfgT) {
			continue
		}
		n++
		in, st, rets, ok := p.evaluate(f)
		if !ok {
			r.bad("defaults", fname(f), f.Pos(), "undecided: the value depends on more than constants")
			continue
		}
		vals := map[string]int64{}
		for _, fld := range structFields(p.typ(cfgT)) {
			t := in.fieldVal(rets[0], fld)
			if t.op == "ld" {
				t = in.get(st, rets[0], fld)
			}
			k, ok := t.intVal()
			vals[fld.Name()] = k
			r.check(ok && k > 0, "defaults", fname(f)+" "+fld.Name(), f.Pos(), "the default of %s is %s", fld.Name(), t)
		}
		r.check(vals["SelectionMemberTimeout"] > vals["SelectionLeaderTimeout"], "defaults", fname(f)+" order", f.Pos(), "members wait %d, the leader waits %d", vals["SelectionMemberTimeout"], vals["SelectionLeaderTimeout"])
	}
	if n == 0 {
		r.bad("defaults", cfgT, 0, "no default was found")
	}
}

func (p *Program) checkNetworkTimes(r *Report) {
	for _, root := range p.impls("p2p.ConnectionManager", "WriteToStream") {
		in := p.interp()
		c := fname(root)
		opened, written := 0, 0
		limited := func(st *State, s *Term) bool {
			var keys []string
			for k := range st.auto {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				if strings.HasPrefix(k, "until:") {
					if key := strings.TrimPrefix(k, "until:"); s.mentions(func(y *Term) bool { return y.key == key }) {
						return true
					}
				}
			}
			return false
		}
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if o, ok := e.timeCalls(); ok {
				return o, true
			}
			switch {
			case strings.HasSuffix(e.Name, ").NewStream"):
				opened++
				ctx := unIface(e.Args[0])
				k, ok := int64(0), false
				if ctx.op == "ctx" {
					k, ok = ctx.args[0].intVal()
				}
				r.check(ok && k > 0, "network", c+" open", e.pos(), "a stream is opened without a time limit (%s)", e.Args[0])
				return e.split(e.In.results(e, e.Name)[0], "nostream"), true
			case e.Com.IsInvoke() && isStreamT(e.Com.Value.Type()) && (strings.HasSuffix(e.Name, ".SetWriteDeadline") || strings.HasSuffix(e.Name, ".SetDeadline")):
				t := e.Args[0]
				k, ok := int64(0), false
				if t.op == "add" && t.args[0].op == "now" {
					k, ok = t.args[1].intVal()
				}
				r.check(ok && k > 0, "network", c+" deadline", e.pos(), "the deadline for writing is %s", t)
				if ok && k > 0 {
					e.St.auto["until:"+unIface(e.Recv).key] = "yes"
				} else {
					delete(e.St.auto, "until:"+unIface(e.Recv).key)
				}
				return e.inert(), true
			case e.Name == "bufio.NewWriter" || e.Name == "bufio.NewWriterSize":
				return []Out{{st: e.St, rets: []*Term{tAppNN("writer", unIface(e.Args[0]))}}}, true
			case strings.HasPrefix(e.Name, "bufio.(Writer)."), e.Com.IsInvoke() && isStreamT(e.Com.Value.Type()) && strings.HasSuffix(e.Name, ".Write"):
				written++
				s := unIface(e.Recv)
				r.check(limited(e.St, s), "network", c+" write", e.pos(), "something is written to %s without a deadline; path: %s", s, e.St.path())
				return e.inert(), true
			}
			return nil, false
		}
		in.Run(root, nil, nil)
		r.Counts["paths"] += in.Paths
		if opened == 0 || written == 0 {
			r.bad("network", c, root.Pos(), "undecided: streams opened: %d, writes: %d", opened, written)
		}
	}
}
