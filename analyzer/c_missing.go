package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C36", false, checkMissing)
}

// textCalls builds the texts made by formatting, joining and adding.
func (e *CallEvent) textCalls() ([]Out, bool) {
	elems := func(t *Term) ([]*Term, bool) {
		ps, ok := e.In.seqOf(e.St, t)
		var r []*Term
		for _, q := range ps {
			ok = ok && q.elem != nil
			r = append(r, q.elem)
		}
		return r, ok
	}
	one := func(t *Term) ([]Out, bool) {
		t.typ = types.Typ[types.String]
		return []Out{{st: e.St, rets: []*Term{t}}}, true
	}
	switch e.Name {
	case "fmt.Sprintf":
		if as, ok := elems(e.Args[1]); ok {
			if t := sprintfTerm(e.Args[0], as); t != nil {
				return one(t)
			}
		}
	case "strings.Join":
		if as, ok := elems(e.Args[0]); ok {
			var ps []*Term
			for k, a := range as {
				if k > 0 {
					ps = append(ps, e.Args[1])
				}
				ps = append(ps, unIface(a))
			}
			return one(tApp("text", ps...))
		}
	}
	return nil, false
}

// textParts: constants and values in the order they make up the text.
func textParts(t *Term) []string {
	var r []string
	var walk func(t *Term)
	last := false
	walk = func(t *Term) {
		if s, ok := t.strVal(); ok {
			switch {
			case s == "":
			case last:
				r[len(r)-1] += s
			default:
				r = append(r, "\""+s)
				last = true
			}
			return
		}
		if t.op == "text" || t.op == "+" {
			for _, a := range t.args {
				walk(a)
			}
			return
		}
		r = append(r, t.key)
		last = false
	}
	walk(t)
	return r
}

func checkMissing(r *Report) {
	p := r.P
	r.rule("asked", "for every node and kind found missing one request is sent: to all parties if the protocol sends the kind to all, else to the node that has to send it")
	r.rule("name", "the request names the message by the very name its author keeps it under: same work, author, recipient and kind")
	r.rule("sent", "what a work sends names this node, the work, its recipient and the kind of its messages")
	r.rule("counted", "a message counts as received exactly if it was accepted and given to the jobs, for the node it came from and its own kind")
	r.rule("watched", "every execution is watched, with its own parties, kind of work and configured time, and reports what is missing to itself; the watching ends with the execution and not before")
	r.rule("found", "what is reported missing are kinds of the work's messages, of other parties, that have not been received")
	tssT, updT := "types/common.TssMessage", "types/common.UpdateMessage"
	f := func(n string) *types.Var { return p.fieldVar(tssT, n) }
	updF, roundF := f("UpdateMessages"), p.fieldVar(updT, "Round")
	askF := f("AskRequestMessage")
	keyF := p.fieldVar("types/common.AskRequestMessage", "MsgKey")
	workF := p.fieldVar("worker/types.WorkRequest", "WorkId")
	pidT := tssLib + "tss.PartyID"

	// the name a message is kept under
	var kept []string
	var keptMsg *Term
	{
		root := p.fn("types/common.(TssMessage).GetMessageKey")
		in := p.interp()
		in.OnCall = func(e *CallEvent) ([]Out, bool) { return e.textCalls() }
		keptMsg = in.paramTerm(root.Params[0])
		for _, o := range in.Run(root, nil, nil) {
			if o.panic || o.st.known(o.rets[len(o.rets)-1], tNil) != 1 {
				continue
			}
			ps := textParts(o.rets[0])
			if kept != nil && strings.Join(ps, "|") != strings.Join(kept, "|") {
				r.bad("name", fname(root), retPos(o), "undecided: more than one form of name")
			}
			kept = ps
			// by field
			for k, s := range ps {
				for _, fld := range []*types.Var{f("WorkId"), f("From"), f("To")} {
					if s == in.get(o.st, keptMsg, fld).key {
						kept[k] = fld.Name()
					}
				}
				if x := in.get(o.st, keptMsg, updF); strings.Contains(s, x.key) && strings.Contains(s, "Round") {
					kept[k] = "Round"
				}
			}
		}
		has := strings.Join(kept, "|")
		for _, n := range []string{"WorkId", "From", "To", "Round"} {
			r.check(strings.Contains(has, n), "name", fname(root)+" "+n, root.Pos(), "the name of a message does not say its %s (%s)", n, has)
		}
	}
	str := types.Typ[types.String]
	isMe := func(t, self *Term) bool { // the id of this node, as the execution knows it
		return t.op == "ld" && t.root() == self && t.args[0].op == "fa" && t.args[0].field.Name() == "Id" &&
			t.mentions(func(y *Term) bool { return y.op == "ld" && y.typ != nil && namedAs(derefT(y.typ), pidT) })
	}

	// asking
	for _, root := range p.impls("worker/components.MessageMonitorCallback", "OnMissingMesssageDetected") {
		in := p.interp()
		c := fname(root)
		missing, self := in.paramTerm(root.Params[1]), in.paramTerm(root.Params[0])
		in.only(func(i ssa.Instruction) bool {
			return callsIface(i, "worker/interfaces.(MessageDispatcher)") || callsName(i, "fmt.Sprintf") || touches(i, func(t types.Type) bool { return namedAs(derefT(t), pidT) })
		})
		sites := map[bool]bool{}
		kinds := map[string]*Term{}
		isList := func(t *Term) bool { return t.op == "lookup" && t.args[0] == missing }
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if o, ok := e.textCalls(); ok {
				return o, true
			}
			switch {
			case e.Name == own("core/message.IsBroadcastMessage"):
				t := tApp("toAll", e.Args[0])
				t.typ = types.Typ[types.Bool]
				return []Out{{st: e.St, rets: []*Term{t}}}, true
			case strings.HasPrefix(e.Name, own("worker/interfaces.(MessageDispatcher).")):
				dest, msg := e.Args[0], e.Args[1]
				kind := kinds[e.St.auto["kind"]]
				if kind == nil {
					r.bad("asked", c, e.pos(), "undecided: a request outside of the missing messages")
					return e.inert(), true
				}
				e.St.add("asks")
				// kind is an element of the list of node
				var node *Term
				kind.walk(func(y *Term) {
					if isList(y) {
						node = y.args[1]
					}
				})
				toAll := e.St.truth(tApp("toAll", kind))
				typ := in.get(e.St, msg, f("Type"))
				k, ok := typ.intVal()
				r.check(ok && k == p.constInt("types/common.TssMessage_ASK_MESSAGE_REQUEST"), "asked", c+" type", e.pos(), "a message of type %s is sent", typ)
				to, from, work := in.get(e.St, msg, f("To")), in.get(e.St, msg, f("From")), in.get(e.St, msg, f("WorkId"))
				r.check(isMe(from, self), "asked", c+" from", e.pos(), "a request is from %s", from)
				r.check(work.op == "ld" && work.root() == self && work.args[0].op == "fa" && work.args[0].field == workF, "asked", c+" work", e.pos(), "a request is about work %s", work)
				many := p.sliceOfPtr(e.argType(0), pidT)
				sites[many] = true
				if many {
					s, none := to.strVal()
					r.check(toAll == 1 && dest.op == "ld" && dest.root() == self && none && s == "", "asked", c+" all", e.pos(), "a request goes to %s (as to %q) for %s; path: %s", dest, to, kind, e.St.path())
				} else {
					good := dest.mentions(func(y *Term) bool { return y == node })
					if id := in.partyID(e.St, dest); id != nil && e.St.known(id, node) == 1 {
						good = true
					}
					for q, v := range e.St.facts {
						good = good || v && q.op == "eq" && (q.args[0] == node && q.args[1].contains(dest) || q.args[1] == node && q.args[0].contains(dest))
					}
					good = good || dest == tNil // nobody has to send it
					r.check(toAll == 0 && good && to == node, "asked", c+" author", e.pos(), "a request goes to %s (as to %s) for what %s has to send; path: %s", dest, to, node, e.St.path())
				}
				name := textParts(in.get(e.St, in.get(e.St, msg, askF), keyF))
				var want []*Term
				for _, s := range kept {
					switch s {
					case "WorkId":
						want = append(want, work)
					case "From":
						want = append(want, node)
					case "Round":
						want = append(want, kind)
					case "To":
						if toAll != 1 {
							want = append(want, from)
						}
					default:
						want = append(want, tConstStr(strings.TrimPrefix(s, "\"")))
					}
				}
				has, asks := strings.Join(name, "|"), strings.Join(textParts(tApp("text", want...)), "|")
				r.check(has == asks, "name", c+map[bool]string{true: " all", false: " author"}[many], e.pos(), "a request is for %q, its author keeps it as %q; path: %s", has, asks, e.St.path())
				return e.inert(), true
			}
			return nil, false
		}
		in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
			if ld, ok := i.(*ssa.UnOp); ok {
				if ia, ok := ld.X.(*ssa.IndexAddr); ok && isList(in.val(fr, fr.env, ia.X)) {
					x := in.load(fr, st, in.val(fr, fr.env, ia), ld.Type(), i)
					if st.auto["kind"] != x.key {
						kinds[x.key] = x
						st.auto["kind"], st.auto["asks"] = x.key, ""
					}
				}
			}
		}
		in.eachElem(isList, func(fr *Frame, st *State, x *Term, h *ssa.BasicBlock) {
			r.check(st.auto["asks"] == "1", "asked", c+" each", instrPos(h.Instrs[0]), "%q requests are sent for a missing message; path: %s", st.auto["asks"], st.path())
			delete(st.auto, "asks")
			delete(st.auto, "kind")
		}, func(st *State, x *Term, at token.Pos) {
			r.bad("asked", c+" each", at, "the remaining missing messages are not asked for; path: %s", st.path())
		})
		// every node's list is gone through to its end
		in.OnBranch = func(fr *Frame, st *State, i *ssa.If, cond *Term, v bool) {
			if cond.op == "lt" && !v {
				cond.args[1].walk(func(y *Term) {
					if isList(y) {
						st.auto["end"] = y.key
					}
				})
			}
		}
		prev := in.OnBackEdge
		nodes := 0
		in.OnBackEdge = func(fr *Frame, st *State, h, from *ssa.BasicBlock) {
			prev(fr, st, h, from)
			for _, i := range h.Instrs {
				nx, ok := i.(*ssa.Next)
				if !ok || nx.IsString {
					continue
				}
				if rg, ok := nx.Iter.(*ssa.Range); !ok || in.val(fr, fr.env, rg.X) != missing {
					continue
				}
				nodes++
				tup := in.val(fr, fr.env, nx)
				r.check(tup.op == "tuple" && st.auto["end"] == tup.args[2].key, "asked", c+" nodes", instrPos(h.Instrs[0]), "not all missing messages of a node are asked for; path: %s", st.path())
				delete(st.auto, "end")
				st.auto["ranged"] = ""
			}
		}
		for _, o := range in.Run(root, nil, nil) {
			if o.panic {
				continue
			}
			_, most := o.st.bounds(toLin(tApp("len", missing)))
			over := most <= 0
			for q, v := range o.st.facts {
				over = over || !v && strings.Contains(q.key, "next") || v && q.op == "ld" && q.args[0].op == "atomicval" && q.args[0].args[0].op == "fa" && q.args[0].args[0].args[0] == self
			}
			r.check(over, "asked", c+" end", retPos(o), "what is missing is not asked for although the work was not stopped; path: %s", o.st.path())
		}
		r.Counts["paths"] += in.Paths
		if !sites[true] || !sites[false] || nodes == 0 {
			r.bad("asked", c, root.Pos(), "undecided: no requests were found")
		}
	}

	// sending
	for _, root := range p.impls("worker.JobCallback", "OnJobMessage") {
		in := p.interp()
		c := fname(root)
		self, m := in.paramTerm(root.Params[0]), in.paramTerm(root.Params[2])
		in.only(func(i ssa.Instruction) bool {
			return callsIface(i, "worker/interfaces.(MessageDispatcher)") || callsName(i, tssLib+"tss") || touches(i, func(t types.Type) bool { return namedAs(derefT(t), own(updT)) })
		})
		sites := map[bool]bool{}
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if o, ok := e.textCalls(); ok {
				return o, true
			}
			switch {
			case strings.HasPrefix(e.Name, tssLib+"tss.(Message)."):
				n := e.Name[strings.LastIndex(e.Name, ".")+1:]
				switch n {
				case "Type", "IsBroadcast", "GetTo":
					t := tApp("said."+n, e.Recv)
					t.typ = e.Site.Common().Signature().Results().At(0).Type()
					return []Out{{st: e.St, rets: []*Term{t}}}, true
				}
			case strings.HasPrefix(e.Name, own("worker/interfaces.(MessageDispatcher).")):
				dest, msg := e.Args[0], e.Args[1]
				many := p.sliceOfPtr(e.argType(0), pidT)
				sites[many] = true
				typ := in.get(e.St, msg, f("Type"))
				k, ok := typ.intVal()
				r.check(ok && k == p.constInt("types/common.TssMessage_UPDATE_MESSAGES"), "sent", c+" type", e.pos(), "a message of type %s is sent", typ)
				to, from, work := in.get(e.St, msg, f("To")), in.get(e.St, msg, f("From")), in.get(e.St, msg, f("WorkId"))
				r.check(isMe(from, self), "sent", c+" from", e.pos(), "a message is from %s", from)
				r.check(work.op == "ld" && work.root() == self && work.args[0].op == "fa" && work.args[0].field == workF, "sent", c+" work", e.pos(), "a message is about work %s", work)
				s, none := to.strVal()
				if many {
					r.check(none && s == "", "sent", c+" all", e.pos(), "a message to all parties is addressed to %s; path: %s", to, e.St.path())
				} else {
					r.check(!none && to.mentions(func(y *Term) bool { return y == dest }) && to.op == "ld" && to.args[0].op == "fa" && to.args[0].field.Name() == "Id", "sent", c+" one", e.pos(), "a message to %s is addressed to %s; path: %s", dest, to, e.St.path())
				}
				return e.inert(), true
			}
			return nil, false
		}
		n := 0
		in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, v *Term) {
			if addr.op == "fa" && addr.field == roundF {
				n++
				r.check(v.op == "said.Type" && (v.args[0] == m || namedAs(v.args[0].typ, tssLib+"tss.Message")), "sent", c+" kind", instrPos(i), "the kind of a message is given as %s; path: %s", v, st.path())
			}
		}
		keys := 0
		in.OnMapUpdate = func(fr *Frame, st *State, i *ssa.MapUpdate, mp, k, v *Term) {
			if mp.typ == nil || mp.root() != self || !strings.HasPrefix(mp.typ.Underlying().String(), "map[string][]"+tssLib+"tss.Message") {
				return
			}
			keys++
			kind, who := false, false
			k.walk(func(y *Term) {
				kind = kind || y.op == "said.Type" && y.args[0] == m
				who = who || y.op == "ld" && y.args[0].op == "fa" && y.args[0].field.Name() == "Id" && y.mentions(func(z *Term) bool { return z.op == "said.GetTo" && z.args[0] == m })
			})
			all := tApp("said.IsBroadcast", m)
			toAll := st.truth(all) == 1 || st.known(tApp("said.GetTo", m), tNil) == 1
			r.check(kind && (who || toAll), "sent", c+" apart", instrPos(i), "messages of different kinds or to different nodes are collected together under %s; path: %s", k, st.path())
		}
		in.Run(root, nil, nil)
		r.Counts["paths"] += in.Paths
		if keys == 0 {
			r.bad("sent", c, root.Pos(), "undecided: the messages of the jobs are not collected")
		}
		if !sites[true] || !sites[false] || n == 0 {
			r.bad("sent", c, root.Pos(), "undecided: sent to all %v, to one %v, kinds %d", sites[true], sites[false], n)
		}
	}

	// counting: what is told to the monitor
	{
		tell := func(i ssa.Instruction) bool {
			return callsIface(i, "worker/components.(MessageMonitor).NewMessageReceived")
		}
		give := p.leadsTo(func(i ssa.Instruction) bool { return callsName(i, tssLib+"tss.(Party).Update") })
		var roots []*ssa.Function
		set := p.leadsTo(tell)
		takes := func(fn *ssa.Function) bool {
			for _, q := range fn.Params[1:] {
				if namedAs(derefT(q.Type()), own(tssT)) {
					return true
				}
			}
			return false
		}
		for _, fn := range p.methodsOf("worker.WorkerExecutor") {
			if !set[fn] || !takes(fn) {
				continue
			}
			inner := false
			for _, e := range p.Graph().In[fn] {
				t := topFn(e.Caller)
				inner = inner || recvNamed(t) == recvNamed(fn) && set[t] && len(t.Params) > 0 && takes(t)
			}
			if !inner {
				roots = append(roots, fn)
			}
		}
		told := 0
		for _, root := range roots {
			in := p.interp()
			c := fname(root)
			var tm *Term
			for _, q := range root.Params {
				if namedAs(derefT(q.Type()), own(tssT)) {
					tm = in.paramTerm(q)
				}
			}
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				switch {
				case e.Name == tssLib+"tss.ParseWireMessage":
					outs := e.unknown()
					e.St.auto["sender"] = e.Args[1].key
					return outs, true
				case tell(e.Site):
					told++
					e.St.add("told")
					m, from := e.Args[0], e.Args[1]
					parsed := m.mentions(func(y *Term) bool {
						return strings.Contains(y.key, "ParseWireMessage") || y.op == "alloc" && y.typ != nil && strings.Contains(y.typ.String(), "ParsedMessage")
					})
					r.check(parsed, "counted", c+" message", e.pos(), "%s is counted, which is not what was received", m)
					r.check(from.key == e.St.auto["sender"], "counted", c+" sender", e.pos(), "a message is counted for %s; it is taken as one of %s", from, e.St.auto["sender"])
					id, au := in.partyID(e.St, from), in.get(e.St, tm, f("From"))
					r.check(id != nil && e.St.known(id, au) == 1, "counted", c+" author", e.pos(), "a message is counted for %s, which is not known to be the node that sent it; path: %s", from, e.St.path())
					return e.inert(), true
				}
				for _, cl := range p.Callees(e.Com) {
					if give[cl] && (e.Go || cl.Parent() == nil) {
						e.St.auto["given"] = "1"
						return e.inert(), true
					}
				}
				return nil, false
			}
			for _, o := range in.Run(root, nil, nil) {
				if o.panic {
					continue
				}
				want := map[bool]string{true: "1", false: ""}[o.st.auto["given"] != ""]
				r.check(o.st.auto["told"] == want, "counted", c, retPos(o), "a message which is given to the jobs (%v) is counted %q times; path: %s", want != "", o.st.auto["told"], o.st.path())
			}
			r.Counts["paths"] += in.Paths
		}
		if told == 0 {
			r.bad("counted", "worker.WorkerExecutor", 0, "undecided: received messages are not counted")
		}
	}

	// counting: what the monitor notes
	for _, root := range p.impls("worker/components.MessageMonitor", "NewMessageReceived") {
		in := p.interp()
		c := fname(root)
		self, m, from := in.paramTerm(root.Params[0]), in.paramTerm(root.Params[1]), in.paramTerm(root.Params[2])
		typ := tApp("said.Type", m)
		typ.typ = str
		author := tApp("said.GetFrom", m)
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if e.Com.IsInvoke() && e.Recv == m {
				switch e.Obj.Name() {
				case "Type":
					return []Out{{st: e.St, rets: []*Term{typ}}}, true
				case "GetFrom":
					author.typ = root.Params[2].Type()
					author.nonnil = true
					return []Out{{st: e.St, rets: []*Term{author}}}, true
				}
			}
			return nil, false
		}
		notes := 0
		in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, v *Term) {
			if addr.op != "ia" || v.typ == nil && !v.isConst() || addr.root() != self {
				return
			}
			if b, ok := v.boolVal(); !ok || !b {
				r.bad("counted", c+" note", instrPos(i), "%s is noted for a message", v)
				return
			}
			notes++
			base := addr.args[0]
			who := base.op == "lookup" && (base.args[1] == in.partyID(st, author) || base.args[1] == in.partyID(st, from))
			r.check(who, "counted", c+" author", instrPos(i), "a message is noted in %s, not for its author", base)
			same := false
			for q, ok := range st.facts {
				if q.op == "eq" && ok && (q.args[0] == typ || q.args[1] == typ) {
					for _, y := range q.args {
						same = same || y.op == "ld" && y.args[0].op == "ia" && y.args[0].args[1] == addr.args[1] && y.args[0].args[0].op == "ld" && y.root() == self
					}
				}
			}
			r.check(same, "counted", c+" kind", instrPos(i), "a message is noted as kind number %s; path: %s", addr.args[1], st.path())
			st.auto["noted"] = addr.args[1].key
		}
		// whoever finds the kind of the message notes it
		check := func(st *State, x *Term, at token.Pos) {
			if st.known(x, typ) == 1 {
				r.check(st.auto["noted"] != "", "counted", c+" each", at, "a message that was received is not noted; path: %s", st.path())
			}
		}
		isKinds := func(t *Term) bool { return t.typ != nil && t.typ.String() == "[]string" && t.root() == self }
		in.eachElem(isKinds, func(fr *Frame, st *State, x *Term, h *ssa.BasicBlock) {
			check(st, x, instrPos(h.Instrs[0]))
		}, func(st *State, x *Term, at token.Pos) {
			r.check(st.known(x, typ) == 1, "counted", c+" search", at, "the search for the kind of a message is given up; path: %s", st.path())
		})
		for _, o := range in.Run(root, nil, nil) {
			if o.panic {
				continue
			}
			looked := false
			for q, v := range o.st.facts {
				looked = looked || q.op == "eq" && (q.args[0] == typ || q.args[1] == typ) && v
			}
			r.check(!looked || o.st.auto["noted"] != "", "counted", c+" noted", retPos(o), "a message that was received is not noted; path: %s", o.st.path())
		}
		r.Counts["paths"] += in.Paths
		if notes == 0 {
			r.bad("counted", c, root.Pos(), "undecided: nothing is noted")
		}
	}

	rep := p.leadsTo(func(i ssa.Instruction) bool {
		return callsIface(i, "worker/components.(MessageMonitorCallback).OnMissingMesssageDetected")
	})
	// watching
	{
		mon := "worker/components.(MessageMonitor)."
		start := p.leadsTo(func(i ssa.Instruction) bool { return callsName(i, own("worker.(Job).Start")) })
		runs := 0
		for _, root := range p.entriesOf(start, "worker.WorkerExecutor") {
			in := p.interp()
			c := fname(root)
			self := in.paramTerm(root.Params[0])
			in.only(func(i ssa.Instruction) bool {
				return callsName(i, own("worker.(Job).Start")) || callsIface(i, mon) || callsName(i, own("worker/components.NewMessageMonitor"))
			})
			ofSelf := func(t *Term, typ string) bool { // a field of this type of the execution, or of its configuration
				return t.op == "ld" && t.root() == self && t.args[0].op == "fa" && (typ == "" || strings.HasSuffix(t.args[0].field.Type().String(), typ))
			}
			var made *Term
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				switch {
				case e.Name == own("worker/components.NewMessageMonitor"):
					for k, a := range e.Args {
						switch t := e.argType(k); {
						case namedAs(derefT(t), pidT):
							r.check(ofSelf(a, pidT), "watched", c+" node", e.pos(), "the monitor works for node %s", a)
						case p.isType(t, "worker/types.WorkType"):
							r.check(ofSelf(a, ".WorkType"), "watched", c+" type", e.pos(), "the monitor expects the messages of %s", a)
						case p.isType(t, "worker/components.MessageMonitorCallback"):
							r.check(unIface(a) == self, "watched", c+" callback", e.pos(), "what is missing is reported to %s", a)
						case strings.HasPrefix(t.Underlying().String(), "map"):
							r.check(ofSelf(a, ""), "watched", c+" parties", e.pos(), "the monitor expects messages of %s", a)
						case t.String() == "time.Duration":
							r.check(ofSelf(a, "") && a.args[0].field == p.fieldVar("core/config.TimeoutConfig", "MonitorMessageTimeout"), "watched", c+" time", e.pos(), "messages are missing after %s", a)
						}
					}
					outs := e.unknown()
					made = unIface(outs[0].rets[0])
					outs[0].rets[0].nonnil = true
					return outs, true
				case e.Name == own(mon+"Start"):
					r.check(e.Go && unIface(e.Recv) == made, "watched", c+" started", e.pos(), "monitor %s is started (in its own goroutine: %v)", e.Recv, e.Go)
					e.St.add("watch")
					return e.inert(), true
				case e.Name == own("worker.(Job).Start"):
					runs++
					r.check(e.St.auto["watch"] == "1", "watched", c+" first", e.pos(), "a job is started while %q monitors are running; path: %s", e.St.auto["watch"], e.St.path())
					return e.unknown(), true
				}
				return nil, false
			}
			in.Run(root, nil, nil)
			r.Counts["paths"] += in.Paths
		}
		if runs == 0 {
			r.bad("watched", "worker.WorkerExecutor", 0, "undecided: no job is started")
		}
		// the end of an execution, and only that, ends the watching
		ends := 0
		ending := func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			return callsIface(i, mon+"Stop") || ok && p.dynCall(ci.Common(), "worker.WorkerExecutor", "worker.ExecutionResult")
		}
		for _, root := range p.methodsOf("worker.WorkerExecutor") {
			// the lowest functions that contain both
			if !leadsBoth(p, root, ending) {
				continue
			}
			inner := false
			for _, b := range root.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok {
						for _, cl := range p.Callees(ci.Common()) {
							inner = inner || recvNamed(topFn(cl)) == recvNamed(root) && leadsBoth(p, cl, ending)
						}
					}
				}
			}
			if inner {
				continue
			}
			in := p.interp()
			c := fname(root)
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				switch {
				case e.Name == own(mon+"Stop"):
					e.St.add("stops")
					return e.inert(), true
				case p.dynCall(e.Com, "worker.WorkerExecutor", "worker.ExecutionResult"):
					ends++
					e.St.add("ends")
					return e.unknown(), true
				}
				return nil, false
			}
			for _, o := range in.Run(root, nil, nil) {
				if o.panic {
					continue
				}
				a := o.st.auto
				none := false
				for q, n := range o.st.eq {
					none = none || n == tNil && q.typ != nil && p.isType(q.typ, "worker/components.MessageMonitor")
				}
				r.check(a["stops"] == a["ends"] || none && a["stops"] == "", "watched", c+" end", retPos(o), "the execution ends %q times and the watching %q times; path: %s", a["ends"], a["stops"], o.st.path())
			}
			r.Counts["paths"] += in.Paths
		}
		if ends == 0 {
			r.bad("watched", "worker.WorkerExecutor end", 0, "undecided: no end of an execution stops the monitor")
		}
		for _, root := range p.impls("worker/components.MessageMonitor", "Stop") {
			in := p.interp()
			self := in.paramTerm(root.Params[0])
			for _, o := range in.Run(root, nil, nil) {
				set := false
				for a, v := range o.st.mem {
					b, ok := v.boolVal()
					set = set || ok && b && a.op == "atomicval" && a.contains(self)
				}
				r.check(o.panic || set, "watched", fname(root), retPos(o), "the watching is not stopped; path: %s", o.st.path())
			}
		}
		for _, root := range p.impls("worker/components.MessageMonitor", "Start") {
			in := p.interp()
			c := fname(root)
			self := in.paramTerm(root.Params[0])
			loops := 0
			one := func(e *CallEvent, t *Term) ([]Out, bool) {
				t.typ = e.Site.Common().Signature().Results().At(0).Type()
				return []Out{{st: e.St, rets: []*Term{t}}}, true
			}
			direct := p.leadsTo(func(i ssa.Instruction) bool { return chosenIn(i) != nil })
			mine := func(t *Term, typ string) bool {
				return t.op == "ld" && t.root() == self && t.args[0].op == "fa" && t.args[0].args[0] == self && t.typ != nil && t.typ.String() == typ
			}
			due := func(t *Term) bool { // the time from which on messages are missing
				return t.op == "tadd" && mine(t.args[0], "time.Time") && mine(t.args[1], "time.Duration")
			}
			recent := func(st *State) int {
				for q, v := range st.facts {
					b := map[bool]int{true: 1, false: 0}
					switch {
					case q.op == "tlt" && q.args[0].op == "tnow" && due(q.args[1]):
						return b[v]
					case q.op == "tlt" && due(q.args[0]) && q.args[1].op == "tnow":
						return b[!v]
					}
				}
				for q := range st.iv {
					var since, limit *Term
					q.walk(func(y *Term) {
						if y.op == "tsince" && mine(y.args[0], "time.Time") {
							since = y
						}
						if mine(y, "time.Duration") {
							limit = y
						}
					})
					if since != nil && limit != nil {
						lo, hi := st.bounds(linSub(toLin(since), toLin(limit)))
						switch {
						case hi <= 0:
							return 1
						case lo >= 0:
							return 0
						}
					}
				}
				return -1
			}
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				switch e.Name {
				case "time.Now":
					return one(e, tApp("tnow"))
				case "time.(Time).Add":
					return one(e, tApp("tadd", e.Recv, e.Args[0]))
				case "time.(Time).After":
					return one(e, tApp("tlt", e.Args[0], e.Recv))
				case "time.(Time).Before":
					return one(e, tApp("tlt", e.Recv, e.Args[0]))
				case "time.Since":
					return one(e, tApp("tsince", e.Args[0]))
				case "time.(Time).Sub":
					if e.Recv.op == "tnow" {
						return one(e, tApp("tsince", e.Args[0]))
					}
				}
				for _, cl := range p.Callees(e.Com) {
					if rep[cl] && direct[cl] && !callsTime(cl) {
						r.check(recent(e.St) != 1, "watched", c+" due", e.pos(), "messages are reported missing although one came within the time; path: %s", e.St.path())
						e.St.auto["looked"] = "1"
						return e.inert(), true
					}
				}
				return nil, false
			}
			in.OnBackEdge = func(fr *Frame, st *State, h, from *ssa.BasicBlock) {
				if fr.fn == root {
					loops++
					r.check(st.auto["looked"] != "" || recent(st) == 1, "watched", c+" looks", instrPos(h.Instrs[0]), "the time is over and what is missing is not looked for; path: %s", st.path())
					delete(st.auto, "looked")
				}
			}
			for _, o := range in.Run(root, nil, nil) {
				if o.panic {
					continue
				}
				over := false
				for q, v := range o.st.facts {
					over = over || v && q.op == "ld" && q.args[0].op == "atomicval" && q.args[0].args[0].op == "fa" && q.args[0].args[0].args[0] == self
				}
				r.check(over, "watched", c+" goes on", retPos(o), "the watching ends though it was not stopped; path: %s", o.st.path())
			}
			r.Counts["paths"] += in.Paths
			if loops == 0 {
				r.bad("watched", c+" goes on", root.Pos(), "undecided: the watching does not go on")
			}
		}
	}

	// what is reported
	{
		puts, kindsN := 0, 0
		for _, root := range p.methodsOf("worker/components.DefaultMessageMonitor") {
			picks := p.leadsTo(func(i ssa.Instruction) bool { return chosenIn(i) != nil })
			if !rep[root] || !picks[root] || callsTime(root) {
				continue
			}
			scans := func(h *ssa.BasicBlock) bool { // what is missing of one node is found in this loop
				for _, b := range h.Parent().Blocks {
					for _, x := range loopHeads(b) {
						if x != h {
							continue
						}
						for _, i := range b.Instrs {
							if chosenIn(i) != nil {
								return true
							}
							if ci, ok := i.(ssa.CallInstruction); ok {
								for _, cl := range p.Callees(ci.Common()) {
									if picks[cl] {
										return true
									}
								}
							}
						}
					}
				}
				return false
			}
			choosing := map[*ssa.BasicBlock]ssa.Value{}
			for _, fn := range p.Funcs {
				for _, b := range fn.Blocks {
					for _, i := range b.Instrs {
						if h := chosenIn(i); h != nil {
							choosing[h] = i.(*ssa.Store).Val.(*ssa.UnOp).X.(*ssa.IndexAddr).Index
						}
					}
				}
			}
			after := map[ssa.Instruction]bool{} // once all kinds were gone through
			for h := range choosing {
				for _, b := range h.Succs {
					inside := false
					for _, x := range loopHeads(b) {
						inside = inside || x == h
					}
					after[b.Instrs[0]] = after[b.Instrs[0]] || !inside
				}
			}
			in := p.interp()
			c := fname(root)
			self := in.paramTerm(root.Params[0])
			in.Forget = true
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				if strings.HasPrefix(e.Name, own("worker/components.(MessageMonitorCallback).")) {
					e.St.auto["told"] = "1"
					return e.inert(), true
				}
				return nil, false
			}
			in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
				if after[i] {
					st.auto["scanned"] = "1"
				}
			}
			in.OnBackEdge = func(fr *Frame, st *State, h, from *ssa.BasicBlock) { // every iteration is judged by itself
				received := func(at *Term) bool {
					for q, ok := range st.facts {
						if ok && q.op == "ld" && q.args[0].op == "ia" && q.args[0].args[1] == at && q.typ != nil && q.typ.String() == "bool" {
							return true
						}
					}
					return false
				}
				isInt := func(x *ssa.Phi) bool { return x.Type().Underlying().String() == "int" }
				for _, i := range h.Instrs {
					nx, ok := i.(*ssa.Next)
					if !ok || nx.IsString || !scans(h) {
						continue
					}
					good := st.auto["mapped"] != "" || st.auto["scanned"] != "" && st.auto["got"] == ""
					if tup := in.val(fr, fr.env, nx); tup.op == "tuple" {
						for q, ok := range st.facts {
							if q.op == "eq" && ok {
								for n := range q.args {
									good = good || q.args[n] == tup.args[1] && isMe(q.args[1-n], self)
								}
							}
						}
					}
					none := func(q *Term) bool { return isLen(q) && q.args[0].typ != nil && q.args[0].typ.String() == "[]string" }
					for q, n := range st.eq {
						good = good || none(q) && n.key == tInt(0).key
					}
					for q, n := range st.iv {
						good = good || none(q) && n.hi <= 0
					}
					r.check(good, "found", c+" nodes", instrPos(h.Instrs[0]), "what is missing of a node is not reported; path: %s", st.path())
					for _, k := range []string{"mapped", "scanned", "got"} {
						delete(st.auto, k)
					}
				}
				if idx := choosing[h]; idx != nil {
					at := in.val(fr, fr.env, idx)
					good := st.auto["put"] != "" || received(at)
					for _, b := range fr.fn.Blocks { // later than the last that was received
						for _, i := range b.Instrs {
							if x, ok := i.(*ssa.Phi); ok && isInt(x) && fr.env[x] != nil && b != h {
								lo, _ := st.bounds(linSub(toLin(at), toLin(fr.env[x])))
								good = good || lo >= 1
							}
						}
					}
					for _, q := range fr.fn.Params {
						if q.Type().Underlying().String() == "int" {
							lo, _ := st.bounds(linSub(toLin(at), toLin(fr.env[q])))
							good = good || lo >= 1
						}
					}
					r.check(good, "found", c+" each", instrPos(h.Instrs[0]), "a kind of message that was not received is left out; path: %s", st.path())
				} else {
					// what was received raises the last that was
					for q, ok := range st.facts {
						if !ok || q.op != "ld" || q.args[0].op != "ia" || q.typ == nil || q.typ.String() != "bool" {
							continue
						}
						at, mine, good := q.args[0].args[1], false, false
						for _, i := range h.Instrs {
							x, ok := i.(*ssa.Phi)
							if !ok || !isInt(x) {
								continue
							}
							for k, pr := range h.Preds {
								if pr == from {
									v := in.val(fr, fr.env, x.Edges[k])
									if y := fr.env[x]; steps(x, x.Edges[k]) && y != nil && !y.isConst() && !at.isConst() && at.contains(y) {
										mine = true
									}
									if steps(x, x.Edges[k]) || fr.env[x] == nil {
										continue
									}
									lo, _ := st.bounds(linSub(toLin(v), toLin(at)))
									keep, _ := st.bounds(linSub(toLin(v), toLin(fr.env[x])))
									good = good || lo >= 0 && keep >= 0
								}
							}
						}
						r.check(!mine || good, "found", c+" last", instrPos(h.Instrs[0]), "a message that was received does not count for the last kind that was; path: %s", st.path())
					}
				}
				delete(st.auto, "put")
				for q := range st.facts {
					if q.op != "eq" {
						delete(st.facts, q)
					}
				}
				st.eq, st.iv = map[*Term]*Term{}, map[*Term]ival{}
			}
			in.OnMapUpdate = func(fr *Frame, st *State, i *ssa.MapUpdate, m, k, v *Term) {
				if m.typ == nil || m.typ.Underlying().String() != "map[string][]string" {
					return
				}
				puts++
				st.auto["mapped"] = "1"
				other := false
				for q, ok := range st.facts {
					if q.op == "eq" && !ok {
						for n := range q.args {
							other = other || q.args[n] == k && isMe(q.args[1-n], self)
						}
					}
				}
				r.check(other, "found", c+" party", instrPos(i), "messages of %s, which may be this node itself, are reported missing; path: %s", k, st.path())
			}
			in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, v *Term) {
				if addr.op != "ia" || v.typ == nil || addr.root().op != "alloc" {
					return
				}
				if sv, ok := i.(*ssa.Store); !ok || sv.Addr.Type().String() != "*string" {
					return
				}
				kindsN++
				r.check(v.op == "ld" && v.args[0].op == "ia" && v.root() == self && v.args[0].args[0].typ != nil && v.args[0].args[0].typ.String() == "[]string", "found", c+" kind", instrPos(i), "%s is reported missing, which is not a kind of the work's messages", v)
				if v.op != "ld" || v.args[0].op != "ia" {
					return
				}
				at := v.args[0].args[1]
				not, loop := false, false
				for q, ok := range st.facts {
					not = not || !ok && q.op == "ld" && q.args[0].op == "ia" && q.args[0].args[1] == at && q.typ != nil && q.typ.String() == "bool"
				}
				loop = chosenIn(i) != nil
				st.auto["put"], st.auto["got"] = "1", "1"
				r.check(not || !loop, "found", c+" not received", instrPos(i), "message %s is reported missing, which may have been received; path: %s", v, st.path())
			}
			for _, o := range in.Run(root, nil, nil) {
				if o.panic || o.st.auto["told"] != "" {
					continue
				}
				none := func(q *Term) bool {
					return isLen(q) && q.args[0].typ != nil && q.args[0].typ.Underlying().String() == "map[string][]string"
				}
				empty := false
				for q, n := range o.st.eq {
					empty = empty || none(q) && n.key == tInt(0).key
				}
				for q, n := range o.st.iv {
					empty = empty || none(q) && n.hi <= 0
				}
				r.check(empty || o.st.auto["mapdirty"] == "" && !strings.Contains(strings.Join(o.st.trace, ""), "next"), "found", c+" told", retPos(o), "what is missing is not reported; path: %s", o.st.path())
			}
			r.Counts["paths"] += in.Paths
		}
		if puts == 0 || kindsN == 0 {
			r.bad("found", "worker/components.DefaultMessageMonitor", 0, "undecided: nothing is reported missing")
		}
	}
	r.floor("asked", 8)
	r.floor("name", 4)
	r.floor("sent", 6)
	r.floor("counted", 6)
	r.floor("watched", 6)
	r.floor("found", 2)
}

// leadsBoth: fn contains, with what it calls, both the stopping of the monitor and the report of the end.
func leadsBoth(p *Program, fn *ssa.Function, ending func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	a, b := false, false
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, bl := range f.Blocks {
			for _, i := range bl.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if ending(i) {
					if ci.Common().IsInvoke() {
						a = true
					} else {
						b = true
					}
					continue
				}
				for _, cl := range p.Callees(ci.Common()) {
					if recvNamed(topFn(cl)) == recvNamed(topFn(fn)) {
						walk(cl)
					}
				}
			}
		}
	}
	walk(fn)
	return a && b
}

// loopHeads are the headers of the loops a block is in.
func loopHeads(b *ssa.BasicBlock) []*ssa.BasicBlock {
	var r []*ssa.BasicBlock
	for _, h := range b.Parent().Blocks {
		for _, q := range h.Preds {
			if h.Dominates(q) && h.Dominates(b) && reachesWithin(b, q, h) {
				r = append(r, h)
				break
			}
		}
	}
	return r
}

// reachesWithin: from a there is a way to b that does not pass h.
func reachesWithin(a, b, h *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if s != h && walk(s) {
				return true
			}
		}
		return false
	}
	return walk(a)
}

// steps: the edge is the loop variable one further.
func steps(x *ssa.Phi, e ssa.Value) bool {
	b, ok := e.(*ssa.BinOp)
	return ok && (b.X == ssa.Value(x) || b.Y == ssa.Value(x))
}

// chosenIn: a kind of message is stored that the loop with this header picks from a list of kinds.
func chosenIn(i ssa.Instruction) *ssa.BasicBlock {
	sv, ok := i.(*ssa.Store)
	if !ok {
		return nil
	}
	ld, ok := sv.Val.(*ssa.UnOp)
	if !ok {
		return nil
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok || ia.X.Type().Underlying().String() != "[]string" {
		return nil
	}
	d, ok := ia.Index.(ssa.Instruction)
	if !ok {
		return nil
	}
	for _, h := range loopHeads(i.Block()) {
		if h == d.Block() {
			return h
		}
	}
	return nil
}

// callsTime: fn itself asks for the time.
func callsTime(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if callsName(i, "time.") {
				return true
			}
		}
	}
	return false
}
