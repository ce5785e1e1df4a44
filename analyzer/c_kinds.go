package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", true, checkMessageKinds)
}

// kind of protocol message, as the sources of the threshold library have it.
type kind struct {
	name  string
	ptr   types.Type // *T
	all   bool       // sent to all parties
	round int64
}

func inPkg(f *ssa.Function, path string) bool {
	f = topFn(f)
	return f.Pkg != nil && f.Pkg.Pkg.Path() == path
}

// kindsOf are the message kinds of one protocol in the order of their rounds.
func (p *Program) kindsOf(path string) []*kind {
	isContent := func(t types.Type) bool { return namedAs(t, tssLib+"tss.MessageContent") }
	byCtor := map[*ssa.Function]*kind{}
	var r []*kind
	byName := map[string]*kind{}
	for _, f := range p.LibFuncs {
		if !inPkg(f, path) || f.Parent() != nil || f.Signature.Recv() != nil {
			continue
		}
		var typ types.Type
		var all, routed bool
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch v := i.(type) {
				case *ssa.MakeInterface:
					if isContent(v.Type()) {
						typ = v.X.Type()
					}
				case *ssa.Alloc:
					routed = routed || namedAs(derefT(v.Type()), tssLib+"tss.MessageRouting")
				case *ssa.Store:
					fa, ok := v.Addr.(*ssa.FieldAddr)
					if !ok || !namedAs(derefT(fa.X.Type()), tssLib+"tss.MessageRouting") {
						continue
					}
					if p.structField(derefT(fa.X.Type()), fa.Field).Name() == "IsBroadcast" {
						if c, ok := v.Val.(*ssa.Const); ok && c.Value != nil {
							all = constant.BoolVal(c.Value)
						}
					}
				}
			}
		}
		if typ == nil || !routed {
			continue
		}
		n := types.TypeString(derefT(typ), nil)
		k := byName[n]
		if k == nil {
			k = &kind{name: n, ptr: typ, all: all, round: -1}
			byName[n] = k
			r = append(r, k)
		} else if k.all != all {
			panic("the library sends " + n + " in two ways")
		}
		byCtor[f] = k
	}
	// the round of the function that makes the message
	for _, f := range p.LibFuncs {
		if !inPkg(f, path) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || byCtor[c.Common().StaticCallee()] == nil {
					continue
				}
				k := byCtor[c.Common().StaticCallee()]
				if n := p.roundNumber(recvNamed(topFn(f))); n >= 0 {
					k.round = n
				}
			}
		}
	}
	for _, k := range r {
		if k.round < 0 {
			panic("the round of " + k.name + " could not be found")
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].round < r[j].round })
	return r
}

// roundNumber is the constant the methods of a round store as its number.
func (p *Program) roundNumber(tn *types.TypeName) int64 {
	if tn == nil {
		return -1
	}
	for _, f := range p.LibFuncs {
		if recvNamed(f) != tn {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || p.structField(derefT(fa.X.Type()), fa.Field).Name() != "number" {
					continue
				}
				if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil {
					return c.Int64()
				}
			}
		}
	}
	return -1
}

// initState: what the variables of a package are set to before anything runs.
func (p *Program) initState(f *ssa.Function) *State {
	ini := f.Pkg.Func("init")
	if ini == nil || ini.Blocks == nil {
		return nil
	}
	in := p.kindInterp()
	on := in.OnCall
	in.OnCall = func(e *CallEvent) ([]Out, bool) {
		if c := e.Com.StaticCallee(); c != nil && c.Name() == "init" && c.Signature.Recv() == nil {
			return e.inert(), true
		}
		return on(e)
	}
	for _, o := range in.Run(ini, nil, nil) {
		if !o.panic && len(o.st.mem) > 1 {
			return o.st
		}
	}
	return nil
}

// kindInterp gives the name of a message kind as a constant.
func (p *Program) kindInterp() *Interp {
	in := p.interp()
	in.Unroll = true
	in.MaxStep = 100_000
	in.OnCall = func(e *CallEvent) ([]Out, bool) {
		if strings.HasSuffix(e.Name, "/proto.MessageName") && len(e.Args) == 1 && e.Args[0].op == "iface" {
			return []Out{{st: e.St, rets: []*Term{tConst(constant.MakeString(types.TypeString(derefT(e.Args[0].typ), nil)))}}}, true
		}
		if strings.HasPrefix(e.Name, "github.com/sisu-network/lib/log.") {
			return e.inert(), true
		}
		return nil, false
	}
	return in
}

// results of a function for constant arguments: the same on every path.
func (p *Program) evaluate(f *ssa.Function, args ...*Term) (in *Interp, st *State, rets []*Term, ok bool) {
	in = p.kindInterp()
	for _, o := range in.Run(f, p.initState(f), args) {
		if o.panic {
			return in, o.st, nil, false
		}
		if rets != nil {
			for k := range rets {
				if rets[k] != o.rets[k] {
					return in, o.st, nil, false
				}
			}
		}
		st, rets = o.st, o.rets
	}
	return in, st, rets, rets != nil
}

func checkMessageKinds(r *Report) {
	p := r.P
	r.rule("expected", "for each work type the kinds of messages that are expected are those its protocol sends, in the order of the rounds")
	r.rule("to-all", "a kind is taken to be for everybody exactly when the protocol sends it to all parties")
	r.rule("round", "every kind of message is known, and kinds belong to the same round exactly when they do in the protocol")
	r.rule("count", "a job has sent everything when it sent all kinds; without a message to sign all but those of the last round; with a presign only those of the last round")
	r.rule("counted", "the kinds a job sent are counted by their names, against the number for its own type, presign and message")
	listF, countF := p.fn("core/message.GetMessagesByWorkType"), p.fn("core/message.GetMessageCountByWorkType")
	allF, roundF := p.fn("core/message.IsBroadcastMessage"), p.fn("core/message.GetMsgRound")
	short := func(n string) string { return strings.TrimPrefix(n, tssLib) }
	rounds := map[string]string{}
	for _, wt := range workTypes {
		path := tssLib + strings.ToLower(wt[:2]) + "dsa/" + strings.ToLower(wt[2:])
		kinds := p.kindsOf(path)
		if len(kinds) < 3 {
			r.bad("expected", wt, 0, "only %d kinds of messages were found in %s", len(kinds), path)
			continue
		}
		arg := tInt(p.constInt("worker/types." + wt))
		// the list
		in, st, rets, ok := p.evaluate(listF, arg)
		var ps []part
		if ok {
			ps, ok = in.seqOf(st, rets[0])
		}
		var names []string
		for _, q := range ps {
			s, isStr := "", false
			if q.elem != nil {
				s, isStr = unConv(q.elem).strVal()
			}
			ok = ok && isStr
			names = append(names, s)
		}
		if !ok {
			r.bad("expected", wt, listF.Pos(), "the expected kinds could not be determined")
		} else {
			roundOf := map[string]int64{}
			for _, k := range kinds {
				roundOf[k.name] = k.round
			}
			last := int64(0)
			seen := map[string]bool{}
			for _, n := range names {
				rd, known := roundOf[n]
				r.check(known && !seen[n], "expected", wt+" "+short(n), listF.Pos(), "%s is expected but not a kind of this protocol, or twice", short(n))
				r.check(rd >= last, "expected", wt+" order of "+short(n), listF.Pos(), "%s of round %d comes after a message of round %d", short(n), rd, last)
				seen[n] = true
				last = rd
			}
			for _, k := range kinds {
				r.check(seen[k.name], "expected", wt+" has "+short(k.name), listF.Pos(), "%s is sent but not expected", short(k.name))
			}
		}
		// for everybody, and round
		byRound := map[int64]string{}
		for _, k := range kinds {
			_, _, rets, ok := p.evaluate(allF, tConst(constant.MakeString(k.name)))
			b, isB := false, false
			if ok {
				b, isB = rets[0].boolVal()
				if x := rets[0]; x.op == "lookup" && x.args[0].op == "alloc" && x.args[1].isConst() {
					b, isB = false, true // a table without this kind
				}
			}
			r.check(ok && isB && b == k.all, "to-all", short(k.name), allF.Pos(), "%s is sent to all: %v, but taken to be: %v", short(k.name), k.all, b)
			_, st, rets, ok := p.evaluate(roundF, tIface(k.ptr, tSymNN("content", "", k.ptr)))
			if !ok || len(rets) != 2 || st.known(rets[1], tNil) != 1 {
				r.bad("round", short(k.name), roundF.Pos(), "%s is refused as unknown", short(k.name))
				continue
			}
			got := rets[0].String()
			if byRound[k.round] == "" {
				byRound[k.round] = got
				r.check(rounds[got] == "", "round", short(k.name), roundF.Pos(), "%s is taken to be of the same round as %s", short(k.name), rounds[got])
				rounds[got] = short(k.name)
			} else {
				r.check(byRound[k.round] == got, "round", short(k.name), roundF.Pos(), "%s is taken to be of another round than the other messages of its round", short(k.name))
			}
		}
		// how many
		lastRound := kinds[len(kinds)-1].round
		inLast := 0
		for _, k := range kinds {
			if k.round == lastRound {
				inLast++
			}
		}
		for _, c := range []struct {
			what          string
			presign, bare bool
			n             int
		}{{"", false, false, len(kinds)}, {" without a message", false, true, len(kinds) - inLast}, {" with a presign", true, false, inLast}} {
			if c.what != "" && wt != "EcSigning" {
				continue
			}
			_, _, rets, ok := p.evaluate(countF, arg, tBool(c.presign), tBool(c.bare))
			n, isN := int64(-1), false
			if ok {
				n, isN = rets[0].intVal()
			}
			r.check(isN && n == int64(c.n), "count", wt+c.what, countF.Pos(), "%d kinds are expected to be sent instead of %d", n, c.n)
		}
	}
	r.floor("expected", 20)
	r.floor("to-all", 12)
	r.floor("round", 12)
	r.floor("count", 5)
	checkKindsCounted(r, countF)
	r.floor("counted", 3)
}

// checkKindsCounted looks at the places that compare what was sent with what there is to send.
func checkKindsCounted(r *Report, countF *ssa.Function) {
	p := r.P
	jobs := p.interpJobs()
	roots := map[*ssa.Function]bool{}
	for _, c := range p.callersOf(countF) {
		roots[topFn(c.Parent())] = true
	}
	for root := range roots {
		if recvNamed(root) == nil || recvNamed(root) != p.typ("worker.Job").Obj() {
			r.bad("counted", fname(root), root.Pos(), "the number of kinds is used outside of a job and could not be decided")
			continue
		}
		for _, j := range jobs {
			in := p.interp()
			c := fname(root) + " for " + j.what
			var num *Term
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				if e.Com.StaticCallee() == countF {
					n, ok := e.St.resolve(e.Args[0]).intVal()
					r.check(ok && n == p.constInt("worker/types."+j.wt), "counted", c+" type", e.pos(), "the kinds of type %s are counted", e.Args[0])
					if j.wt == "EcSigning" {
						r.check(e.St.truth(e.Args[1]) == b2i(j.presign), "counted", c+" presign", e.pos(), "having a presign is taken to be %s", e.Args[1])
						r.check(e.St.truth(e.Args[2]) == b2i(j.bare), "counted", c+" message", e.pos(), "having no message is taken to be %s", e.Args[2])
					}
					num = tSym("kinds", "", types.Typ[types.Int])
					return []Out{{st: e.St, rets: []*Term{num}}}, true
				}
				if strings.HasSuffix(e.Name, "Bool).Store") && len(e.Args) == 1 && e.Args[0] == tTrue {
					e.St.auto["set"] = "1"
				}
				return nil, false
			}
			in.OnMapUpdate = func(fr *Frame, st *State, i *ssa.MapUpdate, m, k, v *Term) {
				if k.mentions(func(y *Term) bool { return strings.HasSuffix(y.op, ").Type:0") }) && !(v == tFalse) {
					st.auto["noted"] = m.key
				} else if b, ok := i.Key.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					r.bad("counted", c, i.Pos(), "what was sent is noted as %s; path: %s", k, st.path())
				}
			}
			in.OnBranch = func(fr *Frame, st *State, i *ssa.If, cond *Term, v bool) {
				if num == nil || !cond.mentions(func(y *Term) bool { return y == num }) {
					return
				}
				x := cond
				neg := false
				for x.op == "not" {
					x, neg = x.args[0], !neg
				}
				other := func() *Term {
					if len(x.args) != 2 {
						return nil
					}
					if x.args[0] == num {
						return x.args[1]
					}
					if x.args[1] == num {
						return x.args[0]
					}
					return nil
				}()
				ok := other != nil && st.auto["noted"] != "" && other.op == "len" && other.args[0].key == st.auto["noted"]
				all := false
				switch {
				case !ok:
				case x.op == "eq":
					all = v != neg
				case x.op == "lt" && x.args[1] == num: // len < num: not all
					all = (v != neg) == false
				default:
					ok = false
				}
				r.check(ok, "counted", c, instrPos(i), "the kinds that were sent are compared as %s; path: %s", cond, st.path())
				if all {
					st.auto["all"] = "1"
				} else {
					st.auto["all"] = "0"
				}
			}
			n := 0
			for _, o := range in.Run(root, j.st.clone(), append([]*Term{j.job}, in.paramsFrom(root, 1)...)) {
				if o.panic || o.st.auto["all"] == "" {
					continue
				}
				n++
				r.check((o.st.auto["all"] == "1") == (o.st.auto["set"] == "1"), "counted", c, retPos(o), "everything counts as sent (%s) but is noted so: %s; path: %s", o.st.auto["all"], o.st.auto["set"], o.st.path())
			}
			r.check(n >= 2, "counted", c, root.Pos(), "the number of kinds that were sent is not compared with the number there are")
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (in *Interp) paramsFrom(f *ssa.Function, n int) []*Term {
	var r []*Term
	for _, q := range f.Params[n:] {
		r = append(r, in.paramTerm(q))
	}
	return r
}

// builtJob is a job as one of the constructors makes it.
type builtJob struct {
	what, wt      string
	presign, bare bool
	st            *State
	job           *Term
}

func (p *Program) interpJobs() []builtJob {
	var r []builtJob
	job := p.typ("worker.Job")
	for _, f := range p.Funcs {
		rs := f.Signature.Results()
		if f.Parent() != nil || f.Signature.Recv() != nil || rs.Len() != 1 || !types.Identical(derefT(rs.At(0).Type()), job) || !f.Object().Exported() {
			continue
		}
		for mask := 0; mask < 4; mask++ {
			presign, bare := mask&1 != 0, mask&2 != 0
			in := p.interp()
			wt := ""
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				if strings.HasPrefix(e.Name, tssLib) {
					if strings.HasSuffix(e.Name, ".NewLocalParty") {
						q := strings.Split(strings.TrimPrefix(e.Name, tssLib), "/") // ecdsa keygen.NewLocalParty
						wt = strings.ToUpper(q[0][:1]) + q[0][1:2] + strings.ToUpper(q[1][:1]) + strings.TrimSuffix(q[1][1:], ".NewLocalParty")
					}
					return e.unknown(), true
				}
				return nil, false
			}
			var args []*Term
			has := false
			for _, q := range f.Params {
				switch {
				case namedAs(derefT(q.Type()), tssLib+"ecdsa/signing.SignatureData_OneRoundData"):
					has = true
					args = append(args, opt(presign, in, q))
				case types.TypeString(q.Type().Underlying(), nil) == "[]byte":
					args = append(args, opt(!bare, in, q))
				default:
					args = append(args, in.paramTerm(q))
				}
			}
			if !has && mask != 0 || presign && bare {
				continue
			}
			for _, o := range in.Run(f, nil, args) {
				if o.panic || len(o.rets) != 1 {
					continue
				}
				r = append(r, builtJob{what: fname(f) + map[int]string{0: "", 1: " with a presign", 2: " without a message"}[mask], wt: wt, presign: presign, bare: bare, st: o.st, job: o.rets[0]})
				break
			}
		}
	}
	return r
}

func opt(there bool, in *Interp, q *ssa.Parameter) *Term {
	if there {
		return tSymNN(q.Name(), "", q.Type())
	}
	return tNil
}
