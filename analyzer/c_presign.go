package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", false, checkPresignUse)
}

// presignTable: the table of presign sets, by the parties they belong to.
func (p *Program) presignTable(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && p.sliceOfPtr(m.Elem(), p.typ("types/common.AvailablePresign").String())
}

// returnSources: what the idx-th result of f is made from.
func (p *Program) returnNodes(f *ssa.Function, idx int, control bool, stop func(Source) bool) map[ssa.Value]bool {
	sl := p.slicer(stop)
	sl.Control = control
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
			sl.Run(r.Results[idx])
		}
	}
	return sl.Nodes
}

func emptyPair(st *State, t *Term) bool {
	if t == tNil {
		return true
	}
	n, ok := st.resolve(tLen(t)).intVal()
	return ok && n == 0 || len(st.flat(t)) == 0
}

func checkPresignUse(r *Report) {
	p := r.P
	r.rule("taken", "presigns that are handed out are exactly those taken out of the table of available ones, which is looked at and changed in one critical section, and as many as asked for")
	r.rule("marked", "presigns are handed out only after they were marked as used in the database without an error")
	r.rule("parties", "a set of presigns is chosen only after every party it belongs to was found among the available ones")
	r.rule("added", "presigns become available only when they were loaded as unused or saved without an error, under the id they are stored under and for the parties they were made with")
	r.rule("member", "a node that uses presigns chosen by the leader marks them as used as well")
	idF := p.fieldVar("types/common.AvailablePresign", "PresignId")

	for _, f := range p.impls("core/components.AvailablePresigns", "GetAvailablePresigns") {
		c := fname(f)
		// where the ids are read from
		reads := map[ssa.Instruction]bool{}
		nodes := p.returnNodes(f, 0, false, nil)
		for v := range nodes {
			if ia, ok := v.(*ssa.IndexAddr); ok && p.sliceOfPtr(ia.X.Type(), p.typ("types/common.AvailablePresign").String()) {
				reads[ia] = true
			}
		}
		ids := 0
		for v := range nodes {
			if fieldOf(v) == idF {
				ids++
			}
		}
		r.check(ids > 0 && len(reads) > 0, "taken", c, f.Pos(), "the ids handed out are not those of presigns in the table")
		// the parties
		control := false
		for v := range p.returnNodes(f, 0, true, nil) {
			if l, ok := v.(*ssa.Lookup); ok && types.Identical(l.X.Type().Underlying(), f.Params[3].Type().Underlying()) {
				control = true
			}
		}
		r.check(control, "parties", c, f.Pos(), "which presigns are chosen does not depend on the available parties")

		in := p.interp()
		batch, all := in.paramTerm(f.Params[1]), in.paramTerm(f.Params[3])
		_ = all
		type taking struct{ list, n, m *Term }
		takings := map[string]taking{}
		take := func(st *State, m, k, l, n *Term, pos token.Pos) {
			held := in.heldWrite(st)
			r.check(held, "taken", c, pos, "presigns are taken out of the table without its lock")
			key := l.key + "#" + n.key
			takings[key] = taking{l, n, m}
			st.auto["taken"] = key
			miss := st.auto["missing"]
			r.check(miss == "" || !strings.Contains(miss, k.key), "parties", c, pos, "a set is taken although one of its parties is not available; path: %s", st.path())
		}
		in.OnMapUpdate = func(fr *Frame, st *State, i *ssa.MapUpdate, m, k, v *Term) {
			if !p.presignTable(i.Map.Type()) {
				return
			}
			cur := in.lookup(st, m, k)
			if v.op == "slice" && v.args[2] == tNil && v.args[1] != tNil && v.args[0] == cur {
				take(st, m, k, cur, v.args[1], i.Pos())
				return
			}
			if v.op == "append" || v.op == "concat" || v.op == "slice" {
				fl := st.flat(v)
				if len(fl) == 2 && fl[0].op == "slice" && fl[1].op == "slice" && fl[0].args[0] == cur && fl[1].args[0] == cur {
					r.bad("taken", c, i.Pos(), "undecided: the rest is %s", v)
					return
				}
			}
			r.bad("taken", c, i.Pos(), "the table keeps %s: not what is left after taking presigns from its current list %s; path: %s", v, cur, st.path())
		}
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			switch {
			case e.Name == "builtin.delete" && p.presignTable(e.Args[0].typ):
				m, k := e.Args[0], e.Args[1]
				cur := in.lookup(e.St, m, k)
				if t, ok := takings[e.St.auto["taken"]]; ok && t.m == m {
					// what is left has to be nothing
					left := tLen(cur)
					if cur.op == "slice" && cur.args[2] == tNil && cur.args[1] != tNil {
						left = tApp("-", tLen(cur.args[0]), cur.args[1])
					}
					lo, hi := e.St.bounds(toLin(left))
					r.check(emptyPair(e.St, cur) || e.St.known(left, tInt(0)) == 1 || lo == 0 && hi == 0, "taken", c, e.pos(), "presigns that were not handed out are dropped; path: %s", e.St.path())
					return nil, false
				}
				take(e.St, m, k, cur, tLen(cur), e.pos())
			case e.Name == "strings.Split":
				delete(e.St.auto, "missing")
				return e.pure(), true
			case strings.HasSuffix(e.Name, ".UpdatePresignStatus"):
				bad := e.St.clone()
				errT := in.fresh(e.Frame, bad, e.Site, "err", types.Universe.Lookup("error").Type())
				bad.assumeNeq(errT, tNil)
				bad.step("%s: marking fails", p.pos(e.pos()))
				e.St.auto["marked"] = e.Args[0].key
				return []Out{{st: e.St, rets: []*Term{tNil}}, {st: bad, rets: []*Term{errT}}}, true
			}
			return nil, false
		}
		in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
			if reads[i] {
				l := in.val(fr, fr.env, i.(*ssa.IndexAddr).X)
				if o := st.auto["from"]; o != "" && o != l.key {
					st.auto["from"] = "?"
				} else {
					st.auto["from"] = l.key
				}
			}
		}
		in.OnBranch = func(fr *Frame, st *State, i *ssa.If, cond *Term, v bool) {
			t := cond
			for t.op == "not" {
				t, v = t.args[0], !v
			}
			if t.op == "haskey" && t.args[0] == all && !v {
				st.auto["missing"] = t.args[1].key
			}
		}
		in.OnBackEdge = func(fr *Frame, st *State, header, from *ssa.BasicBlock) { delete(st.auto, "missing") }
		n := 0
		for _, o := range in.Run(f, nil, nil) {
			if o.panic || len(o.rets) == 0 || emptyPair(o.st, o.rets[0]) {
				continue
			}
			t, ok := takings[o.st.auto["taken"]]
			if !ok {
				if o.st.auto["from"] == "" && len(o.st.flat(o.rets[0])) == 0 {
					continue
				}
				r.bad("taken", c, retPos(o), "presigns are returned that were not taken out of the table; path: %s", o.st.path())
				continue
			}
			n++
			if from := o.st.auto["from"]; from != "" {
				good := from == t.list.key && t.n.op == "len"
				for _, lo := range []*Term{tNil, tInt(0)} {
					good = good || from == tApp("slice", t.list, lo, t.n).key || o.st.sameNum(t.n, batch) && from == tApp("slice", t.list, lo, batch).key
				}
				r.check(good, "taken", c, retPos(o), "other presigns are returned than those taken out of the table; path: %s", o.st.path())
			}
			r.check(o.st.sameNum(t.n, batch), "taken", c, retPos(o), "%s presigns are handed out instead of the number asked for", t.n)
			r.check(o.st.auto["marked"] == o.rets[0].key, "marked", c, retPos(o), "presigns are handed out although they were not marked as used; path: %s", o.st.path())
		}
		r.check(n > 0, "taken", c, f.Pos(), "undecided: presigns are never handed out")
		r.Counts["paths"] += in.Paths
	}
	r.rule("status", "presigns are stored as unused, listed only while unused, and marked as used under their ids")
	p.checkSQLMeaning(r, map[string]*sqlRun{}, "status")
	r.floor("taken", 4)
	r.floor("marked", 1)
	r.floor("parties", 2)

	p.checkPresignAdd(r, idF)
	p.checkPresignMember(r)
}

// sameNum: the two numbers are equal.
func (st *State) sameNum(a, b *Term) bool {
	if st.known(a, b) == 1 {
		return true
	}
	lo, hi := st.bounds(linSub(toLin(a), toLin(b)))
	return lo == 0 && hi == 0
}

// numberForm: the number a counter starts from.
func (p *Program) numberForm(v ssa.Value, depth int) string {
	if depth > 6 {
		return "?"
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return p.numberForm(v.X, depth+1)
	case *ssa.Convert:
		return p.numberForm(v.X, depth+1)
	case *ssa.ChangeType:
		return p.numberForm(v.X, depth+1)
	case *ssa.Const:
		return v.Value.ExactString()
	case *ssa.Parameter:
		forms := map[string]bool{}
		for _, c := range p.callersOf(v.Parent()) {
			for k, q := range v.Parent().Params {
				if q == v && k < len(c.Common().Args) {
					forms[p.numberForm(c.Common().Args[k], depth+1)] = true
				}
			}
		}
		if len(forms) == 1 {
			return keysOf(forms)[0]
		}
		return "different values"
	case *ssa.Phi:
		r := "?"
		for _, e := range v.Edges {
			if c, ok := e.(*ssa.Const); ok {
				r = c.Value.ExactString()
			} else if b, ok := e.(*ssa.BinOp); !ok || b.X != v || b.Op != token.ADD || p.numberForm(b.Y, depth+1) != "1" {
				return "?"
			}
		}
		return r
	case *ssa.BinOp:
		x, y := p.numberForm(v.X, depth+1), p.numberForm(v.Y, depth+1)
		a, e1 := strconv.Atoi(x)
		b, e2 := strconv.Atoi(y)
		if e1 == nil && e2 == nil && v.Op == token.ADD {
			return strconv.Itoa(a + b)
		}
	}
	return "?"
}

func (p *Program) checkPresignAdd(r *Report, idF *types.Var) {
	// every other change of the table
	for _, m := range []string{"Load", "AddPresign"} {
		for _, f := range p.impls("core/components.AvailablePresigns", m) {
			c := fname(f)
			in := p.interp()
			load := m == "Load"
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				switch {
				case strings.HasSuffix(e.Name, ".GetAvailablePresignShortForm"):
					rs := in.results(e, e.Name)
					bad := e.St.clone()
					errT := in.fresh(e.Frame, bad, e.Site, "err", types.Universe.Lookup("error").Type())
					bad.assumeNeq(errT, tNil)
					bad.auto["failed"] = "1"
					e.St.auto["ids"], e.St.auto["sets"] = rs[0].key, rs[1].key
					return []Out{{st: e.St, rets: []*Term{rs[0], rs[1], tNil}}, {st: bad, rets: []*Term{tNil, tNil, errT}}}, true
				case strings.HasSuffix(e.Name, ".SavePresignData"):
					bad := e.St.clone()
					errT := in.fresh(e.Frame, bad, e.Site, "err", types.Universe.Lookup("error").Type())
					bad.assumeNeq(errT, tNil)
					bad.auto["failed"] = "1"
					e.St.auto["saved"] = "1"
					for k := 0; k < 3; k++ {
						r.check(e.Args[k] == in.paramTerm(f.Params[k+1]), "added", c, e.pos(), "saves other presigns than those given")
					}
					return []Out{{st: e.St, rets: []*Term{tNil}}, {st: bad, rets: []*Term{errT}}}, true
				case !load && e.Obj != nil && len(e.Args) == 1 && e.Args[0] == in.paramTerm(f.Params[2]):
					return e.pure(), true
				}
				return nil, false
			}
			n := 0
			in.OnMapUpdate = func(fr *Frame, st *State, i *ssa.MapUpdate, mt, k, v *Term) {
				if !p.presignTable(i.Map.Type()) {
					return
				}
				n++
				r.check(in.heldWrite(st), "added", c, i.Pos(), "the table is changed without its lock")
				src := "saved"
				if load {
					src = "ids"
				}
				r.check(st.auto["failed"] == "" && st.auto[src] != "", "added", c, i.Pos(), "presigns become available although they were not stored; path: %s", st.path())
				if !load {
					ok := len(k.args) == 1 && k.args[0] == in.paramTerm(f.Params[2])
					for _, g := range p.impls("db.Database", "SavePresignData") {
						found := false
						for h := range p.reachOwn(g) {
							for _, b := range h.Blocks {
								for _, i := range b.Instrs {
									if c, is := i.(*ssa.Call); is && calleeName(c.Common())+"#0" == k.op && len(c.Call.Args) == 1 && types.Identical(c.Call.Args[0].Type(), g.Params[2].Type()) {
										found = true
									}
								}
							}
						}
						ok = ok && found
					}
					r.check(ok, "added", c, i.Pos(), "presigns become available for %s, not for the parties they are stored for", k)
				}
				if load {
					// the set is the one listed beside the id
					el := elemOf(k)
					okSet := el != nil && el.key == st.auto["sets"]
					var good bool
					fl := v
					if fl.op == "append" && len(fl.args) == 2 {
						if id, ok := st.load(in, fl.args[1], "PresignId"); ok && okSet {
							l := elemOf(id)
							good = l != nil && l.key == st.auto["ids"] && id.args[0].args[1] == k.args[0].args[1]
						}
					}
					r.check(good, "added", c, i.Pos(), "what becomes available for %s is %s, not the presign stored for these parties", k, v)
					cur := in.lookup(st, mt, k)
					r.check(fl.op == "append" && (fl.args[0] == cur || emptyPair(st, fl.args[0]) && (cur == tNil || st.known(cur, tNil) == 1 || emptyPair(st, cur))), "added", c, i.Pos(), "presigns already available are dropped")
				}
			}
			for _, o := range in.Run(f, nil, nil) {
				if o.panic || !load {
					continue
				}
				k := o.st.known(o.rets[0], tNil)
				if o.st.auto["failed"] != "" {
					r.check(k == 0, "added", c, retPos(o), "a failure to load the presigns is not reported")
				}
			}
			r.check(n > 0, "added", c, f.Pos(), "undecided: nothing becomes available")
			r.Counts["paths"] += in.Paths
		}
	}
	// ids in memory and in the database are made the same way
	forms := map[string]token.Pos{}
	for _, f := range append(p.impls("core/components.AvailablePresigns", "AddPresign"), p.impls("db.Database", "SavePresignData")...) {
		for g := range p.reachOwn(f) {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					c, ok := i.(*ssa.Call)
					if !ok || calleeName(c.Common()) != "fmt.Sprintf" {
						continue
					}
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						form := k.Value.ExactString()
						for _, a := range printed(c.Call.Args[1]) {
							switch {
							case strings.Contains(a.Type().String(), "string"):
								form += " work"
							default:
								form += " number from " + p.numberForm(a, 0)
							}
						}
						forms[form] = c.Pos()
					}
				}
			}
		}
	}
	r.check(len(forms) == 1 && !strings.Contains(keysOf(forms)[0], "different"), "added", "ids", token.NoPos, "the ids of presigns in memory and in the database are made in different ways: %v", keysOf(forms))
	// what is stored is loaded once
	loads := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if callsIface(i, "core/components.(AvailablePresigns).Load") {
					loads++
					v, ok := i.(ssa.Value)
					r.check(!ok || !inLoop(v), "added", fname(f), i.Pos(), "the stored presigns are loaded more than once: each becomes available twice")
				}
			}
		}
	}
	r.check(loads == 1, "added", "load", token.NoPos, "the stored presigns are loaded at %d places instead of once: each becomes available twice", loads)
	r.floor("added", 6)
}

func keysOf[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	return r
}

// reachOwn: f and the functions of the module it calls directly or indirectly by static calls.
func (p *Program) reachOwn(f *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if r[f] || !p.isOwn(f) {
			return
		}
		r[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						add(g)
					}
				}
			}
		}
	}
	add(f)
	return r
}

// checkPresignMember: the functions that report presigns which came in a message.
func (p *Program) checkPresignMember(r *Report) {
	sel := p.typ("worker.SelectionResult")
	var idsF *types.Var
	st := sel.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "PresignIds" {
			idsF = st.Field(i)
		}
	}
	n := 0
	for _, s := range (&Slicer{P: p}).fieldStores()[idsF] {
		fromMsg := false
		sl := p.slicer(func(src Source) bool {
			if src.Kind == "field" && p.ownerOf(src.Field) == "types/common.PreExecOutputMessage" {
				fromMsg = true
			}
			return false
		})
		sl.Run(s.Val)
		if !fromMsg {
			continue
		}
		n++
		// somewhere on the way to the store the ids are marked
		marked := false
		for _, b := range s.Parent().Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok || !instrDominates(c, s) {
					continue
				}
				if p.reaches(c.Common(), "UpdatePresignStatus", 0) {
					marked = true
				}
			}
		}
		r.check(marked, "member", "selection by a member", s.Pos(), "a member executes with the presigns the leader named without marking them as used: it may offer them again when it leads another work, and using a presign twice reveals the key")
	}
	if n == 0 {
		r.bad("member", "selection by a member", token.NoPos, "undecided: no member uses presigns")
	}
}

// reaches: the call leads to a method with this name.
func (p *Program) reaches(cm *ssa.CallCommon, name string, depth int) bool {
	if n := calleeName(cm); strings.HasSuffix(n, "."+name) {
		return true
	}
	if depth > 4 {
		return false
	}
	for _, g := range p.Callees(cm) {
		if !p.isOwn(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && p.reaches(c.Common(), name, depth+1) {
					return true
				}
			}
		}
	}
	return false
}
