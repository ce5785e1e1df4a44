package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", false, checkStorageErrors)
}

var errorType = types.Universe.Lookup("error").Type()

// errorResult: the position of the error among the results (always the last), or -1.
func errorResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && types.Identical(sig.Results().At(n-1).Type(), errorType) {
		return n - 1
	}
	return -1
}

// cleanup: calls whose failure leaves nothing undone that was asked for.
func cleanup(name string) bool {
	for _, s := range []string{".Close", ".RemoveAll", ".Remove", ".Rollback", ".Unlock", ".RUnlock", ".Release"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "errors.")
}

func isRows(name, method string) bool {
	return name == "database/sql.(*Rows)."+method || name == "database/sql.(Rows)."+method
}

func checkStorageErrors(r *Report) {
	p := r.P
	r.rule("reported", "a storage function reports success only on paths on which every call it made succeeded")
	r.rule("rows", "the end of a result set is taken as its end only after it was checked not to be an error, and result sets are closed")
	r.rule("used", "what a storage function returns is used only where its error was found to be nil")
	r.rule("regenerate", "pre-parameters are generated only if the database reported that it has none, and are then stored")
	r.rule("stored", "outcomes that have to survive a restart are reported only after they were stored")

	storage := map[*types.Package]bool{}
	for _, t := range []string{"db.Database", "store.Store"} {
		storage[p.typ(t).Obj().Pkg()] = true
	}
	isStorage := func(f *ssa.Function) bool { return p.isOwn(f) && f.Pkg != nil && storage[f.Pkg.Pkg] }
	ends := map[token.Pos]bool{}
	for _, f := range p.Funcs {
		top := topFn(f)
		if !isStorage(top) || f.Blocks == nil || errorResult(f.Signature) < 0 {
			continue
		}
		if rv := top.Signature.Recv(); rv != nil && strings.Contains(strings.ToLower(rv.Type().String()), "mock") {
			continue
		}
		f, c, ei := f, fname(f), errorResult(f.Signature)
		if synthetic(f) {
			continue
		}
		in := p.interp()
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			n := e.Name
			switch {
			case isRows(n, "Next"):
				end := e.St.clone()
				end.auto["ended"] = "1"
				ends[e.pos()] = true
				return []Out{{st: e.St, rets: []*Term{tTrue}}, {st: end, rets: []*Term{tFalse}}}, true
			case isRows(n, "Close"):
				delete(e.St.auto, "open")
			case isRows(n, "Err"):
				delete(e.St.auto, "ended")
			}
			if e.Obj == nil || e.Go || e.Com.StaticCallee() != nil && p.isOwn(e.Com.StaticCallee()) {
				return nil, false
			}
			sig := e.Com.Signature()
			k := errorResult(sig)
			if k < 0 || cleanup(n) {
				return nil, false
			}
			outs := e.unknown()
			var res []Out
			for _, o := range outs {
				if o.panic {
					res = append(res, o)
					continue
				}
				bad := o.st.clone()
				brets := append([]*Term{}, o.rets...)
				errT := in.fresh(e.Frame, bad, e.Site, "failure", errorType)
				bad.assumeNeq(errT, tNil)
				brets[k] = errT
				site := p.pos(e.pos())
				bad.auto["failed:"+site] = n
				bad.auto["err:"+errT.key] = site
				bad.step("%s: %s fails", site, n)
				ok := o.st
				orets := append([]*Term{}, o.rets...)
				orets[k] = tNil
				delete(ok.auto, "failed:"+site)
				if isRowsResult(sig) {
					ok.auto["open"] = site
				}
				res = append(res, Out{st: ok, rets: orets}, Out{st: bad, rets: brets})
			}
			return res, true
		}
		in.OnBranch = func(fr *Frame, st *State, i *ssa.If, cond *Term, v bool) {
			// an error the function knows and handles
			for cond.op == "not" {
				cond, v = cond.args[0], !v
			}
			if cond.op == "eq" && v {
				for k, a := range cond.args {
					if s, ok := st.auto["err:"+a.key]; ok && cond.args[1-k] != tNil {
						delete(st.auto, "failed:"+s)
					}
				}
			}
		}
		n := 0
		for _, o := range in.Run(f, nil, nil) {
			if o.panic {
				continue
			}
			n++
			open := o.st.auto["open"]
			r.check(open == "", "rows", c, retPos(o), "the result set of the query at %s is not closed; path: %s", open, o.st.path())
			if o.st.known(o.rets[ei], tNil) == 0 {
				continue
			}
			failed := ""
			for k, v := range o.st.auto {
				if s, ok := strings.CutPrefix(k, "failed:"); ok {
					failed = v + " at " + s
				}
			}
			if failed == "" || o.st.known(o.rets[ei], tNil) != 1 {
				// the error of the last call is passed on as it is
				if s, ok := o.st.auto["err:"+o.rets[ei].key]; ok && o.st.auto["failed:"+s] != "" {
					continue
				}
			}
			r.check(failed == "", "reported", c, retPos(o), "success may be reported although %s failed; path: %s", failed, o.st.path())
			r.check(o.st.auto["ended"] == "", "rows", c, retPos(o), "success is reported although reading may have stopped at an error (Rows.Err is not consulted); path: %s", o.st.path())
		}
		if n == 0 {
			r.bad("reported", c, f.Pos(), "undecided: never returns")
		}
		r.Counts["functions"]++
		r.Counts["paths"] += in.Paths
	}
	r.floor("reported", 15)
	r.floor("rows", 15)
	if len(ends) < 4 {
		r.bad("rows", "queries", token.NoPos, "undecided: only %d places read result sets", len(ends))
	}
	p.checkStorageUse(r, isStorage)
	p.checkRegenerate(r)
}

func isRowsResult(sig *types.Signature) bool {
	return sig.Results().Len() > 0 && strings.HasSuffix(sig.Results().At(0).Type().String(), "database/sql.Rows")
}

// synthetic: wrappers made by the compiler.
func synthetic(f *ssa.Function) bool { return f.Synthetic != "" }

// checkStorageUse: what is loaded is used only without an error, and only if something was found. Every function that
// calls a storage function (or a function that passes on what one returned) is explored with the outcomes of the call.
func (p *Program) checkStorageUse(r *Report, isStorage func(*ssa.Function) bool) {
	wrappers := map[*ssa.Function]string{}
	loadOf := func(cm *ssa.CallCommon) (isLoad, nothing bool) {
		k := errorResult(cm.Signature())
		if k <= 0 {
			return false, false
		}
		if g := cm.StaticCallee(); g != nil && wrappers[g] != "" {
			return true, wrappers[g] == "nothing"
		}
		return p.isStorageCall(cm, isStorage), p.mayFindNothing(cm, k)
	}
	done := map[*ssa.Function]bool{}
	seen := map[token.Pos]bool{}
	for again := true; again; {
		again = false
		for _, f := range p.Funcs {
			if isStorage(topFn(f)) || done[f] {
				continue
			}
			has := false
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok {
						if l, _ := loadOf(c.Common()); l {
							has = true
							seen[c.Pos()] = true
						}
					}
				}
			}
			if !has {
				continue
			}
			done[f] = true
			if pass := p.storageUser(r, f, loadOf); pass != "" {
				wrappers[f], again = pass, true
				for g := range done { // callers may have been looked at already
					delete(done, g)
				}
				for g := range wrappers {
					done[g] = true
				}
			}
		}
	}
	r.Counts["loads"] = len(seen)
	r.floor("used", 4)
}

// storageUser explores one caller; the result tells whether it passes on what it loaded.
func (p *Program) storageUser(r *Report, f *ssa.Function, loadOf func(*ssa.CallCommon) (bool, bool)) string {
	c := fname(f)
	in := p.interp()
	passes := ""
	poison := map[*Term]string{}
	hold := func(t *Term) (string, bool) {
		if t == nil {
			return "", false
		}
		w, ok := poison[unIface(t)]
		return w, ok
	}
	follow := false
	in.NoInline = func(g *ssa.Function) bool { return !follow && !p.simple(g) }
	use := func(st *State, pos token.Pos, w, how string) {
		r.bad("used", c, pos, "what was loaded is %s although %s; path: %s", how, w, st.path())
	}
	in.OnCall = func(e *CallEvent) ([]Out, bool) {
		follow = false
		if l, nothing := loadOf(e.Com); l {
			k := errorResult(e.Com.Signature())
			mk := func(st *State, name, why string) []*Term {
				rets := make([]*Term, k+1)
				for j := 0; j < k; j++ {
					rets[j] = in.fresh(e.Frame, st, e.Site, name+string(rune('0'+j)), e.Com.Signature().Results().At(j).Type())
					if why != "" {
						poison[rets[j]] = why
					}
				}
				return rets
			}
			bad := e.St.clone()
			short := e.Name[strings.LastIndex(e.Name, ".")+1:]
			bs := mk(bad, "failed", short+" failed")
			bs[k] = in.fresh(e.Frame, bad, e.Site, "err", errorType)
			bad.assumeNeq(bs[k], tNil)
			bad.step("%s: %s fails", p.pos(e.pos()), short)
			outs := []Out{{st: bad, rets: bs}}
			if nothing {
				none := e.St.clone()
				ns := mk(none, "none", short+" found nothing")
				none.eq[ns[0]] = tNil
				ns[k] = tNil
				none.step("%s: %s finds nothing", p.pos(e.pos()), short)
				outs = append(outs, Out{st: none, rets: ns})
			}
			gs := mk(e.St, "found", "")
			gs[k] = tNil
			if _, ok := gs[0].typ.Underlying().(*types.Pointer); ok {
				e.St.assumeNeq(gs[0], tNil)
			}
			return append(outs, Out{st: e.St, rets: gs}), true
		}
		if e.Com.StaticCallee() == nil && e.Name != "" && strings.HasPrefix(e.Name, "builtin.") || calleeOnlyLogs(e.Com) {
			return nil, false
		}
		for _, a := range e.Args {
			if w, ok := hold(a); ok {
				if g := e.Com.StaticCallee(); g != nil && p.isOwn(g) {
					follow = true
					continue
				}
				use(e.St, e.pos(), w, "given to "+e.Name)
			}
		}
		return nil, false
	}
	in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
		var x ssa.Value
		switch i := i.(type) {
		case *ssa.FieldAddr:
			x = i.X
		case *ssa.Field:
			x = i.X
		case *ssa.IndexAddr:
			x = i.X
		case *ssa.UnOp:
			if i.Op == token.MUL {
				x = i.X
			}
		}
		if x == nil {
			return
		}
		if w, ok := hold(in.val(fr, fr.env, x)); ok {
			use(st, instrPos(i), w, "used")
		}
	}
	in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) {
		w, ok := hold(val)
		if !ok {
			return
		}
		root := addr
		for len(root.args) > 0 && (root.op == "fa" || root.op == "ia") {
			root = root.args[0]
		}
		if root.op != "alloc" {
			st.auto["kept"] = w + " (" + p.pos(instrPos(i)) + ")"
		}
	}
	n := 0
	for _, o := range in.Run(f, nil, nil) {
		if o.panic {
			continue
		}
		n++
		k := errorResult(f.Signature)
		failed := k >= 0 && o.st.known(o.rets[k], tNil) == 0
		for j, t := range o.rets {
			w, ok := hold(t)
			if !ok || j == k {
				continue
			}
			if k < 0 {
				use(o.st, retPos(o), w, "returned")
			} else {
				if passes == "" {
					passes = "error"
				}
				if !failed && strings.Contains(w, "nothing") {
					passes = "nothing"
				}
			}
			if k >= 0 && !failed && strings.Contains(w, "failed") && o.st.known(o.rets[k], tNil) == 1 {
				use(o.st, retPos(o), w, "returned without an error")
			}
		}
		if w := o.st.auto["kept"]; w != "" && !failed {
			use(o.st, retPos(o), w, "kept")
		}
	}
	r.check(n > 0, "used", c, f.Pos(), "undecided: never returns")
	r.Counts["paths"] += in.Paths
	return passes
}

func (p *Program) isStorageCall(cm *ssa.CallCommon, isStorage func(*ssa.Function) bool) bool {
	if cm.IsInvoke() {
		for _, t := range []string{"db.Database", "store.Store"} {
			if types.Identical(cm.Value.Type(), p.typ(t)) {
				return true
			}
		}
		return false
	}
	g := cm.StaticCallee()
	return g != nil && g.Signature.Recv() != nil && isStorage(g)
}

// mayFindNothing: the function returns nil without an error in some cases.
func (p *Program) mayFindNothing(cm *ssa.CallCommon, k int) bool {
	for _, g := range p.Callees(cm) {
		if !p.isOwn(g) {
			continue
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && isNilConst(returned(ret, 0)) && isNilConst(returned(ret, k)) {
				if _, ptr := ret.Results[0].Type().Underlying().(*types.Pointer); ptr {
					return true
				}
			}
		}
	}
	return false
}

// returned: the value a return statement stored into its k-th result (functions with defers keep results in memory).
func returned(ret *ssa.Return, k int) ssa.Value {
	v := ret.Results[k]
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return v
	}
	for _, i := range ret.Block().Instrs {
		if i == ssa.Instruction(ld) {
			break
		}
		if st, ok := i.(*ssa.Store); ok && st.Addr == ld.X {
			v = st.Val
		}
	}
	return v
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func calleeOnlyLogs(cm *ssa.CallCommon) bool {
	n := calleeName(cm)
	return strings.HasPrefix(n, "github.com/sisu-network/lib/log.") || strings.HasPrefix(n, "fmt.Print")
}

// checkRegenerate: the paths to the generation of pre-parameters.
func (p *Program) checkRegenerate(r *Report) {
	isGen := func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && strings.Contains(calleeName(c.Common()), ".GeneratePreParams")
	}
	leads := p.relevant(isGen)
	roots := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if isGen(i) {
					g := topFn(f)
					for {
						up := p.callersOf(g)
						if g.Object() != nil && g.Object().Exported() || len(up) != 1 {
							break
						}
						g = topFn(up[0].Parent())
					}
					roots[g] = true
				}
			}
		}
	}
	n := 0
	for f := range roots {
		c := fname(f)
		in := p.interp()
		in.only(func(i ssa.Instruction) bool {
			return isGen(i) || callsIface(i, "db.(Database).LoadPreparams", "db.(Database).SavePreparams")
		})
		_ = leads
		notFound := p.typ("db.Database").Obj().Pkg().Path() + ".ErrNotFound"
		var loadErr *Term
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			switch {
			case strings.HasSuffix(e.Name, ".LoadPreparams"):
				rs := in.results(e, e.Name)
				loadErr = rs[1]
				e.St.auto["load"] = rs[1].key
				return []Out{{st: e.St, rets: rs}}, true
			case e.Name == "errors.Is":
				no := e.St.clone()
				if e.Args[0] == loadErr && isLoadOfGlobal(e.Args[1], notFound) {
					e.St.auto["notfound"] = loadErr.key
				}
				return []Out{{st: e.St, rets: []*Term{tTrue}}, {st: no, rets: []*Term{tFalse}}}, true
			case strings.Contains(e.Name, ".GeneratePreParams"):
				n++
				t := loadErr
				is := t != nil && e.St.auto["load"] == t.key && e.St.auto["notfound"] == t.key
				r.check(is, "regenerate", c, e.pos(), "pre-parameters are generated although the database did not report that there are none; path: %s", e.St.path())
				rs := in.results(e, e.Name)
				e.St.auto["generated"] = rs[0].key
				bad := e.St.clone()
				delete(bad.auto, "generated")
				errT := in.fresh(e.Frame, bad, e.Site, "err", errorType)
				bad.assumeNeq(errT, tNil)
				bad.auto["failed"] = "generation"
				return []Out{{st: e.St, rets: []*Term{rs[0], tNil}}, {st: bad, rets: []*Term{tNil, errT}}}, true
			case strings.HasSuffix(e.Name, ".SavePreparams"):
				r.check(e.St.auto["generated"] == "" || e.St.auto["generated"] == e.Args[0].key, "regenerate", c, e.pos(), "other pre-parameters are stored than those generated")
				bad := e.St.clone()
				errT := in.fresh(e.Frame, bad, e.Site, "err", errorType)
				bad.assumeNeq(errT, tNil)
				if e.St.auto["generated"] != "" {
					bad.auto["failed"] = "storing"
				}
				e.St.auto["generated"] = ""
				return []Out{{st: e.St, rets: []*Term{tNil}}, {st: bad, rets: []*Term{errT}}}, true
			}
			return nil, false
		}
		in.OnBranch = func(fr *Frame, st *State, i *ssa.If, cond *Term, v bool) {
			for cond.op == "not" {
				cond, v = cond.args[0], !v
			}
			if loadErr != nil && v && cond.op == "eq" && (cond.args[0] == loadErr && isLoadOfGlobal(cond.args[1], notFound) || cond.args[1] == loadErr && isLoadOfGlobal(cond.args[0], notFound)) {
				st.auto["notfound"] = loadErr.key
			}
		}
		for _, o := range in.Run(f, nil, nil) {
			if o.panic {
				continue
			}
			ei := errorResult(f.Signature)
			failed := o.st.auto["failed"]
			if o.st.auto["generated"] != "" {
				failed = "storing"
			}
			if ei >= 0 && failed != "" {
				r.check(o.st.known(o.rets[ei], tNil) == 0, "stored", c, retPos(o), "the node starts although %s its pre-parameters failed or did not happen; path: %s", failed, o.st.path())
			}
		}
		r.Counts["paths"] += in.Paths
	}
	r.floor("regenerate", 1)
	r.floor("stored", 2)
}

// isLoadOfGlobal: the value of the package variable with this full name.
func isLoadOfGlobal(t *Term, g string) bool {
	return t.op == "ld" && t.args[0].op == "global" && t.args[0].key == "g:"+g
}
