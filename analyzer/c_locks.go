package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", false, checkLockDiscipline)
	register("C02", false, checkBlockingUnderLock)
	register("C03", false, checkGuarded)
}

func checkLockDiscipline(r *Report) {
	li := r.P.Locks()
	r.rule("release", "on every path every acquired lock is released with the matching operation, and only locks that are held are released")
	r.rule("reentry", "a lock (also its read side) is never acquired by a path that already holds it")
	r.rule("order", "the order in which locks are nested has no cycle")
	r.assume("locks are identified by the struct field that holds them; two instances of one type count as the same lock")
	bad := map[string]bool{}
	var ks []string
	for k := range li.problems {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		pr := li.problems[k]
		r.bad(pr.kind, pr.construct, pr.pos, "%s", pr.msg)
		bad[pr.construct] = true
	}
	fns := map[*ssa.Function]int{}
	for i, l := range li.acquires {
		fns[i.Parent()]++
		r.ok("reentry", fname(i.Parent())+" acquires "+lockName(l), instrPos(i), "")
	}
	for fn := range fns {
		if !bad[fname(fn)] {
			r.ok("release", fname(fn), fn.Pos(), "")
		}
	}
	r.floor("reentry", 10)
	r.floor("release", 8)
	// cycles
	succ := map[string][]string{}
	var es []string
	for k, e := range li.edges {
		succ[e.from] = append(succ[e.from], e.to)
		es = append(es, k)
	}
	sort.Strings(es)
	var reach func(from, to string, seen map[string]bool) bool
	reach = func(from, to string, seen map[string]bool) bool {
		if from == to {
			return true
		}
		if seen[from] {
			return false
		}
		seen[from] = true
		for _, s := range succ[from] {
			if reach(s, to, seen) {
				return true
			}
		}
		return false
	}
	for _, k := range es {
		e := li.edges[k]
		c := lockName(e.from) + " before " + lockName(e.to)
		if reach(e.to, e.from, map[string]bool{}) {
			r.bad("order", c, e.pos, "in %s %s is acquired while holding %s, and elsewhere the other way round", fname(e.fn), lockName(e.to), lockName(e.from))
		} else {
			r.ok("order", c, e.pos, "in "+fname(e.fn))
		}
	}
	r.Counts["acquire_sites"] = len(li.acquires)
	r.Counts["contexts"] = len(li.memo)
	r.Counts["nesting_pairs"] = len(li.edges)
}

// ioLock: the lock of a struct that owns network streams serialises the I/O on them.
func (li *LockInfo) ioLock(l string) bool {
	n := li.structOf[l]
	if n == nil {
		return false
	}
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		if m, ok := t.Underlying().(*types.Map); ok {
			t = m.Elem()
		}
		if strings.HasSuffix(t.String(), "libp2p/core/network.Stream") || strings.HasSuffix(t.String(), "bufio.Writer") {
			return true
		}
	}
	return false
}

func checkBlockingUnderLock(r *Report) {
	li := r.P.Locks()
	r.rule("no-wait-under-lock", "channel operations that can block, sleeps, waits for goroutines, outgoing RPC and network I/O run without any lock held; the per-peer lock that serialises the writes on that peer's own stream is the only exception, for network I/O")
	r.assume("database calls and tss-lib computations are not counted as waits")
	for _, b := range li.blocking {
		held := heldSet{}
		for l, m := range b.held {
			if b.what == "network I/O" && li.ioLock(l) {
				continue
			}
			held[l] = m
		}
		c := fname(b.fn) + ": " + b.what
		if len(held) > 0 {
			r.bad("no-wait-under-lock", c, instrPos(b.instr), "%s while %s is held", b.what, held)
		} else {
			r.ok("no-wait-under-lock", c, instrPos(b.instr), "")
		}
	}
	r.floor("no-wait-under-lock", 6)
	r.Counts["wait_sites"] = len(li.blkSites)
}

func checkGuarded(r *Report) {
	li := r.P.Locks()
	r.rule("guarded", "every access to a field that is changed after construction and is protected by a lock anywhere holds that lock, exclusively for writes")
	r.rule("shared-map", "a map that is changed after its owner was constructed is protected by a lock")
	r.rule("captured", "a goroutine does not capture a variable that the function which started it assigns again")
	r.assume("writes to an object before the constructing activation hands it to anyone are construction")
	guard := li.GuardOf()
	acc := li.accesses()
	var fields []*types.Var
	for f := range acc {
		fields = append(fields, f)
	}
	sort.Slice(fields, func(i, j int) bool { return fields[i].Pos() < fields[j].Pos() })
	owner := r.P.fieldOwner()
	for _, f := range fields {
		name := owner[f]
		if isMutex(f.Type()) {
			continue
		}
		g := guard[f]
		mutable := false
		for _, a := range acc[f] {
			if a.write && !a.fresh {
				mutable = true
			}
		}
		if !mutable {
			continue
		}
		_, isMap := f.Type().Underlying().(*types.Map)
		if g == "" {
			if isMap {
				for _, a := range acc[f] {
					if a.write && !a.fresh {
						r.bad("shared-map", name, instrPos(a.instr), "%s in %s with no lock held anywhere around this map", a.what, fname(a.fn))
						break
					}
				}
			}
			continue
		}
		if isMap {
			r.ok("shared-map", name, f.Pos(), "guarded by "+lockName(g))
		}
		for _, a := range acc[f] {
			if a.fresh {
				continue
			}
			h := li.heldAt(a.instr)
			c := name + " in " + fname(a.fn)
			m, ok := h[g]
			switch {
			case !ok:
				r.bad("guarded", c, instrPos(a.instr), "%s without %s, which protects it elsewhere", a.what, lockName(g))
			case a.write && m < 2:
				r.bad("guarded", c, instrPos(a.instr), "%s with %s held only for reading", a.what, lockName(g))
			default:
				r.ok("guarded", c, instrPos(a.instr), "holds "+lockName(g))
			}
		}
	}
	r.floor("guarded", 15)
	r.floor("shared-map", 3)
	for _, cs := range r.P.captured() {
		if cs.store != nil {
			r.bad("captured", cs.name, instrPos(cs.site), "the variable is assigned again at %s after the goroutine started", r.P.pos(instrPos(cs.store)))
		} else {
			r.ok("captured", cs.name, instrPos(cs.site), "")
		}
	}
	r.Counts["guarded_fields"] = len(guard)
}

// capture is a variable which a goroutine shares with the function that started it.
type capture struct {
	site  *ssa.Go
	al    *ssa.Alloc
	name  string
	store ssa.Instruction // an assignment which is not ordered with the goroutine
}

// captured finds the variables captured by goroutines.
func (p *Program) captured() []capture {
	li := p.Locks()
	var res []capture
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				mc, ok := g.Call.Value.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				for k, bd := range mc.Bindings {
					al, ok := bd.(*ssa.Alloc)
					if !ok {
						continue
					}
					fv := mc.Fn.(*ssa.Function).FreeVars[k]
					c := capture{site: g, al: al, name: fmt.Sprintf("%s captures %s", fname(mc.Fn.(*ssa.Function)), fv.Name())}
					if st := storeAfter(al, g); st != nil && !li.sameLock(st, fv) {
						c.store = st
					}
					res = append(res, c)
				}
			}
		}
	}
	return res
}

// sameLock says that a goroutine uses a captured variable only under a lock that is also held at st.
func (li *LockInfo) sameLock(st ssa.Instruction, fv *ssa.FreeVar) bool {
	common := heldSet{}
	for l, m := range li.heldAt(st) {
		if m >= 2 {
			common[l] = m
		}
	}
	if len(common) == 0 || fv.Referrers() == nil {
		return false
	}
	for _, u := range *fv.Referrers() {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		h := li.heldAt(u)
		for l := range common {
			if _, ok := h[l]; !ok {
				delete(common, l)
			}
		}
	}
	return len(common) > 0
}

// storeAfter finds an assignment to al that can follow g without al being a new variable.
func storeAfter(al *ssa.Alloc, g ssa.Instruction) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock, from int) ssa.Instruction
	visit = func(b *ssa.BasicBlock, from int) ssa.Instruction {
		for k := from; k < len(b.Instrs); k++ {
			switch x := b.Instrs[k].(type) {
			case *ssa.Alloc:
				if x == al {
					return nil
				}
			case *ssa.Store:
				if x.Addr == al {
					return x
				}
			case *ssa.Call:
				if n := calleeName(&x.Call); n == "sync.(WaitGroup).Wait" {
					return nil
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW { // the goroutine may have answered
					return nil
				}
			case *ssa.Select:
				if x.Blocking {
					return nil
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if r := visit(s, 0); r != nil {
					return r
				}
			}
		}
		return nil
	}
	for k, x := range g.Block().Instrs {
		if x == g {
			return visit(g.Block(), k+1)
		}
	}
	return nil
}

// fieldOwner names fields as pkg.Type.field.
func (p *Program) fieldOwner() map[*types.Var]string {
	res := map[*types.Var]string{}
	for _, pk := range p.Order {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					res[st.Field(i)] = pk.Types.Name() + "." + n + "." + st.Field(i).Name()
				}
			}
		}
	}
	return res
}
