package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock analysis. Locks are identified by the struct field (or variable) that holds them. Every function is
// walked in every calling context: the set of locks held on entry together with what its lock-valued and
// function-valued parameters are bound to. A state inside a function is (locks held, pending defers).

type ldesc struct {
	lock  string // lock identity, "" if this is not a lock
	rlock bool   // a read-side view of it
	fns   []fdesc
	known bool
}

type fdesc struct {
	fn    *ssa.Function
	binds []ldesc // for the free variables
}

func (d ldesc) key() string {
	s := d.lock
	if d.rlock {
		s += "/r"
	}
	for _, f := range d.fns {
		s += "{" + f.fn.String() + ":"
		for _, b := range f.binds {
			s += b.key() + ","
		}
		s += "}"
	}
	return s
}

type lctx struct {
	fn     *ssa.Function
	params []ldesc
	free   []ldesc
	held   heldSet
}

func (c *lctx) key() string {
	s := c.fn.String() + fmt.Sprintf("%p", c.fn) + "|"
	for _, p := range c.params {
		s += p.key() + ";"
	}
	s += "|"
	for _, p := range c.free {
		s += p.key() + ";"
	}
	return s + "|" + c.held.key()
}

// heldSet: lock -> mode (1 read, 2 write)
type heldSet map[string]int

func (h heldSet) key() string {
	var ks []string
	for k, v := range h {
		ks = append(ks, fmt.Sprintf("%s:%d", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (h heldSet) with(l string, m int) heldSet {
	n := heldSet{}
	for k, v := range h {
		n[k] = v
	}
	if m == 0 {
		delete(n, l)
	} else {
		n[l] = m
	}
	return n
}

func (h heldSet) String() string {
	var ks []string
	for k, v := range h {
		m := "read"
		if v == 2 {
			m = "write"
		}
		ks = append(ks, lockName(k)+"("+m+")")
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, ", ") + "}"
}

var lockNames = map[string]string{}

func lockName(k string) string {
	if n, ok := lockNames[k]; ok {
		return n
	}
	return k
}

type lockEdge struct {
	from, to string
	pos      token.Pos
	fn       *ssa.Function
}

type fieldAccess struct {
	field *types.Var
	write bool
	instr ssa.Instruction
	fn    *ssa.Function
	fresh bool
	what  string
}

type lockProblem struct {
	kind, construct, msg string
	pos                  token.Pos
}

type blockingOp struct {
	instr ssa.Instruction
	fn    *ssa.Function
	what  string
	held  heldSet
}

type LockInfo struct {
	p        *Program
	memo     map[string][]heldSet
	active   map[string]bool
	problems map[string]lockProblem
	edges    map[string]lockEdge
	acquires map[ssa.Instruction]string
	nAcq     int
	// locks certainly held at an instruction, over all contexts
	atInstr  map[ssa.Instruction]heldSet
	visited  map[*ssa.Function]bool
	blocking []blockingOp
	blkSeen  map[string]bool
	blkSites map[ssa.Instruction]string
	structOf map[string]*types.Named // lock -> struct that owns it
}

// Locks runs the analysis once per load.
func (p *Program) Locks() *LockInfo {
	if p.locks != nil {
		return p.locks
	}
	li := &LockInfo{p: p, memo: map[string][]heldSet{}, active: map[string]bool{}, problems: map[string]lockProblem{}, edges: map[string]lockEdge{},
		acquires: map[ssa.Instruction]string{}, atInstr: map[ssa.Instruction]heldSet{}, visited: map[*ssa.Function]bool{}, blkSeen: map[string]bool{},
		blkSites: map[ssa.Instruction]string{}, structOf: map[string]*types.Named{}}
	p.locks = li
	for _, pk := range p.Order {
		if !pk.Own {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if st, ok := nt.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if isMutex(st.Field(i).Type()) {
						k := varKey(st.Field(i))
						lockNames[k] = pk.Types.Name() + "." + n + "." + st.Field(i).Name()
						li.structOf[k] = nt
					}
				}
			}
		}
	}
	g := p.Graph()
	// roots: functions nobody in the program calls synchronously, and goroutine bodies
	for _, fn := range p.Funcs {
		sync := false
		async := false
		for _, e := range g.In[fn] {
			if e.Go {
				async = true
			} else {
				sync = true
			}
		}
		if (!sync || async) && !li.passedAsValue(fn) {
			li.root(fn)
		}
	}
	for _, fn := range p.Funcs {
		if !li.visited[fn] {
			li.root(fn)
		}
	}
	return li
}

// passedAsValue: closures are analysed where they are used.
func (li *LockInfo) passedAsValue(fn *ssa.Function) bool { return fn.Parent() != nil }

func (li *LockInfo) root(fn *ssa.Function) {
	c := &lctx{fn: fn, held: heldSet{}}
	for _, o := range li.walk(c) {
		if len(o) > 0 {
			li.problem("release", fname(fn), fn.Pos(), "can return to its caller outside the program (or end its goroutine) still holding %s", o)
		}
	}
}

func (li *LockInfo) problem(kind, construct string, pos token.Pos, f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	li.problems[kind+construct+m+li.p.pos(pos)] = lockProblem{kind, construct, m, pos}
}

func isMutex(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func (li *LockInfo) resolve(c *lctx, v ssa.Value, depth int) ldesc {
	if depth > 12 {
		return ldesc{}
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		f := fieldOfAddr(x)
		if f != nil && isMutex(f.Type()) {
			return ldesc{lock: varKey(f), known: true}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				f := fieldOfAddr(fa)
				if f != nil && isMutex(f.Type()) {
					return ldesc{lock: varKey(f), known: true}
				}
				return ldesc{}
			}
			if g, ok := x.X.(*ssa.Global); ok && isMutex(x.Type()) {
				return ldesc{lock: "global:" + g.String(), known: true}
			}
			// a local variable holding a lock or a function
			if a, ok := x.X.(*ssa.Alloc); ok {
				return li.resolveCell(c, a, depth)
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				if b := freeVarBinding(fv); b != nil {
					if a, ok := b.(*ssa.Alloc); ok {
						return li.resolveCell(&lctx{fn: a.Parent()}, a, depth)
					}
				}
				// captured by reference: the binding descriptor already describes the contents
				return li.freeDesc(c, fv, depth)
			}
		}
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok && isMutex(st.Field(x.Field).Type()) {
			return ldesc{lock: varKey(st.Field(x.Field)), known: true}
		}
	case *ssa.Global:
		return ldesc{lock: "global:" + x.String(), known: true}
	case *ssa.Alloc:
		if isMutex(x.Type().Underlying().(*types.Pointer).Elem()) {
			if _, ptr := x.Type().Underlying().(*types.Pointer).Elem().(*types.Pointer); !ptr {
				return ldesc{lock: "local:" + li.p.pos(x.Pos()), known: true}
			}
		}
		return li.resolveCell(c, x, depth)
	case *ssa.Parameter:
		for i, p := range c.fn.Params {
			if p == x && i < len(c.params) && c.params[i].known {
				return c.params[i]
			}
		}
	case *ssa.FreeVar:
		return li.freeDesc(c, x, depth)
	case *ssa.MakeInterface:
		return li.resolve(c, x.X, depth+1)
	case *ssa.ChangeInterface:
		return li.resolve(c, x.X, depth+1)
	case *ssa.ChangeType:
		return li.resolve(c, x.X, depth+1)
	case *ssa.Function:
		return ldesc{fns: []fdesc{{fn: unwrap(x)}}, known: true}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		if fn.Synthetic != "" { // bound method
			// binding of the lock's own Lock/Unlock methods: e.g. defer f() with f := mu.Unlock
			if o, ok := unwrapObj(fn); ok && len(x.Bindings) == 1 {
				d := li.resolve(c, x.Bindings[0], depth+1)
				if d.lock != "" {
					return ldesc{lock: d.lock, rlock: d.rlock, known: true, fns: []fdesc{{fn: fn, binds: []ldesc{{lock: "op:" + o}}}}}
				}
			}
			return ldesc{fns: []fdesc{{fn: unwrap(fn)}}, known: true}
		}
		var bs []ldesc
		for _, b := range x.Bindings {
			bs = append(bs, li.resolve(c, b, depth+1))
		}
		return ldesc{fns: []fdesc{{fn, bs}}, known: true}
	case *ssa.Phi:
		var r ldesc
		for i, e := range x.Edges {
			d := li.resolve(c, e, depth+1)
			if i == 0 {
				r = d
			} else if d.lock != r.lock {
				return ldesc{}
			} else {
				r.fns = append(r.fns, d.fns...)
			}
		}
		return r
	case *ssa.Call:
		if n := calleeName(&x.Call); n == "sync.(RWMutex).RLocker" {
			d := li.resolve(c, x.Call.Args[0], depth+1)
			d.rlock = true
			return d
		}
		if sc := x.Call.StaticCallee(); sc != nil && li.p.isOwn(sc) && sc.Blocks != nil {
			var r ldesc
			first := true
			sub := &lctx{fn: sc}
			for _, a := range x.Call.Args {
				sub.params = append(sub.params, li.resolve(c, a, depth+1))
			}
			for _, b := range sc.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					d := li.resolve(sub, ret.Results[0], depth+1)
					if first {
						r, first = d, false
					} else if d.key() != r.key() {
						return ldesc{}
					}
				}
			}
			return r
		}
	}
	return ldesc{}
}

func unwrapObj(fn *ssa.Function) (string, bool) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if cl, ok := i.(*ssa.Call); ok {
				n := calleeName(&cl.Call)
				if strings.HasPrefix(n, "sync.(") {
					return n, true
				}
			}
		}
	}
	return "", false
}

func (li *LockInfo) freeDesc(c *lctx, fv *ssa.FreeVar, depth int) ldesc {
	for i, f := range c.fn.FreeVars {
		if f == fv && i < len(c.free) && c.free[i].known {
			return c.free[i]
		}
	}
	if b := freeVarBinding(fv); b != nil {
		return li.resolve(&lctx{fn: b.Parent()}, b, depth+1)
	}
	return ldesc{}
}

func (li *LockInfo) resolveCell(c *lctx, a *ssa.Alloc, depth int) ldesc {
	var r ldesc
	n := 0
	for _, ref := range *a.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
			d := li.resolve(c, st.Val, depth+1)
			if n > 0 && d.lock != r.lock {
				return ldesc{}
			}
			if n == 0 {
				r = d
			} else {
				r.fns = append(r.fns, d.fns...)
			}
			n++
		}
	}
	return r
}

func fieldOfAddr(x *ssa.FieldAddr) *types.Var {
	t := x.X.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		if st, ok := p.Elem().Underlying().(*types.Struct); ok {
			return st.Field(x.Field)
		}
	}
	return nil
}

type lstate struct {
	held   heldSet
	defers []*ssa.Defer
	conds  string // decided branch conditions that are tested more than once
}

func (s lstate) key() string {
	k := s.held.key() + "|" + s.conds
	for _, d := range s.defers {
		k += fmt.Sprintf("|%p", d)
	}
	return k
}

// walk returns the lock sets with which c.fn can return.
func (li *LockInfo) walk(c *lctx) []heldSet {
	k := c.key()
	if r, ok := li.memo[k]; ok {
		return r
	}
	if li.active[k] {
		return []heldSet{c.held}
	}
	li.active[k] = true
	defer delete(li.active, k)
	li.visited[c.fn] = true

	// conditions tested by several branches keep paths apart
	ifs := map[ssa.Value]int{}
	for _, b := range c.fn.Blocks {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			ifs[condKey(i.Cond)]++
		}
	}
	type item struct {
		b *ssa.BasicBlock
		s lstate
	}
	seen := map[string]bool{}
	exits := map[string]heldSet{}
	todo := []item{{c.fn.Blocks[0], lstate{held: c.held}}}
	for len(todo) > 0 {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		sk := fmt.Sprintf("%d|%s", it.b.Index, it.s.key())
		if seen[sk] {
			continue
		}
		seen[sk] = true
		if len(seen) > 20000 {
			li.problem("undecided", fname(c.fn), c.fn.Pos(), "too many lock states")
			break
		}
		states := []lstate{it.s}
		for _, ins := range it.b.Instrs {
			var next []lstate
			ks := map[string]bool{}
			for _, s := range states {
				for _, n := range li.step(c, s, ins) {
					if !ks[n.key()] {
						ks[n.key()] = true
						next = append(next, n)
					}
				}
			}
			states = next
		}
		switch last := it.b.Instrs[len(it.b.Instrs)-1].(type) {
		case *ssa.Return:
			for _, s := range states {
				exits[s.held.key()] = s.held
			}
		case *ssa.If:
			ck := condKey(last.Cond)
			for _, s := range states {
				for i, succ := range it.b.Succs {
					n := s
					if ifs[ck] > 1 && li.stableCond(ck) {
						want := i == 0
						if ck != last.Cond {
							want = !want
						}
						tag := fmt.Sprintf("%s=%v;", ck.Name(), want)
						anti := fmt.Sprintf("%s=%v;", ck.Name(), !want)
						if strings.Contains(n.conds, anti) {
							continue
						}
						if !strings.Contains(n.conds, tag) {
							n.conds += tag
						}
					}
					todo = append(todo, item{succ, n})
				}
			}
		default:
			for _, s := range states {
				for _, succ := range it.b.Succs {
					todo = append(todo, item{succ, s})
				}
			}
		}
	}
	var res []heldSet
	for _, h := range exits {
		res = append(res, h)
	}
	sort.Slice(res, func(i, j int) bool { return res[i].key() < res[j].key() })
	if len(res) > 1 {
		li.problem("release", fname(c.fn), c.fn.Pos(), "returns with %s held on one path and %s on another", res[0], res[1])
		// carry on with the smallest so that one mistake is reported once
		sort.Slice(res, func(i, j int) bool { return len(res[i]) < len(res[j]) })
		res = res[:1]
	}
	li.memo[k] = res
	return res
}

func condKey(v ssa.Value) ssa.Value {
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return v
		}
		v = u.X
	}
}

// stableCond: the condition is computed once (not inside a loop), so testing it twice gives one answer.
func (li *LockInfo) stableCond(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	return !blockInLoop(i.Block())
}

func blockInLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		todo = append(todo, x.Succs...)
	}
	return false
}

func (li *LockInfo) note(ins ssa.Instruction, h heldSet) {
	old, ok := li.atInstr[ins]
	if !ok {
		li.atInstr[ins] = h
		return
	}
	n := heldSet{}
	for k, v := range old {
		if w, ok := h[k]; ok {
			n[k] = min(v, w)
		}
	}
	li.atInstr[ins] = n
}

func (li *LockInfo) step(c *lctx, s lstate, ins ssa.Instruction) []lstate {
	li.note(ins, s.held)
	if len(s.held) > 0 || true {
		if w := blockingInstr(ins); w != "" {
			li.blockSite(c.fn, ins, w, s.held)
		}
	}
	switch x := ins.(type) {
	case *ssa.Call:
		return li.doCall(c, s, x, &x.Call)
	case *ssa.Defer:
		n := s
		for _, d := range s.defers {
			if d == x {
				return []lstate{n} // deferred in a loop
			}
		}
		n.defers = append(append([]*ssa.Defer{}, s.defers...), x)
		return []lstate{n}
	case *ssa.RunDefers:
		states := []lstate{s}
		for k := len(s.defers) - 1; k >= 0; k-- {
			var next []lstate
			for _, st := range states {
				next = append(next, li.doCall(c, st, s.defers[k], &s.defers[k].Call)...)
			}
			states = next
		}
		for i := range states {
			states[i].defers = nil
		}
		return states
	case *ssa.Go:
		// a goroutine starts with no locks
		for _, t := range li.targets(c, &x.Call) {
			if t.fn.Blocks != nil && li.p.prod(t.fn) {
				sub := li.subctx(c, t, &x.Call, heldSet{})
				for _, o := range li.walk(sub) {
					if len(o) > 0 {
						li.problem("release", fname(t.fn), t.fn.Pos(), "the goroutine can end holding %s", o)
					}
				}
			}
		}
	}
	return []lstate{s}
}

func (li *LockInfo) blockSite(fn *ssa.Function, ins ssa.Instruction, what string, h heldSet) {
	li.blkSites[ins] = what
	k := fmt.Sprintf("%p|%s", ins, h.key())
	if li.blkSeen[k] {
		return
	}
	li.blkSeen[k] = true
	li.blocking = append(li.blocking, blockingOp{ins, fn, what, h})
}

// blockingInstr names an instruction that can wait for another goroutine without bound.
func blockingInstr(ins ssa.Instruction) string {
	switch x := ins.(type) {
	case *ssa.Send:
		return "channel send"
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return "channel receive"
		}
	case *ssa.Select:
		if x.Blocking {
			return "select without default"
		}
	}
	return ""
}

func blockingCallee(n string) string {
	switch n {
	case "time.Sleep":
		return "sleep"
	case "sync.(WaitGroup).Wait", "sync.(Cond).Wait":
		return "wait for goroutines"
	}
	for _, p := range []string{
		"github.com/ethereum/go-ethereum/rpc.(Client).", "github.com/ethereum/go-ethereum/rpc.Dial",
		"github.com/libp2p/go-libp2p/core/host.(Host).Connect", "github.com/libp2p/go-libp2p/core/host.(Host).NewStream",
		"github.com/libp2p/go-libp2p/core/network.(Stream).Write", "github.com/libp2p/go-libp2p/core/network.(Stream).Read",
		"bufio.(Writer).Flush", "io.ReadFull", "io.ReadAll", "io.(Writer).Write", "io.(Reader).Read", "net.Dial", "net/http.",
		"github.com/sisu-network/dheart/p2p.(ConnectionManager).WriteToStream",
	} {
		if strings.HasPrefix(n, p) {
			return "network I/O"
		}
	}
	return ""
}

func (li *LockInfo) targets(c *lctx, cc *ssa.CallCommon) []fdesc {
	if !cc.IsInvoke() {
		d := li.resolve(c, cc.Value, 0)
		if d.known && len(d.fns) > 0 {
			return d.fns
		}
	}
	var res []fdesc
	for _, f := range li.p.Callees(cc) {
		res = append(res, fdesc{fn: f})
	}
	return res
}

func (li *LockInfo) subctx(c *lctx, t fdesc, cc *ssa.CallCommon, h heldSet) *lctx {
	sub := &lctx{fn: t.fn, held: h, free: t.binds}
	var args []ssa.Value
	if cc.IsInvoke() {
		args = append(args, cc.Value)
	} else if t.fn.Signature.Recv() != nil && len(cc.Args) == len(t.fn.Params)-1 {
		args = append(args, nil) // bound method value
	}
	args = append(args, cc.Args...)
	for _, a := range args {
		if a == nil || !relevantParam(a.Type()) {
			sub.params = append(sub.params, ldesc{})
		} else {
			sub.params = append(sub.params, li.resolve(c, a, 0))
		}
	}
	return sub
}

func relevantParam(t types.Type) bool {
	if isMutex(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return true
	case *types.Interface:
		return t.String() == "sync.Locker" || u.NumMethods() == 2 && strings.Contains(u.String(), "Unlock")
	}
	return false
}

var lockOps = map[string]int{ // 1 RLock, 2 Lock, -1 RUnlock, -2 Unlock, 3 TryLock
	"sync.(Mutex).Lock": 2, "sync.(RWMutex).Lock": 2, "sync.(RWMutex).RLock": 1, "sync.(Mutex).Unlock": -2, "sync.(RWMutex).Unlock": -2,
	"sync.(RWMutex).RUnlock": -1, "sync.(Mutex).TryLock": 3, "sync.(RWMutex).TryLock": 3, "sync.(RWMutex).TryRLock": 4,
	"sync.(Locker).Lock": 5, "sync.(Locker).Unlock": -5,
}

func (li *LockInfo) doCall(c *lctx, s lstate, site ssa.CallInstruction, cc *ssa.CallCommon) []lstate {
	n := calleeName(cc)
	if op, ok := lockOps[n]; ok {
		var recv ssa.Value
		if cc.IsInvoke() {
			recv = cc.Value
		} else if len(cc.Args) > 0 {
			recv = cc.Args[0]
		}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok && len(mc.Bindings) == 1 { // method value called
			recv = mc.Bindings[0]
		}
		var d ldesc
		if recv != nil {
			d = li.resolve(c, recv, 0)
		}
		return li.lockOp(c, s, site, d, op)
	}
	if !cc.IsInvoke() {
		if _, isB := cc.Value.(*ssa.Builtin); isB {
			return []lstate{s}
		}
		// a stored lock method value
		if d := li.resolve(c, cc.Value, 0); d.lock != "" && len(d.fns) == 1 && len(d.fns[0].binds) == 1 && strings.HasPrefix(d.fns[0].binds[0].lock, "op:") {
			return li.lockOp(c, s, site, d, lockOps[strings.TrimPrefix(d.fns[0].binds[0].lock, "op:")])
		}
	}
	if w := blockingCallee(n); w != "" {
		li.blockSite(c.fn, site, w, s.held)
	}
	ts := li.targets(c, cc)
	var res []lstate
	seen := map[string]bool{}
	add := func(h heldSet) {
		if !seen[h.key()] {
			seen[h.key()] = true
			st := s
			st.held = h
			res = append(res, st)
		}
	}
	called := false
	for _, t := range ts {
		if t.fn.Blocks == nil || !(li.p.prod(t.fn) || li.p.isOwn(t.fn) && t.fn.Parent() != nil) {
			continue
		}
		called = true
		for _, h := range li.walk(li.subctx(c, t, cc, s.held)) {
			add(h)
		}
	}
	if !called {
		// outside the program: function arguments run inside the call
		async := n == "time.AfterFunc" || strings.HasSuffix(n, ".SetStreamHandler")
		for _, a := range cc.Args {
			if _, ok := a.Type().Underlying().(*types.Signature); !ok {
				continue
			}
			h := s.held
			if async {
				h = heldSet{}
			}
			d := li.resolve(c, a, 0)
			for _, f := range d.fns {
				if f.fn.Blocks != nil && li.p.isOwn(f.fn) {
					for _, o := range li.walk(&lctx{fn: f.fn, held: h, free: f.binds}) {
						if o.key() != h.key() {
							li.problem("release", fname(f.fn), f.fn.Pos(), "a callback changes the locks held from %s to %s", h, o)
						}
					}
				}
			}
		}
		add(s.held)
	}
	if len(res) == 0 {
		// every target never returns (an endless loop): nothing follows
		return nil
	}
	return res
}

func (li *LockInfo) lockOp(c *lctx, s lstate, site ssa.CallInstruction, d ldesc, op int) []lstate {
	pos := site.Pos()
	where := fname(c.fn)
	if d.lock == "" {
		li.problem("undecided", where, pos, "cannot tell which lock this operates on")
		return []lstate{s}
	}
	if d.rlock || op == 5 || op == -5 {
		if op == 5 {
			op = 2
		} else if op == -5 {
			op = -2
		}
		if d.rlock {
			op /= 2
		}
	}
	l := d.lock
	n := s
	switch op {
	case 1, 2, 3, 4:
		mode := op
		if op > 2 {
			mode = 5 - op // TryLock 3 -> 2, TryRLock 4 -> 1
		}
		li.acquires[site] = l
		if op <= 2 {
			if m, ok := s.held[l]; ok {
				how := "while already holding it: it deadlocks with itself"
				if m == 1 && op == 1 {
					how = "while already holding it for reading: a writer waiting in between blocks both"
				}
				li.problem("reentry", where, pos, "acquires %s %s", lockName(l), how)
			}
			for h := range s.held {
				if h != l {
					li.edges[h+">"+l] = lockEdge{h, l, pos, c.fn}
				}
			}
		}
		n.held = s.held.with(l, mode)
		if op > 2 {
			// may fail
			return []lstate{n, s}
		}
	case -1, -2:
		m, ok := s.held[l]
		if !ok {
			li.problem("release", where, pos, "releases %s which is not held on some path", lockName(l))
		} else if m != -op {
			li.problem("release", where, pos, "releases %s with the wrong operation for the way it is held", lockName(l))
		}
		n.held = s.held.with(l, 0)
	}
	return []lstate{n}
}

// ---- access collection -------------------------------------------------------------------------------

// freshIn: v is an object constructed by this activation and not yet shared.
type freshness struct {
	p    *Program
	memo map[ssa.Value]int // 1 yes 2 no 3 in progress
}

func (f *freshness) fresh(v ssa.Value, depth int) bool {
	if depth > 10 {
		return false
	}
	switch f.memo[v] {
	case 1:
		return true
	case 2:
		return false
	case 3:
		return true // optimistic inside cycles of parameters
	}
	f.memo[v] = 3
	r := f.compute(v, depth)
	if r {
		f.memo[v] = 1
	} else {
		f.memo[v] = 2
	}
	return r
}

func (f *freshness) compute(v ssa.Value, depth int) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !f.fresh(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		sc := x.Call.StaticCallee()
		return sc != nil && f.returnsFresh(sc, depth)
	case *ssa.MakeInterface:
		return f.fresh(x.X, depth+1)
	case *ssa.ChangeInterface:
		return f.fresh(x.X, depth+1)
	case *ssa.Parameter:
		fn := x.Parent()
		idx := -1
		for i, p := range fn.Params {
			if p == x {
				idx = i
			}
		}
		if fn.Parent() != nil || idx < 0 {
			return false
		}
		if idx == 0 && fn.Signature.Recv() != nil && token.IsExported(fn.Name()) && len(f.p.Graph().In[fn]) == 0 {
			return false
		}
		in := f.p.Graph().In[fn]
		if len(in) == 0 || f.p.taken()[fn] {
			return false
		}
		for _, e := range in {
			cc := e.Site.Common()
			var a ssa.Value
			if cc.IsInvoke() {
				if idx == 0 {
					a = cc.Value
				} else if idx-1 < len(cc.Args) {
					a = cc.Args[idx-1]
				}
			} else if idx < len(cc.Args) {
				a = cc.Args[idx]
			}
			if e.Go || a == nil || !f.fresh(a, depth+1) || f.sharedBefore(a, e.Site) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					n++
					if !f.fresh(st.Val, depth+1) {
						return false
					}
				} else if _, ok := r.(*ssa.MakeClosure); ok {
					return false
				}
			}
			return n > 0
		}
		// a field just assigned a fresh object in this function
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			for _, b := range fa.Parent().Blocks {
				for _, i := range b.Instrs {
					st, ok := i.(*ssa.Store)
					if !ok {
						continue
					}
					sa, ok := st.Addr.(*ssa.FieldAddr)
					if ok && sa.X == fa.X && sa.Field == fa.Field && (b == x.Block() && before(st, x) || b != x.Block() && b.Dominates(x.Block())) && f.fresh(st.Val, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (f *freshness) returnsFresh(fn *ssa.Function, depth int) bool {
	if fn.Blocks == nil || !f.p.isOwn(fn) || depth > 10 {
		return false
	}
	any := false
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if len(ret.Results) == 0 {
			return false
		}
		if c, ok := ret.Results[0].(*ssa.Const); ok && c.Value == nil {
			continue
		}
		if !f.fresh(ret.Results[0], depth+1) {
			return false
		}
		any = true
	}
	return any
}

// sharedBefore: a goroutine that was handed v starts before site in the same function.
func (f *freshness) sharedBefore(v ssa.Value, site ssa.Instruction) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		g, ok := r.(*ssa.Go)
		if ok && reaches(g, site) {
			return true
		}
		if mc, ok := r.(*ssa.MakeClosure); ok {
			for _, rr := range *mc.Referrers() {
				if g, ok := rr.(*ssa.Go); ok && reaches(g, site) {
					return true
				}
			}
		}
	}
	return false
}

func before(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// reaches: control can flow from a to b.
func reaches(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() && before(a, b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x == b.Block() {
			return true
		}
		if !seen[x] {
			seen[x] = true
			todo = append(todo, x.Succs...)
		}
	}
	return false
}

// accesses collects every read and write of a struct field (map and slice contents count as the field).
func (li *LockInfo) accesses() map[*types.Var][]fieldAccess {
	res := map[*types.Var][]fieldAccess{}
	fr := &freshness{p: li.p, memo: map[ssa.Value]int{}}
	add := func(fa *ssa.FieldAddr, i ssa.Instruction, write bool, what string) {
		f := fieldOfAddr(fa)
		if f == nil || f.Pkg() == nil || !strings.HasPrefix(f.Pkg().Path(), modPath) {
			return
		}
		fresh := fr.fresh(fa.X, 0) && !fr.sharedBefore(fa.X, i)
		res[f] = append(res[f], fieldAccess{f, write, i, i.Parent(), fresh, what})
	}
	for _, fn := range li.p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || fa.Referrers() == nil {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch x := r.(type) {
					case *ssa.Store:
						if x.Addr == fa {
							add(fa, x, true, "assigned")
						}
					case *ssa.UnOp:
						add(fa, x, false, "read")
						li.contents(x, func(ins ssa.Instruction, write bool, what string) { add(fa, ins, write, what) }, map[ssa.Value]bool{})
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
						li.contents(x.(ssa.Value), func(ins ssa.Instruction, write bool, what string) { add(fa, ins, write, what) }, map[ssa.Value]bool{})
					}
				}
			}
		}
	}
	li.dropElemReads(res)
	return res
}

// contents follows a map or slice loaded from a field to the accesses of its contents.
func (li *LockInfo) contents(v ssa.Value, add func(ssa.Instruction, bool, string), seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	_, isMap := v.Type().Underlying().(*types.Map)
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				add(x, true, "map element assigned")
			}
		case *ssa.Lookup:
			if x.X == v && isMap {
				add(x, false, "map element read")
				if x.CommaOk {
					li.extracted(x, 0, add, seen)
				} else {
					li.nested(x, add, seen)
				}
			}
		case *ssa.Range:
			if isMap {
				add(x, false, "map iterated")
				for _, rr := range *x.Referrers() {
					if n, ok := rr.(*ssa.Next); ok {
						add(n, false, "map iterated")
						li.extracted(n, 2, add, seen)
					}
				}
			}
		case *ssa.Phi:
			li.contents(x, add, seen)
		case *ssa.ChangeType:
			li.contents(x, add, seen)
		case *ssa.IndexAddr:
			if x.X == v && x.Referrers() != nil {
				for _, rr := range *x.Referrers() {
					switch y := rr.(type) {
					case *ssa.Store:
						if y.Addr == x {
							add(y, true, "element assigned")
						}
					case *ssa.UnOp:
						add(y, false, elemRead)
					}
				}
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && isMap {
				switch bi.Name() {
				case "delete", "clear":
					add(x, true, "map element deleted")
				case "len":
					add(x, false, "map size read")
				}
			} else if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "append":
					if len(x.Call.Args) > 1 && x.Call.Args[1] == v {
						add(x, false, elemRead)
					}
				case "copy":
					if x.Call.Args[0] == v {
						add(x, true, "element assigned")
					} else {
						add(x, false, elemRead)
					}
				}
			} else {
				// a map or slice handed to a function of the program: its accesses there count
				if sc := x.Call.StaticCallee(); sc != nil && li.p.prod(sc) {
					for k, a := range x.Call.Args {
						if a == v && k < len(sc.Params) {
							n := 0
							li.contents(sc.Params[k], func(_ ssa.Instruction, w bool, what string) {
								n++
								if what != elemRead {
									what += " in " + fname(sc)
								}
								add(x, w, what)
							}, seen)
						}
					}
				}
			}
		}
	}
}

const elemRead = "element read"

// nested continues with the contents of a map or slice which is itself an element.
func (li *LockInfo) nested(v ssa.Value, add func(ssa.Instruction, bool, string), seen map[ssa.Value]bool) {
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
		li.contents(v, add, seen)
	}
}

func (li *LockInfo) extracted(v ssa.Value, idx int, add func(ssa.Instruction, bool, string), seen map[ssa.Value]bool) {
	for _, r := range *v.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == idx {
			li.nested(e, add, seen)
		}
	}
}

// dropElemReads removes the reads of slice elements from the accesses of fields whose elements are never
// replaced (readers then work on a snapshot), and those which were made after checking, in the critical
// section, that the list is as it should be.
func (li *LockInfo) dropElemReads(acc map[*types.Var][]fieldAccess) {
	for f, as := range acc {
		inPlace := false
		locked := map[ssa.Instruction]bool{}
		for _, a := range as {
			if a.write && !a.fresh && strings.HasPrefix(a.what, "element assigned") {
				inPlace = true
			}
			if a.what == elemRead && len(li.heldAt(a.instr)) > 0 {
				locked[a.instr] = true
			}
		}
		var res []fieldAccess
		for _, a := range as {
			if a.what == elemRead && (!inPlace || len(li.heldAt(a.instr)) == 0 && checkedBefore(a.instr, locked)) {
				continue
			}
			res = append(res, a)
		}
		acc[f] = res
	}
}

// checkedBefore says that i is only executed after a branch on something computed by one of the given instructions.
func checkedBefore(i ssa.Instruction, by map[ssa.Instruction]bool) bool {
	for b := i.Block(); b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if ok && dependsOn(br.Cond, by, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

func dependsOn(v ssa.Value, on map[ssa.Instruction]bool, seen map[ssa.Value]bool) bool {
	i, ok := v.(ssa.Instruction)
	if !ok || seen[v] {
		return false
	}
	seen[v] = true
	if on[i] {
		return true
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && dependsOn(*op, on, seen) {
			return true
		}
	}
	return false
}

// heldAt is the set of locks held at an instruction in every context.
func (li *LockInfo) heldAt(i ssa.Instruction) heldSet { return li.atInstr[i] }

// GuardOf infers, for every mutable field, the lock that protects it.
func (li *LockInfo) GuardOf() map[*types.Var]string {
	res := map[*types.Var]string{}
	for f, as := range li.accesses() {
		mutable := false
		count := map[string]int{}
		for _, a := range as {
			if a.fresh {
				continue
			}
			if a.write {
				mutable = true
			}
			for l := range li.heldAt(a.instr) {
				w := 1
				if a.write {
					w = 3
				}
				count[l] += w
			}
		}
		if !mutable {
			continue
		}
		best := ""
		for l, n := range count {
			if best == "" || n > count[best] || n == count[best] && li.better(f, l, best) {
				best = l
			}
		}
		if best != "" {
			res[f] = best
		}
	}
	return res
}

// better prefers a lock of the struct that declares f.
func (li *LockInfo) better(f *types.Var, a, b string) bool {
	own := func(l string) bool {
		n := li.structOf[l]
		if n == nil {
			return false
		}
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i) == f {
				return true
			}
		}
		return false
	}
	if own(a) != own(b) {
		return own(a)
	}
	return a < b
}
