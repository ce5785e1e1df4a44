package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ival struct{ lo, hi int64 }

const (
	negInf = -posInf
	posInf = math.MaxInt64 / 4
)

// State is one abstract state of the path-sensitive dataflow: what the path so far has established.
type State struct {
	mem    map[*Term]*Term          // address -> value
	facts  map[*Term]bool           // boolean terms decided on this path
	eq     map[*Term]*Term          // term known equal to a constant
	neq    map[*Term]map[*Term]bool // term known different from constants
	iv     map[*Term]ival           // bounds of linear integer forms
	iv0    map[*Term]ival           // the interval a loop variable was assumed to stay in when its loop was entered again
	loops  map[string]loopSnap      // memory at the previous arrival at the loop headers (not part of the key)
	havoc  map[*Term]string         // allocs whose contents are unknown, with the point where that happened
	held   map[string]int           // locks held: address key -> 1 read, 2 write
	acq    map[string]string        // lock type key -> last acquisition point
	auto   map[string]string        // property automaton
	trace  []string                 // for reports only, not part of the identity of a state
	nTrace int
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, facts: map[*Term]bool{}, eq: map[*Term]*Term{}, neq: map[*Term]map[*Term]bool{},
		iv: map[*Term]ival{}, iv0: map[*Term]ival{}, havoc: map[*Term]string{}, held: map[string]int{}, acq: map[string]string{}, auto: map[string]string{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	n := &State{mem: cp(s.mem), facts: cp(s.facts), eq: cp(s.eq), neq: make(map[*Term]map[*Term]bool, len(s.neq)), iv: cp(s.iv), iv0: cp(s.iv0),
		havoc: cp(s.havoc), held: cp(s.held), acq: cp(s.acq), auto: cp(s.auto), trace: s.trace, loops: s.loops}
	for k, v := range s.neq {
		n.neq[k] = v // copied on write
	}
	return n
}

func (s *State) step(f string, a ...any) {
	if len(s.trace) > 60 {
		return
	}
	s.trace = append(s.trace[:len(s.trace):len(s.trace)], fmt.Sprintf(f, a...))
}

func (s *State) key() string {
	var parts []string
	for k, v := range s.mem {
		parts = append(parts, "m"+k.key+"="+v.key)
	}
	for k, v := range s.facts {
		if v {
			parts = append(parts, "t"+k.key)
		} else {
			parts = append(parts, "f"+k.key)
		}
	}
	for k, v := range s.eq {
		parts = append(parts, "e"+k.key+"="+v.key)
	}
	for k, v := range s.neq {
		var ks []string
		for x := range v {
			ks = append(ks, x.key)
		}
		sort.Strings(ks)
		parts = append(parts, "n"+k.key+"!"+strings.Join(ks, ","))
	}
	for k, v := range s.iv {
		parts = append(parts, fmt.Sprintf("i%s=%d,%d", k.key, v.lo, v.hi))
	}
	for k, v := range s.iv0 {
		parts = append(parts, fmt.Sprintf("j%s=%d,%d", k.key, v.lo, v.hi))
	}
	for k, v := range s.havoc {
		parts = append(parts, "h"+k.key+"="+v)
	}
	for k, v := range s.held {
		parts = append(parts, fmt.Sprintf("l%s=%d", k, v))
	}
	for k, v := range s.acq {
		parts = append(parts, "q"+k+"="+v)
	}
	for k, v := range s.auto {
		parts = append(parts, "a"+k+"="+v)
	}
	sort.Strings(parts)
	return strings.Join(parts, "\n")
}

// setIv0 records the interval a loop variable is assumed to stay in.
func (s *State) setIv0(t *Term, v ival) {
	if v.lo <= negInf && v.hi >= posInf {
		delete(s.iv0, t)
		return
	}
	s.iv0[t] = v
}

// kill forgets everything known about a symbol that is being redefined.
func (s *State) kill(sym *Term) {
	for k := range s.facts {
		if k.contains(sym) {
			delete(s.facts, k)
		}
	}
	for k, v := range s.eq {
		if k.contains(sym) || v.contains(sym) {
			delete(s.eq, k)
		}
	}
	for k := range s.neq {
		if k.contains(sym) {
			delete(s.neq, k)
		}
	}
	for k := range s.iv {
		if k.contains(sym) {
			delete(s.iv, k)
		}
	}
	for k := range s.mem {
		if k.contains(sym) && k != sym {
			delete(s.mem, k)
		}
	}
}

// Frame is one (inlined) activation.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	ctx    string
	parent *Frame
	site   ssa.CallInstruction
	defers []deferred
	depth  int
	isGo   bool
	block  *ssa.BasicBlock // being executed (only with Forget)
}

type deferred struct {
	call *ssa.CallCommon
	site ssa.CallInstruction
	fnT  *Term
	args []*Term
}

func (f *Frame) onStack(fn *ssa.Function) bool {
	for x := f; x != nil; x = x.parent {
		if x.fn == fn {
			return true
		}
	}
	return false
}

// Out is one way a call can end.
type Out struct {
	st    *State
	rets  []*Term
	panic bool
	at    ssa.Instruction
}

// CallEvent is given to the hook for every call before it is resolved.
type CallEvent struct {
	In    *Interp
	Name  string // resolved name of the callee, "" for dynamic calls
	Obj   *types.Func
	Site  ssa.CallInstruction
	Com   *ssa.CallCommon
	Frame *Frame
	St    *State
	Recv  *Term   // receiver of a method or interface call
	Args  []*Term // without the receiver
	FnT   *Term   // function value of a dynamic call
	Go    bool
}

// Interp explores the paths of one root function with every production callee inlined.
type Interp struct {
	P *Program
	// OnCall may handle a call: it returns the possible continuations. handled=false falls through.
	OnCall func(e *CallEvent) (outs []Out, handled bool)
	// OnStore is called before a store.
	OnStore func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term)
	// OnMapUpdate is called before m[k]=v.
	OnMapUpdate func(fr *Frame, st *State, i *ssa.MapUpdate, m, k, v *Term)
	// OnInstr is called before every instruction.
	OnInstr func(fr *Frame, st *State, i ssa.Instruction)
	// OnBranch is called after a branch decided something the path did not know.
	OnBranch func(fr *Frame, st *State, i *ssa.If, cond *Term, v bool)
	// OnBackEdge is called when an iteration of the loop with this header ends and the loop is re-entered.
	OnBackEdge func(fr *Frame, st *State, header, from *ssa.BasicBlock)
	// OnSend is called for a channel send (blocking tells whether it can block).
	OnSend func(fr *Frame, st *State, i ssa.Instruction, ch, v *Term, blocking bool)
	// OnRecv is called for a channel receive.
	OnRecv func(fr *Frame, st *State, i ssa.Instruction, ch *Term, blocking bool)
	// OnReturn is called at every return of every activation.
	OnReturn func(fr *Frame, st *State, i *ssa.Return, rets []*Term)
	// FieldVal overrides loads of a field.
	FieldVal func(f *types.Var, base *Term, st *State) *Term
	// NoInline keeps a function opaque.
	NoInline func(fn *ssa.Function) bool
	// InlineGo executes go statements as calls.
	InlineGo bool
	// Guard maps a field to the type key of the lock that protects it.
	Guard map[*types.Var]string
	// Multi: explore every implementer of an interface call instead of treating it as opaque.
	Multi bool
	// Forget what is known about the values of a loop when it is left; Roots names further values to keep.
	Forget bool
	Roots  func(st *State) []*Term
	// Unroll loops instead of summarising them: only for functions of constants.
	Unroll bool
	// MaxDepth of inlining.
	MaxDepth int

	Steps   int
	MaxStep int
	Paths   int
	Inlined map[*ssa.Function]bool
	Opaque  map[string]int
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	needs   map[blockNeed]map[ssa.Value]bool
	loops   map[*ssa.Function]map[*ssa.BasicBlock]bool
	siteID  map[ssa.Instruction]string
}

func NewInterp(p *Program) *Interp {
	return &Interp{P: p, MaxDepth: 24, MaxStep: 3_000_000, Inlined: map[*ssa.Function]bool{}, Opaque: map[string]int{},
		needs: map[blockNeed]map[ssa.Value]bool{},
		live:  map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]bool{},
		siteID: map[ssa.Instruction]string{}, Guard: map[*types.Var]string{}}
}

// id of an instruction inside its function.
func (in *Interp) id(i ssa.Instruction) string {
	if s, ok := in.siteID[i]; ok {
		return s
	}
	fn := i.Parent()
	n := 0
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			in.siteID[x] = fmt.Sprintf("%d", n)
			n++
		}
	}
	if fn.Recover != nil {
		for _, x := range fn.Recover.Instrs {
			if _, ok := in.siteID[x]; !ok {
				in.siteID[x] = fmt.Sprintf("r%d", n)
				n++
			}
		}
	}
	return in.siteID[i]
}

// Run explores root with symbolic parameters and returns every way it can end.
func (in *Interp) Run(root *ssa.Function, st *State, args []*Term) []Out {
	if st == nil {
		st = newState()
	}
	if args == nil {
		for _, p := range root.Params {
			args = append(args, in.paramTerm(p))
		}
	}
	fr := &Frame{fn: root, env: map[ssa.Value]*Term{}, ctx: ""}
	return in.exec(fr, root, args, nil, st)
}

func (in *Interp) paramTerm(p *ssa.Parameter) *Term {
	// the receiver of a method that runs is not nil
	if p.Parent().Signature.Recv() != nil && len(p.Parent().Params) > 0 && p.Parent().Params[0] == p {
		return tSymNN(p.Name(), "", p.Type())
	}
	return tSym(p.Name(), "", p.Type())
}

type work struct {
	b    *ssa.BasicBlock
	pred *ssa.BasicBlock
	env  map[ssa.Value]*Term
	st   *State
	df   []deferred
}

func (in *Interp) exec(fr *Frame, fn *ssa.Function, args, bindings []*Term, st *State) []Out {
	in.Inlined[fn] = true
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = tSym(p.Name(), fr.ctx, p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			fr.env[fv] = bindings[i]
		} else {
			fr.env[fv] = tSym("free:"+fv.Name(), fr.ctx, fv.Type())
		}
	}
	var outs []Out
	outSeen := map[string]bool{}
	seen := map[string]bool{}
	queue := []work{{fn.Blocks[0], nil, fr.env, st, nil}}
	live := in.liveness(fn)
	for len(queue) > 0 {
		w := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		// phis
		env := cp(w.env)
		in.phis(fr, w.b, w.pred, env, w.st)
		k := in.blockKey(w.b, env, w.st, w.df, live[w.b])
		if seen[k] {
			continue
		}
		seen[k] = true
		in.runFrom(fr, w.b, firstNonPhi(w.b), env, w.st, w.df, &queue, &outs, outSeen)
	}
	// forget what only the callee could name
	if fr.parent != nil {
		for i := range outs {
			in.gc(&outs[i], fr)
		}
		outs = dedupe(outs)
	}
	return outs
}

func dedupe(outs []Out) []Out {
	seen := map[string]bool{}
	var r []Out
	for _, o := range outs {
		k := o.st.key()
		for _, t := range o.rets {
			k += "|" + t.key
		}
		if o.panic {
			k += "|panic"
		}
		if !seen[k] {
			seen[k] = true
			r = append(r, o)
		}
	}
	return r
}

func (in *Interp) gc(o *Out, fr *Frame) {
	roots := o.rets
	if in.Forget {
		roots = append(in.outerRoots(fr, o.st), roots...)
	}
	in.collect(o.st, fr.ctx, roots)
}

// outerRoots lists the values the callers of a frame still need.
func (in *Interp) outerRoots(fr *Frame, st *State) []*Term {
	var r []*Term
	if in.Roots != nil {
		r = in.Roots(st)
	}
	for f := fr.parent; f != nil; f = f.parent {
		for v, t := range f.env {
			if t != nil && (f.block == nil || in.neededAfter(f.fn, f.block, v)) {
				r = append(r, t)
			}
		}
	}
	return r
}

// neededAfter: v is used in block b or after it.
func (in *Interp) neededAfter(fn *ssa.Function, b *ssa.BasicBlock, v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	}
	k := blockNeed{fn, b}
	m := in.needs[k]
	if m == nil {
		m = map[ssa.Value]bool{}
		for _, i := range b.Instrs {
			for _, op := range i.Operands(nil) {
				if *op != nil {
					m[*op] = true
				}
			}
		}
		for _, s := range b.Succs {
			for x := range in.liveness(fn)[s] {
				m[x] = true
			}
			for k, p := range s.Preds {
				for _, x := range s.Instrs {
					if phi, ok := x.(*ssa.Phi); ok && p == b {
						m[phi.Edges[k]] = true
					}
				}
			}
		}
		in.needs[k] = m
	}
	return m[v]
}

type blockNeed struct {
	fn *ssa.Function
	b  *ssa.BasicBlock
}

// collect forgets what is local to ctx and not reachable from the roots.
func (in *Interp) collect(st *State, ctx string, roots []*Term) {
	reach := map[*Term]bool{}
	mark := func(t *Term) { t.walk(func(x *Term) { reach[x] = true }) }
	for _, t := range roots {
		mark(t)
	}
	stale := func(t *Term) bool {
		if !in.Forget || t.op != "ld" || t.args[0].op != "fa" {
			return false
		}
		g, ok := in.Guard[t.args[0].field]
		return ok && !strings.HasSuffix(t.key, st.acq[g]+")")
	}
	local := func(t *Term) bool {
		return t.ctx != "" && strings.HasPrefix(t.ctx, ctx) || in.Forget && t.op == "ia" || stale(t)
	}
	// memory of non-local objects keeps values alive; memory of local objects only if reachable
	for changed := true; changed; {
		changed = false
		for a, v := range st.mem {
			r := a.root()
			if local(r) && !reach[r] {
				continue
			}
			if !reach[v] || !reach[a] {
				mark(v)
				mark(a)
				reach[a] = true
				changed = true
			}
		}
	}
	// what is equal to something needed is needed
	for changed := in.Forget; changed; {
		changed = false
		for t, v := range st.facts {
			if !v || t.op != "eq" {
				continue
			}
			some, all := false, true
			t.walk(func(x *Term) {
				if local(x) {
					some = some || reach[x]
					all = all && reach[x]
				}
			})
			if some && !all {
				mark(t)
				changed = true
			}
		}
	}
	dead := func(t *Term) bool {
		d := false
		t.walk(func(x *Term) {
			if local(x) && !reach[x] {
				d = true
			}
		})
		return d
	}
	for a := range st.mem {
		if dead(a) {
			delete(st.mem, a)
		}
	}
	for t := range st.facts {
		if dead(t) {
			delete(st.facts, t)
		}
	}
	for t := range st.eq {
		if dead(t) {
			delete(st.eq, t)
		}
	}
	for t := range st.neq {
		if dead(t) {
			delete(st.neq, t)
		}
	}
	for t := range st.iv {
		if dead(t) {
			delete(st.iv, t)
		}
	}
	for t := range st.havoc {
		if dead(t) {
			delete(st.havoc, t)
		}
	}
	for t := range st.iv0 {
		if in.Forget && dead(t) {
			delete(st.iv0, t)
		}
	}
}

// forget drops what is known about values of a loop that is left, unless they are still needed.
func (in *Interp) forget(fr *Frame, succ, b *ssa.BasicBlock, env map[ssa.Value]*Term, st *State, df []deferred) {
	if !leavesLoop(b, succ) && !succ.Dominates(b) {
		return
	}
	var roots []*Term
	for v := range in.liveness(fr.fn)[succ] {
		if t := env[v]; t != nil {
			roots = append(roots, t)
		}
	}
	for i, p := range succ.Preds {
		if p != b {
			continue
		}
		for _, x := range succ.Instrs {
			phi, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			roots = append(roots, in.val(fr, env, phi.Edges[i]))
		}
	}
	for _, v := range fr.fn.Params {
		roots = append(roots, env[v])
	}
	for _, v := range fr.fn.FreeVars {
		roots = append(roots, env[v])
	}
	for _, d := range df {
		roots = append(roots, d.args...)
		if d.fnT != nil {
			roots = append(roots, d.fnT)
		}
	}
	roots = append(roots, in.outerRoots(fr, st)...)
	var rs []*Term
	for _, t := range roots {
		if t != nil {
			rs = append(rs, t)
		}
	}
	in.collect(st, fr.ctx, rs)
	// a version nothing refers to any more needs no name of its own
	used := map[*types.Var]bool{}
	note := func(t *Term) {
		t.walk(func(x *Term) {
			if x.op == "fa" {
				used[x.field] = true
			}
		})
	}
	for _, t := range rs {
		note(t)
	}
	for a, v := range st.mem {
		note(a)
		note(v)
	}
	for t := range st.facts {
		note(t)
	}
	for t, v := range st.eq {
		note(t)
		note(v)
	}
	for t := range st.neq {
		note(t)
	}
	for t := range st.iv {
		note(t)
	}
	cur := map[string]bool{}
	for f, g := range in.Guard {
		cur[g] = cur[g] || used[f]
	}
	for g, inUse := range cur {
		if _, ok := st.acq[g]; ok && !inUse {
			st.acq[g] = "L" + fr.ctx + funcID(fr.fn) + "." + strconv.Itoa(succ.Index)
		}
	}
}

var loopsOf = map[*ssa.Function]map[*ssa.BasicBlock][]*ssa.BasicBlock{}

// leavesLoop: the edge leads out of a loop.
func leavesLoop(b, succ *ssa.BasicBlock) bool {
	f := b.Parent()
	l, ok := loopsOf[f]
	if !ok {
		l = map[*ssa.BasicBlock][]*ssa.BasicBlock{}
		for _, h := range f.Blocks {
			for _, p := range h.Preds {
				if h.Dominates(p) {
					for x := range naturalLoop(h) {
						l[x] = append(l[x], h)
					}
					break
				}
			}
		}
		loopsOf[f] = l
	}
	for _, h := range l[b] {
		in := false
		for _, g := range l[succ] {
			in = in || g == h
		}
		if !in {
			return true
		}
	}
	return false
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, x := range b.Instrs {
		if _, ok := x.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (in *Interp) phis(fr *Frame, b, pred *ssa.BasicBlock, env map[ssa.Value]*Term, st *State) {
	if pred == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	back := b.Dominates(pred) // loop back edge
	in.widenCells(fr, b, back, st)
	vals := map[ssa.Value]*Term{}
	// widen: after one iteration a variable of the loop is whatever the loop made it
	type widened struct {
		v, s   *Term
		first  bool
		lo, hi int64
		nn     bool
		isInt  bool
	}
	var ws []widened
	for _, x := range b.Instrs {
		phi, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		v := in.val(fr, env, phi.Edges[idx])
		vals[phi] = v
		if !back || v == env[phi] || in.Unroll {
			continue
		}
		if tr := st.truth(v); !v.isConst() && isBoolT(phi.Type()) && tr >= 0 {
			v = tBool(tr == 1)
		}
		if v.isConst() && v.op == "const" && v.con.Kind() == constant.Bool {
			// booleans have a finite domain: keep them
			vals[phi] = v
			continue
		}
		if v == tNil {
			continue
		}
		s := tSym("phi:"+phi.Comment+":"+in.id(phi), fr.ctx, phi.Type())
		s.site = phi
		w := widened{v: v, s: s, first: env[phi] != s, lo: negInf, hi: posInf}
		if bt, ok := phi.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			w.isInt = true
			lo, hi := st.bounds(toLin(v))
			if dlo, dhi := st.bounds(linSub(toLin(v), toLin(env[phi]))); lo == hi && dlo > 0 {
				hi = posInf
			} else if lo == hi && dhi < 0 {
				lo = negInf
			}
			w.lo, w.hi = lo, hi
			if !w.first { // keep what is stable
				w.lo, w.hi = st.stable(s, lo, hi)
			}
		}
		w.nn = v.nonnil || st.known(v, tNil) == 0
		ws = append(ws, w)
		vals[phi] = s
	}
	// what relates the variables of the loop to each other and to the lengths of lists it does not change
	type relation struct {
		key    *Term
		l      lin
		lo, hi int64
		list   *Term
	}
	var rels []relation
	for _, w := range ws {
		if !w.isInt {
			continue
		}
		for t := range st.lengths() {
			changes := false
			for _, x := range ws {
				changes = changes || t.contains(x.s)
			}
			if !changes {
				// how far the variable can get
				key := tApp("rel", w.s, t)
				before, after := linSub(toLin(w.v), toLin(t)), linSub(toLin(w.s), toLin(t))
				_, hi := st.bounds(before)
				if w.first {
					if hi < posInf && hi > -64 {
						rels = append(rels, relation{key, after, negInf, hi, nil})
					}
				} else if _, h := st.stable(key, negInf, hi); h < posInf {
					rels = append(rels, relation{key, after, negInf, h, nil})
				}
			}
		}
		for _, x := range ws {
			if x.s.typ == nil || !isSliceT(x.s.typ) {
				continue
			}
			// a list that grows with the variable
			lo, hi := st.bounds(linSub(toLin(tLen(x.v)), toLin(w.v)))
			key := tApp("rel", x.s, w.s)
			if !x.first || !w.first {
				if iv, ok := st.iv0[key]; !ok || iv.lo != lo || iv.hi != hi {
					continue
				}
			}
			if lo == hi {
				rels = append(rels, relation{key, linSub(toLin(tLen(x.s)), toLin(w.s)), lo, hi, x.s})
			}
		}
	}
	for _, w := range ws {
		st.kill(w.s)
	}
	for _, w := range ws {
		if w.lo > negInf || w.hi < posInf {
			st.iv[w.s] = ival{w.lo, w.hi}
		}
		st.setIv0(w.s, ival{w.lo, w.hi})
		if w.nn {
			st.assumeNeq(w.s, tNil)
		}
	}
	for _, r := range rels {
		if r.list != nil {
			if _, ok := st.eq[tLen(r.list)]; ok {
				continue
			}
			n := r.l.other(tLen(r.list))
			if r.lo != 0 {
				n = tApp("+", tInt(r.lo), n)
			}
			st.eq[tLen(r.list)] = n
		} else {
			st.assumeLin(r.l, r.lo, r.hi)
		}
		st.setIv0(r.key, ival{r.lo, r.hi})
	}
	for k, v := range vals {
		env[k] = v
	}
}

// stable: the part of an interval that was already assumed when the loop was entered before.
func (s *State) stable(t *Term, lo, hi int64) (int64, int64) {
	l, h := int64(negInf), int64(posInf)
	if iv, ok := s.iv0[t]; ok {
		l, h = iv.lo, iv.hi
	}
	if lo < l {
		l = negInf
	}
	if hi > h {
		h = posInf
	}
	return l, h
}

// induction: a variable that changes by the same amount in every iteration of its loop.
func (t *Term) induction() bool {
	phi, ok := t.site.(*ssa.Phi)
	if !ok || t.op != "sym" {
		return false
	}
	for k, e := range phi.Edges {
		if !phi.Block().Dominates(phi.Block().Preds[k]) {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
		_, c1 := b.X.(*ssa.Const)
		_, c2 := b.Y.(*ssa.Const)
		if !(b.X == ssa.Value(phi) && c2 || b.Y == ssa.Value(phi) && c1 && b.Op == token.ADD) {
			return false
		}
	}
	return true
}

// lengths: the lengths the path has bounds about.
func (s *State) lengths() map[*Term]bool {
	r := map[*Term]bool{}
	for t := range s.iv {
		for _, a := range append([]*Term{t}, t.args...) {
			if a.op == "len" {
				r[a] = true
			}
		}
	}
	return r
}

// other: the only other term of a difference.
func (l lin) other(t *Term) *Term {
	for x := range l.co {
		if x != t {
			return x
		}
	}
	return nil
}

type loopSnap struct {
	n   int
	mem map[*Term]*Term
}

// widenCells forgets the value of memory cells that keep growing in a loop (a captured list or
// counter, for example), as phis does for the variables of the function.
func (in *Interp) widenCells(fr *Frame, b *ssa.BasicBlock, back bool, st *State) {
	if !back && !isLoopHeader(b) || in.Unroll {
		return
	}
	key := fr.ctx + "|" + funcID(fr.fn) + "|" + fmt.Sprint(b.Index)
	old := st.loops[key]
	snap := loopSnap{mem: nil}
	if back {
		snap.n = old.n + 1
		if snap.n >= 3 {
			var grown []*Term
			for m, v := range st.mem {
				w, ok := old.mem[m]
				if !ok || w == v || v.typ != nil && isBoolT(v.typ) {
					continue
				}
				_, isInt := v.intVal()
				if isInt || len(v.key) > len(w.key) || v.op == "+" || v.op == "-" {
					grown = append(grown, m)
				}
			}
			sort.Slice(grown, func(i, j int) bool { return grown[i].key < grown[j].key })
			for _, m := range grown {
				s := tSym("cell:"+m.key+":"+fmt.Sprint(b.Index), fr.ctx, st.mem[m].typ)
				st.kill(s)
				st.mem[m] = s
			}
		}
	}
	snap.mem = cp(st.mem)
	if st.loops == nil {
		st.loops = map[string]loopSnap{}
	} else {
		st.loops = cp(st.loops)
	}
	st.loops[key] = snap
}

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (in *Interp) blockKey(b *ssa.BasicBlock, env map[ssa.Value]*Term, st *State, df []deferred, live map[ssa.Value]bool) string {
	var parts []string
	for v, t := range env {
		if live[v] {
			parts = append(parts, v.Name()+"="+t.key)
		}
	}
	sort.Strings(parts)
	for _, d := range df {
		parts = append(parts, fmt.Sprintf("d%p", d.site))
	}
	return fmt.Sprintf("%d|%s|%s", b.Index, strings.Join(parts, ";"), st.key())
}

// liveness computes, per block, the values needed at or after its start (phi results included).
func (in *Interp) liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := in.live[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		l[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				defs := map[ssa.Value]bool{}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, x := range s.Instrs {
					if phi, ok := x.(*ssa.Phi); ok {
						defs[phi] = true
						if pi >= 0 {
							cur[phi.Edges[pi]] = true
						}
					}
				}
				for v := range l[s] {
					if !defs[v] {
						cur[v] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				x := b.Instrs[k]
				if _, ok := x.(*ssa.Phi); ok {
					continue
				}
				if v, ok := x.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range x.Operands(nil) {
					if op != nil && *op != nil {
						cur[*op] = true
					}
				}
			}
			// phi results used in this block are live at its start (after the phis)
			for v := range cur {
				if !l[b][v] {
					l[b][v] = true
					changed = true
				}
			}
		}
	}
	in.live[fn] = l
	return l
}

func (in *Interp) val(fr *Frame, env map[ssa.Value]*Term, v ssa.Value) *Term {
	if t, ok := env[v]; ok {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isNillable(x.Type()) {
				return tNil
			}
			return zero(x.Type())
		}
		return tConst(x.Value)
	case *ssa.Function:
		return tFunc(unwrapBound(x))
	case *ssa.Global:
		return intern(&Term{op: "global", key: "g:" + x.String(), nonnil: true, typ: x.Type()})
	case *ssa.Builtin:
		return tSymNN("builtin:"+x.Name(), "", nil)
	}
	return tSym("undef:"+v.Name(), fr.ctx, v.Type())
}

func unwrapBound(f *ssa.Function) *ssa.Function { return f }

func isNillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return tInt(0)
		case u.Info()&types.IsString != 0:
			return tConst(constant.MakeString(""))
		case u.Info()&types.IsFloat != 0:
			return tConst(constant.MakeFloat64(0))
		case u.Kind() == types.UntypedNil:
			return tNil
		}
	case *types.Struct:
		return intern(&Term{op: "zero", typ: t, key: "zero[" + types.TypeString(t, nil) + "]"})
	case *types.Array:
		return intern(&Term{op: "zero", typ: t, key: "zero[" + types.TypeString(t, nil) + "]"})
	}
	return tNil
}

// ---- facts ---------------------------------------------------------------------------------------

// known returns 1 if a==b is certain, 0 if a!=b is certain, -1 otherwise.
func (s *State) known(a, b *Term) int {
	oa, ob := a, b
	a, b = s.resolve(a), s.resolve(b)
	if a == b {
		return 1
	}
	if oa != a || ob != b {
		if v, ok := s.facts[eqTerm(oa, ob)]; ok {
			if v {
				return 1
			}
			return 0
		}
	}
	if b == tNil {
		a, b = b, a
	}
	if a == tNil {
		x := unIface(b)
		if b.op == "iface" || b.nonnil && b.op != "const" {
			return 0
		}
		_ = x
		if m := s.neq[b]; m != nil && m[tNil] {
			return 0
		}
		return -1
	}
	if a.op == "const" && b.op == "const" {
		if a.con.Kind() == b.con.Kind() && constant.Compare(a.con, token.EQL, b.con) {
			return 1
		}
		return 0
	}
	if a.op == "alloc" && b.op == "alloc" {
		return 0
	}
	if m := s.neq[a]; m != nil && m[b] {
		return 0
	}
	if m := s.neq[b]; m != nil && m[a] {
		return 0
	}
	if b.op == "const" && b.con.Kind() == constant.Int || a.op == "const" && a.con.Kind() == constant.Int {
		lo, hi := s.bounds(linSub(toLin(a), toLin(b)))
		if lo > 0 || hi < 0 {
			return 0
		}
		if lo == 0 && hi == 0 {
			return 1
		}
	}
	if v, ok := s.facts[eqTerm(a, b)]; ok {
		if v {
			return 1
		}
		return 0
	}
	return -1
}

func (s *State) resolve(t *Term) *Term {
	if v, ok := s.eq[t]; ok {
		return v
	}
	return t
}

func eqTerm(a, b *Term) *Term {
	if a.key > b.key {
		a, b = b, a
	}
	return tApp("eq", a, b)
}

// bounds of a linear form under the path's facts.
func (s *State) bounds(l lin) (int64, int64) {
	return s.boundsDepth(l, 2)
}

// boundsDepth also uses what is known about sums the parts occur in.
func (s *State) boundsDepth(l lin, depth int) (int64, int64) {
	lo, hi := s.bounds0(l)
	if depth == 0 || lo > negInf && hi < posInf {
		return lo, hi
	}
	for c, iv := range s.iv {
		if c.op != "lin" || iv.lo != iv.hi && (depth < 2 || len(l.co) > 1) {
			continue
		}
		co := linCo[c]
		for t, m := range co {
			n, ok := l.co[t]
			if !ok || m != 1 && m != -1 {
				continue
			}
			// l = (l + f*c) - f*c
			f := -n * m
			r := lin{co: map[*Term]int64{}, k: l.k}
			for x, y := range l.co {
				r.co[x] = y
			}
			for x, y := range co {
				if r.co[x] += f * y; r.co[x] == 0 {
					delete(r.co, x)
				}
			}
			a, b := s.boundsDepth(r, depth-1)
			if f > 0 {
				a, b = satAdd(a, satMul(iv.hi, -f)), satAdd(b, satMul(iv.lo, -f))
			} else {
				a, b = satAdd(a, satMul(iv.lo, -f)), satAdd(b, satMul(iv.hi, -f))
			}
			lo, hi = max(lo, a), min(hi, b)
		}
	}
	return lo, hi
}

func (s *State) bounds0(l lin) (int64, int64) {
	r := s.subst(l, 0)
	c, flip := r.canon()
	if c == nil {
		return r.k, r.k
	}
	lo, hi := int64(negInf), int64(posInf)
	if iv, ok := s.iv[c]; ok {
		lo, hi = iv.lo, iv.hi
	}
	// what was found out before the parts became equal to something else
	wlo, whi := int64(negInf), int64(posInf)
	if c0, f0 := l.canon(); c0 != nil && c0 != c {
		if iv, ok := s.iv[c0]; ok {
			wlo, whi = iv.lo, iv.hi
			if f0 {
				wlo, whi = -whi, -wlo
			}
			wlo, whi = satAdd(wlo, l.k), satAdd(whi, l.k)
		}
	}
	// sum of the parts
	plo, phi := int64(0), int64(0)
	for t, co := range r.co {
		tlo, thi := int64(negInf), int64(posInf)
		if isLen(t) {
			tlo = 0
		}
		if iv, ok := s.iv[t]; ok {
			tlo, thi = max(tlo, iv.lo), min(thi, iv.hi)
		}
		if tlo == 0 && s.neq[t][tInt(0)] {
			tlo = 1
		}
		if flip {
			co = -co
		}
		if co > 0 {
			plo, phi = satAdd(plo, satMul(tlo, co)), satAdd(phi, satMul(thi, co))
		} else {
			plo, phi = satAdd(plo, satMul(thi, co)), satAdd(phi, satMul(tlo, co))
		}
	}
	lo, hi = max(lo, plo), min(hi, phi)
	if flip {
		lo, hi = -hi, -lo
	}
	return max(satAdd(lo, r.k), wlo), min(satAdd(hi, r.k), whi)
}

func isLen(t *Term) bool { return t.op == "len" || t.op == "cap" }

func satAdd(a, b int64) int64 {
	if a <= negInf || b <= negInf {
		return negInf
	}
	if a >= posInf || b >= posInf {
		return posInf
	}
	return a + b
}

func satMul(a, c int64) int64 {
	if a <= negInf {
		if c > 0 {
			return negInf
		}
		return posInf
	}
	if a >= posInf {
		if c > 0 {
			return posInf
		}
		return negInf
	}
	return a * c
}

func (s *State) assumeNeq(a, b *Term) {
	if b.isConst() || b.op == "alloc" {
		m := s.neq[a]
		n := map[*Term]bool{b: true}
		for k := range m {
			n[k] = true
		}
		s.neq[a] = n
		return
	}
	if a.isConst() {
		s.assumeNeq(b, a)
		return
	}
	s.facts[eqTerm(a, b)] = false
}

// subst replaces terms by what they are known to be equal to.
func (s *State) subst(l lin, depth int) lin {
	r := lin{co: map[*Term]int64{}, k: l.k}
	add := func(t *Term, c int64) {
		if r.co[t] += c; r.co[t] == 0 {
			delete(r.co, t)
		}
	}
	for t, c := range l.co {
		v := s.resolve(t)
		if n, ok := v.intVal(); ok {
			r.k += n * c
			continue
		}
		if v == t || depth > 6 {
			add(t, c)
			continue
		}
		w := toLin(v)
		if _, self := w.co[t]; self {
			add(t, c)
			continue
		}
		w = s.subst(w, depth+1)
		r.k += c * w.k
		for x, m := range w.co {
			add(x, c*m)
		}
	}
	return r
}

// assumeLin adds lo <= l <= hi. It returns false when that is impossible.
func (s *State) assumeLin(l lin, lo, hi int64) bool {
	blo, bhi := s.bounds(l)
	if blo > hi || bhi < lo {
		return false
	}
	r := s.subst(l, 0)
	c, flip := r.canon()
	if c == nil {
		return true
	}
	nlo, nhi := satAdd(max(lo, blo), -r.k), satAdd(min(hi, bhi), -r.k)
	if flip {
		nlo, nhi = -nhi, -nlo
	}
	// exclude known disequalities at the ends
	for m := s.neq[c]; m != nil; {
		moved := false
		for k := range m {
			if n, ok := k.intVal(); ok {
				if n == nlo {
					nlo++
					moved = true
				}
				if n == nhi {
					nhi--
					moved = true
				}
			}
		}
		if !moved {
			break
		}
	}
	if nlo > nhi {
		return false
	}
	if nlo == nhi && c.op != "lin" {
		s.eq[c] = tInt(nlo)
		delete(s.iv, c)
		return true
	}
	s.iv[c] = ival{nlo, nhi}
	return true
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isIntT(t *Term) bool {
	if t.op == "const" {
		return t.con.Kind() == constant.Int
	}
	if isLen(t) || t.op == "+" || t.op == "-" || t.op == "*" {
		return t.op != "+" || !isStr(t)
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsInteger != 0
		}
	}
	return false
}

func isStr(t *Term) bool {
	if t.op == "const" {
		return t.con.Kind() == constant.String
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsString != 0
		}
	}
	for _, a := range t.args {
		if t.op == "+" && isStr(a) {
			return true
		}
	}
	return false
}

// truth evaluates a boolean term: 1 true, 0 false, -1 unknown.
func (s *State) truth(t *Term) int {
	t = s.resolve(t)
	if b, ok := t.boolVal(); ok {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case "not":
		r := s.truth(t.args[0])
		if r < 0 {
			return r
		}
		return 1 - r
	case "eq":
		return s.known(t.args[0], t.args[1])
	case "lt": // a < b
		lo, hi := s.bounds(linSub(toLin(t.args[0]), toLin(t.args[1])))
		if hi < 0 {
			return 1
		}
		if lo >= 0 {
			return 0
		}
		if v, ok := s.facts[t]; ok {
			if v {
				return 1
			}
			return 0
		}
		return -1
	}
	if v, ok := s.facts[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	return -1
}

// assume restricts the state to paths where t has the given truth. It returns false if there are none.
func (s *State) assume(t *Term, v bool) bool {
	if r := s.truth(t); r >= 0 {
		return (r == 1) == v
	}
	t = s.resolve(t)
	switch t.op {
	case "not":
		return s.assume(t.args[0], !v)
	case "eq":
		a, b := t.args[0], t.args[1]
		if a.isConst() {
			a, b = b, a
		}
		if v {
			if b.isConst() {
				if isIntT(b) {
					n, _ := b.intVal()
					if !s.assumeLin(toLin(a), n, n) {
						return false
					}
					if a.op != "const" && a.op != "+" && a.op != "-" && a.op != "*" {
						s.eq[a] = b
					}
				} else {
					s.eq[a] = b
				}
				return true
			}
			s.facts[t] = true
			if isIntT(a) && isIntT(b) {
				return s.assumeLin(linSub(toLin(a), toLin(b)), 0, 0)
			}
			// equality transfers non-nilness
			if s.known(b, tNil) == 0 {
				s.assumeNeq(a, tNil)
			} else if s.known(a, tNil) == 0 {
				s.assumeNeq(b, tNil)
			}
			return true
		}
		s.assumeNeq(a, b)
		if isIntT(b) && b.isConst() {
			n, _ := b.intVal()
			l := linSub(toLin(a), toLin(b))
			lo, hi := s.bounds(l)
			_ = n
			if lo == 0 {
				return s.assumeLin(l, 1, posInf)
			}
			if hi == 0 {
				return s.assumeLin(l, negInf, -1)
			}
		}
		return true
	case "lt":
		l := linSub(toLin(t.args[0]), toLin(t.args[1]))
		if v {
			return s.assumeLin(l, negInf, -1)
		}
		return s.assumeLin(l, 0, posInf)
	}
	s.facts[t] = v
	return true
}

// holds reports whether t is certain on this path.
func (s *State) holds(t *Term, v bool) bool {
	r := s.truth(t)
	return r >= 0 && (r == 1) == v
}

// isNonNil reports whether t is certainly not nil.
func (s *State) isNonNil(t *Term) bool { return s.known(t, tNil) == 0 }

// ---- memory --------------------------------------------------------------------------------------

func (in *Interp) fieldOf(t types.Type, idx int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || idx >= st.NumFields() {
		return nil
	}
	return st.Field(idx)
}

func (in *Interp) load(fr *Frame, st *State, addr *Term, typ types.Type, site ssa.Instruction) *Term {
	if addr.op == "ia" && !addr.args[1].isConst() {
		// an array of one element has only that element
		b := addr.args[0]
		if b.op == "slice" && b.args[1] == tNil && b.args[2] == tNil {
			b = b.args[0]
		}
		if b.op == "alloc" && b.typ != nil {
			if pt, ok := b.typ.Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok && at.Len() == 1 {
					addr = tIndexAddr(b, tInt(0))
				}
			}
		}
	}
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if addr.op == "fa" && in.FieldVal != nil {
		if v := in.FieldVal(addr.field, addr.args[0], st); v != nil {
			return v
		}
	}
	r := addr.root()
	if u, ok := typ.Underlying().(*types.Struct); ok && (addr.op == "alloc" || addr.op == "fa" || addr.op == "ia" || addr.op == "sym") {
		// whole-struct load: snapshot of the known fields
		args := []*Term{}
		any := false
		for i := 0; i < u.NumFields(); i++ {
			fa := tFieldAddr(addr, u.Field(i))
			if v, ok := st.mem[fa]; ok {
				args = append(args, v)
				any = true
			} else {
				args = append(args, in.load(fr, st, fa, u.Field(i).Type(), site))
			}
		}
		if any || addr.op == "alloc" {
			s := tApp("struct["+types.TypeString(typ, nil)+"]", args...)
			s.typ = typ
			s.op = "struct"
			return s
		}
	}
	// storage inside an object allocated on this path and never handed out is zero
	if in.localZero(st, addr) {
		return zero(typ)
	}
	tag := ""
	if h, ok := st.havoc[r]; ok && r.op == "alloc" {
		tag = "h" + h
	}
	if addr.op == "fa" {
		if g, ok := in.Guard[addr.field]; ok && r.op != "alloc" {
			tag += st.acq[g]
		}
	}
	// content reached through a guarded field carries the field's tag already (its base term has it)
	t := tLoad(addr, tag, typ)
	if addr.op == "global" && in.P.sentinel(addr.key) {
		t.nonnil = true
	}
	return t
}

// localZero: addr lies directly inside a fresh object whose contents no unknown code has touched.
func (in *Interp) localZero(st *State, addr *Term) bool {
	for {
		switch addr.op {
		case "fa", "ia":
			addr = addr.args[0]
		case "alloc":
			_, h := st.havoc[addr]
			if h {
				return false
			}
			_, isMS := addr.site.(*ssa.MakeSlice)
			_, isMM := addr.site.(*ssa.MakeMap)
			return !isMS && !isMM
		default:
			return false
		}
	}
}

func (in *Interp) store(st *State, addr, val *Term, typ types.Type) {
	// struct values are stored field by field
	if u, ok := typ.Underlying().(*types.Struct); ok {
		for a := range st.mem {
			if a != addr && a.contains(addr) {
				delete(st.mem, a)
			}
		}
		switch val.op {
		case "struct":
			for i := 0; i < u.NumFields() && i < len(val.args); i++ {
				in.store(st, tFieldAddr(addr, u.Field(i)), val.args[i], u.Field(i).Type())
			}
			return
		case "zero":
			for i := 0; i < u.NumFields(); i++ {
				in.store(st, tFieldAddr(addr, u.Field(i)), zero(u.Field(i).Type()), u.Field(i).Type())
			}
			return
		case "ld":
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				src := tFieldAddr(val.args[0], f)
				v, ok := st.mem[src]
				if !ok {
					v = tLoad(src, "", f.Type())
				}
				st.mem[tFieldAddr(addr, f)] = v
			}
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			st.mem[tFieldAddr(addr, u.Field(i))] = in.fieldVal(val, u.Field(i))
		}
		return
	}
	if addr.op == "fa" {
		// another object's field of the same name may be the same storage
		for a := range st.mem {
			if a.op == "fa" && a != addr && a.field == addr.field && a.args[0].op != "alloc" && addr.args[0].op != "alloc" {
				delete(st.mem, a)
			}
		}
	}
	if addr.op == "ia" {
		for a := range st.mem {
			if a.op == "ia" && a != addr && a.args[0] == addr.args[0] && !(a.args[1].isConst() && addr.args[1].isConst()) {
				delete(st.mem, a)
			}
		}
	}
	st.mem[addr] = val
}

// fieldVal projects a field out of a struct value.
func (in *Interp) fieldVal(x *Term, f *types.Var) *Term {
	switch x.op {
	case "struct":
		if u, ok := x.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i) == f {
					return x.args[i]
				}
			}
		}
	case "zero":
		return zero(f.Type())
	case "ld":
		return tLoad(tFieldAddr(x.args[0], f), "", f.Type())
	}
	return tLoad(tFieldAddr(x, f), "", f.Type())
}

// havocArg forgets the contents of objects an unknown callee can write through t.
func (in *Interp) havocArg(st *State, t *Term, at string, depth int) {
	t = unIface(t)
	for t.op == "fa" || t.op == "ia" || t.op == "slice" {
		t = t.args[0]
	}
	if t.op != "alloc" || depth > 4 {
		return
	}
	if st.havoc[t] == at {
		return
	}
	var inner []*Term
	for a, v := range st.mem {
		if a.root() == t {
			inner = append(inner, v)
			delete(st.mem, a)
		}
	}
	st.havoc[t] = at
	for _, v := range inner {
		in.havocArg(st, v, at, depth+1)
	}
}
