package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", true, checkSigned)
}

// loopGuard finds the loops whose every iteration establishes something, and the paths that left such a
// loop at its end.
type loopGuard struct {
	bad, ok map[string]int
	lists   map[string]map[*Term]bool // the lists a loop goes over
	iters   map[string][]lin          // the number of iterations that were made, by the key of a done mark
}

// guardLoops: est tells at the end of an iteration whether it established the thing for the element at
// the position of the iteration: it gives the lists that element is from. A state that left the loop at its end has auto["done:"+loop].
func (in *Interp) guardLoops(est func(fr *Frame, st *State, header *ssa.BasicBlock) []*Term) *loopGuard {
	g := &loopGuard{map[string]int{}, map[string]int{}, map[string]map[*Term]bool{}, map[string][]lin{}}
	id := func(b *ssa.BasicBlock) string { return fmt.Sprintf("%s#%d", b.Parent().String(), b.Index) }
	prevBack, prevInstr := in.OnBackEdge, in.OnInstr
	in.OnBackEdge = func(fr *Frame, st *State, header, from *ssa.BasicBlock) {
		if prevBack != nil {
			prevBack(fr, st, header, from)
		}
		if ls := est(fr, st, header); len(ls) > 0 {
			g.ok[id(header)]++
			if g.lists[id(header)] == nil {
				g.lists[id(header)] = map[*Term]bool{}
			}
			for _, l := range ls {
				g.lists[id(header)][l] = true
			}
		} else {
			g.bad[id(header)]++
		}
	}
	in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
		if prevInstr != nil {
			prevInstr(fr, st, i)
		}
		b := i.Block()
		for _, x := range b.Instrs {
			if _, phi := x.(*ssa.Phi); phi {
				continue
			}
			if x != i {
				return
			}
			break
		}
		// the block is entered: it is a loop header, is inside the loop, or left it
		for k := range st.auto {
			if strings.HasPrefix(k, "in:") {
				h := loopByID(b.Parent(), strings.TrimPrefix(k, "in:"), id)
				if h != nil && h != b && !inNaturalLoop(h, b) {
					if st.auto[k] == "header" {
						var full []string
						for n := range st.lens() {
							for _, made := range g.iters[st.auto["at:"+id(h)]] {
								if lo, _ := st.bounds(linSub(made, toLin(n))); lo >= 0 {
									full = append(full, n.key)
								}
							}
						}
						sort.Strings(full)
						st.auto["done:"+id(h)] = strings.Join(full, " ; ")
					}
					delete(st.auto, k)
				} else if h != nil && h != b {
					st.auto[k] = "body"
				}
			}
		}
		if isLoopHeader(b) {
			st.auto["in:"+id(b)] = "header"
			ls := iterations(fr, b)
			k := fmt.Sprint(ls)
			g.iters[k] = ls
			st.auto["at:"+id(b)] = k
		}
	}
	return g
}

func (g *loopGuard) passed(st *State) bool {
	for k, n := range st.auto {
		h := strings.TrimPrefix(k, "done:")
		if h == k || g.bad[h] > 0 || g.ok[h] == 0 {
			continue
		}
		for l := range g.lists[h] {
			for _, k := range strings.Split(n, " ; ") {
				if k == tLen(l).key {
					return true
				}
			}
		}
	}
	return false
}

// iterations: the number of iterations that were made, for each counter of the loop.
func iterations(fr *Frame, header *ssa.BasicBlock) []lin {
	var r []lin
	for _, c := range counters(header) {
		if now := fr.env[c.phi]; now != nil {
			l := linSub(toLin(now), lin{})
			l.k -= c.start
			r = append(r, l)
		}
	}
	return r
}

type counter struct {
	phi   *ssa.Phi
	start int64
}

// counters: the variables of a loop that start at a number and are increased by one in each iteration.
func counters(header *ssa.BasicBlock) []counter {
	var r []counter
	for _, i := range header.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		b, ok := phi.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		start, known, step := int64(0), false, true
		for k, pr := range header.Preds {
			if !header.Dominates(pr) {
				c, isC := phi.Edges[k].(*ssa.Const)
				if isC {
					start = c.Int64()
				}
				known = isC
				continue
			}
			e, isB := phi.Edges[k].(*ssa.BinOp)
			if !isB || e.Op != token.ADD {
				step = false
				continue
			}
			c, isC := e.Y.(*ssa.Const)
			step = step && e.X == phi && isC && c.Int64() == 1
		}
		if known && step {
			r = append(r, counter{phi, start})
		}
	}
	return r
}

func loopByID(f *ssa.Function, h string, id func(*ssa.BasicBlock) string) *ssa.BasicBlock {
	for _, b := range f.Blocks {
		if id(b) == h {
			return b
		}
	}
	return nil
}

// inNaturalLoop: the block belongs to the loop of the header.
func inNaturalLoop(h, b *ssa.BasicBlock) bool {
	if !h.Dominates(b) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == h {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if h.Dominates(s) && walk(s) {
				return true
			}
		}
		return false
	}
	return walk(b)
}

// atIteration: the index is the position of the current iteration of the loop: 0 in the first one and
// one more in each of the others.
func (in *Interp) atIteration(fr *Frame, st *State, header *ssa.BasicBlock, idx *Term) bool {
	for _, made := range iterations(fr, header) {
		if lo, hi := st.bounds(linSub(toLin(idx), made)); lo == 0 && hi == 0 {
			return true
		}
	}
	return false
}

func checkSigned(r *Report) {
	p := r.P
	r.rule("bytes", "a signing request becomes a work only if every one of its messages has bytes to sign")
	r.rule("message", "a signing job is given what its message says: for ECDSA the leftmost bits of it, as many as the order of the curve has, for EdDSA all of its bytes")
	r.rule("verified", "an EdDSA signing is reported as successful only after every signature was verified against its message with the public key of the work")
	p.checkBytes(r)
	p.checkJobMessage(r)
	p.checkEdVerified(r)
	r.floor("bytes", 1)
	r.floor("message", 2)
	r.floor("verified", 3)
}

func (p *Program) checkBytes(r *Report) {
	bytesF := p.fieldVar("types.KeysignMessage", "BytesToSign")
	reach := p.relevant(func(i ssa.Instruction) bool { return callsIface(i, "core.(Engine).AddRequest") })
	for _, f := range p.impls("server.Api", "KeySign") {
		if !reach[f] {
			continue
		}
		req := paramOf(f, func(t types.Type) bool { return p.isType(t, "types.KeysignRequest") })
		if req == nil {
			r.bad("bytes", fname(f), f.Pos(), "the operation has no request")
			continue
		}
		in := p.interp()
		in.only(func(i ssa.Instruction) bool {
			return callsIface(i, "core.(Engine).AddRequest") || touches(i, func(t types.Type) bool {
				t = derefT(derefT(t))
				if s, ok := t.Underlying().(*types.Slice); ok {
					t = derefT(s.Elem())
				}
				return p.isType(t, "types.KeysignMessage")
			})
		})
		reqT := in.paramTerm(req)
		list := p.fieldVar("types.KeysignRequest", "KeysignMessages")
		g := in.guardLoops(func(fr *Frame, st *State, header *ssa.BasicBlock) []*Term {
			for n := range st.lens() {
				t := n.args[0]
				if t.op != "ld" || t.args[0].op != "fa" || t.args[0].field != bytesF {
					continue
				}
				el := t.args[0].args[0]
				for el.op == "ld" {
					el = el.args[0]
				}
				if el.op != "ia" || st.known(el.args[0], in.get(st, reqT, list)) != 1 || !in.atIteration(fr, st, header, el.args[1]) {
					continue
				}
				lo, _ := st.bounds(toLin(tLen(t)))
				if lo > 0 || st.known(tLen(t), tInt(0)) == 0 {
					return []*Term{el.args[0]}
				}
			}
			return nil
		})
		type use struct {
			st  *State
			pos token.Pos
		}
		var uses []use
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			switch {
			case e.Name == own("core.(Engine).AddRequest"):
				uses = append(uses, use{e.St.clone(), e.pos()})
				return e.unknown(), true
			case strings.HasPrefix(e.Name, own("core.(Engine).")), strings.HasPrefix(e.Name, own("db.")), strings.HasPrefix(e.Name, own("client.")), strings.HasPrefix(e.Name, own("core.NewNode")):
				return e.inert(), true
			}
			return nil, false
		}
		in.Run(f, nil, nil)
		r.Counts["paths"] += in.Paths
		for _, u := range uses {
			r.check(g.passed(u.st), "bytes", fname(f)+" "+p.pos(u.pos), u.pos, "a message without bytes to sign becomes a work (an ECDSA message without bytes makes the work a presign) (%s)", u.st.path())
		}
	}
}

// the order of the curve of the ECDSA scheme (secp256k1, the one tss-lib has for it)
const ecBits = 256

func (p *Program) checkJobMessage(r *Report) {
	msgs := p.fieldVar("worker/types.WorkRequest", "Messages")
	ec := func(t *Term) bool {
		return t.mentions(func(x *Term) bool { return x.op == "curve" && x.args[0] == p.extConstTerm(tssLib+"tss", "EcdsaScheme") })
	}
	root := p.fn("worker.(WorkerExecutor).Init")
	for _, wt := range []string{"EcSigning", "EdSigning"} {
		in := p.interp()
		p.withWorkType(in, wt)
		in.only(func(i ssa.Instruction) bool { return callsName(i, tssLib) || callsName(i, "math/big.") })
		c := wt
		n := 0
		// the value of a number: from the bytes and shifted to the right
		term := map[string]*Term{}
		ref := func(t *Term) string { term[t.key] = t; return t.key }
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			switch {
			case e.Name == tssLib+"tss.EC":
				t := tAppNN("curve", e.Args[0])
				t.typ = e.Com.Signature().Results().At(0).Type()
				return []Out{{st: e.St, rets: []*Term{t}}}, true
			case strings.HasSuffix(e.Name, "elliptic.(Curve).Params"):
				t := tAppNN("curveparams", unIface(e.Recv0()))
				t.typ = e.Com.Signature().Results().At(0).Type()
				return []Out{{st: e.St, rets: []*Term{t}}}, true
			case strings.HasSuffix(e.Name, "big.(Int).BitLen") && ec(e.Recv0()):
				return []Out{{st: e.St, rets: []*Term{tInt(ecBits)}}}, true
			case strings.HasSuffix(e.Name, "big.NewInt"):
				t := in.fresh(e.Frame, e.St, e.Site, "big", e.Com.Signature().Results().At(0).Type())
				e.St.assumeNeq(t, tNil)
				return []Out{{st: e.St, rets: []*Term{t}}}, true
			case strings.HasSuffix(e.Name, "big.(Int).SetBytes"):
				e.St.auto["big:"+e.Recv.key] = ref(e.Args[0])
				delete(e.St.auto, "shift:"+e.Recv.key)
				return []Out{{st: e.St, rets: []*Term{e.Recv}}}, true
			case strings.HasSuffix(e.Name, "big.(Int).Rsh"):
				src := e.St.auto["big:"+e.Args[0].key]
				if src == "" || e.St.auto["shift:"+e.Args[0].key] != "" {
					src = "?"
				}
				e.St.auto["big:"+e.Recv.key] = src
				e.St.auto["shift:"+e.Recv.key] = ref(e.Args[1])
				return []Out{{st: e.St, rets: []*Term{e.Recv}}}, true
			case strings.Contains(e.Name, "math/big.(Int)."):
				delete(e.St.auto, "big:"+e.Recv0().key)
				return e.unknown(), true
			case e.Name == own("worker.(Job).Start"), strings.HasPrefix(e.Name, own("worker/components.")), strings.HasPrefix(e.Name, own("worker/interfaces.")), strings.HasPrefix(e.Name, own("core/components.")):
				return e.inert(), true
			case strings.HasPrefix(e.Name, tssLib) && strings.HasSuffix(e.Name, "/signing.NewLocalParty"):
				n++
				p.checkMessageArg(r, in, e, wt, c, msgs, term)
				return e.pure(), true
			case strings.HasPrefix(e.Name, tssLib):
				return e.pure(), true
			}
			return nil, false
		}
		prev := in.FieldVal
		in.FieldVal = func(f *types.Var, base *Term, st *State) *Term {
			if f.Name() == "BitSize" && base.op == "curveparams" && ec(base) {
				return tInt(ecBits)
			}
			if prev != nil {
				return prev(f, base, st)
			}
			return nil
		}
		in.Run(root, nil, nil)
		r.Counts["paths"] += in.Paths
		r.check(n > 0, "message", c+" jobs", root.Pos(), "no signing job of this type is made")
	}
}

// messageOf: the bytes are those of an entry of the request's messages.
func isMessage(t *Term, msgs *types.Var) bool {
	t = unConv(t)
	return t.op == "ld" && t.args[0].op == "ia" && isLoadOf(t.args[0].args[0], msgs)
}

func unConv(t *Term) *Term {
	for t.op == "conv" || t.op == "iface" || t.op == "as" {
		t = t.args[0]
	}
	return t
}

func (p *Program) checkMessageArg(r *Report, in *Interp, e *CallEvent, wt, c string, msgs *types.Var, term map[string]*Term) {
	arg := e.Args[0]
	st := e.St
	pos := e.pos()
	src := term[st.auto["big:"+arg.key]]
	if arg == tNil || st.known(arg, tNil) == 1 {
		// a presign: the message itself is nil
		ok := false
		for t, v := range st.eq {
			ok = ok || v == tNil && isMessage(t, msgs)
		}
		r.check(wt == "EcSigning" && ok, "message", c+" presign", pos, "a job of a message makes a presign (%s)", st.path())
		return
	}
	if src == nil {
		r.bad("message", c+" value", pos, "what is signed is %s, which is not made from the bytes of a message", arg)
		return
	}
	base := unConv(src)
	cut := base.op == "slice"
	if cut {
		if base.args[1] != tNil && base.args[1] != tInt(0) {
			r.bad("message", c+" value", pos, "what is signed does not start at the first byte of the message (%s)", base)
			return
		}
		base = unConv(base.args[0])
	}
	if !isMessage(base, msgs) {
		r.bad("message", c+" value", pos, "what is signed is made from %s, not from the message of the job", base)
		return
	}
	if wt == "EdSigning" {
		if !cut && st.auto["shift:"+arg.key] == "" {
			r.bad("message", "EdDSA message given as the number its bytes stand for", pos, "zero bytes at the start of the message are lost: another message is signed")
			return
		}
		r.bad("message", c+" value", pos, "an EdDSA job signs a part of its message (%s)", src)
		return
	}
	const ecBytes = (ecBits + 7) / 8
	whole := toLin(tLen(base))
	size := toLin(tLen(src))
	if cut {
		hi, isC := src.op, false
		_ = hi
		var v int64
		if s := unConv(src); s.args[2] != tNil {
			v, isC = st.resolve(s.args[2]).intVal()
			size = toLin(s.args[2])
		} else {
			isC, v = true, ecBytes
			size = whole
		}
		lo, _ := st.bounds(whole)
		r.check(isC && v == ecBytes || st.sameNum(src.args[2], tLen(base)), "message", c+" cut", pos, "%s bytes of the message are signed", src.args[2])
		r.check(lo >= ecBytes || !isC, "message", c+" short", pos, "a message shorter than that is cut (%s)", st.path())
	} else {
		_, hi := st.bounds(whole)
		r.check(hi <= ecBytes, "message", c+" long", pos, "a message longer than the order of the curve is signed as a whole (%s)", st.path())
	}
	// whole bytes: the order has a multiple of 8 bits, so nothing is to be shifted out
	sh := term[st.auto["shift:"+arg.key]]
	if sh == nil {
		r.ok("message", c+" bits", pos, "")
		return
	}
	d := linSub(toLin(unConv(sh)), scaleLin(size, 8))
	d.k += ecBits
	lo, hi := st.bounds(d)
	r.check(lo == 0 && hi == 0, "message", c+" bits", pos, "the number is shifted by %s", sh)
}

func scaleLin(l lin, k int64) lin {
	n := lin{k: l.k * k, co: map[*Term]int64{}}
	for t, c := range l.co {
		n.co[t] = c * k
	}
	return n
}

func (p *Program) checkEdVerified(r *Report) {
	msgs := p.fieldVar("worker/types.WorkRequest", "Messages")
	inputF := p.fieldVar("worker/types.WorkRequest", "EdSigningInput")
	outF := p.fieldVar("types.KeysignResult", "Outcome")
	for _, fn := range p.impls("worker.WorkerCallback", "OnWorkerResult") {
		in := p.interp()
		p.withWorkType(in, "EdSigning")
		in.only(func(i ssa.Instruction) bool {
			return callsIface(i, "core.(EngineCallback).") || callsName(i, "github.com/decred/dcrd/dcrec/edwards") || callsName(i, own("worker.GetEdSigningOutputs"))
		})
		c := fname(fn)
		req := tSymNN(fn.Params[1].Name(), "", fn.Params[1].Type())
		term := map[string]*Term{}
		lists := map[string][]*Term{}
		g := in.guardLoops(func(fr *Frame, st *State, header *ssa.BasicBlock) []*Term {
			k := st.auto["verified"]
			delete(st.auto, "verified")
			if k == "" || !in.atIteration(fr, st, header, term[k]) {
				return nil
			}
			return lists[k]
		})
		type success struct {
			st  *State
			pos token.Pos
		}
		var successes []success
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			switch {
			case strings.HasSuffix(e.Name, "math/big.(Int).SetBytes"):
				term[e.Args[0].key] = e.Args[0]
				e.St.auto["big:"+e.Recv.key] = e.Args[0].key
				return []Out{{st: e.St, rets: []*Term{e.Recv}}}, true
			case strings.Contains(e.Name, "edwards") && strings.HasSuffix(e.Name, ".NewPublicKey"), strings.HasPrefix(e.Name, tssLib+"crypto."):
				return e.pure(), true
			case strings.Contains(e.Name, "edwards") && strings.HasSuffix(e.Name, ".Verify"):
				idx, of := p.checkVerifyArgs(r, e, c, msgs, inputF, term)
				bad := e.St.clone()
				bad.step("%s: the signature does not verify", p.pos(e.pos()))
				if idx != nil {
					term[idx.key] = idx
					lists[idx.key] = append(lists[idx.key], of...)
					e.St.auto["verified"] = idx.key
				}
				return []Out{{st: e.St, rets: []*Term{tTrue}}, {st: bad, rets: []*Term{tFalse}}}, true
			case e.Name == own("worker.GetEdSigningOutputs"):
				return e.pure(), true
			case e.Name == own("core.(EngineCallback).OnWorkSigningFinished"):
				out := in.get(e.St, unIface(e.Args[1]), outF)
				if v, ok := e.St.resolve(out).intVal(); ok && v != p.constInt("types.OutcomeSuccess") {
					return e.inert(), true
				}
				successes = append(successes, success{e.St.clone(), e.pos()})
				return e.inert(), true
			case strings.HasPrefix(e.Name, own("core.(EngineCallback).")):
				return e.inert(), true
			}
			return nil, false
		}
		args := []*Term{in.paramTerm(fn.Params[0]), req}
		if len(fn.Params) > 2 {
			args = append(args, tSymNN(fn.Params[2].Name(), "", fn.Params[2].Type()))
		}
		in.Run(fn, nil, args)
		for _, u := range successes {
			r.check(g.passed(u.st), "verified", c+" "+p.pos(u.pos), u.pos, "EdDSA signatures are reported as a success without every one of them having been verified (%s)", u.st.path())
		}
		r.Counts["paths"] += in.Paths
		r.check(len(successes) > 0, "verified", c+" success", fn.Pos(), "no EdDSA signing is reported as successful")
	}
}

// checkVerifyArgs: what is verified is the signature at a position against the message at that position;
// the position and the lists it is a position of.
func (p *Program) checkVerifyArgs(r *Report, e *CallEvent, c string, msgs, inputF *types.Var, term map[string]*Term) (*Term, []*Term) {
	key, msg := e.Args[0], e.Args[1]
	okKey := len(key.args) == 2
	for k, xy := range []string{"X", "Y"} {
		okKey = okKey && strings.Contains(key.args[k].op, "."+xy+"#") && key.args[k].mentions(func(x *Term) bool { return x.op == "fa" && x.field == inputF }) &&
			key.args[k].mentions(func(x *Term) bool { return x.op == "fa" && x.field.Name() == "EDDSAPub" })
	}
	r.check(okKey, "verified", c+" key", e.pos(), "the signature is verified with the key %s, not that of the work", key)
	m := unConv(msg)
	if m.op != "ld" || m.args[0].op != "ia" || !isLoadOf(m.args[0].args[0], msgs) {
		r.bad("verified", c+" message", e.pos(), "the signature is verified against %s, not a message of the work", msg)
		return nil, nil
	}
	r.ok("verified", c+" message", e.pos(), "")
	idx := m.args[0].args[1]
	of := []*Term{m.args[0].args[0]}
	for k, part := range []string{"R", "S"} {
		b := term[e.St.auto["big:"+e.Args[2+k].key]]
		ok := false
		if b != nil && b.op == "ld" && b.args[0].op == "fa" && b.args[0].field.Name() == part {
			b.walk(func(x *Term) {
				if x.op == "ia" && (x.args[1] == idx || e.St.known(x.args[1], idx) == 1) {
					ok = true
					of = append(of, x.args[0])
				}
			})
		}
		if !ok {
			r.bad("verified", c+" "+part, e.pos(), "the number %s that is verified is not that of the signature at the position of the message", part)
			return nil, nil
		}
		r.ok("verified", c+" "+part, e.pos(), "")
	}
	return idx, of
}
