package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", false, checkFraming)
	register("C34", false, checkDelivery)
}

// wire models writing to and reading from a network stream.
type wire struct {
	p *Program
	// onWrite is called when bytes reach the stream.
	streams func(t *Term) bool
}

func sliceBase(t *Term) *Term {
	t = unIface(t)
	for t.op == "slice" && (t.args[1] == tNil || t.args[1] == tInt(0)) && t.args[2] == tNil {
		t = t.args[0]
	}
	return t
}

func contentOf(st *State, b *Term) *Term {
	b = sliceBase(b)
	if v, ok := st.mem[tApp("bytes", b)]; ok {
		return v
	}
	if b.op == "concat" {
		return tApp("concat", contentOf(st, b.args[0]), contentOf(st, b.args[1]))
	}
	return b
}

func (st *State) emitBytes(reg string, t *Term) {
	if t.op == "concat" {
		st.emitBytes(reg, t.args[0])
		st.emitBytes(reg, t.args[1])
		return
	}
	st.auto[reg] += t.key + ";"
}

func isStreamT(t types.Type) bool {
	return t != nil && strings.HasSuffix(t.String(), "go-libp2p/core/network.Stream")
}

// byteOrder models encoding/binary on whole buffers.
func (e *CallEvent) byteOrder() ([]Out, bool) {
	i := strings.LastIndex(e.Name, ").")
	if !strings.HasPrefix(e.Name, "encoding/binary.(") || i < 0 {
		return nil, false
	}
	order := strings.TrimPrefix(e.Name[:i], "encoding/binary.(")
	if order == "ByteOrder" && e.Recv != nil {
		order = e.Recv.String()
		if r := unIface(e.Recv); r.typ != nil {
			order = r.typ.String()[strings.LastIndex(r.typ.String(), ".")+1:]
		}
	}
	switch m := e.Name[i+2:]; {
	case strings.HasPrefix(m, "PutUint"):
		e.St.mem[tApp("bytes", sliceBase(e.Args[0]))] = tApp("u"+m[7:]+":"+order, e.Args[1])
		return []Out{{st: e.St}}, true
	case strings.HasPrefix(m, "Uint"):
		t := tApp("ru"+m[4:]+":"+order, contentOf(e.St, e.Args[0]))
		if t.typ == nil {
			t.typ = e.Com.Signature().Results().At(0).Type()
		}
		e.St.assumeLin(toLin(t), 0, 1<<32-1)
		return []Out{{st: e.St, rets: []*Term{t}}}, true
	}
	return nil, false
}

// writes models the writers of a stream. Registers: buf (buffered bytes), wire (bytes that reached the stream), werr.
func (e *CallEvent) writes() ([]Out, bool) {
	st := e.St
	n := func(b *Term) *Term { return tLen(sliceBase(b)) }
	two := func(b *Term, do func(st *State)) []Out {
		bad := st.clone()
		errT := e.In.fresh(e.Frame, bad, e.Site, "err", types.Universe.Lookup("error").Type())
		bad.assumeNeq(errT, tNil)
		bad.auto["werr"] = "1"
		do(st)
		rets, brets := []*Term{tNil}, []*Term{errT}
		if b != nil {
			rets = []*Term{n(b), tNil}
			brets = []*Term{e.In.fresh(e.Frame, bad, e.Site, "n", types.Typ[types.Int]), errT}
		}
		return []Out{{st: st, rets: rets}, {st: bad, rets: brets}}
	}
	recvStream := e.Com.IsInvoke() && isStreamT(e.Com.Value.Type())
	switch {
	case e.Name == "bufio.NewWriter" || e.Name == "bufio.NewWriterSize":
		st.auto["buf"] = ""
		return []Out{{st: st, rets: []*Term{tAppNN("bufw", unIface(e.Args[0]))}}}, true
	case e.Name == "bufio.(Writer).Write" && e.Recv.op == "bufw":
		return two(e.Args[0], func(st *State) { st.emitBytes("buf", contentOf(st, e.Args[0])) }), true
	case e.Name == "bufio.(Writer).Flush" && e.Recv.op == "bufw":
		return two(nil, func(st *State) {
			st.auto["wire"] += st.auto["buf"]
			st.auto["buf"] = ""
			st.auto["stream"] = e.Recv.args[0].key
		}), true
	case strings.HasSuffix(e.Name, ".Write") && recvStream:
		return two(e.Args[0], func(st *State) {
			st.emitBytes("wire", contentOf(st, e.Args[0]))
			st.auto["stream"] = unIface(e.Recv).key
		}), true
	}
	return nil, false
}

// reads models io.ReadFull. Registers: reads (buffers filled, in order), rerr.
func (e *CallEvent) reads(bad func(string)) ([]Out, bool) {
	st := e.St
	recvStream := e.Com.IsInvoke() && isStreamT(e.Com.Value.Type())
	switch {
	case e.Name == "io.ReadFull" || e.Name == "io.ReadAtLeast":
		b := sliceBase(e.Args[1])
		if e.Name == "io.ReadAtLeast" && st.known(e.Args[2], tLen(b)) != 1 {
			return nil, false
		}
		f := st.clone()
		errT := e.In.fresh(e.Frame, f, e.Site, "err", types.Universe.Lookup("error").Type())
		f.assumeNeq(errT, tNil)
		f.auto["rerr"] = "1"
		nT := e.In.fresh(e.Frame, f, e.Site, "n", types.Typ[types.Int])
		f.step("%s: the read fails", e.In.P.pos(e.pos()))
		c := e.In.fresh(e.Frame, st, e.Site, "read", nil)
		st.mem[tApp("bytes", b)] = c
		st.auto["reads"] += b.key + ";"
		st.auto["from"] = unIface(e.Args[0]).key
		return []Out{{st: st, rets: []*Term{tLen(b), tNil}}, {st: f, rets: []*Term{nT, errT}}}, true
	case strings.HasSuffix(e.Name, ".Read") && recvStream, e.Name == "bufio.NewReader", e.Name == "bufio.NewReaderSize", e.Name == "bufio.(Reader).Read":
		bad(e.Name)
		return e.unknown(), true
	}
	return nil, false
}

// streamHandlers are the functions registered for incoming streams, with the registration.
func (p *Program) streamHandlers() map[*ssa.Function]ssa.CallInstruction {
	r := map[*ssa.Function]ssa.CallInstruction{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok || !strings.HasSuffix(calleeName(c.Common()), ").SetStreamHandler") {
					continue
				}
				fns, _ := fnValues(c.Common().Args[len(c.Common().Args)-1], map[ssa.Value]bool{})
				for _, h := range fns {
					r[unwrap(h)] = c
				}
			}
		}
	}
	return r
}

const peerIDType = "github.com/libp2p/go-libp2p/core/peer.ID"

func checkFraming(r *Report) {
	p := r.P
	r.rule("frame", "a message that is reported as sent went completely to a stream of the addressed peer and protocol: first its length, then the message itself, then flushed, with no error on the way and within the size limit")
	r.rule("broken", "a stream on which a write failed is reset and not used again, and the failure is returned")
	r.rule("agree", "the reader takes the length of a message in the very form the writer gives it and then reads exactly that many bytes")
	max := p.constInt("p2p.MaxPayload")
	form := ""
	for _, root := range p.impls("p2p.ConnectionManager", "WriteToStream") {
		in := p.interp()
		c := fname(root)
		pid, proto, msg := in.paramTerm(root.Params[1]), in.paramTerm(root.Params[2]), in.paramTerm(root.Params[3])
		streams := map[string]*Term{}
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if o, ok := e.byteOrder(); ok {
				return o, true
			}
			if e.Name == "bufio.NewWriter" || e.Com.IsInvoke() && isStreamT(e.Com.Value.Type()) {
				s := unIface(e.Recv0())
				streams[s.key] = s
				if !strings.HasSuffix(e.Name, ".Reset") && !strings.HasSuffix(e.Name, ".Close") && e.St.auto["reset"] == s.key {
					r.bad("broken", c, e.pos(), "the stream is used after it was reset")
				}
			}
			if e.Com.IsInvoke() && isStreamT(e.Com.Value.Type()) && strings.HasSuffix(e.Name, ".Reset") {
				e.St.auto["reset"] = unIface(e.Recv).key
				return e.unknown(), true
			}
			if strings.HasSuffix(e.Name, ").NewStream") {
				e.St.auto["made"] = ""
				return e.split(e.In.results(e, e.Name)[0], "nostream"), true
			}
			if e.Name == "builtin.delete" && isStreamMap(e.Args[0].typ) {
				e.St.auto["dropped"] = e.Args[1].key
			}
			return e.writes()
		}
		in.OnMapUpdate = func(fr *Frame, st *State, i *ssa.MapUpdate, m, k, v *Term) {
			if isStreamMap(i.Map.Type()) {
				delete(st.auto, "dropped")
				r.check(k == proto, "frame", c, i.Pos(), "a stream is kept for the protocol %s instead of the requested one", k)
			}
		}
		n := 0
		for _, o := range in.Run(root, nil, nil) {
			if o.panic || len(o.rets) == 0 {
				continue
			}
			e := o.rets[len(o.rets)-1]
			sent, failed := o.st.known(e, tNil) == 1, o.st.known(e, tNil) == 0
			if !sent && !failed {
				r.bad("frame", c, retPos(o), "undecided: the result is %s", e)
				continue
			}
			if sent {
				n++
				want := ""
				for _, ord := range []string{"littleEndian", "bigEndian"} {
					w := tApp("u32:"+ord, tLen(msg)).key + ";" + msg.key + ";"
					if o.st.auto["wire"] == w {
						want, form = w, ord
					}
				}
				r.check(want != "" && o.st.auto["werr"] == "" && o.st.auto["buf"] == "", "frame", c, retPos(o), "success is returned but the stream got %q (error before: %q, not flushed: %q); path: %s", pretty(o.st.auto["wire"]), o.st.auto["werr"], pretty(o.st.auto["buf"]), o.st.path())
				_, hi := o.st.bounds(toLin(tLen(msg)))
				r.check(hi <= max, "frame", c, retPos(o), "a message longer than readers accept can be sent; path: %s", o.st.path())
				s := streams[o.st.auto["stream"]]
				good := s != nil && (s.mentions(func(y *Term) bool { return y.op == "lookup" && y.args[1] == proto }) && s.mentions(func(y *Term) bool { return y.op == "lookup" && y.args[1] == pid }) || strings.Contains(s.op+s.String(), "NewStream"))
				r.check(good, "frame", c, retPos(o), "the message goes to the stream %s", s)
			}
			if o.st.auto["werr"] != "" {
				n++
				s := streams[o.st.auto["reset"]]
				r.check(failed && s != nil && o.st.auto["dropped"] == proto.key, "broken", c, retPos(o), "after a failed write: error returned: %v, stream reset: %v, forgotten: %v; path: %s", failed, s != nil, o.st.auto["dropped"] == proto.key, o.st.path())
			}
		}
		if n < 2 {
			r.bad("frame", c, root.Pos(), "undecided: no message is ever sent")
		}
		// who is connected to
		for f := range p.relevant(func(i ssa.Instruction) bool {
			cc, ok := i.(ssa.CallInstruction)
			return ok && strings.HasSuffix(calleeName(cc.Common()), ").NewStream")
		}) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					cc, ok := i.(ssa.CallInstruction)
					if !ok || !strings.HasSuffix(calleeName(cc.Common()), ").NewStream") {
						continue
					}
					sub := p.interp()
					seen := false
					sub.OnCall = func(e *CallEvent) ([]Out, bool) {
						if e.Site != cc {
							return nil, false
						}
						seen = true
						okPeer := len(e.Args) == 3 && e.Args[1].mentions(func(y *Term) bool { return y == pid || y.op == "lookup" && y.args[1] == pid })
						okProto := len(e.Args) == 3 && (e.Args[2] == proto || e.Args[2].op == "slice" && sub.load(nil, e.St, tIndexAddr(sliceBase(e.Args[2]), tInt(0)), types.Typ[types.String], nil) == proto)
						r.check(okPeer && okProto, "frame", c, e.pos(), "a stream is opened to %v for another peer or protocol than the requested", e.Args)
						return nil, false
					}
					sub.Run(root, nil, nil)
					if !seen {
						r.bad("frame", c, i.Pos(), "undecided: opening of a stream is not reached")
					}
				}
			}
		}
		r.Counts["paths"] += in.Paths
	}
	// every connection is kept under the id of its peer
	for _, u := range p.mapUpdates("p2p.Connection") {
		in := p.interp()
		seen := false
		peerF := map[*types.Var]bool{}
		if s, ok := p.typ("p2p.Connection").Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Type().String() == peerIDType {
					peerF[s.Field(i)] = true
				}
			}
		}
		in.OnMapUpdate = func(fr *Frame, st *State, i *ssa.MapUpdate, m, k, v *Term) {
			if i != u {
				return
			}
			seen = true
			for f := range peerF {
				got := in.get(st, v, f)
				r.check(got == k, "frame", fname(u.Parent()), u.Pos(), "the connection to %s is kept under the id %s", got, k)
			}
		}
		in.Run(u.Parent(), nil, nil)
		if !seen {
			r.bad("frame", fname(u.Parent()), u.Pos(), "undecided: insertion of a connection is not reached")
		}
	}
	for h := range p.streamHandlers() {
		in := p.interp()
		in.InlineGo = true
		c := fname(h)
		n := 0
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if o, ok := e.byteOrder(); ok {
				return o, true
			}
			if e.Name == own("p2p.(P2PDataListener).OnNetworkMessage") {
				n++
				d := in.get(e.St, e.Args[0], p.fieldVar("p2p/types.P2PMessage", "Data"))
				hdr, body := lastReads(e.St, in)
				l := tLen(sliceBase(d))
				good := false
				if body == sliceBase(d).key && hdr != "" && form != "" {
					e.St.walkMem(func(a, v *Term) {
						if a.op == "bytes" && a.args[0].key == hdr && e.St.known(tLen(a.args[0]), tInt(4)) == 1 {
							if e.St.known(l, tApp("ru32:"+form, v)) == 1 {
								good = true
							}
						}
					})
				}
				r.check(good, "agree", c, e.pos(), "the delivered bytes are not those announced by a 4 byte %s length", form)
				delete(e.St.auto, "reads")
				return e.inert(), true
			}
			return e.reads(func(n string) {
				r.bad("agree", c, e.pos(), "%s can return less than asked for or take bytes of the next message", n)
			})
		}
		in.OnBackEdge = func(fr *Frame, st *State, header, from *ssa.BasicBlock) {
			if fr.parent == nil {
				delete(st.auto, "reads")
			}
		}
		in.Run(h, nil, nil)
		if n == 0 {
			r.bad("agree", c, h.Pos(), "undecided: no message is delivered")
		}
		r.Counts["paths"] += in.Paths
	}
	r.floor("frame", 3)
	r.floor("broken", 1)
	r.floor("agree", 1)
}

func (s *State) walkMem(f func(a, v *Term)) {
	for a, v := range s.mem {
		f(a, v)
	}
}

func pretty(s string) string {
	if s == "" {
		return "nothing"
	}
	if len(s) > 200 {
		return s[:200]
	}
	return s
}

// lastReads are the last two buffers filled; nothing else may have been read since the last delivery.
func lastReads(st *State, in *Interp) (string, string) {
	l := strings.Split(strings.TrimSuffix(st.auto["reads"], ";"), ";")
	if len(l) != 2 {
		return "", ""
	}
	return l[0], l[1]
}

func isStreamMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && isStreamT(m.Elem())
}

// Recv0 is the receiver, or the first argument of a function.
func (e *CallEvent) Recv0() *Term {
	if e.Recv != nil {
		return e.Recv
	}
	return e.Args[0]
}

func checkDelivery(r *Report) {
	p := r.P
	r.rule("delivered", "every message read from a stream is given, with the id of the peer it came from, to the listener of the stream's protocol")
	r.rule("keeps-reading", "reading goes on until a read fails or a message is too long, whatever the listener does; then the stream is reset")
	r.rule("wired", "incoming streams of the protocol the node sends on are handled before the node reports it has started, and the engine is the listener of that protocol once the node is ready")
	r.rule("routed", "a message is given to its work, its selection round or its execution, or else kept for later, exactly once; that it has to be kept is decided and done in one critical section")
	r.rule("handed-over", "messages kept for a work, a selection round or an execution are taken over once it is registered and all of them are given to it")
	dataF, fromF := p.fieldVar("p2p/types.P2PMessage", "Data"), p.fieldVar("p2p/types.P2PMessage", "FromPeerId")
	max := p.constInt("p2p.MaxPayload")
	handlers := p.streamHandlers()
	for h := range handlers {
		in := p.interp()
		in.InlineGo = true
		c := fname(h)
		var stream *Term
		for _, q := range h.Params {
			if isStreamT(q.Type()) {
				stream = in.paramTerm(q)
			}
		}
		if stream == nil {
			r.bad("delivered", c, h.Pos(), "undecided: no stream parameter")
			continue
		}
		n := 0
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if o, ok := e.byteOrder(); ok {
				return o, true
			}
			recvStream := e.Com.IsInvoke() && isStreamT(e.Com.Value.Type())
			switch {
			case recvStream && strings.HasSuffix(e.Name, ".Reset"), recvStream && strings.HasSuffix(e.Name, ".Close"):
				e.St.auto["closed"] = "1"
				return e.inert(), true
			case strings.HasSuffix(e.Name, ".RemotePeer"), strings.HasSuffix(e.Name, ".Conn"), strings.HasSuffix(e.Name, "(ID).String"), strings.HasSuffix(e.Name, "(ID).Pretty"), recvStream && strings.HasSuffix(e.Name, ".Protocol"):
				return e.pure(), true
			case e.Name == own("p2p.(P2PDataListener).OnNetworkMessage"):
				n++
				d, from := in.get(e.St, e.Args[0], dataF), in.get(e.St, e.Args[0], fromF)
				l := strings.Split(strings.TrimSuffix(e.St.auto["reads"], ";"), ";")
				okData := l[len(l)-1] == sliceBase(d).key && e.St.auto["rerr"] == ""
				okFrom := from.mentions(func(y *Term) bool {
					return strings.Contains(y.op, ".RemotePeer") && y.mentions(func(z *Term) bool { return z == stream })
				})
				okL := e.Recv.mentions(func(y *Term) bool {
					return y.op == "lookup" && y.args[1].mentions(func(z *Term) bool { return strings.Contains(z.op, ".Protocol") && z.args[0] == stream })
				})
				r.check(okData && okFrom && okL, "delivered", c, e.pos(), "data %s (read: %v) from %s is given to %s", d, okData, from, e.Recv)
				inGo := e.Go
				for f := e.Frame; f != nil; f = f.parent {
					inGo = inGo || f.isGo
				}
				r.check(inGo, "keeps-reading", c, e.pos(), "the listener is called by the goroutine that reads the stream")
				e.St.auto["given"] = "1"
				return e.inert(), true
			}
			return e.reads(func(n string) {})
		}
		in.OnBackEdge = func(fr *Frame, st *State, header, from *ssa.BasicBlock) {
			if st.auto["reads"] == "" || st.auto["rerr"] != "" {
				if st.auto["rerr"] != "" {
					r.bad("keeps-reading", c, instrPos(from.Instrs[len(from.Instrs)-1]), "the stream is read again after a failed read")
				}
				return
			}
			noListener := false
			for t, v := range st.eq {
				if v == tNil && t.mentions(func(y *Term) bool {
					return y.op == "lookup" && y.args[1].mentions(func(z *Term) bool { return strings.Contains(z.op, ".Protocol") })
				}) {
					noListener = true
				}
			}
			if fr.parent == nil || len(strings.Split(st.auto["reads"], ";")) > 2 {
				r.check(st.auto["given"] != "" || noListener, "delivered", c, instrPos(from.Instrs[len(from.Instrs)-1]), "a message is read and dropped; path: %s", st.path())
				delete(st.auto, "reads")
				delete(st.auto, "given")
			}
		}
		for _, o := range in.Run(h, nil, nil) {
			if o.panic {
				continue
			}
			tooLong := false
			for k, iv := range o.st.iv {
				if iv.lo > max && strings.Contains(k.key, "ru32") {
					tooLong = true
				}
			}
			for f, v := range o.st.facts {
				if v && f.op == "lt" && f.args[0] == tInt(max) && strings.Contains(f.args[1].op, "ru32") {
					tooLong = true
				}
			}
			r.check(o.st.auto["rerr"] != "" || tooLong, "keeps-reading", c, retPos(o), "reading ends although no read failed; path: %s", o.st.path())
			r.check(o.st.auto["closed"] != "", "keeps-reading", c, retPos(o), "reading ends but the stream stays open; path: %s", o.st.path())
		}
		if n == 0 {
			r.bad("delivered", c, h.Pos(), "undecided: no message is delivered")
		}
	}
	r.floor("delivered", 2)
	p.checkWired(r)
	p.checkRouted(r)
	p.checkHandover(r)
}

func (p *Program) checkWired(r *Report) {
	want, _ := tConst(p.constVal("p2p.TSSProtocolID")).strVal()
	for _, root := range p.impls("p2p.ConnectionManager", "Start") {
		in := p.interp()
		in.only(func(i ssa.Instruction) bool {
			c, ok := i.(ssa.CallInstruction)
			return ok && strings.HasSuffix(calleeName(c.Common()), ").SetStreamHandler")
		})
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if strings.HasSuffix(e.Name, ").SetStreamHandler") {
				if s, ok := e.Args[0].strVal(); ok && s == want {
					e.St.auto["handled"] = "1"
				}
				return e.inert(), true
			}
			if e.Name == "github.com/libp2p/go-libp2p.New" {
				e.St.auto["handled"] = ""
			}
			return nil, false
		}
		n := 0
		for _, o := range in.Run(root, nil, nil) {
			if o.panic || len(o.rets) == 0 || o.st.known(o.rets[0], tNil) == 0 {
				continue
			}
			n++
			r.check(o.st.auto["handled"] != "", "wired", fname(root), retPos(o), "the node starts without handling streams of %s; path: %s", want, o.st.path())
		}
		if n == 0 {
			r.bad("wired", fname(root), root.Pos(), "undecided: no successful start")
		}
	}
	// the listener
	n := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok || calleeName(c.Common()) != own("p2p.(ConnectionManager).AddListener") {
					continue
				}
				a := c.Common().Args
				k, isC := a[len(a)-2].(*ssa.Const)
				isEngine := func(v ssa.Value) bool {
					for {
						switch x := v.(type) {
						case *ssa.ChangeInterface:
							v = x.X
							continue
						case *ssa.MakeInterface:
							v = x.X
							continue
						}
						break
					}
					return p.isType(v.Type(), "core.Engine")
				}
				if isC && isEngine(a[len(a)-1]) && tConst(k.Value) == tConstStr(want) {
					n++
				}
			}
		}
	}
	r.check(n > 0, "wired", "engine as listener", 0, "the engine is never made the listener of %s", want)
}

// msgTypes are the kinds of tss messages.
func (p *Program) msgTypes() map[string]int64 {
	r := map[string]int64{}
	for _, n := range []string{"UPDATE_MESSAGES", "AVAILABILITY_REQUEST", "AVAILABILITY_RESPONSE", "PRE_EXEC_OUTPUT", "ASK_MESSAGE_REQUEST"} {
		r[n] = p.constInt("types/common.TssMessage_" + n)
	}
	return r
}

// seenNilHere: the path found, under the lock acquisition that still holds, that there is no receiver for a message.
func (in *Interp) seenNilHere(st *State) bool {
	if len(st.held) == 0 {
		return false
	}
	for t, v := range st.eq {
		if v != tNil {
			continue
		}
		if t.mentions(func(y *Term) bool {
			if y.op != "ld" || y.args[0].op != "fa" {
				return false
			}
			g, ok := in.Guard[y.args[0].field]
			return ok && st.acq[g] != "" && strings.Contains(y.key, st.acq[g]) && in.heldType(st, g)
		}) {
			return true
		}
	}
	return false
}

// heldType: a lock of this kind is held.
func (in *Interp) heldType(st *State, g string) bool {
	for k := range st.held {
		if at := strings.LastIndex(g, "@"); at > 0 && strings.Contains(k, "."+g[:at]) {
			return true
		}
	}
	return false
}

func (p *Program) checkRouted(r *Report) {
	tssT := "types/common.TssMessage"
	typF := p.fieldVar(tssT, "Type")
	run := func(root *ssa.Function, kinds []string, isSink func(e *CallEvent) bool) {
		for _, kind := range kinds {
			in := p.interp()
			in.InlineGo = true
			msg := in.paramTerm(root.Params[1])
			v := tInt(p.msgTypes()[kind])
			in.FieldVal = func(f *types.Var, base *Term, st *State) *Term {
				if f == typF && base == msg {
					return v
				}
				return nil
			}
			c := fname(root) + " of " + kind
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				has := false
				for _, a := range e.Args {
					if unIface(a) == msg {
						has = true
					}
				}
				switch {
				case e.Name == own("core/cache.(MessageCache).AddMessage") && has:
					e.St.add("kept")
					r.check(in.seenNilHere(e.St), "routed", c, e.pos(), "a message is kept although its receiver may have been registered meanwhile; path: %s", e.St.path())
					return e.inert(), true
				case has && isSink(e):
					e.St.add("given")
					return e.inert(), true
				}
				return nil, false
			}
			n := 0
			for _, o := range in.Run(root, nil, nil) {
				if o.panic || len(o.rets) > 0 && o.st.known(o.rets[0], tNil) == 0 && o.st.num("kept")+o.st.num("given") == 0 {
					continue // refused
				}
				if o.st.known(msg, tNil) == 1 {
					continue
				}
				n++
				r.check(o.st.num("kept")+o.st.num("given") == 1, "routed", c, retPos(o), "the message is given %d times and kept %d times; path: %s", o.st.num("given"), o.st.num("kept"), o.st.path())
			}
			if n == 0 {
				r.bad("routed", c, root.Pos(), "such messages are always refused")
			}
			r.Counts["paths"] += in.Paths
		}
	}
	for _, root := range p.impls("core.Engine", "ProcessNewMessage") {
		run(root, []string{"UPDATE_MESSAGES", "AVAILABILITY_REQUEST", "AVAILABILITY_RESPONSE", "PRE_EXEC_OUTPUT"}, func(e *CallEvent) bool {
			return e.Name == own("worker.(Worker).ProcessNewMessage")
		})
	}
	recvIs := func(e *CallEvent, typ string) bool { return p.isType(e.recvType(), typ) }
	for _, root := range p.impls("worker.Worker", "ProcessNewMessage") {
		run(root, []string{"UPDATE_MESSAGES"}, func(e *CallEvent) bool { return recvIs(e, "worker.WorkerExecutor") })
		run(root, []string{"AVAILABILITY_REQUEST", "AVAILABILITY_RESPONSE", "PRE_EXEC_OUTPUT"}, func(e *CallEvent) bool { return recvIs(e, "worker.PreworkSelection") })
	}
	r.floor("routed", 8)
}

func (p *Program) checkHandover(r *Report) {
	updK := p.msgTypes()["UPDATE_MESSAGES"]
	selK := []int64{p.msgTypes()["AVAILABILITY_REQUEST"], p.msgTypes()["AVAILABILITY_RESPONSE"], p.msgTypes()["PRE_EXEC_OUTPUT"]}
	idF := p.fieldVar("worker/types.WorkRequest", "WorkId")
	// the rounds and executions themselves are not followed
	inner := func(in *Interp) {
		no := in.NoInline
		in.NoInline = func(f *ssa.Function) bool {
			n := recvNamed(topFn(f))
			return no(f) || n != nil && (n == p.typ("worker.WorkerExecutor").Obj() || n == p.typ("worker.PreworkSelection").Obj())
		}
	}
	run := func(root *ssa.Function, what string, kinds []int64, isReg func(fr *Frame, st *State, i ssa.Instruction) (bool, *Term), isStart func(e *CallEvent) *Term) {
		in := p.interp()
		in.InlineGo = true
		c := fname(root) + ": " + what
		pops := map[*Term]bool{}
		in.only(func(i ssa.Instruction) bool {
			return callsIface(i, "core/cache.(MessageCache).PopAllMessages", "worker.(Worker).Start", "worker.(WorkerExecutor).Run", "worker.(PreworkSelection).Run")
		})
		inner(in)
		in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
			if ok, id := isReg(fr, st, i); ok {
				st.auto["reg"] = "1"
				if id != nil {
					st.auto["id"] = id.key
				}
				st.auto["section"] = "1"
			}
		}
		n := 0
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			switch {
			case strings.HasPrefix(e.Name, own("worker.(WorkerCallback).")):
				return e.unknown(), true
			case strings.HasSuffix(e.Name, "Mutex).Unlock"):
				delete(e.St.auto, "section")
				if e.St.auto["popped"] != "" && e.St.auto["reg"] == "" {
					e.St.auto["early"] = "1"
				}
			case e.Name == own("core/cache.(MessageCache).PopAllMessages"):
				n++
				outs := e.inert()
				pops[outs[0].rets[0]] = true
				e.St.auto["popped"] = outs[0].rets[0].key
				if e.St.auto["reg"] == "" && !in.heldWrite(e.St) {
					e.St.auto["early"] = "1"
				}
				okID := e.Args[0].op == "ld" && e.Args[0].args[0].op == "fa" && (e.Args[0].args[0].field == idF || e.Args[0].typ != nil && e.Args[0].typ.String() == "string" && strings.EqualFold(e.Args[0].args[0].field.Name(), "workId"))
				r.check(okID, "handed-over", c, e.pos(), "messages of the work %s are taken", e.Args[0])
				if f := e.Args[1]; f != tNil {
					for _, k := range kinds {
						v, ok := e.St.mem[tApp("lookup", f, tInt(k))]
						r.check(ok && e.St.truth(v) == 1, "handed-over", c, e.pos(), "kept messages of kind %d are not taken over", k)
					}
				}
				return outs, true
			default:
				if t := isStart(e); t != nil {
					e.St.auto["started"] = "1"
					r.check(pops[t] && e.St.auto["popped"] == t.key, "handed-over", c, e.pos(), "it starts with %s instead of the messages kept for it; path: %s", t, e.St.path())
					r.check(e.St.auto["reg"] != "" && e.St.auto["early"] == "", "handed-over", c, e.pos(), "messages are taken over before it is registered, those arriving in between are lost; path: %s", e.St.path())
					return e.inert(), true
				}
			}
			return nil, false
		}
		m := 0
		for _, o := range in.Run(root, nil, nil) {
			if o.st.auto["started"] != "" {
				m++
			}
			if !o.panic && o.st.auto["popped"] != "" && o.st.auto["started"] == "" {
				r.bad("handed-over", c, retPos(o), "kept messages are taken and dropped; path: %s", o.st.path())
			}
		}
		r.check(m > 0 && n > 0, "handed-over", c, root.Pos(), "undecided: nothing is taken over")
		r.Counts["paths"] += in.Paths
	}
	for _, root := range p.impls("core.Engine", "AddRequest") {
		run(root, "work", append([]int64{updK}, selK...), func(fr *Frame, st *State, i ssa.Instruction) (bool, *Term) {
			m, ok := i.(*ssa.MapUpdate)
			return ok && p.mapOf(m.Map.Type(), "worker.Worker"), nil
		}, func(e *CallEvent) *Term {
			if e.Name == own("worker.(Worker).Start") {
				return e.Args[0]
			}
			return nil
		})
	}
	stores := func(typ string) func(fr *Frame, st *State, i ssa.Instruction) (bool, *Term) {
		return func(fr *Frame, st *State, i ssa.Instruction) (bool, *Term) {
			s, ok := i.(*ssa.Store)
			if !ok || !p.isType(s.Val.Type(), typ) {
				return false, nil
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			return ok && p.isType(fa.X.Type(), "worker.DefaultWorker"), nil
		}
	}
	// starting an execution or a selection round with messages: calls of their methods taking a list of messages
	starts := func(typ string) func(e *CallEvent) *Term {
		return func(e *CallEvent) *Term {
			if !p.isType(e.recvType(), typ) {
				return nil
			}
			for i, a := range e.Args {
				if p.sliceOf(e.argType(i), "types/common.TssMessage") {
					return a
				}
			}
			return nil
		}
	}
	for _, root := range p.impls("worker.Worker", "Start") {
		run(root, "selection round", selK, stores("worker.PreworkSelection"), starts("worker.PreworkSelection"))
		// what the work was started with is kept for the round and the execution
		in := p.interp()
		in.only(func(i ssa.Instruction) bool { return callsIface(i, "core/cache.(MessageCache).") })
		inner(in)
		list := in.paramTerm(root.Params[1])
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if e.Name == own("core/cache.(MessageCache).AddMessage") {
				e.St.auto["added"] = e.Args[0].key
				r.check(e.St.auto["popped"] == "", "handed-over", fname(root), e.pos(), "a message is kept after the kept messages were taken over")
				return e.inert(), true
			}
			if e.Name == own("core/cache.(MessageCache).PopAllMessages") {
				e.St.auto["popped"] = "1"
			}
			return nil, false
		}
		n := 0
		in.eachElem(func(t *Term) bool { return t == list }, func(fr *Frame, st *State, x *Term, h *ssa.BasicBlock) {
			n++
			r.check(st.auto["added"] == x.key, "handed-over", fname(root)+": given messages", instrPos(h.Instrs[0]), "a message the work is started with is dropped; path: %s", st.path())
		})
		in.Run(root, nil, nil)
		r.check(n > 0, "handed-over", fname(root)+": given messages", root.Pos(), "undecided: the messages the work is started with are not looked at")
	}
	for _, root := range p.selectionHandlers() {
		run(root, "execution", []int64{updK}, stores("worker.WorkerExecutor"), starts("worker.WorkerExecutor"))
	}
	// an execution looks at every message it starts with
	for _, root := range p.methodsOf("worker.WorkerExecutor") {
		if len(root.Params) != 2 || !p.sliceOf(root.Params[1].Type(), "types/common.TssMessage") {
			continue
		}
		in := p.interp()
		list := in.paramTerm(root.Params[1])
		typF := p.fieldVar("types/common.TssMessage", "Type")
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if p.isType(e.recvType(), "worker.WorkerExecutor") && len(e.Args) == 1 && p.isType(e.argType(0), "types/common.TssMessage") {
				e.St.auto["took"] = e.Args[0].key
				return e.inert(), true
			}
			return nil, false
		}
		n := 0
		in.eachElem(func(t *Term) bool { return t == list }, func(fr *Frame, st *State, x *Term, h *ssa.BasicBlock) {
			n++
			notUpd := st.truth(eqTerm(in.get(st, x, typF), tInt(updK))) == 0
			r.check(st.auto["took"] == x.key || notUpd, "handed-over", fname(root), instrPos(h.Instrs[0]), "a kept update message is dropped; path: %s", st.path())
		}, func(st *State, x *Term, at token.Pos) {
			r.bad("handed-over", fname(root), at, "the remaining kept messages are dropped; path: %s", st.path())
		})
		in.Run(root, nil, nil)
		r.check(n > 0, "handed-over", fname(root), root.Pos(), "undecided: the kept messages are not looked at")
	}
	r.floor("handed-over", 6)
}
