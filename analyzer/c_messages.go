package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", false, checkAuthentic)
	register("C13", false, checkAskReply)
	register("C26", false, checkOutbound)
}

// jsonMarshal makes json.Marshal a function of its argument and splits on its error.
func (e *CallEvent) jsonMarshal(fail string) ([]Out, bool) {
	if e.Name != "encoding/json.Marshal" {
		return nil, false
	}
	t := tAppNN("marshal", e.In.content(e.St, e.Args[0]))
	t.typ = e.Com.Signature().Results().At(0).Type()
	return e.split(t, fail), true
}

// split continues once with (t, nil) and once with (nil, err), marking the latter.
func (e *CallEvent) split(t *Term, fail string) []Out {
	bad := e.St.clone()
	errT := e.In.fresh(e.Frame, bad, e.Site, "err", types.Universe.Lookup("error").Type())
	bad.assumeNeq(errT, tNil)
	bad.auto[fail] = e.Name
	bad.step("%s: %s fails", e.In.P.pos(e.pos()), e.Name)
	return []Out{{st: e.St, rets: []*Term{t, tNil}}, {st: bad, rets: []*Term{tNil, errT}}}
}

// nodeOf: t is (derived from) an entry of a table of nodes; the key it was found under.
func (p *Program) nodeKey(t *Term) *Term {
	var k *Term
	t.walk(func(x *Term) {
		if k == nil && x.op == "lookup" && x.args[0].typ != nil && p.mapOf(x.args[0].typ, "core.Node") {
			k = x.args[1]
		}
	})
	return k
}

func isFieldOf(t *Term, f *types.Var, base *Term) bool {
	return t.op == "ld" && t.args[0].op == "fa" && t.args[0].field == f && t.args[0].args[0] == base
}

func checkAuthentic(r *Report) {
	p := r.P
	r.rule("verified", "a message from the network reaches a worker, a message cache or a reply only after its signature was verified over the whole message with the public key of the node it claims to be from")
	tssT := "types/common.TssMessage"
	fromF := p.fieldVar(tssT, "From")
	pubF := p.fieldVar("core.Node", "PubKey")
	sinks := map[string]int{
		own("worker.(Worker).ProcessNewMessage"):            0,
		own("core/cache.(MessageCache).AddMessage"):         0,
		own("core/cache.(WorkMessageCache).Add"):            1,
		own("p2p.(ConnectionManager).WriteToStream"):        -1,
		own("worker.(WorkerExecutor).ProcessUpdateMessage"): 0,
	}
	n := map[string]int{}
	for _, root := range p.impls("p2p.P2PDataListener", "OnNetworkMessage") {
		in := p.interp()
		in.InlineGo = true
		in.only(func(i ssa.Instruction) bool {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				return false
			}
			_, ok = sinks[calleeName(c.Common())]
			return ok || strings.HasSuffix(calleeName(c.Common()), "(PubKey).VerifySignature")
		})
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if o, ok := e.jsonMarshal("marshal"); ok {
				return o, true
			}
			k, ok := sinks[e.Name]
			if !ok {
				return nil, false
			}
			n[e.Name]++
			c := fname(root) + " to " + strings.TrimPrefix(e.Name, modPath+"/")
			// the messages that must have been verified
			var msg *Term
			if k >= 0 {
				msg = unIface(e.Args[k])
				if p.isType(msg.typ, "types/common.SignedMessage") {
					msg = in.get(e.St, msg, p.fieldVar("types/common.SignedMessage", "TssMessage"))
				}
			}
			good, why := false, "no signature was verified"
			for f, v := range e.St.facts {
				if !v || !strings.HasSuffix(f.op, "(PubKey).VerifySignature:0") || len(f.args) != 3 {
					continue
				}
				key, data := f.args[0], f.args[1]
				if data.op != "marshal" {
					why = "the signature was not verified over a serialised message but over " + data.String()
					continue
				}
				m := unIface(data.args[0])
				if msg != nil && m != msg {
					why = "the signature was verified over another message (" + m.String() + ")"
					continue
				}
				if key.op != "ld" || key.args[0].op != "fa" || key.args[0].field != pubF {
					why = "the signature was verified with " + key.String() + " instead of the key of a known node"
					continue
				}
				nk := p.nodeKey(key)
				from := in.get(e.St, m, fromF)
				if nk == nil || nk != from && e.St.known(nk, from) != 1 {
					why = "the signature was verified with the key of a node that is not the one the message claims to be from"
					if nk != nil {
						why += " (" + nk.key + " / " + from.key + ")"
					}
					continue
				}
				good = true
			}
			r.check(good, "verified", c, e.pos(), "%s; path: %s", why, e.St.path())
			return e.inert(), true
		}
		in.Run(root, nil, nil)
		r.Counts["paths"] += in.Paths
		r.Counts["functions"] += len(in.Inlined)
	}
	for _, s := range []string{"worker.(Worker).ProcessNewMessage", "core/cache.(MessageCache).AddMessage"} {
		if n[own(s)] == 0 {
			r.bad("verified", s, 0, "no network message reaches it")
		}
	}
	r.floor("verified", 2)
	p.checkNodes(r)
}

// checkNodes: who a node is (its peer id, its party id and its key) is all derived from one public key.
func (p *Program) checkNodes(r *Report) {
	r.rule("identity", "the peer id, the party id and the public key of a known node all come from the same public key, and the table of nodes is keyed by that identity")
	nodeT := p.typ("core.Node")
	peerF, pubF, partyF := p.fieldVar("core.Node", "PeerId"), p.fieldVar("core.Node", "PubKey"), p.fieldVar("core.Node", "PartyId")
	makers := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if a, ok := i.(*ssa.Alloc); ok && types.Identical(a.Type().Underlying().(*types.Pointer).Elem(), nodeT) && a.Heap {
					makers[f] = true
				}
			}
		}
	}
	pure := []string{"core/crypto.Unmarshal", "core/peer.IDFromPublicKey", "tss.NewPartyID", "big.(Int).SetBytes", "core/peer.(ID).String", "core/peer.(ID).Pretty", "core/peer.Encode"}
	for f := range makers {
		in := p.interp()
		nodes := map[*Term]bool{}
		in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
			if s, ok := i.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if x := in.val(fr, fr.env, fa.X); x.op == "alloc" && p.isType(x.typ, "core.Node") {
						nodes[x] = true
					}
				}
			}
		}
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			for _, x := range pure {
				if strings.Contains(e.Name, x) {
					outs := e.pure()
					if n := len(outs[0].rets); n > 1 {
						return e.split(outs[0].rets[0], "failed"), true
					}
					return outs, true
				}
			}
			return nil, false
		}
		n := 0
		for _, o := range in.Run(f, nil, nil) {
			if o.panic || len(o.rets) == 0 {
				continue
			}
			for x := range nodes {
				if o.rets[0] != x {
					continue
				}
				n++
				pub, peer, party := in.get(o.st, x, pubF), in.get(o.st, x, peerF), in.get(o.st, x, partyF)
				hasPub := func(t *Term) bool {
					return t.mentions(func(y *Term) bool {
						return strings.HasSuffix(y.op, "(PubKey).Bytes:0") && y.args[0] == pub
					})
				}
				okPeer := peer.mentions(func(y *Term) bool { return strings.Contains(y.op, "core/peer.IDFromPublicKey") && hasPub(y) })
				kind := ""
				for _, k := range []string{"ed25519", "secp256k1"} {
					for t, v := range o.st.eq {
						if s, ok := v.strVal(); ok && s == k && strings.HasSuffix(t.op, "(PubKey).Type:0") && t.args[0] == pub {
							kind = k
						}
					}
					for t, v := range o.st.facts {
						if v && t.op == "eq" && t.mentions(func(y *Term) bool { s, ok := y.strVal(); return ok && s == k }) && t.mentions(func(y *Term) bool { return strings.HasSuffix(y.op, "(PubKey).Type:0") && y.args[0] == pub }) {
							kind = k
						}
					}
				}
				want := map[string]string{"ed25519": "UnmarshalEd25519PublicKey", "secp256k1": "UnmarshalSecp256k1PublicKey"}[kind]
				okKind := want == "" || peer.mentions(func(y *Term) bool { return strings.Contains(y.op, want) })
				okParty := party.mentions(func(y *Term) bool {
					return strings.Contains(y.op, "tss.NewPartyID") && len(y.args) == 3 && y.args[0].mentions(func(z *Term) bool { return z == peer }) && hasPub(y.args[2])
				})
				okErr := o.st.auto["failed"] == ""
				r.check(okPeer && okKind && okParty && okErr, "identity", fname(f), retPos(o), "a node is made with peer id %s, party id %s and public key %s (kind %q)", peer, party, pub, kind)
			}
		}
		if n == 0 {
			r.bad("identity", fname(f), f.Pos(), "undecided: no path returns the node made here")
		}
	}
	for _, u := range p.mapUpdates("core.Node") {
		f := u.Parent()
		in := p.interp()
		seen := false
		in.OnMapUpdate = func(fr *Frame, st *State, i *ssa.MapUpdate, m, k, v *Term) {
			if i != u {
				return
			}
			seen = true
			peer := in.get(st, v, peerF)
			id := in.get(st, v, partyF)
			r.check(k.mentions(func(y *Term) bool { return y == peer || y == id }), "identity", fname(f), u.Pos(), "node %s is stored under the key %s", v, k)
		}
		in.Run(f, nil, nil)
		if !seen {
			r.bad("identity", fname(f), u.Pos(), "undecided: the insertion is not reached")
		}
	}
	r.floor("identity", 2)
}

// eachElem calls done at the end of every iteration that read an element x of a list satisfying isList, and early
// (if not nil) when the function is left in the middle of one (so that the rest of the list is not looked at).
func (in *Interp) eachElem(isList func(t *Term) bool, done func(fr *Frame, st *State, x *Term, header *ssa.BasicBlock), early ...func(st *State, x *Term, at token.Pos)) {
	in.eachElemOf("elem", isList, done, early...)
}

func (in *Interp) eachElemOf(tag string, isList func(t *Term) bool, done func(fr *Frame, st *State, x *Term, header *ssa.BasicBlock), early ...func(st *State, x *Term, at token.Pos)) {
	elems := map[string]*Term{}
	prev, prevBack, prevRet := in.OnInstr, in.OnBackEdge, in.OnReturn
	in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
		if prev != nil {
			prev(fr, st, i)
		}
		ld, ok := i.(*ssa.UnOp)
		if !ok {
			return
		}
		ia, ok := ld.X.(*ssa.IndexAddr)
		if !ok || !isList(in.val(fr, fr.env, ia.X)) {
			return
		}
		x := in.load(fr, st, in.val(fr, fr.env, ia), ld.Type(), i)
		elems[x.key] = x
		st.auto[tag] = x.key
		st.auto[tag+"In"] = fr.ctx + funcID(fr.fn)
	}
	in.OnBackEdge = func(fr *Frame, st *State, header, from *ssa.BasicBlock) {
		if prevBack != nil {
			prevBack(fr, st, header, from)
		}
		x := elems[st.auto[tag]]
		if x == nil || st.auto[tag+"In"] != fr.ctx+funcID(fr.fn) {
			return
		}
		delete(st.auto, tag)
		done(fr, st, x, header)
	}
	if len(early) == 0 {
		return
	}
	in.OnReturn = func(fr *Frame, st *State, i *ssa.Return, rets []*Term) {
		if prevRet != nil {
			prevRet(fr, st, i, rets)
		}
		if x := elems[st.auto[tag]]; x != nil && st.auto[tag+"In"] == fr.ctx+funcID(fr.fn) {
			delete(st.auto, tag)
			early[0](st, x, instrPos(i))
		}
	}
}

// collects calls f for everything that is stored into a list of peer ids (nil: unknown).
func (in *Interp) collects(f func(st *State, i ssa.Instruction, x *Term)) {
	isPeers := func(t types.Type) bool {
		return t != nil && strings.HasSuffix(t.String(), "]github.com/libp2p/go-libp2p/core/peer.ID")
	}
	prev := in.OnInstr
	in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
		if prev != nil {
			prev(fr, st, i)
		}
		switch x := i.(type) {
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" || !isPeers(x.Type()) {
				return
			}
			t := in.appendTerm(fr, st.clone(), x, []*Term{in.val(fr, fr.env, x.Call.Args[0]), in.val(fr, fr.env, x.Call.Args[1])})
			if t.op != "append" {
				f(st, i, nil)
				return
			}
			for _, a := range t.args[1:] {
				f(st, i, a)
			}
		case *ssa.Store:
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isPeers(ia.X.Type()) {
				f(st, i, in.val(fr, fr.env, x.Val))
			}
		}
	}
}

// sentMessage recognises what is written to the network: the serialised signed message (as term or object).
func (in *Interp) sentMessage(st *State, data *Term) *Term {
	if data.op != "marshal" {
		return nil
	}
	return unIface(data.args[0])
}

func checkAskReply(r *Report) {
	p := r.P
	r.rule("recipient", "a cached message is given to a node that asks for it only if it is a broadcast or addressed to that node")
	r.rule("destination", "the reply goes to the node that signed the request and to nobody else")
	r.rule("content", "the reply is the cached signed message that was asked for, unchanged")
	tssT, sgT := "types/common.TssMessage", "types/common.SignedMessage"
	fromF, toF, tssF := p.fieldVar(tssT, "From"), p.fieldVar(tssT, "To"), p.fieldVar(sgT, "TssMessage")
	askKey := p.fieldVar("types/common.AskRequestMessage", "MsgKey")
	askF := p.fieldVar(tssT, "AskRequestMessage")
	typF := p.fieldVar(tssT, "Type")
	peerF, partyF := p.fieldVar("core.Node", "PeerId"), p.fieldVar("core.Node", "PartyId")
	ask := tInt(p.constInt("types/common.TssMessage_ASK_MESSAGE_REQUEST"))
	n := 0
	for _, root := range p.impls("core.Engine", "ProcessNewMessage") {
		in := p.interp()
		in.InlineGo = true
		msg := in.paramTerm(root.Params[1])
		in.only(func(i ssa.Instruction) bool { return callsIface(i, "p2p.(ConnectionManager).WriteToStream") })
		in.FieldVal = func(f *types.Var, base *Term, st *State) *Term {
			if f == typF && base == msg {
				return ask
			}
			return nil
		}
		toRequester := func(st *State, dst *Term) bool {
			from := in.get(st, msg, fromF)
			if dst.op != "ld" || dst.args[0].op != "fa" || dst.args[0].field != peerF {
				return false
			}
			k := p.nodeKey(dst)
			idOf := func(k *Term) bool { // the party id found under the requester's id
				return k.op == "ld" && k.mentions(func(y *Term) bool { return y.op == "fa" && y.field == partyF }) && k.mentions(func(y *Term) bool { return y.op == "lookup" && y.args[1] == from })
			}
			return k != nil && (k == from || st.known(k, from) == 1 || idOf(k))
		}
		cached := map[*Term]bool{}
		c := fname(root) + " of an ask message"
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			switch {
			case e.Name == own("core/cache.(WorkMessageCache).Get"):
				key := in.get(e.St, in.get(e.St, msg, askF), askKey)
				r.check(e.Args[1] == key, "content", c, e.pos(), "the cache is asked for %s instead of the key in the request", e.Args[1])
				outs := e.unknown()
				cached[outs[0].rets[0]] = true
				return outs, true
			case e.Name == "encoding/json.Marshal":
				return e.jsonMarshal("failed")
			case e.Name == own("p2p.(ConnectionManager).WriteToStream"):
				n++
				sm := in.sentMessage(e.St, e.Args[2])
				if !r.check(sm != nil && cached[sm], "content", c, e.pos(), "%s is sent instead of the cached signed message", e.Args[2]) {
					return e.unknown(), true
				}
				m := in.get(e.St, sm, tssF)
				to, from := in.get(e.St, m, toF), in.get(e.St, msg, fromF)
				empty := tConstStr("")
				good := e.St.known(to, empty) == 1 || e.St.known(to, from) == 1
				r.check(good, "recipient", c, e.pos(), "the message is neither known to be a broadcast nor addressed to the requester; path: %s", e.St.path())
				dst := e.Args[0]
				r.check(toRequester(e.St, dst) || dst.op == "ld" && dst.args[0].op == "ia", "destination", c, e.pos(), "the reply is sent to %s", dst)
				return e.inert(), true
			}
			return nil, false
		}
		in.collects(func(st *State, i ssa.Instruction, x *Term) {
			r.check(x != nil && toRequester(st, x), "destination", c, i.Pos(), "the reply is sent to %s", x)
		})
		in.Run(root, nil, nil)
		r.Counts["paths"] += in.Paths
	}
	if n == 0 {
		r.bad("destination", "core.Engine.ProcessNewMessage", 0, "no ask message is ever answered")
	}
	r.floor("recipient", 1)
}

func checkOutbound(r *Report) {
	p := r.P
	r.rule("signed", "what is sent is the serialised signed message: the message itself, this node as author and the signature of this node over the serialised message; nothing is sent if any of this fails")
	r.rule("protocol", "messages are sent on the protocol this node listens on, to the peer id found for the recipient's party id")
	r.rule("self", "a message is never sent to this node itself, nor is any message addressed to it")
	r.rule("kept", "an update message is kept for nodes that ask for it later, before it is sent")
	r.rule("everyone", "every listed recipient that is known and not this node gets the message")
	tssT, sgT := "types/common.TssMessage", "types/common.SignedMessage"
	toF, typF, updF := p.fieldVar(tssT, "To"), p.fieldVar(tssT, "Type"), p.fieldVar(tssT, "UpdateMessages")
	peerF := p.fieldVar("core.Node", "PeerId")
	upd := tInt(p.constInt("types/common.TssMessage_UPDATE_MESSAGES"))
	pidT := "github.com/sisu-network/tss-lib/tss.PartyID"
	_ = sgT
	for _, meth := range p.ifaceMethods("worker/interfaces.MessageDispatcher") {
		for _, root := range p.impls("worker/interfaces.MessageDispatcher", meth) {
			in := p.interp()
			in.InlineGo = true
			in.only(func(i ssa.Instruction) bool {
				return callsIface(i, "p2p.(ConnectionManager).WriteToStream", "core/cache.(WorkMessageCache).Add", "core/signer.(Signer).Sign")
			})
			c := fname(root)
			var msg, dest *Term
			for _, q := range root.Params[1:] {
				switch {
				case p.isType(q.Type(), tssT):
					msg = in.paramTerm(q)
				default:
					dest = in.paramTerm(q)
				}
			}
			if msg == nil || dest == nil {
				r.bad("signed", c, root.Pos(), "undecided: unexpected parameters")
				continue
			}
			me := func(t *Term) bool { // the id of this node
				return t.op == "ld" && t.args[0].op == "fa" && t.args[0].field.Name() == "Id" && t.root() == in.paramTerm(root.Params[0]) && !t.mentions(func(y *Term) bool { return y.op == "lookup" })
			}
			notMe := func(st *State, t *Term) bool { // the path knows that t is not this node's id
				for f, v := range st.facts {
					if !v && f.op == "eq" && (f.args[0] == t && me(f.args[1]) || f.args[1] == t && me(f.args[0])) {
						return true
					}
				}
				return false
			}
			isMe := func(st *State, x *Term) bool {
				idOf := func(t *Term) bool {
					return t.op == "ld" && t.args[0].op == "fa" && t.args[0].field.Name() == "Id" && t.contains(x)
				}
				for f, v := range st.facts {
					if v && f.op == "eq" && (idOf(f.args[0]) && me(f.args[1]) || idOf(f.args[1]) && me(f.args[0])) {
						return true
					}
				}
				return false
			}
			obj := func(sm *Term, name string) *Term {
				if sm == nil || sm.op != "obj" {
					return nil
				}
				for _, a := range sm.args {
					if a.op == "field:"+name {
						return a.args[0]
					}
				}
				return nil
			}
			// the id of a recipient: of the parameter or of an element of the parameter list
			recipient := func(k *Term) bool {
				return k.op == "ld" && k.args[0].op == "fa" && k.args[0].field.Name() == "Id" && k.mentions(func(y *Term) bool { return y == dest })
			}
			sends := 0
			in.OnCall = func(e *CallEvent) ([]Out, bool) {
				switch {
				case e.Name == "encoding/json.Marshal":
					return e.jsonMarshal("failed")
				case e.Name == own("core/signer.(Signer).Sign"):
					t := tAppNN("sign", e.Args[0])
					t.typ = e.Com.Signature().Results().At(0).Type()
					return e.split(t, "failed"), true
				case e.Name == own("core/cache.(WorkMessageCache).Add"):
					e.St.auto["kept"] = in.content(e.St, e.Args[1]).key
					return e.inert(), true
				case e.Name == own("p2p.(ConnectionManager).WriteToStream"):
					sends++
					sm := in.sentMessage(e.St, e.Args[2])
					from, m, sig := obj(sm, "From"), obj(sm, "TssMessage"), obj(sm, "Signature")
					good := sm != nil && from != nil && me(from) && m == msg && sig != nil && sig.op == "sign" && sig.args[0].op == "marshal" && unIface(sig.args[0].args[0]) == msg
					r.check(good && e.St.auto["failed"] == "", "signed", c, e.pos(), "%s is sent (failed before: %q); path: %s", e.Args[2], e.St.auto["failed"], e.St.path())
					proto, _ := e.Args[1].strVal()
					k := p.nodeKey(e.Args[0])
					okDst := e.Args[0].op == "ld" && e.Args[0].args[0].op == "fa" && e.Args[0].args[0].field == peerF && k != nil && recipient(k)
					okList := e.Args[0].op == "ld" && e.Args[0].args[0].op == "ia" // collected before
					want, _ := tConst(p.constVal("p2p.TSSProtocolID")).strVal()
					r.check((okDst || okList) && proto == want, "protocol", c, e.pos(), "sent to %s on %s", e.Args[0], e.Args[1])
					if okList {
						e.St.auto["sentTo"] = e.Args[0].key
					}
					if okDst {
						r.check(notMe(e.St, k), "self", c, e.pos(), "sent without knowing that the recipient is another node; path: %s", e.St.path())
						e.St.auto["took"] = e.St.auto["elem"]
					}
					r.check(notMe(e.St, in.get(e.St, msg, toF)), "self", c, e.pos(), "a message addressed to this node itself is sent; path: %s", e.St.path())
					isUpd := e.St.truth(eqTerm(in.get(e.St, msg, typF), upd))
					list := in.get(e.St, msg, updF)
					_, hi := e.St.bounds(toLin(tLen(list)))
					empty := hi == 0 // no update, or the first one has no content
					for t, v := range e.St.eq {
						empty = empty || v == tNil && t.op == "ld" && t.args[0].op == "ia" && t.args[0].args[0] == list
					}
					if isUpd != 0 && !empty {
						r.check(sm != nil && e.St.auto["kept"] == sm.key, "kept", c, e.pos(), "an update message is sent without being kept; path: %s", e.St.path())
					}
					return e.inert(), true
				}
				return nil, false
			}
			// recipients collected in a list first
			in.collects(func(st *State, i ssa.Instruction, x *Term) {
				var k *Term
				if x != nil {
					k = p.nodeKey(x)
				}
				ok := k != nil && x.op == "ld" && x.args[0].op == "fa" && x.args[0].field == peerF && recipient(k)
				r.check(ok, "protocol", c, i.Pos(), "%s is collected as a recipient", x)
				if ok {
					r.check(notMe(st, k), "self", c, i.Pos(), "a recipient is collected without knowing that it is another node; path: %s", st.path())
					st.auto["took"] = st.auto["elem"]
				}
			})
			in.eachElem(func(t *Term) bool { return p.sliceOfPtr(t.typ, pidT) }, func(fr *Frame, st *State, x *Term, h *ssa.BasicBlock) {
				r.check(st.auto["took"] == x.key || isMe(st, x), "everyone", c, instrPos(h.Instrs[0]), "a recipient that is not this node is skipped; path: %s", st.path())
			}, func(st *State, x *Term, at token.Pos) {
				// giving up is only allowed when the node of a recipient is unknown
				unknown := false
				for t, v := range st.eq {
					unknown = unknown || v == tNil && t.op == "lookup" && t.args[1].contains(x)
				}
				r.check(unknown, "everyone", c, at, "the remaining recipients are skipped; path: %s", st.path())
			})
			in.eachElemOf("peer", func(t *Term) bool {
				return t.typ != nil && strings.HasSuffix(t.typ.String(), "]"+peerIDType)
			}, func(fr *Frame, st *State, x *Term, h *ssa.BasicBlock) {
				r.check(st.auto["sentTo"] == x.key, "everyone", c, instrPos(h.Instrs[0]), "a recipient is skipped; path: %s", st.path())
			}, func(st *State, x *Term, at token.Pos) {
				r.bad("everyone", c, at, "the remaining recipients are skipped; path: %s", st.path())
			})
			in.Run(root, nil, nil)
			if sends == 0 {
				r.bad("signed", c, root.Pos(), "nothing is ever sent")
			}
			r.Counts["paths"] += in.Paths
		}
	}
	r.floor("signed", 2)
	r.floor("everyone", 1)
}
