package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", false, checkNodeKey)
}

const (
	cryptoTypes = "github.com/cosmos/cosmos-sdk/crypto/types."
	keyTypes    = "github.com/cosmos/cosmos-sdk/crypto/keys/"
)

func namedAs(t types.Type, full string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == full
}

func fieldByName(t types.Type, name string) *types.Var {
	s, ok := t.Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}
	return nil
}

// extConst: an integer constant of an imported package.
func (p *Program) extConst(path, name string) int64 {
	if pk := p.allTypes[path]; pk != nil {
		if c, ok := pk.Scope().Lookup(name).(*types.Const); ok {
			if n, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
				return n
			}
		}
	}
	panic("constant " + path + "." + name + " not found")
}

// extConstTerm: a constant of an imported package.
func (p *Program) extConstTerm(path, name string) *Term {
	if pk := p.allTypes[path]; pk != nil {
		if c, ok := pk.Scope().Lookup(name).(*types.Const); ok {
			return tConst(c.Val())
		}
	}
	panic("constant " + path + "." + name + " not found")
}

// keyHolder: the fields of the structure that has the node's key and its engine.
func (p *Program) keyHolder() (key, engine *types.Var) {
	for _, t := range p.structs() {
		var k, e *types.Var
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			switch {
			case namedAs(f.Type(), cryptoTypes+"PrivKey"):
				k = f
			case p.isType(f.Type(), own("core.Engine")):
				e = f
			}
		}
		if k != nil && e != nil {
			return k, e
		}
	}
	return nil, nil
}

// structs: the named structures of the module.
func (p *Program) structs() []*types.Struct {
	var r []*types.Struct
	for _, pkg := range p.Pkgs {
		if !pkg.Own {
			continue
		}
		sc := pkg.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if s, ok := tn.Type().Underlying().(*types.Struct); ok {
					r = append(r, s)
				}
			}
		}
	}
	return r
}

// checkNodeKey: what SetPrivKey does in each of the cases it distinguishes.
func checkNodeKey(r *Report) {
	p := r.P
	r.rule("decrypted", "the key is the decryption, under the configured AES key, of the data given; a failure to decode or decrypt it is an error")
	r.rule("right-key", "a key is only set with the type asked for and the size of that type")
	r.rule("started", "a key that is set was used to start the engine and then the network, once and without an error")
	r.rule("once", "a key that was set stays; giving the same again changes nothing and is no error, giving another one is an error")
	r.rule("retry", "after an error no key and no connection manager is set that was not before")
	keyF, engF := p.keyHolder()
	if keyF == nil {
		r.bad("once", "key", 0, "no structure has the key and the engine of the node")
		return
	}
	for _, f := range p.impls("server.Api", "SetPrivKey") {
		decrypts := false
		for g := range p.reachOwn(f) {
			decrypts = decrypts || fname(g) == fname(p.fn("utils.AESDecrypt"))
		}
		if decrypts {
			p.checkSetKey(r, f, keyF, engF)
		}
	}
}

func isPrivKeyCall(name string) string {
	for _, m := range []string{"Bytes", "Type", "PubKey"} {
		if strings.HasSuffix(name, "PrivKey)."+m) && strings.Contains(name, "cosmos-sdk/crypto") {
			return m
		}
	}
	return ""
}

func (p *Program) checkSetKey(r *Report, f *ssa.Function, keyF, engF *types.Var) {
	in := p.interp()
	in.only(func(i ssa.Instruction) bool {
		if fa, ok := i.(*ssa.FieldAddr); ok {
			if v := p.structField(fa.X.Type(), fa.Field); v == keyF || v == engF {
				return true
			}
		}
		c, ok := i.(ssa.CallInstruction)
		return callsIface(i, "p2p.(ConnectionManager).Start", "core.(Engine).Init") || ok && (calleeName(c.Common()) == own("utils.AESDecrypt") || calleeName(c.Common()) == own("core.NewEngine") || isPrivKeyCall(calleeName(c.Common())) != "")
	})
	name := fname(f)
	if len(f.Params) < 3 {
		r.bad("once", name, f.Pos(), "the operation does not have the parameters the property is about")
		return
	}
	data, typ := in.paramTerm(f.Params[1]), in.paramTerm(f.Params[2])
	var holder *Term
	in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) {
		if addr.op == "fa" && addr.field == keyF {
			holder = addr.args[0]
		}
	}
	in.OnCall = func(e *CallEvent) ([]Out, bool) {
		st := e.St
		c := name + " " + p.pos(e.pos())
		if m := isPrivKeyCall(e.Name); m != "" {
			t := tApp("key"+m, e.Recv0())
			if u := unIface(e.Recv0()); u != e.Recv0() {
				t = tApp("key"+m, u)
			}
			t.typ = e.Com.Signature().Results().At(0).Type()
			if m == "Bytes" {
				// the bytes of a key made here are those it was made of
				for _, n := range []string{"ed25519", "secp256k1"} {
					if k := t.args[0]; namedAs(derefT(k.typ), keyTypes+n+".PrivKey") {
						t = in.get(st, k, fieldByName(derefT(k.typ), "Key"))
					}
				}
			}
			return []Out{{st: st, rets: []*Term{t}}}, true
		}
		switch e.Name {
		case "encoding/hex.DecodeString":
			t := tApp("unhex", e.Args[0])
			t.typ = e.Com.Signature().Results().At(0).Type()
			return e.split(t, "undecoded"), true
		case own("utils.AESDecrypt"):
			t := tApp("aesdecrypt", e.Args...)
			t.typ = e.Com.Signature().Results().At(0).Type()
			return e.split(t, "undecrypted"), true
		case "bytes.Equal", "bytes.Compare", "crypto/subtle.ConstantTimeCompare":
			t := tApp("same:"+e.Name, e.Args...)
			t.typ = e.Com.Signature().Results().At(0).Type()
			return []Out{{st: st, rets: []*Term{t}}}, true
		case own("core.NewEngine"):
			st.add("engine")
			rs := in.results(e, "engine")
			st.auto["engine:"+unIface(rs[0]).key] = "made"
			st.assumeNeq(rs[0], tNil)
			k, n := argOf(e, func(t types.Type) bool { return namedAs(t, cryptoTypes+"PrivKey") }), argOf(e, func(t types.Type) bool { return p.isType(t, own("core.Node")) })
			m := argOf(e, func(t types.Type) bool { return p.isType(t, own("p2p.ConnectionManager")) })
			if k == nil || n == nil || m == nil {
				r.bad("started", c, e.pos(), "the engine is made without the key, the node or the connection manager")
				return []Out{{st: st, rets: rs}}, true
			}
			st.auto["enginekey"] = unIface(k).key
			r.check(n.op == own("core.NewNode")+"#0" && n.args[0] == tApp("keyPubKey", unIface(k)), "started", c+" node", e.pos(), "the node of the engine is %s, not that of its key", n)
			st.auto["enginecm"] = unIface(m).key
			return []Out{{st: st, rets: rs}}, true
		case own("core.NewNode"):
			return e.pure(), true
		case own("core.(Engine).Init"):
			bad := st.clone()
			errT := in.fresh(e.Frame, bad, e.Site, "err", errorType)
			bad.assumeNeq(errT, tNil)
			bad.auto["startfailed"] = "1"
			st.auto["inited"] = unIface(e.Recv0()).key
			return []Out{{st: st, rets: []*Term{tNil}}, {st: bad, rets: []*Term{errT}}}, true
		case own("p2p.NewConnectionManager"):
			rs := in.results(e, "cm")
			st.assumeNeq(rs[0], tNil)
			return []Out{{st: st, rets: rs}}, true
		case own("p2p.(ConnectionManager).Start"):
			bad := st.clone()
			errT := in.fresh(e.Frame, bad, e.Site, "err", errorType)
			bad.assumeNeq(errT, tNil)
			bad.auto["startfailed"] = "1"
			n := st.add("net")
			r.check(n == 1, "started", c+" twice", e.pos(), "the network is started twice with one key")
			key := ""
			if t := e.Args[1]; t.op == "keyType" {
				key = t.args[0].key
				if b := e.Args[0]; b.op == "keyBytes" && b.args[0] != t.args[0] {
					r.bad("started", c+" key", e.pos(), "the network is started with the bytes of another key than the type")
				}
				st.auto["netbytes"] = e.Args[0].key
			}
			st.auto["netkey"] = key
			st.auto["netcm"] = unIface(e.Recv0()).key
			r.check(st.auto["inited"] != "", "started", c+" order", e.pos(), "the network is started before the engine (%s)", st.path())
			return []Out{{st: st, rets: []*Term{tNil}}, {st: bad, rets: []*Term{errT}}}, true
		}
		if strings.HasPrefix(e.Name, own("core.(Engine).")) || strings.HasPrefix(e.Name, own("db.(Database).")) || strings.HasPrefix(e.Name, own("p2p.(ConnectionManager).")) {
			return e.inert(), true
		}
		return nil, false
	}
	outs := in.Run(f, nil, nil)
	if holder == nil {
		r.bad("once", name, f.Pos(), "the operation never sets a key")
		return
	}
	before := tLoad(tFieldAddr(holder, keyF), "", keyF.Type())
	// what tells the rest of the node that it has a key
	var others []*types.Var
	if s, ok := derefT(holder.typ).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if p.isType(s.Field(i).Type(), own("p2p.ConnectionManager")) {
				others = append(others, s.Field(i))
			}
		}
	}
	r.check(len(others) > 0, "retry", name, f.Pos(), "the node has no connection manager")
	r.floor("right-key", 2)
	for _, o := range outs {
		if o.panic {
			continue
		}
		st := o.st
		pos := retPos(o)
		c := name + " " + p.pos(pos)
		after := in.get(st, holder, keyF)
		isErr, isOk := st.known(o.rets[0], tNil) == 0, st.known(o.rets[0], tNil) == 1
		if !isErr && !isOk {
			r.bad("once", c, pos, "it is not known whether the result is an error: %s (%s)", o.rets[0], st.path())
			continue
		}
		if st.auto["undecoded"] != "" || st.auto["undecrypted"] != "" {
			r.check(isErr, "decrypted", c, pos, "data that cannot be decoded or decrypted is no error (%s)", st.path())
		}
		was := st.known(before, tNil)
		if isErr {
			r.check(after == before || st.known(after, before) == 1 || was == 1 && st.known(after, tNil) == 1, "retry", c, pos, "the operation fails and a key is set afterwards: %s (%s)", after, st.path())
			if was == 1 {
				for _, v := range others {
					w := in.get(st, holder, v)
					r.check(w == tLoad(tFieldAddr(holder, v), "", v.Type()) || st.known(w, tNil) == 1, "retry", c+" left behind", pos, "the operation fails and leaves behind what it made, which makes the node look as if it had its key (%s)", st.path())
				}
			}
			if was != 1 { // with a key set already only another key (or bad data) is refused
				r.check(st.num("net") == 0 && st.num("engine") == 0, "once", c, pos, "something is started although a key may be set already (%s)", st.path())
				same := sameBytes(st, before)
				r.check(same != 1, "once", c+" same", pos, "giving the key that is set already is an error (%s)", st.path())
			}
			continue
		}
		switch was {
		case 0:
			r.check(after == before && st.num("net") == 0 && st.num("engine") == 0, "once", c, pos, "a key that was set is replaced, or started again (%s)", st.path())
			r.check(sameBytes(st, before) == 1, "once", c+" same", pos, "there is no error although the key that is set may be another one (%s)", st.path())
		case 1:
			k := unIface(after)
			kind := ""
			var keyData *Term
			for _, n := range []string{"ed25519", "secp256k1"} {
				if namedAs(derefT(k.typ), keyTypes+n+".PrivKey") {
					kind = n
					keyData = in.get(st, k, fieldByName(derefT(k.typ), "Key"))
				}
			}
			if kind == "" || keyData == nil {
				r.bad("right-key", c, pos, "there is no error and no key is set: %s (%s)", after, st.path())
				continue
			}
			r.check(st.known(typ, tConstStr(kind)) == 1, "right-key", c+" "+kind, pos, "a key of type %s is set where the type asked for is not known to be it (%s)", kind, st.path())
			want := p.extConst(keyTypes+kind, "PrivKeySize")
			r.check(st.known(tLen(keyData), tInt(want)) == 1, "right-key", c+" "+kind+" size", pos, "the size of the key is not known to be %d (%s)", want, st.path())
			d := keyData.op == "aesdecrypt" && keyData.args[0].op == "unhex" && keyData.args[0].args[0] == data
			r.check(d && p.isConfigField(keyData.args[1], "AesKey"), "decrypted", c+" "+kind, pos, "the key is %s, not the decryption of the data given under the configured key", keyData)
			eng := unIface(in.get(st, holder, engF))
			r.check(st.num("engine") == 1 && st.auto["engine:"+eng.key] != "" && st.auto["enginekey"] == k.key && st.auto["inited"] == eng.key, "started", c+" "+kind+" engine", pos, "the engine was not made and initialised with the key that is set (%s)", st.path())
			r.check(st.num("net") == 1 && st.auto["netkey"] == k.key && (st.auto["netbytes"] == keyData.key || st.auto["netbytes"] == tApp("keyBytes", k).key) && st.auto["netcm"] == st.auto["enginecm"], "started", c+" "+kind+" network", pos, "the network of the engine was not started with the key that is set (%s)", st.path())
			r.check(st.auto["startfailed"] == "", "started", c+" "+kind+" failed", pos, "there is no error although something could not be started (%s)", st.path())
		default:
			r.bad("once", c, pos, "it is not known whether a key was set before (%s)", st.path())
		}
	}
}

// sameBytes: the data given is known to be (1) or not to be (0) the key that is set.
func sameBytes(st *State, key *Term) int {
	cmp := func(t *Term) (res *Term) {
		if !strings.HasPrefix(t.op, "same:") {
			return nil
		}
		for k := 0; k < 2; k++ {
			if t.args[k].op == "keyBytes" && unIface(t.args[k].args[0]) == unIface(key) && t.args[1-k].op == "aesdecrypt" {
				switch t.op {
				case "same:bytes.Compare":
					return tInt(0)
				case "same:bytes.Equal":
					return tBool(true)
				}
				return tInt(1)
			}
		}
		return nil
	}
	found := map[*Term]bool{}
	see := func(t *Term) {
		t.walk(func(x *Term) {
			if cmp(x) != nil {
				found[x] = true
			}
		})
	}
	for t := range st.facts {
		see(t)
	}
	for a, b := range st.eq {
		see(a)
		see(b)
	}
	for t := range st.neq {
		see(t)
	}
	for t := range st.iv {
		see(t)
	}
	for t := range found {
		w := cmp(t)
		if w.op == "const" {
			if b, ok := w.boolVal(); ok && b {
				if v := st.truth(t); v >= 0 {
					return v
				}
				continue
			}
		}
		if v := st.known(t, w); v >= 0 {
			return v
		}
	}
	return -1
}

// argOf: the argument of a call with a type.
func argOf(e *CallEvent, pred func(types.Type) bool) *Term {
	for k, a := range e.Args {
		if t := e.argType(k); t != nil && pred(t) {
			return a
		}
	}
	return nil
}

func derefT(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	if q, ok := t.Underlying().(*types.Pointer); ok {
		return q.Elem()
	}
	return t
}

// isConfigField: the value is a field of the configuration, or a field that only ever gets that.
func (p *Program) isConfigField(t *Term, field string) bool {
	if t.op != "ld" || t.args[0].op != "fa" {
		return false
	}
	f := t.args[0].field
	if f.Name() == field && f.Pkg() != nil && strings.HasSuffix(f.Pkg().Path(), "core/config") {
		return true
	}
	stores := (&Slicer{P: p}).fieldStores()[f]
	for _, s := range stores {
		v := s.Val
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			v = u.X
		}
		g := fieldOf(v)
		if g == nil || g.Name() != field || g.Pkg() == nil || !strings.HasSuffix(g.Pkg().Path(), "core/config") {
			return false
		}
	}
	return len(stores) > 0
}
