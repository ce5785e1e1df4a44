package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", false, checkSealed)
}

const aeadPre = "crypto/cipher.(AEAD)."

// flat: the pieces a byte string is made of.
func (st *State) flat(t *Term) []*Term {
	t = unIface(t)
	switch {
	case t == tNil:
		return nil
	case t.op == "concat":
		return append(st.flat(t.args[0]), st.flat(t.args[1])...)
	case t.op == "append" && len(t.args) == 1:
		return st.flat(t.args[0])
	case t.op == "slice" && (t.args[1] == tNil || t.args[1] == tInt(0)) && t.args[2] == tNil:
		return st.flat(t.args[0])
	case t.op == "slice" && t.args[2] == tInt(0):
		return nil
	}
	if n, ok := st.resolve(tLen(t)).intVal(); ok && n == 0 {
		return nil
	}
	if t.op == "alloc" && t.typ != nil {
		if pt, ok := t.typ.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok && at.Len() == 0 {
				return nil
			}
		}
	}
	return []*Term{t}
}

// isCipherCall: calls into the encryption libraries.
func isCipherCall(n string) bool {
	return strings.HasPrefix(n, "crypto/cipher.") || strings.HasPrefix(n, "crypto/aes.") || strings.HasPrefix(n, "crypto/des.") ||
		strings.HasPrefix(n, "crypto/rc4.") || strings.HasPrefix(n, "golang.org/x/crypto/chacha20") || strings.HasPrefix(n, "golang.org/x/crypto/nacl")
}

func checkSealed(r *Report) {
	p := r.P
	r.rule("sealed", "encrypting gives the nonce followed by AES-GCM(key, nonce, exactly the data), or an error")
	r.rule("fresh", "the nonce of an encryption is a new buffer of the size the cipher asks for, filled by the system's random source without an error and used once")
	r.rule("opened", "decrypting takes the nonce from the front, but only of data at least as long as a nonce, and returns data only if its authentication succeeded")
	r.rule("key", "both directions use the key given by the caller or the configuration, and store and load under the name asked for")
	r.rule("covered", "every use of a cipher in the node is one of the checked ones")

	seen := map[ssa.Instruction]bool{}
	type root struct {
		f         *ssa.Function
		enc, disk bool
	}
	var roots []root
	roots = append(roots, root{p.fn("utils.AESDEncrypt"), true, false}, root{p.fn("utils.AESDecrypt"), false, false})
	for _, f := range p.impls("store.Store", "PutEncrypted") {
		roots = append(roots, root{f, true, true})
	}
	for _, f := range p.impls("store.Store", "GetEncrypted") {
		roots = append(roots, root{f, false, true})
	}
	keys := map[bool]map[string]bool{true: {}, false: {}}
	ads := map[bool]map[string]bool{true: {}, false: {}}
	for _, rt := range roots {
		rt := rt
		f := rt.f
		c := fname(f)
		in := p.interp()
		var name, data, key *Term
		if rt.disk {
			name = in.paramTerm(f.Params[1])
			if rt.enc {
				data = in.paramTerm(f.Params[2])
			}
		} else {
			data, key = in.paramTerm(f.Params[0]), in.paramTerm(f.Params[1])
		}
		errType := types.Universe.Lookup("error").Type()
		fill := func(e *CallEvent, buf *Term, whole bool) []Out {
			b := e.St.clone()
			errT := e.In.fresh(e.Frame, b, e.Site, "err", errType)
			b.assumeNeq(errT, tNil)
			b.step("%s: no random data", e.In.P.pos(e.pos()))
			st := e.St
			base := sliceBase(buf)
			if whole && base.op != "slice" {
				st.auto["filled:"+base.key] = "1"
			}
			n := e.In.fresh(e.Frame, st, e.Site, "n", types.Typ[types.Int])
			return []Out{{st: st, rets: []*Term{n, tNil}}, {st: b, rets: []*Term{e.In.fresh(e.Frame, b, e.Site, "n", types.Typ[types.Int]), errT}}}
		}
		spoil := func(st *State, addr *Term) {
			for addr.op == "ia" || addr.op == "slice" {
				addr = addr.args[0]
			}
			delete(st.auto, "filled:"+addr.key)
		}
		in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) { spoil(st, addr) }
		in.OnCall = func(e *CallEvent) ([]Out, bool) {
			if isCipherCall(e.Name) {
				seen[e.Site] = true
			}
			switch n := e.Name; {
			case n == "crypto/aes.NewCipher":
				return e.split(tAppNN("aes", e.Args[0]), "setup"), true
			case n == "crypto/cipher.NewGCM":
				return e.split(tAppNN("gcm", unIface(e.Args[0])), "setup"), true
			case n == aeadPre+"NonceSize":
				t := tApp("noncesize", unIface(e.Recv))
				t.typ = types.Typ[types.Int]
				e.St.assumeLin(toLin(t), 0, 1<<20)
				return []Out{{st: e.St, rets: []*Term{t}}}, true
			case n == aeadPre+"Overhead":
				return e.pure(), true
			case n == "crypto/rand.Read":
				return fill(e, e.Args[0], true), true
			case n == "io.ReadFull" || n == "io.ReadAtLeast":
				src := e.Args[0].key
				good := strings.Contains(src, "crypto/rand.Reader") && (n == "io.ReadFull" || e.St.known(e.Args[2], tLen(sliceBase(e.Args[1]))) == 1)
				return fill(e, e.Args[1], good), true
			case n == "builtin.copy":
				spoil(e.St, e.Args[0])
				return nil, false
			case n == aeadPre+"Seal":
				dst, nonce, pt, ad := e.Args[0], sliceBase(e.Args[1]), e.Args[2], e.Args[3]
				g := unIface(e.Recv)
				r.check(rt.enc, "sealed", c, e.pos(), "decryption encrypts")
				isNew := nonce.op != "slice" && (nonce.op == "alloc" || strings.Contains(nonce.op, "make")) && e.St.known(tLen(nonce), tApp("noncesize", g)) == 1
				r.check(isNew, "fresh", c, e.pos(), "the nonce %s is not a new buffer of the cipher's nonce size; path: %s", nonce, e.St.path())
				r.check(e.St.auto["filled:"+nonce.key] == "1", "fresh", c, e.pos(), "the nonce is not filled with random data, changed afterwards or used before; path: %s", e.St.path())
				delete(e.St.auto, "filled:"+nonce.key)
				if data != nil {
					r.check(one(e.St.flat(pt), data), "sealed", c, e.pos(), "what is encrypted is %s, not the data given", pt)
				}
				checkKey(r, e, rt.enc, f, c, g, key, keys)
				ads[true][ad.key] = true
				ct := tAppNN("ct", g, nonce, unIface(pt), ad)
				if len(e.St.flat(dst)) == 0 {
					return []Out{{st: e.St, rets: []*Term{ct}}}, true
				}
				return []Out{{st: e.St, rets: []*Term{tAppNN("concat", dst, ct)}}}, true
			case n == aeadPre+"Open":
				dst, nonce, ct, ad := e.Args[0], e.Args[1], e.Args[2], e.Args[3]
				g := unIface(e.Recv)
				r.check(!rt.enc, "opened", c, e.pos(), "encryption decrypts")
				ns := tApp("noncesize", g)
				okN := nonce.op == "slice" && (nonce.args[1] == tNil || nonce.args[1] == tInt(0)) && nonce.args[2] == ns
				okC := ct.op == "slice" && ct.args[1] == ns && ct.args[2] == tNil
				same := okN && okC && nonce.args[0] == ct.args[0]
				r.check(same, "opened", c, e.pos(), "the nonce is %s and the sealed data %s: not the two parts of what encryption made", nonce, ct)
				if same {
					src := nonce.args[0]
					if data != nil {
						r.check(src == data, "opened", c, e.pos(), "what is decrypted is %s, not the data given", src)
					} else {
						r.check(e.St.auto["read"] == src.key, "opened", c, e.pos(), "what is decrypted is %s, not what was read", src)
					}
				}
				checkKey(r, e, rt.enc, f, c, g, key, keys)
				ads[false][ad.key] = true
				out := tApp("plain", g, nonce, ct)
				if len(e.St.flat(dst)) != 0 {
					out = tApp("concat", dst, out)
				}
				return e.split(out, "forged"), true
			case strings.HasPrefix(n, "crypto/cipher.") || isCipherCall(n):
				r.bad("covered", c, e.pos(), "undecided: uses %s", n)
				return e.unknown(), true
			case strings.HasSuffix(n, "leveldb.(DB).Put") || strings.HasSuffix(n, "leveldb.(DB).Get"):
				r.check(one(e.St.flat(e.Args[0]), name), "key", c, e.pos(), "the database is asked for %s, not for the name given", e.Args[0])
				if strings.HasSuffix(n, "Get") {
					t := tApp("read", e.Args[0])
					t.typ = e.Com.Signature().Results().At(0).Type()
					e.St.auto["read"] = t.key
					return e.split(t, "noread"), true
				}
				parts := e.St.flat(e.Args[1])
				r.check(sealedParts(parts), "sealed", c, e.pos(), "what is stored is %s, not the nonce and the sealed data; path: %s", e.Args[1], e.St.path())
				e.St.auto["put"] = "1"
				b := e.St.clone()
				errT := e.In.fresh(e.Frame, b, e.Site, "err", errType)
				b.assumeNeq(errT, tNil)
				b.auto["putfail"] = "1"
				return []Out{{st: e.St, rets: []*Term{tNil}}, {st: b, rets: []*Term{errT}}}, true
			}
			return nil, false
		}
		// slices only within bounds
		in.OnInstr = func(fr *Frame, st *State, i ssa.Instruction) {
			x, ok := i.(*ssa.Slice)
			if !ok || rt.enc {
				return
			}
			b := in.val(fr, fr.env, x.X)
			var cut *Term
			if x.High != nil {
				cut = in.val(fr, fr.env, x.High)
			} else if x.Low != nil {
				cut = in.val(fr, fr.env, x.Low)
			} else {
				return
			}
			if _, isSlice := x.X.Type().Underlying().(*types.Slice); !isSlice {
				return
			}
			lo, _ := st.bounds(linSub(toLin(tLen(b)), toLin(cut)))
			r.check(lo >= 0, "opened", c, i.Pos(), "data shorter than a nonce crashes the node: %s is cut at %s without a check of its length; path: %s", b, cut, st.path())
		}
		n := 0
		for _, o := range in.Run(f, nil, nil) {
			if o.panic {
				continue
			}
			errV := o.rets[len(o.rets)-1]
			k := o.st.known(errV, tNil)
			if k < 0 {
				r.bad("sealed", c, retPos(o), "undecided: the error is %s", errV)
				continue
			}
			failed := o.st.auto["setup"] != "" || o.st.auto["forged"] != "" || o.st.auto["putfail"] != "" || o.st.auto["noread"] != ""
			rule := "opened"
			if rt.enc {
				rule = "sealed"
			}
			if failed {
				r.check(k == 0, rule, c, retPos(o), "a failure is reported as success; path: %s", o.st.path())
				if o.st.auto["forged"] != "" {
					v := o.rets[0]
					r.check(v == tNil || !v.mentions(func(y *Term) bool { return y.op == "plain" || y.op == "slice" }), rule, c, retPos(o), "data whose authentication failed is returned")
				}
				continue
			}
			if k == 0 {
				continue
			}
			n++
			switch {
			case rt.enc && !rt.disk:
				r.check(sealedParts(o.st.flat(o.rets[0])), "sealed", c, retPos(o), "the result is %s, not the nonce and the sealed data; path: %s", o.rets[0], o.st.path())
			case rt.enc:
				r.check(o.st.auto["put"] == "1", "sealed", c, retPos(o), "success is returned but nothing was stored; path: %s", o.st.path())
			default:
				fl := o.st.flat(o.rets[0])
				r.check(len(fl) == 1 && fl[0].op == "plain", "opened", c, retPos(o), "the result is %s, not the decrypted data; path: %s", o.rets[0], o.st.path())
			}
		}
		if n == 0 {
			r.bad("sealed", c, f.Pos(), "undecided: never succeeds")
		}
		r.Counts["paths"] += in.Paths
	}
	same := func(m map[bool]map[string]bool) bool {
		if len(m[true]) != len(m[false]) {
			return false
		}
		for k := range m[true] {
			if !m[false][k] {
				return false
			}
		}
		return true
	}
	r.check(same(ads), "sealed", "additional data", token.NoPos, "encryption and decryption use different additional data")
	r.check(same(keys) && len(keys[true]) == 1, "key", "store", token.NoPos, "the store encrypts and decrypts with different keys: %v and %v", keys[true], keys[false])
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && isCipherCall(calleeName(ci.Common())) {
					r.check(seen[i], "covered", fname(f), i.Pos(), "uses %s outside the checked encryption functions", calleeName(ci.Common()))
				}
			}
		}
	}
	// the store's key is the one it was made with
	ctor := p.fn("store.NewStore")
	for k := range keys[true] {
		fv := p.fieldByKey("store.DefaultStore", k)
		if fv == nil {
			r.bad("key", "store", ctor.Pos(), "undecided: the key of the store is %s", k)
			continue
		}
		for _, st := range (&Slicer{P: p}).fieldStores()[fv] {
			good := false
			if pr, ok := st.Val.(*ssa.Parameter); ok && st.Parent() == ctor && pr == ctor.Params[1] {
				good = true
			}
			r.check(good, "key", fname(st.Parent()), st.Pos(), "the store's key is not the one it was made with")
		}
	}
	r.floor("sealed", 5)
	r.floor("fresh", 2)
	r.floor("opened", 5)
	r.floor("key", 5)
	r.floor("covered", 8)
}

func one(ts []*Term, t *Term) bool { return len(ts) == 1 && ts[0] == t }

// sealedParts: a nonce and what was sealed with it.
func sealedParts(ps []*Term) bool {
	return len(ps) == 2 && ps[1].op == "ct" && ps[1].args[1] == sliceBase(ps[0])
}

func checkKey(r *Report, e *CallEvent, enc bool, f *ssa.Function, c string, g, key *Term, keys map[bool]map[string]bool) {
	if g.op != "gcm" || g.args[0].op != "aes" {
		r.bad("key", c, e.pos(), "undecided: the cipher is %s", g)
		return
	}
	k := g.args[0].args[0]
	if key != nil {
		r.check(k == key, "key", c, e.pos(), "the key is %s, not the one given", k)
		return
	}
	if k.op == "ld" && k.args[0].op == "fa" && k.args[0].args[0] == e.In.paramTerm(f.Params[0]) {
		keys[enc][k.args[0].field.Name()] = true
		r.ok("key", c, e.pos(), "")
		return
	}
	r.bad("key", c, e.pos(), "the key is %s, not the one of the store", k)
}

func (p *Program) fieldByKey(typ, name string) *types.Var {
	s, ok := p.typ(typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}
	return nil
}
