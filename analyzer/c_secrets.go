package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", false, checkSecrets)
}

const tssLib = "github.com/sisu-network/tss-lib/"

// secretType: values of this type are or contain a secret when they are printed or encoded. deep follows pointers
// inside structures, as encoders do and printing does not.
func secretType(t types.Type, deep bool, depth int) string {
	if depth > 6 {
		return ""
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if depth > 0 && !deep && !printsItself(pt) {
			return ""
		}
		return secretType(pt.Elem(), deep, depth+1)
	}
	if n, ok := t.(*types.Named); ok {
		nm := n.Obj().Name()
		pk := ""
		if n.Obj().Pkg() != nil {
			pk = n.Obj().Pkg().Path()
		}
		switch {
		case nm == "PrivKey" || nm == "LedgerPrivKey" || nm == "PrivateKey":
			return nm
		case strings.HasPrefix(pk, tssLib) && (nm == "LocalPreParams" || nm == "LocalSecrets" || nm == "LocalPartySaveData" || nm == "SignatureData_OneRoundData"):
			return nm
		case strings.HasSuffix(nm, "DefaultEngine") && pk == "":
			return nm
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return secretType(u.Elem(), deep, depth+1)
	case *types.Array:
		return secretType(u.Elem(), deep, depth+1)
	case *types.Map:
		if s := secretType(u.Key(), deep, depth+1); s != "" {
			return s
		}
		return secretType(u.Elem(), deep, depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if secretField(f) {
				return f.Name()
			}
			if f.Pkg() != nil && !strings.HasPrefix(f.Pkg().Path(), modPath) && !f.Exported() {
				continue
			}
			if s := secretType(f.Type(), deep, depth+1); s != "" {
				return f.Name() + "." + s
			}
		}
	}
	return ""
}

// printsItself: printing a value of this type calls its String or Error method, however deep it is.
func printsItself(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String", "Error", "Format", "GoString":
			return true
		}
	}
	return false
}

// secretField: fields which hold secrets that came from outside.
func secretField(f *types.Var) bool {
	pk := ""
	if f.Pkg() != nil {
		pk = f.Pkg().Path()
	}
	switch {
	case strings.HasPrefix(pk, tssLib):
		switch f.Name() {
		case "Xi", "ShareID", "LocalSecrets", "LocalPreParams", "PaillierSK", "P", "Q", "Alpha", "Beta", "LambdaN", "PhiN":
			return strings.Contains(pk, "keygen") || strings.Contains(pk, "paillier")
		}
	case pk == own("core/config"):
		return f.Name() == "Password" || f.Name() == "AesKey"
	case strings.HasPrefix(pk, "github.com/sisu-network/lib/log"):
		return f.Name() == "Secret"
	}
	return false
}

// declassified: calls whose result tells nothing of a secret they are given.
func declassified(name string) bool {
	m := name[strings.LastIndex(name, ".")+1:]
	switch m {
	case "PubKey", "Public", "GetPublic", "Type", "Equals", "Equal", "Sign", "SignRecoverable", "Verify", "VerifySignature", "Compare", "Len",
		"IDFromPublicKey", "IDFromPrivateKey", "Seal", "PublicKey":
		return true
	}
	return name == own("utils.AESDEncrypt") || strings.HasPrefix(name, "crypto/sha") || strings.Contains(name, "Keccak") || strings.Contains(name, "ConstantTimeCompare")
}

// secretSource: calls that produce secrets.
func secretSource(name string, args []ssa.Value) bool {
	switch {
	case name == own("utils.AESDecrypt") || strings.HasSuffix(name, "cipher.(AEAD).Open"):
		return true
	case strings.HasSuffix(name, ".GeneratePreParams"), strings.HasSuffix(name, "crypto.GenerateKey"), strings.HasSuffix(name, ".GeneratePrivateKey"):
		return true
	case name == "os.Getenv" || name == "os.LookupEnv":
		if c, ok := args[0].(*ssa.Const); ok && c.Value != nil {
			return strings.Contains(c.Value.String(), "KEY") || strings.Contains(c.Value.String(), "SECRET") || strings.Contains(c.Value.String(), "PASS")
		}
	}
	return false
}

// leaks follows what goes to a sink and reports the secrets it is made from.
func (p *Program) leaks(v ssa.Value, deep bool, found func(pos token.Pos, what string)) {
	sl := p.slicer(nil)
	sl.Fields, sl.Callers = true, true
	isErr := func(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }
	skip := func(v ssa.Value) bool {
		switch t := v.Type().Underlying().(type) {
		case *types.Basic:
			if t.Info()&(types.IsBoolean) != 0 {
				return true
			}
		}
		return isErr(v.Type())
	}
	sl.Stop = func(s Source) bool {
		if _, isC := s.V.(*ssa.Const); isC || skip(s.V) {
			return true
		}
		switch s.Kind {
		case "len":
			return true
		case "call":
			if declassified(s.Name) {
				return true
			}
			if secretSource(s.Name, s.Args) {
				if ex, ok := s.V.(*ssa.Extract); ok && isErr(ex.Type()) {
					return true
				}
				found(s.Pos, "the result of "+s.Name)
				return true
			}
			if strings.HasPrefix(s.Name, tssLib) || strings.HasPrefix(s.Name, "github.com/libp2p/go-libp2p.") {
				return true // protocol messages, indexes, public keys, the network host
			}
		case "field":
			if secretField(s.Field) {
				found(s.Pos, "the field "+s.Field.Name())
				return true
			}
			if w := secretType(baseOf(s.V).Type(), deep, 0); (w == "PrivKey" || w == "PrivateKey") && s.Field.Name() != "PublicKey" {
				found(s.Pos, "a private key")
				return true
			}
			ft := s.Field.Type()
			if w := secretType(ft, deep, 0); w != "" && !p.throughPointer(s) {
				found(s.Pos, "the field "+s.Field.Name()+", which holds "+w)
				return true
			}
			if !strings.HasPrefix(s.Field.Pkg().Path(), modPath) {
				return true
			}
			// only what is stored to it, not the object it belongs to
			return len(sl.fieldStores()[s.Field]) == 0
		case "recv":
			return false
		}
		return false
	}
	sl.Run(v)
}

// throughPointer: the field is only the way to one of its parts.
func (p *Program) throughPointer(s Source) bool {
	for k := 1; k < len(s.Path); k++ {
		switch s.Path[k].(type) {
		case *ssa.UnOp, *ssa.Phi, *ssa.ChangeInterface, *ssa.ChangeType:
			continue
		case *ssa.FieldAddr, *ssa.Field:
			return true
		}
		return false
	}
	return false
}

func checkSecrets(r *Report) {
	p := r.P
	r.rule("log", "nothing that is logged, printed, put into an error text or a panic is made from a secret (backward slice from every such argument)")
	r.rule("sent", "no field of a message to another node or to the client, and nothing given to the network or the client, is made from a secret")
	isSink := func(n string) (from int, deep, ok bool) {
		switch {
		case strings.HasPrefix(n, "github.com/sisu-network/lib/log.New"), strings.HasPrefix(n, "github.com/sisu-network/lib/log.Set"):
			return 0, false, false
		case strings.HasPrefix(n, "github.com/sisu-network/lib/log."):
			return 0, false, true
		case strings.HasPrefix(n, "fmt.Print"), n == "fmt.Errorf", n == "errors.New", strings.HasPrefix(n, "log."), n == "builtin.panic", n == "builtin.print", n == "builtin.println":
			return 0, false, true
		case strings.HasPrefix(n, "fmt.Fprint"):
			return 1, false, true
		case n == own("p2p.(ConnectionManager).WriteToStream"):
			return 0, true, true
		case strings.HasPrefix(n, own("client.(Client).Post")):
			return 0, true, true
		}
		return 0, false, false
	}
	for _, f := range p.Funcs {
		if strings.HasSuffix(f.Pkg.Pkg.Path(), "/gen-localhost") {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var vals []ssa.Value
				deep, rule, what := false, "log", ""
				switch x := i.(type) {
				case ssa.CallInstruction:
					cm := x.Common()
					n := calleeName(cm)
					from, dp, ok := isSink(n)
					if !ok {
						continue
					}
					if cm.IsInvoke() {
						from = 0
					}
					vals, deep, what = cm.Args[from:], dp, n
					if dp {
						rule = "sent"
					}
				case *ssa.Panic:
					vals, what = []ssa.Value{x.X}, "panic"
				case *ssa.Store:
					fv := fieldOf(x.Addr)
					if fv == nil || fv.Pkg() == nil {
						continue
					}
					pk := strings.TrimPrefix(fv.Pkg().Path(), modPath+"/")
					if pk != "types" && pk != "types/common" && pk != "types/ecdsa" && pk != "types/eddsa" {
						continue
					}
					vals, deep, rule, what = []ssa.Value{x.Val}, true, "sent", p.ownerOf(fv)+"."+fv.Name()
				default:
					continue
				}
				c := fname(f) + " -> " + strings.TrimPrefix(strings.TrimPrefix(what, modPath+"/"), "github.com/sisu-network/lib/")
				good := true
				for _, v := range vals {
					p.leaks(v, deep, func(pos token.Pos, w string) {
						good = false
						r.bad(rule, c, i.Pos(), "discloses %s (%s)", w, p.pos(pos))
					})
					for _, pv := range printed(v) {
						if w := secretType(pv.Type(), deep, 0); w != "" {
							good = false
							r.bad(rule, c, i.Pos(), "discloses a value of type %s, which holds %s", pv.Type(), w)
						}
					}
				}
				if good {
					r.ok(rule, c, i.Pos(), "")
				}
			}
		}
	}
	r.floor("log", 100)
	r.floor("sent", 20)
}

// printed: the values that are given as they are, before they became interfaces in an argument list.
func printed(v ssa.Value) []ssa.Value {
	var r []ssa.Value
	seen := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			add(x.X)
		case *ssa.ChangeInterface:
			r = append(r, v)
			add(x.X)
		case *ssa.Slice:
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, ref := range *a.Referrers() {
					if ia, ok := ref.(*ssa.IndexAddr); ok {
						for _, r2 := range *ia.Referrers() {
							if s, ok := r2.(*ssa.Store); ok && s.Addr == ia {
								add(s.Val)
							}
						}
					}
				}
				return
			}
			r = append(r, v)
		default:
			r = append(r, v)
		}
	}
	add(v)
	return r
}
