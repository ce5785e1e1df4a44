package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an abstract value of the path-sensitive dataflow: a constant, an opaque symbol, an object
// allocated on the path, an address, a load from unknown memory, or an operator applied to terms.
// Terms are interned, so pointer equality is equality.
type Term struct {
	op     string
	args   []*Term
	con    constant.Value
	fn     *ssa.Function
	field  *types.Var
	typ    types.Type
	ctx    string // context that created a sym or alloc
	nonnil bool
	key    string
	n      int64
	site   ssa.Instruction
}

var terms = map[string]*Term{}

// linCo: the coefficients of the sums.
var linCo = map[*Term]map[*Term]int64{}

func intern(t *Term) *Term {
	if x, ok := terms[t.key]; ok {
		return x
	}
	terms[t.key] = t
	return t
}

var (
	tNil   = intern(&Term{op: "nil", key: "nil"})
	tTrue  = tConst(constant.MakeBool(true))
	tFalse = tConst(constant.MakeBool(false))
)

func tConst(c constant.Value) *Term {
	return intern(&Term{op: "const", con: c, key: "#" + c.Kind().String() + ":" + c.ExactString(), nonnil: true})
}

func tInt(n int64) *Term { return tConst(constant.MakeInt64(n)) }

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func tSym(name, ctx string, typ types.Type) *Term {
	return intern(&Term{op: "sym", key: "$" + name + "@" + ctx, ctx: ctx, typ: typ})
}

func tSymNN(name, ctx string, typ types.Type) *Term {
	return intern(&Term{op: "sym", key: "$!" + name + "@" + ctx, ctx: ctx, typ: typ, nonnil: true})
}

func tAlloc(site ssa.Instruction, name, ctx string, typ types.Type) *Term {
	return intern(&Term{op: "alloc", key: "&" + name + "@" + ctx, ctx: ctx, typ: typ, nonnil: true, site: site})
}

func tApp(op string, args ...*Term) *Term {
	ks := make([]string, len(args))
	for i, a := range args {
		ks[i] = a.key
	}
	return intern(&Term{op: op, args: args, key: op + "(" + strings.Join(ks, ",") + ")"})
}

func tAppNN(op string, args ...*Term) *Term {
	t := tApp(op, args...)
	t.nonnil = true
	return t
}

func fieldKey(f *types.Var) string {
	pk := ""
	if f.Pkg() != nil {
		pk = f.Pkg().Path()
	}
	return pk + "." + f.Name() + "#" + strconv.Itoa(int(f.Pos()))
}

func tFieldAddr(base *Term, f *types.Var) *Term {
	return intern(&Term{op: "fa", args: []*Term{base}, field: f, typ: f.Type(), nonnil: true, key: "fa(" + base.key + "." + fieldKey(f) + ")"})
}

func tIndexAddr(base, idx *Term) *Term {
	t := tApp("ia", base, idx)
	t.nonnil = true
	return t
}

func tLoad(addr *Term, tag string, typ types.Type) *Term {
	k := "ld(" + addr.key
	if tag != "" {
		k += ";" + tag
	}
	k += ")"
	return intern(&Term{op: "ld", args: []*Term{addr}, key: k, typ: typ})
}

func tFunc(f *ssa.Function) *Term {
	return intern(&Term{op: "func", fn: f, key: "fn:" + f.String(), nonnil: true})
}

func tClosure(f *ssa.Function, b []*Term) *Term {
	ks := make([]string, len(b))
	for i, a := range b {
		ks[i] = a.key
	}
	return intern(&Term{op: "closure", fn: f, args: b, key: "cl:" + f.String() + "{" + strings.Join(ks, ",") + "}", nonnil: true})
}

func tTuple(args ...*Term) *Term { return tApp("tuple", args...) }

func tIface(typ types.Type, x *Term) *Term {
	return intern(&Term{op: "iface", typ: typ, args: []*Term{x}, nonnil: true, key: "if[" + types.TypeString(typ, nil) + "](" + x.key + ")"})
}

func unIface(t *Term) *Term {
	for t.op == "iface" {
		t = t.args[0]
	}
	return t
}

func (t *Term) isConst() bool { return t.op == "const" || t.op == "nil" }

func (t *Term) intVal() (int64, bool) {
	if t.op == "const" && t.con.Kind() == constant.Int {
		return constant.Int64Val(t.con)
	}
	return 0, false
}

func (t *Term) strVal() (string, bool) {
	if t.op == "const" && t.con.Kind() == constant.String {
		return constant.StringVal(t.con), true
	}
	return "", false
}

func (t *Term) boolVal() (val, ok bool) {
	if t.op == "const" && t.con.Kind() == constant.Bool {
		return constant.BoolVal(t.con), true
	}
	return false, false
}

// contains reports whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.args {
		if a.contains(sub) {
			return true
		}
	}
	return false
}

func (t *Term) walk(f func(*Term)) {
	f(t)
	for _, a := range t.args {
		a.walk(f)
	}
}

// root follows addresses and loads to the object a term is part of.
func (t *Term) root() *Term {
	for {
		switch t.op {
		case "fa", "ia", "ld", "iface", "slice", "lookup", "as":
			t = t.args[0]
		default:
			return t
		}
	}
}

// String renders a term for reports.
func (t *Term) String() string {
	switch t.op {
	case "nil":
		return "nil"
	case "const":
		return t.con.ExactString()
	case "sym":
		s := strings.TrimPrefix(strings.TrimPrefix(t.key, "$!"), "$")
		if i := strings.LastIndex(s, "@"); i >= 0 {
			s = s[:i]
		}
		return s
	case "alloc":
		return "new"
	case "fa":
		return t.args[0].String() + "." + t.field.Name()
	case "ia":
		return t.args[0].String() + "[" + t.args[1].String() + "]"
	case "ld", "iface":
		return t.args[0].String()
	case "func", "closure":
		return fname(t.fn)
	}
	as := []string{}
	for _, a := range t.args {
		as = append(as, a.String())
	}
	return t.op + "(" + strings.Join(as, ",") + ")"
}

// ---- linear integer forms ---------------------------------------------------------------------

type lin struct {
	co map[*Term]int64
	k  int64
}

func toLin(t *Term) lin {
	l := lin{co: map[*Term]int64{}}
	var add func(t *Term, m int64)
	add = func(t *Term, m int64) {
		if n, ok := t.intVal(); ok {
			l.k += m * n
			return
		}
		switch t.op {
		case "+":
			add(t.args[0], m)
			add(t.args[1], m)
			return
		case "-":
			add(t.args[0], m)
			add(t.args[1], -m)
			return
		case "*":
			if n, ok := t.args[0].intVal(); ok {
				add(t.args[1], m*n)
				return
			}
			if n, ok := t.args[1].intVal(); ok {
				add(t.args[0], m*n)
				return
			}
		}
		l.co[t] += m
		if l.co[t] == 0 {
			delete(l.co, t)
		}
	}
	add(t, 1)
	return l
}

func linSub(a, b lin) lin {
	r := lin{co: map[*Term]int64{}, k: a.k - b.k}
	for t, c := range a.co {
		r.co[t] = c
	}
	for t, c := range b.co {
		r.co[t] -= c
		if r.co[t] == 0 {
			delete(r.co, t)
		}
	}
	return r
}

// canon returns the variable part of l as an interned term with positive leading sign, and whether
// the sign was flipped. nil when l is constant.
func (l lin) canon() (*Term, bool) {
	if len(l.co) == 0 {
		return nil, false
	}
	ts := make([]*Term, 0, len(l.co))
	for t := range l.co {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].key < ts[j].key })
	flip := l.co[ts[0]] < 0
	if len(ts) == 1 && (l.co[ts[0]] == 1 || l.co[ts[0]] == -1) {
		return ts[0], flip
	}
	var sb strings.Builder
	args := []*Term{}
	for _, t := range ts {
		c := l.co[t]
		if flip {
			c = -c
		}
		fmt.Fprintf(&sb, "%+d*%s", c, t.key)
		args = append(args, t)
	}
	t := intern(&Term{op: "lin", args: args, key: "lin[" + sb.String() + "]"})
	if linCo[t] == nil {
		m := map[*Term]int64{}
		for x, c := range l.co {
			if flip {
				c = -c
			}
			m[x] = c
		}
		linCo[t] = m
	}
	return t, flip
}
