package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", false, checkSQL)
}

// ---- schema ----

type sqlTable struct {
	name string
	cols []string
	pk   []string
}

func (t *sqlTable) has(c string) bool {
	for _, x := range t.cols {
		if x == c {
			return true
		}
	}
	return false
}

var sqlToken = regexp.MustCompile("(?s)`[^`]*`|'[^']*'|[A-Za-z_][A-Za-z0-9_]*|[0-9]+|<=|>=|<>|!=|\x00[0-9]+\x00|[^\\s]")

func sqlTokens(s string) []string {
	s = regexp.MustCompile(`(?m)--.*$`).ReplaceAllString(s, "")
	var r []string
	for _, t := range sqlToken.FindAllString(s, -1) {
		if strings.HasPrefix(t, "`") {
			t = strings.Trim(t, "`")
		}
		r = append(r, t)
	}
	return r
}

func eqFold(ts []string, words ...string) bool {
	if len(ts) < len(words) {
		return false
	}
	for k, w := range words {
		if !strings.EqualFold(ts[k], w) {
			return false
		}
	}
	return true
}

// schema reads the migrations that are applied when the database is opened.
func (p *Program) schema() (map[string]*sqlTable, []string, error) {
	dir := p.Pkgs[modPath+"/db"].Dir
	var files []string
	err := filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(path, ".up.sql") {
			files = append(files, path)
		}
		return err
	})
	if err != nil {
		return nil, nil, err
	}
	sort.Strings(files)
	tables := map[string]*sqlTable{}
	for _, f := range files {
		bz, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		ts := sqlTokens(string(bz))
		for len(ts) > 0 {
			n := 0
			for n < len(ts) && ts[n] != ";" {
				n++
			}
			stmt := ts[:n]
			if n < len(ts) {
				n++
			}
			ts = ts[n:]
			if len(stmt) == 0 {
				continue
			}
			if err := applyDDL(tables, stmt); err != nil {
				return nil, nil, fmt.Errorf("%s: %v", filepath.Base(f), err)
			}
		}
	}
	return tables, files, nil
}

func applyDDL(tables map[string]*sqlTable, ts []string) error {
	switch {
	case eqFold(ts, "CREATE", "TABLE"):
		ts = ts[2:]
		if eqFold(ts, "IF", "NOT", "EXISTS") {
			ts = ts[3:]
		}
		t := &sqlTable{name: strings.ToLower(ts[0])}
		if len(ts) < 2 || ts[1] != "(" {
			return fmt.Errorf("table %s has no columns", ts[0])
		}
		depth := 0
		var item []string
		flush := func() {
			if len(item) == 0 {
				return
			}
			switch {
			case eqFold(item, "PRIMARY", "KEY"):
				for _, c := range item[2:] {
					if c != "(" && c != ")" && c != "," {
						t.pk = append(t.pk, strings.ToLower(c))
					}
				}
			case eqFold(item, "UNIQUE"), eqFold(item, "KEY"), eqFold(item, "INDEX"), eqFold(item, "CONSTRAINT"), eqFold(item, "FOREIGN"):
			default:
				t.cols = append(t.cols, strings.ToLower(item[0]))
				for k := range item {
					if eqFold(item[k:], "PRIMARY", "KEY") {
						t.pk = append(t.pk, strings.ToLower(item[0]))
					}
				}
			}
			item = nil
		}
		for _, x := range ts[1:] {
			switch {
			case x == "(":
				depth++
				if depth > 1 {
					item = append(item, x)
				}
			case x == ")":
				depth--
				if depth == 0 {
					flush()
				} else {
					item = append(item, x)
				}
			case x == "," && depth == 1:
				flush()
			case depth > 0:
				item = append(item, x)
			}
		}
		tables[t.name] = t
	case eqFold(ts, "ALTER", "TABLE"):
		t := tables[strings.ToLower(ts[2])]
		if t == nil {
			return fmt.Errorf("alters the unknown table %s", ts[2])
		}
		rest := ts[3:]
		for len(rest) > 0 {
			switch {
			case eqFold(rest, "ADD", "PRIMARY", "KEY"):
				t.pk = nil
				for k := 3; k < len(rest) && rest[k] != ")"; k++ {
					if rest[k] != "(" && rest[k] != "," {
						t.pk = append(t.pk, strings.ToLower(rest[k]))
					}
				}
			case eqFold(rest, "DROP", "PRIMARY", "KEY"):
				t.pk = nil
			case eqFold(rest, "ADD"):
				k := 1
				if eqFold(rest[1:], "COLUMN") {
					k = 2
				}
				t.cols = append(t.cols, strings.ToLower(rest[k]))
			case eqFold(rest, "MODIFY"):
			default:
				return fmt.Errorf("undecided: ALTER TABLE %s", strings.Join(rest, " "))
			}
			n := 0
			depth := 0
			for n < len(rest) && (rest[n] != "," || depth > 0) {
				if rest[n] == "(" {
					depth++
				}
				if rest[n] == ")" {
					depth--
				}
				n++
			}
			if n < len(rest) {
				n++
			}
			rest = rest[n:]
		}
	case eqFold(ts, "CREATE", "INDEX"), eqFold(ts, "CREATE", "UNIQUE"):
	case eqFold(ts, "DROP", "TABLE"):
		delete(tables, strings.ToLower(ts[len(ts)-1]))
	default:
		return fmt.Errorf("undecided: %s", strings.Join(ts, " "))
	}
	return nil
}

// ---- statements ----

type sqlCond struct {
	col  string
	val  string // constant, "" if a parameter
	in   *Term  // marks of an IN list
	pars int    // number of parameters (if not a list)
	raw  *Term  // a value printed into the statement
}

type sqlStmt struct {
	kind  string // INSERT SELECT UPDATE DELETE
	table string
	cols  []string
	set   []sqlCond
	where []sqlCond
	rows  *Term // marks of the rows of an INSERT
	pars  int   // plain parameters of an INSERT
	order string
	limit bool
	tail  []string
}

// pieces of a statement: text with \x00k\x00 for the k-th dynamic part.
func sqlText(t *Term, dyn *[]*Term) string {
	t = unIface(t)
	if s, ok := t.strVal(); ok {
		return s
	}
	if t.op == "+" || t.op == "text" {
		var b strings.Builder
		for _, a := range t.args {
			b.WriteString(sqlText(a, dyn))
		}
		return b.String()
	}
	*dyn = append(*dyn, t)
	return fmt.Sprintf(" \x00%d\x00 ", len(*dyn)-1)
}

func parseSQL(t *Term) (*sqlStmt, error) {
	var dyn []*Term
	text := sqlText(t, &dyn)
	ts := sqlTokens(text)
	hole := func(tok string) *Term {
		if strings.HasPrefix(tok, "\x00") {
			var k int
			fmt.Sscanf(strings.Trim(tok, "\x00"), "%d", &k)
			return dyn[k]
		}
		return nil
	}
	fail := func(what string) (*sqlStmt, error) {
		return nil, fmt.Errorf("undecided: %s in %q", what, strings.Join(ts, " "))
	}
	s := &sqlStmt{}
	pos := 0
	peek := func() string {
		if pos < len(ts) {
			return ts[pos]
		}
		return ""
	}
	next := func() string { t := peek(); pos++; return t }
	word := func(w ...string) bool {
		if pos <= len(ts) && eqFold(ts[min(pos, len(ts)):], w...) {
			pos += len(w)
			return true
		}
		return false
	}
	value := func() (c sqlCond, ok bool) {
		v := next()
		switch {
		case v == "?":
			c.pars = 1
		case strings.HasPrefix(v, "'"):
			in := strings.Trim(v, "'")
			if h := hole(strings.TrimSpace(in)); h != nil {
				c.raw = h
			} else {
				c.val = in
			}
		case hole(v) != nil:
			c.raw = hole(v)
		default:
			return c, false
		}
		return c, true
	}
	conds := func() bool {
		for {
			col := strings.ToLower(next())
			if word("IN") {
				if h := hole(peek()); h != nil {
					pos++
					s.where = append(s.where, sqlCond{col: col, in: h})
				} else {
					return false
				}
			} else if peek() == "=" {
				pos++
				c, ok := value()
				if !ok {
					return false
				}
				c.col = col
				s.where = append(s.where, c)
			} else {
				return false
			}
			if !word("AND") {
				return true
			}
		}
	}
	switch {
	case word("INSERT", "INTO"):
		s.kind = "INSERT"
		s.table = strings.ToLower(next())
		if next() != "(" {
			return fail("column list")
		}
		for peek() != ")" && pos < len(ts) {
			if c := next(); c != "," {
				s.cols = append(s.cols, strings.ToLower(c))
			}
		}
		pos++
		if !word("VALUES") {
			return fail("values")
		}
		if h := hole(peek()); h != nil {
			pos++
			s.rows = h
		} else if next() == "(" {
			for peek() != ")" && pos < len(ts) {
				switch x := next(); {
				case x == ",":
				case x == "?":
					s.pars++
				default:
					return fail("value " + x)
				}
			}
			pos++
		} else {
			return fail("values")
		}
		if pos < len(ts) && ts[pos] != ";" {
			s.tail = ts[pos:]
		}
	case word("SELECT"):
		s.kind = "SELECT"
		for pos < len(ts) && !eqFold(ts[pos:], "FROM") {
			if c := next(); c != "," {
				s.cols = append(s.cols, strings.ToLower(c))
			}
		}
		if !word("FROM") {
			return fail("table")
		}
		s.table = strings.ToLower(next())
		if word("WHERE") && !conds() {
			return fail("condition")
		}
		if word("ORDER", "BY") {
			s.order = strings.ToLower(next())
			if !word("DESC") {
				word("ASC")
			}
		}
		if word("LIMIT") {
			s.limit = true
			next()
		}
		if pos < len(ts) && ts[pos] != ";" {
			return fail("end")
		}
	case word("UPDATE"):
		s.kind = "UPDATE"
		s.table = strings.ToLower(next())
		if !word("SET") {
			return fail("set")
		}
		for {
			col := strings.ToLower(next())
			if next() != "=" {
				return fail("set")
			}
			c, ok := value()
			if !ok {
				return fail("set")
			}
			c.col = col
			s.set = append(s.set, c)
			if peek() != "," {
				break
			}
			pos++
		}
		if word("WHERE") && !conds() {
			return fail("condition")
		}
		if pos < len(ts) && ts[pos] != ";" {
			return fail("end")
		}
	case word("DELETE", "FROM"):
		s.kind = "DELETE"
		s.table = strings.ToLower(next())
		if word("WHERE") && !conds() {
			return fail("condition")
		}
		if pos < len(ts) && ts[pos] != ";" {
			return fail("end")
		}
	default:
		return fail("statement")
	}
	return s, nil
}

func (s *sqlStmt) columns() []string {
	r := append([]string{}, s.cols...)
	for _, c := range append(append([]sqlCond{}, s.set...), s.where...) {
		r = append(r, c.col)
	}
	if s.order != "" {
		r = append(r, s.order)
	}
	return r
}

func (s *sqlStmt) cond(col string) *sqlCond {
	for k := range s.where {
		if s.where[k].col == col {
			return &s.where[k]
		}
	}
	return nil
}

// ---- arguments ----

// argPart: one argument, or the arguments given for every element of a list.
type argPart struct {
	item *Term
	each [][]*Term // what one iteration adds (one entry per path through the iteration)
	st   []*State
}

// loopLists records what every iteration of a loop adds to the lists it builds.
type loopLists struct {
	in    *Interp
	grow  map[string]*argPart // by the term of the loop-carried list
	put   map[string]*argPart // by the list: elements stored at the position of the iteration
	fixed map[string]map[int64]*Term
	shift map[string]int64
	inits map[string][]*Term
	bad   map[string]string
}

func (in *Interp) lists(isList func(types.Type) bool) *loopLists {
	l := &loopLists{in: in, grow: map[string]*argPart{}, put: map[string]*argPart{}, fixed: map[string]map[int64]*Term{}, shift: map[string]int64{}, inits: map[string][]*Term{}, bad: map[string]string{}}
	prevBack, prevStore := in.OnBackEdge, in.OnStore
	in.OnBackEdge = func(fr *Frame, st *State, header, from *ssa.BasicBlock) {
		if prevBack != nil {
			prevBack(fr, st, header, from)
		}
		idx := -1
		for k, b := range header.Preds {
			if b == from {
				idx = k
			}
		}
		for _, i := range header.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if !isList(phi.Type()) {
				continue
			}
			old, now := fr.env[phi], in.val(fr, fr.env, phi.Edges[idx])
			key := tSym("phi:"+phi.Comment+":"+in.id(phi), fr.ctx, phi.Type()).key
			g := l.grow[key]
			if g == nil {
				g = &argPart{}
				l.grow[key] = g
			}
			was, is := l.parts(st, old), l.parts(st, now)
			if old.key != key { // first iteration
				l.inits[key] = was
			}
			if len(is) < len(was) {
				l.bad[key] = "the list does not grow"
				continue
			}
			for k := range was {
				if was[k] != is[k] {
					l.bad[key] = "the list is replaced"
				}
			}
			g.each = append(g.each, is[len(was):])
			g.st = append(g.st, st.clone())
		}
	}
	in.OnStore = func(fr *Frame, st *State, i ssa.Instruction, addr, val *Term) {
		if prevStore != nil {
			prevStore(fr, st, i, addr, val)
		}
		s, ok := i.(*ssa.Store)
		if !ok {
			return
		}
		ia, ok := s.Addr.(*ssa.IndexAddr)
		if !ok || !isList(ia.X.Type()) || addr.op != "ia" {
			return
		}
		k := addr.args[0].key
		if c, ok := ia.Index.(*ssa.Const); ok {
			if l.fixed[k] == nil {
				l.fixed[k] = map[int64]*Term{}
			}
			l.fixed[k][c.Int64()] = unIface(val)
			return
		}
		g := l.put[k]
		if g == nil {
			g = &argPart{}
			l.put[k] = g
		}
		g.each = append(g.each, []*Term{addr.args[1], unIface(val)})
		g.st = append(g.st, st.clone())
	}
	return l
}

// parts: the concrete pieces of a list term.
func (l *loopLists) parts(st *State, t *Term) []*Term {
	t = unIface(t)
	switch {
	case t == tNil || t.op == "zero":
		return nil
	case t.op == "append":
		r := l.parts(st, t.args[0])
		for _, x := range t.args[1:] {
			r = append(r, unIface(x))
		}
		return r
	case t.op == "concat":
		return append(l.parts(st, t.args[0]), l.parts(st, t.args[1])...)
	case t.op == "slice" && t.args[0].op == "alloc" && (t.args[1] == tNil || t.args[1] == tInt(0)):
		if pt, ok := t.args[0].typ.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				n := at.Len()
				if t.args[2] != tNil {
					hi, ok := t.args[2].intVal()
					if !ok {
						return []*Term{t}
					}
					n = hi
				}
				var r []*Term
				for k := int64(0); k < n; k++ {
					r = append(r, unIface(l.in.load(nil, st, tIndexAddr(t.args[0], tInt(k)), at.Elem(), nil)))
				}
				return r
			}
		}
	}
	if n, ok := st.resolve(tLen(t)).intVal(); ok && n == 0 {
		return nil
	}
	return []*Term{t}
}

// args: the arguments in order, lists built by loops as one part.
func (l *loopLists) args(st *State, t *Term) ([]argPart, string) {
	var r []argPart
	for _, x := range l.parts(st, t) {
		if g := l.grow[x.key]; g != nil {
			if b := l.bad[x.key]; b != "" {
				return nil, b
			}
			for _, i := range l.inits[x.key] {
				r = append(r, argPart{item: i})
			}
			r = append(r, *g)
			continue
		}
		if x.op == "alloc" && isSliceT(x.typ) {
			f := l.fixed[x.key]
			for k := int64(0); k < int64(len(f)); k++ {
				if f[k] == nil {
					return nil, "elements are missing"
				}
				r = append(r, argPart{item: f[k]})
			}
			if g := l.put[x.key]; g != nil {
				e := argPart{st: g.st}
				for _, pv := range g.each {
					// the position has to be that of the element, after the fixed ones
					pos, val := pv[0], pv[1]
					src := l.position(val)
					if src == nil {
						return nil, "stores something that does not come from a list"
					}
					lo, hi := g.st[len(e.each)].bounds(linSub(toLin(pos), toLin(src)))
					if lo != hi || lo != int64(len(f)) {
						return nil, fmt.Sprintf("stores element %s at position %s", src, pos)
					}
					e.each = append(e.each, []*Term{val})
				}
				r = append(r, e)
			}
			continue
		}
		r = append(r, argPart{item: x})
	}
	return r, ""
}

// position of the list element a value was made from.
func (l *loopLists) position(v *Term) *Term {
	var pos *Term
	v.walk(func(t *Term) {
		if pos == nil && t.op == "ia" {
			pos = t.args[1]
		}
	})
	return pos
}

func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isAnyList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	i, ok := s.Elem().Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// ---- the check ----

type sqlUse struct {
	stmt *sqlStmt
	args []argPart
	st   *State
	pos  token.Pos
	fn   *ssa.Function
}

// sqlRun explores a method of the database; the statements it executes and the state at each return.
type sqlRun struct {
	f     *ssa.Function
	in    *Interp
	l     *loopLists
	uses  []sqlUse
	outs  []Out
	probs []string
	cols  map[string]string // term of a scanned value -> column
	dest  map[string]string // rows -> columns
	unm   map[string]*Term  // object -> what it was decoded from
	maps  []struct {
		st      *State
		m, k, v *Term
		pos     token.Pos
	}
}

func isSQLCall(n string) (what string, ok bool) {
	for _, t := range []string{"DB", "Tx", "Conn", "Stmt"} {
		for _, form := range []string{"database/sql.(" + t + ").", "database/sql.(*" + t + ")."} {
			if m, ok := strings.CutPrefix(n, form); ok {
				switch m {
				case "Query", "QueryRow", "QueryContext", "QueryRowContext", "Exec", "ExecContext", "Prepare", "PrepareContext":
					return m, true
				}
			}
		}
	}
	return "", false
}

func (p *Program) runSQL(f *ssa.Function) *sqlRun {
	in := p.interp()
	x := &sqlRun{f: f, in: in, cols: map[string]string{}, dest: map[string]string{}, unm: map[string]*Term{}}
	n := 0
	stringT := types.Typ[types.String]
	x.l = in.lists(func(t types.Type) bool { return isSliceT(t) })
	in.OnCall = func(e *CallEvent) ([]Out, bool) {
		if m, ok := isSQLCall(e.Name); ok {
			a := e.Args
			if strings.HasSuffix(m, "Context") {
				a = a[1:]
			}
			if strings.Contains(m, "Prepare") || strings.Contains(e.Name, "Stmt)") {
				x.probs = append(x.probs, p.pos(e.pos())+": undecided: prepared statement")
				return e.unknown(), true
			}
			q := a[0]
			if sv, ok := q.strVal(); ok && strings.HasPrefix(strings.ToUpper(strings.TrimSpace(sv)), "CREATE DATABASE") || q.op == "+" && strings.HasPrefix(q.args[0].String(), `"CREATE DATABASE`) {
				return e.inert(), true
			}
			if p.fromFile(q) { // a migration
				return e.inert(), true
			}
			s, err := parseSQL(q)
			if err != nil {
				x.probs = append(x.probs, p.pos(e.pos())+": "+err.Error())
				return e.inert(), true
			}
			args, prob := x.l.args(e.St, a[1])
			if prob != "" {
				x.probs = append(x.probs, p.pos(e.pos())+": undecided arguments: "+prob)
			} else {
				x.uses = append(x.uses, sqlUse{s, args, e.St.clone(), e.pos(), f})
			}
			rs := in.results(e, e.Name)
			x.dest[rs[0].key] = strings.Join(s.cols, ",")
			if len(rs) == 2 {
				bad := e.St.clone()
				errT := in.fresh(e.Frame, bad, e.Site, "err", errorType)
				bad.assumeNeq(errT, tNil)
				bad.auto["failed"] = "1"
				e.St.assumeNeq(rs[0], tNil)
				return []Out{{st: e.St, rets: []*Term{rs[0], tNil}}, {st: bad, rets: []*Term{tNil, errT}}}, true
			}
			return []Out{{st: e.St, rets: rs}}, true
		}
		switch {
		case isRows(e.Name, "Scan") || e.Name == "database/sql.(Row).Scan" || e.Name == "database/sql.(*Row).Scan":
			cs := x.dest[e.Recv.key]
			var cols []string
			if cs != "" {
				cols = strings.Split(cs, ",")
			}
			dests := x.l.parts(e.St, e.Args[0])
			if cs == "" || len(cols) != len(dests) {
				x.probs = append(x.probs, fmt.Sprintf("%s: %d destinations for the columns %q", p.pos(e.pos()), len(dests), cs))
				return e.unknown(), true
			}
			bad := e.St.clone()
			errT := in.fresh(e.Frame, bad, e.Site, "err", errorType)
			bad.assumeNeq(errT, tNil)
			bad.auto["failed"] = "1"
			for k, d := range dests {
				d = unIface(d)
				pt, ok := d.typ.Underlying().(*types.Pointer)
				if !ok {
					x.probs = append(x.probs, p.pos(e.pos())+": undecided: scans into "+d.String())
					continue
				}
				typ := pt.Elem()
				addr := d
				if s, ok := typ.Underlying().(*types.Struct); ok { // sql.NullString and the like
					addr, typ = tFieldAddr(d, s.Field(0)), s.Field(0).Type()
				}
				n++
				c := in.fresh(e.Frame, e.St, e.Site, "col:"+cols[k], typ)
				x.cols[c.key] = cols[k]
				e.St.mem[addr] = c
			}
			return []Out{{st: e.St, rets: []*Term{tNil}}, {st: bad, rets: []*Term{errT}}}, true
		case e.Name == "encoding/json.Marshal":
			return e.jsonMarshal("failed")
		case e.Name == "encoding/json.Unmarshal":
			d := unIface(e.Args[1])
			x.unm[d.key] = e.Args[0]
			e.St.auto["unm:"+d.key] = e.Args[0].key
			return e.split(tNil, "failed")[:1], true
		case e.Name == "strings.Join":
			if t := joinTerm(x.l.parts(e.St, e.Args[0]), e.Args[1]); t != nil {
				t.typ = stringT
				return []Out{{st: e.St, rets: []*Term{t}}}, true
			}
			return e.pure(), true
		case e.Name == "fmt.Sprintf":
			if t := sprintfTerm(e.Args[0], x.l.parts(e.St, e.Args[1])); t != nil {
				t.typ = stringT
				return []Out{{st: e.St, rets: []*Term{t}}}, true
			}
			return nil, false
		case e.Obj != nil && p.isOwnStatic(e):
			sig := e.Com.Signature()
			if sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), stringT) && sig.Params().Len() > 0 && sig.Recv() == nil {
				all := true
				for k := 0; k < sig.Params().Len(); k++ {
					b, ok := sig.Params().At(k).Type().Underlying().(*types.Basic)
					all = all && ok && b.Info()&types.IsInteger != 0
				}
				if all {
					t := tApp("marks", e.Args...)
					t.typ = stringT
					return []Out{{st: e.St, rets: []*Term{t}}}, true
				}
				if isSliceT(sig.Params().At(0).Type()) {
					return e.pure(), true
				}
			}
		}
		return nil, false
	}
	in.OnMapUpdate = func(fr *Frame, st *State, i *ssa.MapUpdate, m, k, v *Term) {
		x.maps = append(x.maps, struct {
			st      *State
			m, k, v *Term
			pos     token.Pos
		}{st.clone(), m, k, v, i.Pos()})
	}
	for _, o := range in.Run(f, nil, nil) {
		if !o.panic {
			x.outs = append(x.outs, o)
		}
	}
	return x
}

// fromFile: the text is the content of a file.
func (p *Program) fromFile(t *Term) bool {
	for strings.HasPrefix(t.op, "conv") && len(t.args) == 1 {
		t = t.args[0]
	}
	for _, n := range []string{"os.ReadFile", "io/ioutil.ReadFile", "io/fs.ReadFile", "(embed.FS).ReadFile", "embed.(FS).ReadFile"} {
		if strings.HasPrefix(t.String(), n) {
			return true
		}
	}
	return false
}

func (p *Program) isOwnStatic(e *CallEvent) bool {
	g := e.Com.StaticCallee()
	return g != nil && p.isOwn(g)
}

// joinTerm: constant texts joined.
func joinTerm(parts []*Term, sep *Term) *Term {
	sp, ok := sep.strVal()
	if !ok {
		return nil
	}
	var ss []string
	for _, t := range parts {
		v, ok := t.strVal()
		if !ok {
			return nil
		}
		ss = append(ss, v)
	}
	return tConstStr(strings.Join(ss, sp))
}

// sprintfTerm: the text a format makes of its arguments.
func sprintfTerm(format *Term, args []*Term) *Term {
	f, ok := format.strVal()
	if !ok {
		return nil
	}
	var parts []*Term
	k := 0
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 || i+1 >= len(f) {
			parts = append(parts, tConstStr(f))
			break
		}
		if i > 0 {
			parts = append(parts, tConstStr(f[:i]))
		}
		switch f[i+1] {
		case '%':
			parts = append(parts, tConstStr("%"))
		case 's', 'd', 'v':
			if k >= len(args) {
				return nil
			}
			parts = append(parts, unIface(args[k]))
			k++
		default:
			return nil
		}
		f = f[i+2:]
	}
	if k != len(args) {
		return nil
	}
	if len(parts) == 1 && parts[0].op == "const" {
		return parts[0]
	}
	return tApp("text", parts...)
}

func checkSQL(r *Report) {
	p := r.P
	r.rule("schema", "every table and column a statement names exists in the schema that is created when the database is opened")
	r.rule("arguments", "a statement is given exactly as many arguments as it has parameters, and its lists hold one entry per element")
	r.rule("saved", "every column is given the value it is named for")
	r.rule("loaded", "what a function returns was read from the column that holds it, from the rows asked for")
	r.rule("unique", "rows written by one statement differ in their primary key")
	r.rule("status", "presigns are stored as unused, listed only while unused, and marked as used under their ids")
	tables, files, err := p.schema()
	if err != nil {
		r.bad("schema", "migrations", token.NoPos, "%v", err)
		return
	}
	r.Counts["migrations"] = len(files)
	r.check(len(tables) >= 3, "schema", "migrations", token.NoPos, "undecided: only %d tables are created", len(tables))
	runs := map[string]*sqlRun{}
	var names []string
	dbPkg := p.typ("db.Database").Obj().Pkg()
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg != dbPkg || f.Parent() != nil || synthetic(f) {
			continue
		}
		if rv := f.Signature.Recv(); rv == nil || strings.Contains(rv.Type().String(), "Mock") || !f.Object().Exported() {
			continue
		}
		x := p.runSQL(f)
		runs[f.Name()] = x
		names = append(names, f.Name())
	}
	sort.Strings(names)
	for _, n := range names {
		x := runs[n]
		r.Counts["paths"] += x.in.Paths
		for _, pr := range dedup(x.probs) {
			r.bad("arguments", fname(x.f), x.f.Pos(), "%s", pr)
		}
		for _, u := range x.uses {
			p.checkStatement(r, x, u, tables)
		}
	}
	r.floor("schema", 10)
	r.floor("arguments", 8)
	p.checkSQLMeaning(r, runs, "")
}

func dedup(s []string) []string {
	m := map[string]bool{}
	var r []string
	for _, x := range s {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

func (p *Program) checkStatement(r *Report, x *sqlRun, u sqlUse, tables map[string]*sqlTable) {
	c := fname(x.f)
	s := u.stmt
	t := tables[s.table]
	if t == nil {
		r.bad("schema", c, u.pos, "the table %s does not exist", s.table)
		return
	}
	var missing []string
	for _, col := range s.columns() {
		if !t.has(col) {
			missing = append(missing, col)
		}
	}
	r.check(len(missing) == 0, "schema", c, u.pos, "the table %s has no column %s", s.table, strings.Join(missing, ", "))
	if s.kind == "INSERT" {
		for _, k := range t.pk {
			found := false
			for _, col := range s.cols {
				found = found || col == k
			}
			r.check(found, "schema", c, u.pos, "a row is written without its key %s", k)
		}
		r.check(len(s.tail) == 0, "schema", c, u.pos, "undecided: INSERT ... %s", strings.Join(s.tail, " "))
	}
	// parameters
	if s.kind == "INSERT" && s.rows != nil {
		if s.rows.op != "marks" || len(s.rows.args) != 2 {
			r.bad("arguments", c, u.pos, "undecided: rows %s", s.rows)
			return
		}
		rows, fields := s.rows.args[0], s.rows.args[1]
		nf, _ := u.st.resolve(fields).intVal()
		r.check(int(nf) == len(s.cols), "arguments", c, u.pos, "%d columns but %s parameters per row", len(s.cols), fields)
		items := 0
		for _, a := range u.args {
			if a.item != nil {
				items++
				continue
			}
			for _, each := range a.each {
				r.check(len(each) == len(s.cols), "arguments", c, u.pos, "an element adds %d arguments for %d columns", len(each), len(s.cols))
			}
			var list *Term
			for k, each := range a.each {
				for _, v := range each {
					v.walk(func(t *Term) {
						if t.op == "ia" && list == nil && a.st[k] != nil {
							list = t.args[0]
						}
					})
				}
			}
			r.check(list != nil && u.st.sameNum(rows, tLen(list)), "arguments", c, u.pos, "%s rows for the elements of %s", rows, list)
		}
		if len(u.args) == items && nf > 0 {
			r.check(items%int(nf) == 0 && u.st.sameNum(rows, tInt(int64(items)/nf)), "arguments", c, u.pos, "%d arguments for %s rows of %d", items, rows, nf)
		}
		return
	}
	plain := s.pars
	var list *Term
	for _, cd := range append(append([]sqlCond{}, s.set...), s.where...) {
		plain += cd.pars
		if cd.in != nil {
			if list != nil {
				r.bad("arguments", c, u.pos, "undecided: two lists")
			}
			list = cd.in
		}
	}
	if s.kind == "INSERT" {
		r.check(s.pars == len(s.cols), "arguments", c, u.pos, "%d columns but %d parameters", len(s.cols), s.pars)
	}
	if list == nil {
		r.check(len(u.args) == plain && !anyEach(u.args), "arguments", c, u.pos, "%d parameters but %d arguments", plain, len(u.args))
		return
	}
	if list.op != "marks" || len(list.args) != 2 || u.st.resolve(list.args[0]) != tInt(1) {
		r.bad("arguments", c, u.pos, "undecided: list %s", list)
		return
	}
	items := 0
	for _, a := range u.args {
		if a.item != nil {
			items++
			continue
		}
		for _, each := range a.each {
			l := (*Term)(nil)
			if len(each) == 1 {
				l = elemOf(each[0])
			}
			r.check(l != nil && u.st.sameNum(list.args[1], tLen(l)), "arguments", c, u.pos, "a list of %s parameters is given %v per element", list.args[1], each)
		}
	}
	if len(u.args) == items {
		r.check(u.st.sameNum(addConst(list.args[1], int64(plain)), tInt(int64(items))), "arguments", c, u.pos, "%d arguments for %d parameters and a list of %s", items, plain, list.args[1])
	} else {
		r.check(items == plain, "arguments", c, u.pos, "%d parameters before the list but %d arguments", plain, items)
	}
}

func anyEach(a []argPart) bool {
	for _, x := range a {
		if x.item == nil {
			return true
		}
	}
	return false
}

// column values of an INSERT: one row per fixed group or loop iteration.
func (u sqlUse) rows() []map[string]*Term {
	var r []map[string]*Term
	n := len(u.stmt.cols)
	var items []*Term
	for _, a := range u.args {
		if a.item != nil {
			items = append(items, a.item)
			continue
		}
		for _, each := range a.each {
			if len(each) == n {
				m := map[string]*Term{}
				for k, v := range each {
					m[u.stmt.cols[k]] = v
				}
				r = append(r, m)
			}
		}
	}
	for len(items) >= n && n > 0 {
		m := map[string]*Term{}
		for k := 0; k < n; k++ {
			m[u.stmt.cols[k]] = items[k]
		}
		r = append(r, m)
		items = items[n:]
	}
	return r
}

// checkSQLMeaning: what the methods of the database interface store and load. only restricts it to one rule.
func (p *Program) checkSQLMeaning(r *Report, runs map[string]*sqlRun, only string) {
	chk := func(ok bool, rule, c string, pos token.Pos, f string, a ...any) {
		if only == "" || only == rule {
			r.check(ok, rule, c, pos, f, a...)
		}
	}
	prm := func(x *sqlRun, k int) *Term { return x.in.paramTerm(x.f.Params[k]) }
	get := func(n string) *sqlRun {
		if runs[n] == nil {
			f := p.impls("db.Database", n)
			for _, g := range f {
				if !strings.Contains(g.Signature.Recv().Type().String(), "Mock") {
					runs[n] = p.runSQL(g)
				}
			}
		}
		if runs[n] == nil {
			chk(false, "status", n, token.NoPos, "undecided: the database has no method %s", n)
		}
		return runs[n]
	}
	isElem := func(t, list *Term) bool { return elemOf(t) == list && iterPos(t.args[0].args[1]) }
	madeOf := func(t, list *Term) bool { // the result of a function of the list
		return strings.HasSuffix(t.op, "#0") && len(t.args) == 1 && t.args[0] == list
	}
	marshal := func(t *Term) *Term {
		if t.op == "marshal" {
			return unIface(t.args[0])
		}
		return nil
	}
	strc := func(t *Term) string {
		if t != nil && t.op == "const" && t.con.Kind() == constant.String {
			return constant.StringVal(t.con)
		}
		return ""
	}
	// what a column has to be given, by method
	type want func(x *sqlRun, t *Term) bool
	param := func(k int) want { return func(x *sqlRun, t *Term) bool { return t == prm(x, k) } }
	saves := map[string]struct {
		table string
		cols  map[string]want
	}{
		"SaveEcKeygen":  {"keygen", map[string]want{"key_type": param(1), "work_id": param(2), "pids_string": func(x *sqlRun, t *Term) bool { return madeOf(t, prm(x, 3)) }, "keygen_output": func(x *sqlRun, t *Term) bool { return marshal(t) == prm(x, 4) }}},
		"SaveEdKeygen":  {"keygen", map[string]want{"key_type": param(1), "work_id": param(2), "pids_string": func(x *sqlRun, t *Term) bool { return madeOf(t, prm(x, 3)) }, "keygen_output": func(x *sqlRun, t *Term) bool { return marshal(t) == prm(x, 4) }}},
		"SavePreparams": {"preparams", map[string]want{"key_type": func(x *sqlRun, t *Term) bool { return strc(t) != "" }, "preparams": func(x *sqlRun, t *Term) bool { return marshal(t) == prm(x, 1) }}},
		"SavePresignData": {"presign", map[string]want{
			"presign_id":     func(x *sqlRun, t *Term) bool { return t.mentions(func(y *Term) bool { return y == prm(x, 1) }) },
			"work_id":        param(1),
			"pids_string":    func(x *sqlRun, t *Term) bool { return madeOf(t, prm(x, 2)) },
			"status":         func(x *sqlRun, t *Term) bool { return strc(t) != "" },
			"presign_output": func(x *sqlRun, t *Term) bool { m := marshal(t); return m != nil && isElem(m, prm(x, 3)) },
		}},
		"SavePeers": {"peers", map[string]want{
			"address": func(x *sqlRun, t *Term) bool {
				return readOf(t, "Address") && len(t.args[0].args) > 0 && isElem(t.args[0].args[0], prm(x, 1))
			},
			"pubkey": func(x *sqlRun, t *Term) bool {
				return readOf(t, "PubKey") && len(t.args[0].args) > 0 && isElem(t.args[0].args[0], prm(x, 1))
			},
			"pubkey_type": func(x *sqlRun, t *Term) bool {
				return readOf(t, "PubKeyType") && len(t.args[0].args) > 0 && isElem(t.args[0].args[0], prm(x, 1))
			},
		}},
	}
	unused, paramsKey := "", ""
	for _, n := range keysSorted(saves) {
		w := saves[n]
		if only != "" && n != "SavePresignData" {
			continue
		}
		x := get(n)
		if x == nil {
			continue
		}
		c := fname(x.f)
		nrows := 0
		for _, u := range x.uses {
			chk(u.stmt.kind == "INSERT" && u.stmt.table == w.table, "saved", c, u.pos, "%s on %s", u.stmt.kind, u.stmt.table)
			rows := u.rows()
			nrows += len(rows)
			for _, row := range rows {
				for col, ok := range w.cols {
					v := row[col]
					chk(v != nil && ok(x, v), "saved", c, u.pos, "the column %s of %s is given %s", col, w.table, v)
				}
				if n == "SavePresignData" && row["status"] != nil {
					unused = strc(row["status"])
				}
				if n == "SavePreparams" && row["key_type"] != nil {
					paramsKey = strc(row["key_type"])
				}
			}
			if only == "" && u.stmt.rows != nil {
				p.checkUnique(r, x, u, runs)
			}
		}
		chk(nrows > 0, "saved", c, x.f.Pos(), "undecided: no rows")
		// success only after the statement (or if there is nothing to store)
		for _, o := range x.outs {
			ei := len(o.rets) - 1
			if o.st.known(o.rets[ei], tNil) == 1 && len(x.uses) == 0 {
				chk(false, "saved", c, retPos(o), "success is reported without storing anything")
			}
		}
	}
	chk(unused != "", "status", "SavePresignData", token.NoPos, "undecided: the status presigns are stored with")
	if x := get("GetAvailablePresignShortForm"); x != nil {
		c := fname(x.f)
		for _, u := range x.uses {
			st := ""
			if w := u.stmt.cond("status"); w != nil {
				st = w.val
				if w.raw != nil {
					st = strc(w.raw)
				}
				if w.pars == 1 && len(u.args) == 1 {
					st = strc(u.args[0].item)
				}
			}
			chk(u.stmt.kind == "SELECT" && st == unused && st != "" && len(u.stmt.where) == 1 && !u.stmt.limit, "status", c, u.pos, "presigns with status %q are listed as available instead of those with %q", st, unused)
		}
		chk(len(x.uses) > 0, "status", c, x.f.Pos(), "undecided: no statement")
		want := []string{"presign_id", "pids_string"}
		for _, o := range x.outs {
			if o.st.known(o.rets[2], tNil) != 1 {
				continue
			}
			for k := 0; k < 2; k++ {
				parts, prob := x.l.args(o.st, o.rets[k])
				chk(prob == "", "loaded", c, retPos(o), "undecided: %s", prob)
				for _, a := range parts {
					all := a.each
					if a.item != nil {
						all = [][]*Term{{a.item}}
					}
					for _, each := range all {
						chk(len(each) == 1 && x.cols[each[0].key] == want[k], "loaded", c, retPos(o), "the %d. result is made from %v instead of the column %s", k+1, each, want[k])
					}
				}
			}
		}
	}
	if x := get("UpdatePresignStatus"); x != nil {
		c := fname(x.f)
		for _, u := range x.uses {
			st, id := "", u.stmt.cond("presign_id")
			if u.stmt.kind == "UPDATE" && len(u.stmt.set) == 1 && u.stmt.set[0].col == "status" {
				s := u.stmt.set[0]
				st = s.val
				if s.raw != nil {
					st = strc(s.raw)
				}
				if s.pars == 1 && len(u.args) > 0 {
					st = strc(u.args[0].item)
				}
			}
			chk(st != "" && st != unused, "status", c, u.pos, "presigns are marked %q", st)
			chk(id != nil && len(u.stmt.where) == 1 && (id.in != nil), "status", c, u.pos, "the presigns given are not those marked")
			chk(p.listArgs(u, prm(x, 1)), "status", c, u.pos, "other ids are marked than those given")
		}
		chk(len(x.uses) > 0, "status", c, x.f.Pos(), "undecided: no statement")
		for _, o := range x.outs {
			if o.st.known(o.rets[0], tNil) == 1 && len(x.uses) == 0 {
				chk(false, "status", c, retPos(o), "success without marking")
			}
		}
	}
	if only != "" {
		r.floor("status", 2)
		return
	}
	// single objects
	loads := map[string]struct{ table, col string }{
		"LoadPreparams": {"preparams", "preparams"}, "LoadEcKeygen": {"keygen", "keygen_output"}, "LoadEdKeygen": {"keygen", "keygen_output"},
	}
	for _, n := range keysSorted(loads) {
		w := loads[n]
		x := get(n)
		if x == nil {
			continue
		}
		c := fname(x.f)
		for _, u := range x.uses {
			k := u.stmt.cond("key_type")
			good := u.stmt.kind == "SELECT" && u.stmt.table == w.table && k != nil && len(u.stmt.where) == 1
			if good {
				key := k.val
				var t *Term
				if k.pars == 1 && len(u.args) == 1 {
					t = u.args[0].item
					key = strc(t)
				}
				if n == "LoadPreparams" {
					good = key == paramsKey && key != ""
				} else {
					good = t == prm(x, 1)
				}
			}
			chk(good, "loaded", c, u.pos, "the row that was asked for is not selected")
		}
		found := 0
		for _, o := range x.outs {
			if o.st.known(o.rets[1], tNil) != 1 || o.st.known(o.rets[0], tNil) == 1 {
				continue
			}
			found++
			src := o.st.auto["unm:"+unIface(o.rets[0]).key]
			chk(x.cols[src] == w.col, "loaded", c, retPos(o), "what is returned was not decoded from the column %s", w.col)
		}
		chk(found > 0, "loaded", c, x.f.Pos(), "undecided: nothing is returned")
	}
	if x := get("LoadPresign"); x != nil {
		c := fname(x.f)
		ids := prm(x, 1)
		for _, u := range x.uses {
			k := u.stmt.cond("presign_id")
			chk(u.stmt.kind == "SELECT" && u.stmt.table == "presign" && k != nil && len(u.stmt.where) == 1 && k.in != nil && p.listArgs(u, ids), "loaded", c, u.pos, "the presigns asked for are not selected")
		}
		byID := map[string]bool{}
		for _, m := range x.maps {
			src := m.st.auto["unm:"+unIface(m.v).key]
			if x.cols[src] == "presign_output" && x.cols[m.k.key] == "presign_id" {
				byID[m.m.key] = true
				chk(p.freshRow(m.v), "loaded", c, m.pos, "all rows are decoded into the same object")
			} else {
				chk(false, "loaded", c, m.pos, "%s is kept under %s", m.v, m.k)
			}
		}
		found := 0
		for _, o := range x.outs {
			if o.st.known(o.rets[1], tNil) != 1 {
				continue
			}
			parts, prob := x.l.args(o.st, o.rets[0])
			chk(prob == "", "loaded", c, retPos(o), "undecided: %s", prob)
			for _, a := range parts {
				all, sts := a.each, a.st
				if a.item != nil {
					all, sts = [][]*Term{{a.item}}, []*State{o.st}
				}
				for k, each := range all {
					found++
					good := len(each) == 1 && each[0].op == "lookup" && byID[each[0].args[0].key] && isElem(each[0].args[1], ids)
					chk(good, "loaded", c, retPos(o), "the presigns returned are not those under the ids given, in that order: %v", each)
					chk(len(each) == 1 && sts[k].known(each[0], tNil) == 0, "loaded", c, retPos(o), "presigns that were not found are returned as missing entries without an error")
				}
			}
			chk(len(parts) > 0 || o.st.sameNum(tLen(ids), tInt(0)), "loaded", c, retPos(o), "undecided: result %s", o.rets[0])
		}
		chk(found > 0, "loaded", c, x.f.Pos(), "undecided: nothing is returned")
	}
	if x := get("LoadPeers"); x != nil {
		c := fname(x.f)
		want := map[string]string{"Address": "address", "PubKey": "pubkey", "PubKeyType": "pubkey_type"}
		found := 0
		for _, o := range x.outs {
			parts, prob := x.l.args(o.st, o.rets[0])
			chk(prob == "", "loaded", c, retPos(o), "undecided: %s", prob)
			for _, a := range parts {
				all, sts := a.each, a.st
				if a.item != nil {
					all, sts = [][]*Term{{a.item}}, []*State{o.st}
				}
				for k, each := range all {
					for _, v := range each {
						chk(p.freshRow(v), "loaded", c, retPos(o), "all rows are returned as the same object")
						for f, col := range want {
							fv := x.in.fieldNamed(v.typ, f)
							found++
							var got *Term
							if fv != nil {
								got = sts[k].mem[tFieldAddr(v, fv)]
							}
							chk(got != nil && x.cols[got.key] == col, "loaded", c, retPos(o), "the field %s of a peer is %s instead of the column %s", f, got, col)
						}
					}
				}
			}
		}
		chk(found > 0, "loaded", c, x.f.Pos(), "undecided: nothing is returned")
	}
	r.floor("saved", 5)
	r.floor("loaded", 4)
	r.floor("status", 2)
}

func keysSorted[V any](m map[string]V) []string {
	k := keysOf(m)
	sort.Strings(k)
	return k
}

// iterPos: the position of the iteration (a constant, or one loop-carried number plus a constant).
func iterPos(t *Term) bool {
	l := toLin(t)
	for v, c := range l.co {
		if c != 1 && c != -1 || !v.loopVar() {
			return false
		}
	}
	return len(l.co) <= 1
}

func (t *Term) loopVar() bool { return t.op == "sym" && strings.HasPrefix(t.String(), "phi:") }

// freshRow: what is kept for a row is not an object shared by all rows.
func (p *Program) freshRow(t *Term) bool {
	t = unIface(t)
	if t.op != "alloc" || t.site == nil {
		return true
	}
	v, ok := t.site.(ssa.Value)
	if !ok || inLoop(v) {
		return true
	}
	for _, b := range t.site.Parent().Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok || c.Value() == nil || !inLoop(c.Value()) {
				continue
			}
			if isRows(calleeName(c.Common()), "Next") {
				return false
			}
			if g := c.Common().StaticCallee(); g != nil && p.isOwn(g) {
				if p.reaches(c.Common(), "Next", 0) || p.reaches(c.Common(), "Scan", 0) {
					return false
				}
			}
		}
	}
	return true
}

// listArgs: the last arguments are exactly the elements of the list.
func (p *Program) listArgs(u sqlUse, list *Term) bool {
	n := 0
	for _, a := range u.args {
		if a.item != nil {
			if elemOf(a.item) == list && iterPos(a.item.args[0].args[1]) {
				n++
			} else if n > 0 {
				return false
			}
			continue
		}
		for _, each := range a.each {
			if len(each) != 1 || elemOf(each[0]) != list || !iterPos(each[0].args[0].args[1]) {
				return false
			}
		}
		n++
	}
	return n > 0 || u.st.sameNum(tLen(list), tInt(0))
}

// checkUnique: at least one key column differs between the rows.
func (p *Program) checkUnique(r *Report, x *sqlRun, u sqlUse, runs map[string]*sqlRun) {
	tables, _, err := p.schema()
	if err != nil {
		return
	}
	t := tables[u.stmt.table]
	if t == nil {
		return
	}
	for _, a := range u.args {
		if a.item != nil {
			continue
		}
		for _, each := range a.each {
			if len(each) != len(u.stmt.cols) {
				continue
			}
			differs := false
			for k, col := range u.stmt.cols {
				isKey := false
				for _, pk := range t.pk {
					isKey = isKey || pk == col
				}
				if isKey && each[k].mentions(func(y *Term) bool {
					return y.op == "ia" || strings.HasPrefix(y.key, "$phi:") || y.op == "sym" && strings.HasPrefix(y.String(), "phi:")
				}) {
					differs = true
				}
			}
			// the first iteration has constants for the position
			if !differs && !eachMentionsLoop(each) {
				continue
			}
			if x.f.Name() == "SavePresignData" {
				for k, col := range u.stmt.cols {
					if col == "presign_id" {
						r.check(each[k].mentions((*Term).loopVar), "unique", "presign ids", u.pos, "all presigns of one work have the same id %s", each[k])
					}
				}
			}
			r.check(differs, "unique", "rows of "+t.name, u.pos, "all rows of one statement have the same primary key (%s) of the table %s: more than one row cannot be stored", strings.Join(t.pk, ", "), t.name)
		}
	}
}

func eachMentionsLoop(each []*Term) bool {
	for _, v := range each {
		if v.mentions((*Term).loopVar) {
			return true
		}
	}
	return false
}
