package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", false, checkDeterminism)
}

const sortParties = "github.com/sisu-network/tss-lib/tss.SortPartyIDs"

// unshared: a source which is not the same on every node; empty if it is.
func (p *Program) unshared(s Source) string {
	switch s.Kind {
	case "call":
		for _, pre := range []string{"time.", "math/rand", "crypto/rand", "os.", "net.", "runtime.", "github.com/google/uuid", "sync/atomic."} {
			if strings.HasPrefix(s.Name, pre) {
				return "a call to " + s.Name
			}
		}
		for _, pre := range []string{"db.", "p2p.", "client.", "store."} {
			if strings.HasPrefix(s.Name, own(pre)) {
				return "a call to " + s.Name
			}
		}
	case "recv":
		return "a value received from a channel"
	case "maprange":
		for _, v := range s.Path {
			if sortedHere(v) {
				return ""
			}
		}
		return "the order of a map"
	case "global":
		g := s.V.(*ssa.Global)
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && p.globalChanges(g) {
			return "the variable " + s.Name
		}
	case "field":
		o := p.ownerOf(s.Field)
		switch {
		case strings.HasPrefix(o, "types") || strings.HasPrefix(o, "worker/types") || o == "core.Node":
		case o == "":
		case o == "worker.PreworkSelection" || o == "worker.WorkerExecutor" || o == "worker.DefaultWorker":
			if strings.Contains(typeName(s.Field.Type()), "WorkRequest") || strings.Contains(s.Field.Type().String(), "PartyID") && !p.isType(s.Field.Type(), "github.com/sisu-network/tss-lib/tss.PartyID") {
				return ""
			}
			return "the field " + s.Name
		default:
			return "the field " + s.Name + " of this node"
		}
	}
	return ""
}

// validatorKeys: a field holding the public keys of all validators.
func validatorKeys(f *types.Var) bool {
	sl, ok := f.Type().Underlying().(*types.Slice)
	return ok && strings.HasSuffix(sl.Elem().String(), "types.PubKey")
}

func typeName(t types.Type) string { return types.TypeString(t, nil) }

// sortedHere: v is a list which is sorted by value in the same function.
func sortedHere(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if c, ok := r.(ssa.CallInstruction); ok {
			n := calleeName(c.Common())
			if strings.HasPrefix(n, "sort.Strings") || strings.HasPrefix(n, "sort.Ints") || n == sortParties {
				return true
			}
		}
	}
	return false
}

func (p *Program) globalChanges(g *ssa.Global) bool {
	for _, f := range p.Funcs {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok && s.Addr == g {
					return true
				}
			}
		}
	}
	return false
}

// shared checks that v is computed only from what every node has.
func (p *Program) sharedValue(r *Report, rule, what string, v ssa.Value, pos token.Pos) []Source {
	var seen []Source
	good := true
	sl := p.slicer(func(s Source) bool {
		seen = append(seen, s)
		if s.Kind == "call" && s.Name == sortParties {
			return false
		}
		if s.Kind == "call" && strings.HasPrefix(s.Name, "github.com/sisu-network/lib/log.") {
			return true
		}
		if s.Kind == "field" && p.ownerOf(s.Field) == "worker/types.WorkRequest" {
			return true // decided on its own
		}
		if s.Kind == "field" && validatorKeys(s.Field) {
			return true
		}
		if u := p.unshared(s); u != "" {
			good = false
			r.bad(rule, what, s.Pos, "depends on %s, which differs between nodes", u)
			return true
		}
		return false
	})
	sl.Control, sl.Callers = true, true
	sl.Run(v)
	if good {
		r.ok(rule, what, pos, "")
	}
	return seen
}

func checkDeterminism(r *Report) {
	p := r.P
	r.rule("leader", "the leader of a work is computed from the work id and the ids of all parties of the same request, and from nothing that differs between nodes (backward slice with control dependence)")
	r.rule("request", "the id, parties, threshold, counts, messages and chains of a work depend only on the client's request (backward slice from every construction of a work to the API)")
	r.rule("order", "the parties of a work, and those given to the protocol, are always the sorted ones; whoever orders by a party's index does so after the parties were sorted")
	r.rule("work-id", "the id of a signing work depends on the id of every one of its messages")

	wr := "worker/types.WorkRequest"
	fAll, fId := p.fieldVar(wr, "AllParties"), p.fieldVar(wr, "WorkId")
	stores := (&Slicer{P: p}).fieldStores()

	// leader
	lf := p.leaderField()
	if lf == nil {
		r.bad("leader", "the leader", token.NoPos, "no field holds the chosen leader")
	} else {
		for _, st := range stores[lf] {
			v := st.Val
			src := p.sharedValue(r, "leader", "the leader chosen by "+fnPath(st.Parent()), v, st.Pos())
			var byId, byParty, bases = false, false, map[ssa.Value]bool{}
			lens := map[ssa.Value]bool{}
			for _, s := range src {
				switch s.Kind {
				case "field":
					switch {
					case s.Field == fId:
						byId = true
						bases[baseOf(s.V)] = true
					case s.Field == fAll:
						bases[baseOf(s.V)] = true
					case s.Field.Name() == "Id" && strings.HasSuffix(s.Field.Pkg().Path(), "tss"):
						byParty = true
					}
				case "len":
					lens[s.V] = true
				}
			}
			r.check(byId, "leader", "work id", v.Pos(), "the leader does not depend on the work id, so one node leads every work")
			r.check(byParty, "leader", "party ids", v.Pos(), "the leader does not depend on the ids of the parties")
			r.check(len(bases) == 1, "leader", "one request", v.Pos(), "the leader is not chosen from the id and the parties of one request")
			p.requireHash(r, v, fId)
		}
	}

	// requests
	for _, n := range []string{"WorkId", "AllParties", "Threshold", "N", "BatchSize", "Messages", "Chains", "KeygenType", "WorkType"} {
		f := p.fieldVar(wr, n)
		for _, st := range stores[f] {
			what := n + " set in " + fnPath(st.Parent())
			p.sharedValue(r, "request", what, st.Val, st.Pos())
			if f == fAll {
				p.mustBeSorted(r, what, st.Val, st.Pos())
			}
		}
		if len(stores[f]) == 0 {
			r.bad("request", n, token.NoPos, "never set")
		}
	}
	r.floor("request", 10)

	// protocol
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := c.Common()
				switch n := calleeName(cm); {
				case n == "github.com/sisu-network/tss-lib/tss.NewPeerContext":
					p.mustBeSorted(r, "parties of the protocol in "+fnPath(f), cm.Args[0], c.Pos())
				case n == "sort.Slice" || n == "sort.SliceStable":
					p.orderByIndex(r, f, c)
				}
			}
		}
	}
	r.floor("order", 3)

	p.signingId(r, fId, stores[fId])
	r.floor("work-id", 1)
}

func baseOf(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return x.X
	case *ssa.Field:
		return x.X
	}
	return v
}

func fnPath(f *ssa.Function) string {
	return strings.TrimPrefix(strings.ReplaceAll(f.RelString(nil), modPath+"/", ""), modPath)
}

// requireHash: a hash mixes the work id with the id of a party.
func (p *Program) requireHash(r *Report, v ssa.Value, fId *types.Var) {
	found := false
	var hashes []ssa.Value
	sl := p.slicer(func(s Source) bool {
		if s.Kind == "field" && p.ownerOf(s.Field) == "worker/types.WorkRequest" {
			return true
		}
		if s.Kind == "call" && (strings.Contains(s.Name, "crypto/sha") || strings.Contains(strings.ToLower(s.Name), "keccak") || strings.HasPrefix(s.Name, "hash/")) {
			hashes = append(hashes, s.Args...)
			if x, ok := s.V.(*ssa.Call); ok && x.Common().IsInvoke() {
				hashes = append(hashes, x.Common().Value)
			}
		}
		return false
	})
	sl.Control, sl.Callers = true, true
	sl.Run(v)
	for _, h := range hashes {
		id, party := false, false
		s2 := p.slicer(func(s Source) bool {
			if s.Kind == "field" {
				if p.ownerOf(s.Field) == "worker/types.WorkRequest" {
					id = id || s.Field == fId
					return true
				}
				party = party || s.Field.Name() == "Id" && strings.HasSuffix(s.Field.Pkg().Path(), "tss")
			}
			return false
		})
		s2.Callers = true
		s2.Run(h)
		found = found || id && party
	}
	r.check(found, "leader", "hash of work id and party id", v.Pos(), "no hash of the work id together with a party's id decides who leads")
}

// mustBeSorted: v is the result of sorting the parties.
func (p *Program) mustBeSorted(r *Report, what string, v ssa.Value, pos token.Pos) {
	good, n := true, 0
	sl := p.slicer(func(s Source) bool {
		switch {
		case s.Kind == "call" && s.Name == sortParties:
			n++
			return true
		case s.Kind == "call" && !p.inModule(s.Name), s.Kind == "param", s.Kind == "recv", s.Kind == "free", s.Kind == "global", s.Kind == "maprange":
			good = false
			r.bad("order", what, s.Pos, "not the sorted parties: %s %s", s.Kind, s.Name)
			return true
		case s.Kind == "field":
			if s.Field == p.fieldVar("worker/types.WorkRequest", "AllParties") {
				n++
				return true
			}
		case s.Kind == "const", s.Kind == "len":
			return true
		}
		return false
	})
	sl.Fields, sl.Callers = true, true
	sl.Run(v)
	if good {
		r.check(n > 0, "order", what, pos, "the parties are never sorted")
	}
}

func (p *Program) inModule(name string) bool { return strings.HasPrefix(name, modPath) }

// orderByIndex: a list ordered by the index of parties is ordered after the parties got their indexes.
func (p *Program) orderByIndex(r *Report, f *ssa.Function, c ssa.CallInstruction) {
	less, ok := c.Common().Args[1].(*ssa.MakeClosure)
	if !ok {
		return
	}
	uses := false
	for _, b := range less.Fn.(*ssa.Function).Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				if fv := fieldOf(v); fv != nil && fv.Name() == "Index" && strings.HasSuffix(fv.Pkg().Path(), "tss-lib/tss") {
					uses = true
				}
			}
		}
	}
	if !uses {
		return
	}
	sorted := false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(ssa.CallInstruction); ok && p.mustSort(s, 0) && instrDominates(s, c) {
				sorted = true
			}
		}
	}
	r.check(sorted, "order", "ordering in "+fnPath(f), c.Pos(), "orders by the index of parties that were not sorted before: their indexes are all the same, so the order is the client's")
}

// mustSort: the call sorts parties.
func (p *Program) mustSort(c ssa.CallInstruction, depth int) bool {
	if calleeName(c.Common()) == sortParties {
		return true
	}
	if g := c.Common().StaticCallee(); g != nil && p.isOwn(g) && depth < 3 {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(ssa.CallInstruction); ok && p.mustSort(s, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func instrDominates(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// signingId: where messages of a client's signing request are read one by one, the id of the work they make up collects
// the ids of all of them.
func (p *Program) signingId(r *Report, fId *types.Var, stores []*ssa.Store) {
	msgId := p.fieldVar("types.KeysignMessage", "Id")
	n := 0
	seen := map[ssa.Value]bool{}
	for _, st := range stores {
		sl := p.slicer(func(s Source) bool {
			if s.Kind != "field" || s.Field != msgId || seen[s.V] {
				return false
			}
			seen[s.V] = true
			n++
			what := "id of a signing work in " + fnPath(s.V.Parent())
			// an accumulating value between the id and the work
			acc, single := false, false
			for _, w := range s.Path {
				switch x := w.(type) {
				case *ssa.Phi:
					if p.feeds(x, x) {
						acc = true
					}
				case *ssa.MakeSlice, *ssa.Alloc:
					acc = acc || isList(x.(ssa.Value))
				case *ssa.IndexAddr:
					if _, ok := x.Index.(*ssa.Const); ok {
						single = true
					}
				}
			}
			r.check(acc && !single && inLoop(s.V), "work-id", what, s.V.Pos(), "the id of only one message of the request is used, so requests that share it get the same work id")
			return false
		})
		sl.Callers = true
		sl.Run(st.Val)
	}
	if n == 0 {
		r.bad("work-id", "id of a signing work", token.NoPos, "the id of a signing work does not depend on the ids of its messages")
	}
}

func isList(v ssa.Value) bool {
	t := v.Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Struct: // strings.Builder, bytes.Buffer
		return true
	}
	return false
}

// feeds: a flows into b (within one function).
func (p *Program) feeds(a ssa.Value, b *ssa.Phi) bool {
	hit := false
	for _, e := range b.Edges {
		if e == a {
			continue
		}
		sl := p.slicer(nil)
		sl.seen[sliceNode{b, nil}] = false
		sl.Run(e)
		hit = hit || sl.Nodes[a]
	}
	return hit
}

func inLoop(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	b := i.Block()
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}
