package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Abstract values and memory
// ---------------------------------------------------------------------------

// Val is one of: *Node (scalar), *Ptr, *Slice, *SymBytes, *Iface, *FuncVal,
// *Agg (struct, array or tuple), *GammaV (gated join of non-scalars), *MapV,
// *Special (modelled library object).
type Val interface{}

type Obj struct {
	ID     int
	Type   types.Type
	Init   Val
	Name   string
	Wr     bool   // some state stored to it
	Shared string // non-empty: reachable from package state or from a caller's operand ("global X", "input i", ...)
}

type Ptr struct {
	O    *Obj // nil: nil pointer
	Path []int
}
type Slice struct {
	O             *Obj // nil: nil slice
	Path          []int
	Off, Len, Cap int
}
type SymBytes struct{ N *Node } // byte slice whose length is not known statically

type Iface struct {
	T   types.Type // nil: nil interface
	V   Val
	Nat bool // made from a value of this type by the code, whatever the builder
}
type FuncVal struct {
	Fn   *ssa.Function
	Bind []Val
	Recv Val    // bound receiver for modelled method values
	Ext  string // external or bound interface method
}
type Agg struct{ E []Val }
type GammaV struct {
	C    *Node
	A, B Val
}
type MapV struct {
	Keys []Val
	Vals []Val
	Pres []*Node // when the entry is there; at most one entry of a key is
}

func (m *MapV) clone() *MapV {
	return &MapV{Keys: append([]Val(nil), m.Keys...), Vals: append([]Val(nil), m.Vals...), Pres: append([]*Node(nil), m.Pres...)}
}

// joinMaps joins two maps entry by entry: the entries they have in common
// first, then those of each side under its condition.
func joinMaps(c *Node, a, b *MapV) *MapV {
	m := &MapV{}
	n := 0
	for n < len(a.Keys) && n < len(b.Keys) && sameVal(a.Keys[n], b.Keys[n]) {
		m.Keys = append(m.Keys, a.Keys[n])
		m.Vals = append(m.Vals, joinVal(c, a.Vals[n], b.Vals[n]))
		m.Pres = append(m.Pres, Gamma(c, a.Pres[n], b.Pres[n]))
		n++
	}
	for i := n; i < len(a.Keys); i++ {
		m.Keys = append(m.Keys, a.Keys[i])
		m.Vals = append(m.Vals, a.Vals[i])
		m.Pres = append(m.Pres, And(c, a.Pres[i]))
	}
	for i := n; i < len(b.Keys); i++ {
		m.Keys = append(m.Keys, b.Keys[i])
		m.Vals = append(m.Vals, b.Vals[i])
		m.Pres = append(m.Pres, And(Not(c), b.Pres[i]))
	}
	return m
}

// Special is the content of a modelled library object.
type Special struct {
	Kind string
	N    *Node
	L    []Val
}

var nilPtr = &Ptr{}
var nilSlice = &Slice{}
var nilIface = &Iface{}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func extend(p []int, i int) []int {
	q := make([]int, len(p)+1)
	copy(q, p)
	q[len(p)] = i
	return q
}

func getPath(v Val, path []int) Val {
	for _, i := range path {
		switch x := v.(type) {
		case *Agg:
			if i < 0 || i >= len(x.E) {
				return Opaque("outofrange")
			}
			v = x.E[i]
		case *Node:
			v = OpaqueS("fld", fmt.Sprint(i), x)
		case *GammaV:
			v = joinVal(x.C, getPath(x.A, []int{i}), getPath(x.B, []int{i}))
		default:
			return OpaqueS("fld?", fmt.Sprint(i))
		}
	}
	return v
}

func setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *Agg:
		n := &Agg{E: make([]Val, len(x.E))}
		copy(n.E, x.E)
		if path[0] >= 0 && path[0] < len(n.E) {
			n.E[path[0]] = setPath(n.E[path[0]], path[1:], nv)
		}
		return n
	case *Node:
		nn, ok := nv.(*Node)
		if !ok {
			nn = Opaque("val")
		}
		return OpaqueS("upd", fmt.Sprint(path), x, nn)
	case *GammaV:
		return joinVal(x.C, setPath(x.A, path, nv), setPath(x.B, path, nv))
	}
	return v
}

// layered maps ---------------------------------------------------------------

type Heap struct {
	parent *Heap
	depth  int
	m      map[*Obj]Val
}

func (h *Heap) get(o *Obj) Val {
	if !o.Wr {
		return o.Init
	}
	for x := h; x != nil; x = x.parent {
		if v, ok := x.m[o]; ok {
			return v
		}
	}
	return o.Init
}

type Facts struct {
	parent *Facts
	depth  int
	m      map[Hash]bool
	list   []factEnt
	cv     map[*Node]condAns // gates looked at under these facts
}
type condAns struct {
	r int8 // 0 unknown, 1 true, 2 false
	n int  // number of facts then
}
type factEnt struct {
	N *Node
	V bool
}

func (f *Facts) get(h Hash) (bool, bool) {
	for x := f; x != nil; x = x.parent {
		if v, ok := x.m[h]; ok {
			return v, true
		}
	}
	return false, false
}

// condFacts: facts that become available once a guard is decided.
type condFact struct {
	C    *Node
	T, F []factEnt
	prev *condFact
}

// Ev is the persistent event list of one abstract run.
type Ev struct {
	prev *Ev
	n    int
	E    *Event
}

type Event struct {
	Kind  string // "eq", "le", "bytesEq", "ecEq", "pairing", ... see models
	Nodes []*Node
	Vals  []Val
	S     string
	Site  Site
	// guarded group
	C        *Node
	TEv, FEv *Ev
	Base     *Ev
}

type Site struct {
	Fn    *ssa.Function
	Instr ssa.Instruction
	Stack string
}

type State struct {
	heap  *Heap
	facts *Facts
	ev    *Ev
	cf    *condFact
}

func newState() *State {
	return &State{heap: &Heap{m: map[*Obj]Val{}}, facts: &Facts{m: map[Hash]bool{}}}
}

// fork freezes the current layers and returns a child that shares them.
func (s *State) fork() *State {
	return &State{
		heap:  &Heap{parent: s.heap, depth: s.heap.depth + 1, m: map[*Obj]Val{}},
		facts: &Facts{parent: s.facts, depth: s.facts.depth + 1, m: map[Hash]bool{}},
		ev:    s.ev,
		cf:    s.cf,
	}
}

// absorb merges the layers of child (a lone surviving descendant) into s.
func (s *State) absorb(child *State) {
	var hs []*Heap
	for h := child.heap; h != s.heap; h = h.parent {
		hs = append(hs, h)
	}
	for i := len(hs) - 1; i >= 0; i-- {
		for o, v := range hs[i].m {
			s.heap.m[o] = v
		}
	}
	var fs []*Facts
	for f := child.facts; f != s.facts; f = f.parent {
		fs = append(fs, f)
	}
	for i := len(fs) - 1; i >= 0; i-- {
		for _, e := range fs[i].list {
			if _, ok := s.facts.m[e.N.H]; !ok {
				s.facts.m[e.N.H] = e.V
				s.facts.list = append(s.facts.list, e)
			}
		}
	}
	s.ev = child.ev
	s.cf = child.cf
}

func commonHeap(a, b *Heap) *Heap {
	for a != b {
		if a.depth > b.depth {
			a = a.parent
		} else if b.depth > a.depth {
			b = b.parent
		} else {
			a, b = a.parent, b.parent
		}
	}
	return a
}
func commonFacts(a, b *Facts) *Facts {
	for a != b {
		if a.depth > b.depth {
			a = a.parent
		} else if b.depth > a.depth {
			b = b.parent
		} else {
			a, b = a.parent, b.parent
		}
	}
	return a
}

func heapDiff(h, base *Heap) map[*Obj]Val {
	d := map[*Obj]Val{}
	for ; h != base; h = h.parent {
		for o, v := range h.m {
			if _, ok := d[o]; !ok {
				d[o] = v
			}
		}
	}
	return d
}
func factDiff(f, base *Facts) []factEnt {
	var d []factEnt
	for ; f != base; f = f.parent {
		d = append(d, f.list...)
	}
	return d
}

func commonEv(a, b *Ev) *Ev {
	n := func(e *Ev) int {
		if e == nil {
			return 0
		}
		return e.n
	}
	for a != b {
		if n(a) > n(b) {
			a = a.prev
		} else if n(b) > n(a) {
			b = b.prev
		} else {
			a, b = a.prev, b.prev
		}
	}
	return a
}

func (s *State) event(e *Event) {
	n := 0
	if s.ev != nil {
		n = s.ev.n
	}
	s.ev = &Ev{prev: s.ev, n: n + 1, E: e}
}

// joinStates is the gated join of two states descending from a common ancestor.
func joinStates(c *Node, a, b *State) *State {
	hb := commonHeap(a.heap, b.heap)
	fb := commonFacts(a.facts, b.facts)
	eb := commonEv(a.ev, b.ev)
	ns := &State{
		heap:  &Heap{parent: hb, depth: hb.depth + 1, m: map[*Obj]Val{}},
		facts: &Facts{parent: fb, depth: fb.depth + 1, m: map[Hash]bool{}},
	}
	da, db := heapDiff(a.heap, hb), heapDiff(b.heap, hb)
	objs := make([]*Obj, 0, len(da)+len(db))
	for o := range da {
		objs = append(objs, o)
	}
	for o := range db {
		if _, ok := da[o]; !ok {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
	for _, o := range objs {
		va, oka := da[o]
		vb, okb := db[o]
		if !oka {
			va = hb.get(o)
		}
		if !okb {
			vb = hb.get(o)
		}
		ns.heap.m[o] = joinVal(c, va, vb)
	}
	ta, tb := factDiff(a.facts, fb), factDiff(b.facts, fb)
	inB := map[Hash]bool{}
	for _, e := range tb {
		inB[e.N.H] = e.V
	}
	for _, e := range ta {
		if v, ok := inB[e.N.H]; ok && v == e.V {
			ns.facts.m[e.N.H] = e.V
			ns.facts.list = append(ns.facts.list, e)
		}
	}
	// conditional facts: keep what each side learned, and what each side knew conditionally
	ns.cf = a.cf
	if b.cf != a.cf {
		// append b's entries on top of a's (duplicates are harmless)
		var ent []*condFact
		seen := map[*condFact]bool{}
		for x := a.cf; x != nil; x = x.prev {
			seen[x] = true
		}
		for x := b.cf; x != nil && !seen[x]; x = x.prev {
			ent = append(ent, x)
		}
		for i := len(ent) - 1; i >= 0; i-- {
			ns.cf = &condFact{C: ent[i].C, T: ent[i].T, F: ent[i].F, prev: ns.cf}
		}
	}
	if len(ta)+len(tb) > 0 && c.Op != "bool" {
		ns.cf = &condFact{C: c, T: ta, F: tb, prev: ns.cf}
	}
	if a.ev == b.ev {
		ns.ev = a.ev
	} else {
		ns.ev = eb
		ns.event(&Event{Kind: "guarded", C: c, TEv: a.ev, FEv: b.ev, Base: eb})
	}
	return ns
}

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Node:
		y, ok := b.(*Node)
		return ok && x.H == y.H
	case *Ptr:
		y, ok := b.(*Ptr)
		return ok && x.O == y.O && samePath(x.Path, y.Path)
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x.O == y.O && samePath(x.Path, y.Path) && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap
	case *SymBytes:
		y, ok := b.(*SymBytes)
		return ok && x.N.H == y.N.H
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return false
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		return x.Nat == y.Nat && types.Identical(x.T, y.T) && sameVal(x.V, y.V)
	case *FuncVal:
		y, ok := b.(*FuncVal)
		if !ok || x.Fn != y.Fn || x.Ext != y.Ext || len(x.Bind) != len(y.Bind) {
			return false
		}
		if (x.Recv == nil) != (y.Recv == nil) || x.Recv != nil && !sameVal(x.Recv, y.Recv) {
			return false
		}
		for i := range x.Bind {
			if !sameVal(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameVal(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case *GammaV:
		y, ok := b.(*GammaV)
		return ok && x.C.H == y.C.H && sameVal(x.A, y.A) && sameVal(x.B, y.B)
	case *Special:
		y, ok := b.(*Special)
		if !ok || x.Kind != y.Kind || (x.N == nil) != (y.N == nil) || x.N != nil && x.N.H != y.N.H || len(x.L) != len(y.L) {
			return false
		}
		for i := range x.L {
			if !sameVal(x.L[i], y.L[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func joinVal(c *Node, a, b Val) Val {
	if c.H == True.H {
		return a
	}
	if c.H == False.H {
		return b
	}
	if sameVal(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Node:
		if y, ok := b.(*Node); ok {
			return Gamma(c, x, y)
		}
	case *Agg:
		if y, ok := b.(*Agg); ok && len(x.E) == len(y.E) {
			n := &Agg{E: make([]Val, len(x.E))}
			for i := range x.E {
				n.E[i] = joinVal(c, x.E[i], y.E[i])
			}
			return n
		}
	case *MapV:
		if y, ok := b.(*MapV); ok {
			return joinMaps(c, x, y)
		}
	case *Special:
		if y, ok := b.(*Special); ok && x.Kind == y.Kind && x.N != nil && y.N != nil && len(x.L) == 0 && len(y.L) == 0 {
			return &Special{Kind: x.Kind, N: Gamma(c, x.N, y.N)}
		}
		if y, ok := b.(*Special); ok && x.Kind == "buf" && y.Kind == "buf" && x.N == nil && y.N == nil && len(x.L) == len(y.L) {
			n := &Special{Kind: "buf", L: make([]Val, len(x.L))}
			for i := range x.L {
				n.L[i] = joinVal(c, x.L[i], y.L[i])
			}
			return n
		}
	}
	if g, ok := a.(*GammaV); ok && g.C.H == c.H {
		a = g.A
	}
	if g, ok := b.(*GammaV); ok && g.C.H == c.H {
		b = g.B
	}
	return &GammaV{C: c, A: a, B: b}
}

// printing -------------------------------------------------------------------

func valStr(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *Node:
		return x.String()
	case *Ptr:
		if x.O == nil {
			return "nilptr"
		}
		return fmt.Sprintf("&%s#%d%v", x.O.Name, x.O.ID, x.Path)
	case *Slice:
		if x.O == nil {
			return "nilslice"
		}
		return fmt.Sprintf("slice(%s#%d%v[%d:+%d])", x.O.Name, x.O.ID, x.Path, x.Off, x.Len)
	case *SymBytes:
		return "bytes(" + x.N.String() + ")"
	case *Iface:
		if x.T == nil {
			return "nil-iface"
		}
		return fmt.Sprintf("iface(%s,%s)", x.T, valStr(x.V))
	case *FuncVal:
		if x.Fn != nil {
			return "func " + x.Fn.String()
		}
		return "func " + x.Ext
	case *Agg:
		var s []string
		for i, e := range x.E {
			if i > 4 {
				s = append(s, "...")
				break
			}
			s = append(s, valStr(e))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case *GammaV:
		return fmt.Sprintf("gamma(%s, %s, %s)", x.C, valStr(x.A), valStr(x.B))
	case *Special:
		return "special<" + x.Kind + ">"
	}
	return fmt.Sprintf("%T", v)
}
