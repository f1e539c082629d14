package main

import (
	"go/token"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Acceleration of counted loops (closed form instead of step by step).
//
// A loop qualifies when its body is straight-line code made of additions,
// comparisons and circuit multiplications only, with a single exit test. One
// iteration is then a linear map on the vector (integers, exponents), so two
// equal successive differences of the whole vector prove a constant step for
// ever; the number of iterations until the exit test fails follows from the
// (linear) operands of the test. The last iterations are interpreted normally.
// ---------------------------------------------------------------------------

type loopInfo struct {
	ok    bool
	iff   *ssa.If
	cmp   *ssa.BinOp // condition of the exit test
	stay  bool       // value of the condition that stays in the loop
	block map[*ssa.BasicBlock]bool
}

type snap struct {
	phis []Val
	heap map[*Obj]Val
	ev   *Ev
	nf   int
	f    *Facts
	lhs  *big.Int
	rhs  *big.Int
	id   int
}

type accel struct {
	visits int
	snaps  []snap
	dead   bool
}

var accelCalls = map[string]bool{
	"math/big.NewInt": true, "(*math/big.Int).Add": true, "(*math/big.Int).Sub": true, "(*math/big.Int).Set": true,
	"(*math/big.Int).SetInt64": true, "(*math/big.Int).SetUint64": true, "(*math/big.Int).Cmp": true,
}

func (in *Interp) loopOf(head *ssa.BasicBlock) *loopInfo {
	if li, ok := in.loops[head]; ok {
		return li
	}
	li := &loopInfo{block: map[*ssa.BasicBlock]bool{head: true}}
	in.loops[head] = li
	var work []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) {
			work = append(work, p)
		}
	}
	if len(work) != 1 {
		return li
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if li.block[b] {
			continue
		}
		li.block[b] = true
		work = append(work, b.Preds...)
	}
	inLoop := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && i.Block() != nil && li.block[i.Block()]
	}
	isCmp := func(op token.Token) bool {
		return op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ || op == token.EQL || op == token.NEQ
	}
	onlyUsedBy := func(v ssa.Value, f func(ssa.Instruction) bool) bool {
		for _, r := range *v.Referrers() {
			if _, dbg := r.(*ssa.DebugRef); !dbg && !f(r) {
				return false
			}
		}
		return true
	}
	for b := range li.block {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi:
				if b != head {
					return li
				}
			case *ssa.DebugRef, *ssa.Jump, *ssa.Alloc, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Slice, *ssa.IndexAddr, *ssa.Store:
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return li
				}
			case *ssa.TypeAssert:
				if inLoop(x.X) {
					return li
				}
			case *ssa.If:
				if li.iff != nil {
					return li
				}
				li.iff = x
			case *ssa.BinOp:
				switch {
				case x.Op == token.ADD || x.Op == token.SUB:
				case isCmp(x.Op):
					if !onlyUsedBy(x, func(r ssa.Instruction) bool { _, ok := r.(*ssa.If); return ok }) {
						return li
					}
				default:
					return li
				}
			case *ssa.Call:
				if x.Call.IsInvoke() {
					if x.Call.Method.Name() != "Mul" || !strings.HasSuffix(x.Call.Value.Type().String(), "frontend.API") {
						return li
					}
					continue
				}
				f := x.Call.StaticCallee()
				if f != nil && in.inRepo(f) && in.linearFn(f, 0) {
					continue
				}
				if f == nil || !accelCalls[f.String()] {
					return li
				}
				if f.Name() == "Cmp" && !onlyUsedBy(x, func(r ssa.Instruction) bool {
					bo, ok := r.(*ssa.BinOp)
					return ok && isCmp(bo.Op)
				}) {
					return li
				}
			default:
				return li
			}
		}
	}
	if li.iff == nil {
		return li
	}
	bo, ok := li.iff.Cond.(*ssa.BinOp)
	if !ok || !isCmp(bo.Op) || !inLoop(bo) {
		return li
	}
	s := li.iff.Block().Succs
	if li.block[s[0]] == li.block[s[1]] {
		return li
	}
	li.cmp = bo
	li.stay = li.block[s[0]]
	li.ok = true
	return li
}

// linearFn: the function is straight-line code of the same kind as the body.
func (in *Interp) linearFn(f *ssa.Function, depth int) bool {
	if depth > 3 || len(f.Blocks) != 1 || len(f.FreeVars) > 0 {
		return false
	}
	for _, i := range f.Blocks[0].Instrs {
		switch x := i.(type) {
		case *ssa.DebugRef, *ssa.Return, *ssa.Alloc, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Slice, *ssa.IndexAddr, *ssa.Store:
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.BinOp:
			if x.Op != token.ADD && x.Op != token.SUB {
				return false
			}
		case *ssa.Call:
			if x.Call.IsInvoke() {
				if x.Call.Method.Name() != "Mul" || !strings.HasSuffix(x.Call.Value.Type().String(), "frontend.API") {
					return false
				}
				continue
			}
			g := x.Call.StaticCallee()
			if g == nil || g.Name() == "Cmp" || !accelCalls[g.String()] && !(in.inRepo(g) && in.linearFn(g, depth+1)) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// staysOn: on which side of equality (-1, 0, 1) the exit test stays in the loop.
func (li *loopInfo) staysOn() (r [3]bool) {
	k := int64(0)
	if c, ok := li.cmp.X.(*ssa.Call); ok && !c.Call.IsInvoke() && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "Cmp" {
		if y, ok := li.cmp.Y.(*ssa.Const); ok && y.Value != nil {
			k = y.Int64()
		}
	}
	for i := range r {
		v := int64(i - 1)
		var t bool
		switch li.cmp.Op {
		case token.LSS:
			t = v < k
		case token.LEQ:
			t = v <= k
		case token.GTR:
			t = v > k
		case token.GEQ:
			t = v >= k
		case token.EQL:
			t = v == k
		case token.NEQ:
			t = v != k
		}
		r[i] = t == li.stay
	}
	return
}

// testOperands reads the two compared integers of the exit test.
func (in *Interp) testOperands(fr *Frame, st *State, bo *ssa.BinOp) (l, r *big.Int) {
	val := func(v ssa.Value) Val {
		if c, ok := v.(*ssa.Const); ok {
			return in.constVal(c)
		}
		if i, ok := fr.info.idx[v]; ok {
			return fr.regs[i]
		}
		return nil
	}
	asInt := func(v Val) *big.Int {
		switch x := v.(type) {
		case *Node:
			if x.isInt() {
				return x.K
			}
		case *Ptr:
			if x.O != nil {
				if n, ok := in.load(st, x).(*Node); ok && n.isInt() {
					return n.K
				}
			}
		}
		return nil
	}
	if c, ok := bo.X.(*ssa.Call); ok && !c.Call.IsInvoke() && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "Cmp" {
		k, isC := bo.Y.(*ssa.Const)
		if !isC || k.Value == nil || asInt(in.constVal(k)) == nil || !asInt(in.constVal(k)).IsInt64() {
			return nil, nil
		}
		return asInt(val(c.Call.Args[0])), asInt(val(c.Call.Args[1]))
	}
	return asInt(val(bo.X)), asInt(val(bo.Y))
}

// stepOf: the change from a to b as (kind, delta); ok=false if not accelerable.
func (in *Interp) stepOf(a, b Val, minID int) (*big.Int, bool) {
	if sameVal(a, b) {
		return big0, true
	}
	na, fa := in.loopNum(a, minID)
	nb, fb := in.loopNum(b, minID)
	if na == nil || nb == nil || fa != fb {
		return nil, false
	}
	if na.H == nb.H {
		return big0, true
	}
	if na.isInt() && nb.isInt() && !fa {
		return new(big.Int).Sub(nb.K, na.K), true
	}
	if na.Op == "fpow" && nb.Op == "fpow" && na.Args[0].H == nb.Args[0].H {
		return new(big.Int).Sub(nb.K, na.K), true
	}
	return nil, false
}

// loopNum: the number of a plain integer, or of a circuit variable made in the loop.
func (in *Interp) loopNum(v Val, minID int) (*Node, bool) {
	switch x := v.(type) {
	case *Node:
		return x, false
	case *Iface:
		p, ok := x.V.(*Ptr)
		if !ok || p.O == nil || len(p.Path) > 0 || p.O.ID < minID || p.O.Wr {
			return nil, false
		}
		n, _ := p.O.Init.(*Node)
		return n, true
	}
	return nil, false
}

func (in *Interp) advance(v Val, d *big.Int, m *big.Int, minID int) Val {
	if d.Sign() == 0 {
		return v
	}
	n, isVar := in.loopNum(v, minID)
	k := new(big.Int).Add(n.K, new(big.Int).Mul(d, m))
	var nn *Node
	if n.isInt() {
		nn = IntB(k)
	} else {
		nn = fpow(n.Args[0], k)
	}
	if isVar {
		return &Iface{T: v.(*Iface).T, V: in.bigPtr(nn)}
	}
	return nn
}

// tryAccel is called on every arrival at a loop head through its back edge,
// before the phi registers are set; it may rewrite phi values and the heap.
var accDbg = func(fr *Frame, s string) { debugf("accel %s: %s\n", fr.info.fn, s) }

func (in *Interp) tryAccel(fr *Frame, st *State, head *ssa.BasicBlock, phis []Val) {
	if fr.acc == nil {
		fr.acc = map[*ssa.BasicBlock]*accel{}
	}
	a := fr.acc[head]
	if a == nil {
		a = &accel{}
		fr.acc[head] = a
	}
	a.visits++
	if a.dead || a.visits < 200 {
		return
	}
	li := in.loopOf(head)
	if !li.ok {
		a.dead = true
		accDbg(fr, "bail 1")
		return
	}
	s := snap{phis: append([]Val(nil), phis...), heap: map[*Obj]Val{}, ev: st.ev, f: st.facts, nf: len(st.facts.list), id: in.nextID}
	for o, v := range st.heap.m {
		s.heap[o] = v
	}
	s.lhs, s.rhs = in.testOperands(fr, st, li.cmp)
	if s.lhs == nil || s.rhs == nil {
		a.dead = true
		accDbg(fr, "bail 2")
		return
	}
	a.snaps = append(a.snaps, s)
	if len(a.snaps) < 3 {
		accDbg(fr, "bail 3")
		return
	}
	a.dead = true
	s0, s1, s2 := a.snaps[0], a.snaps[1], a.snaps[2]
	if s0.ev != s2.ev || s0.f != s2.f || s0.nf != s2.nf {
		accDbg(fr, "bail 4")
		return
	}
	minID := s0.id + 1
	same := func(x, y *big.Int) bool { return x.Cmp(y) == 0 }
	var dp []*big.Int
	for i := range phis {
		// values of the first snapshot may come from before the loop: compare the later ones
		d0, ok0 := in.stepOf(s0.phis[i], s1.phis[i], 0)
		d1, ok1 := in.stepOf(s1.phis[i], s2.phis[i], 0)
		if !ok0 || !ok1 || !same(d0, d1) {
			accDbg(fr, "bail 5")
			return
		}
		dp = append(dp, d1)
	}
	dh := map[*Obj]*big.Int{}
	for o, v0 := range s0.heap {
		v1, ok1 := s1.heap[o]
		v2, ok2 := s2.heap[o]
		if !ok1 || !ok2 {
			accDbg(fr, "bail 6")
			return
		}
		if sameVal(v0, v1) && sameVal(v1, v2) {
			continue
		}
		n0, okn := v0.(*Node)
		if !okn || !n0.isInt() {
			accDbg(fr, "bail 7")
			return
		}
		d0, ok0 := in.stepOf(v0, v1, minID)
		d1, okd := in.stepOf(v1, v2, minID)
		if !ok0 || !okd || !same(d0, d1) {
			accDbg(fr, "bail 8")
			return
		}
		dh[o] = d1
	}
	for o := range s2.heap { // an older object first written during the loop
		if _, ok := s0.heap[o]; !ok && o.ID < minID {
			accDbg(fr, "bail 9")
			return
		}
	}
	dl := new(big.Int).Sub(s2.lhs, s1.lhs)
	dr := new(big.Int).Sub(s2.rhs, s1.rhs)
	if !same(dl, new(big.Int).Sub(s1.lhs, s0.lhs)) || !same(dr, new(big.Int).Sub(s1.rhs, s0.rhs)) {
		accDbg(fr, "bail 10")
		return
	}
	// distance t(k) = lhs-rhs + k*d moves towards the side where the test leaves the loop
	t := new(big.Int).Sub(s2.lhs, s2.rhs)
	d := new(big.Int).Sub(dl, dr)
	on := li.staysOn()
	switch {
	case on[0] && t.Sign() < 0:
	case on[2] && t.Sign() > 0:
		t.Neg(t)
		d.Neg(d)
	default:
		accDbg(fr, "bail 14")
		return
	}
	if t.Sign() >= 0 || d.Sign() <= 0 {
		accDbg(fr, "bail 11")
		return
	}
	m := new(big.Int).Quo(new(big.Int).Neg(t), d)
	m.Sub(m, big.NewInt(64))
	if m.Sign() <= 0 || m.BitLen() > 40 {
		accDbg(fr, "bail 12")
		return
	}
	// machine integers must not wrap
	for i := range phis {
		if n, ok := phis[i].(*Node); ok && n.isInt() {
			if new(big.Int).Add(n.K, new(big.Int).Mul(dp[i], m)).BitLen() > 30 {
				accDbg(fr, "bail 13")
				return
			}
		}
	}
	for i := range phis {
		phis[i] = in.advance(phis[i], dp[i], m, 0)
	}
	for o, dd := range dh {
		st.heap.m[o] = in.advance(st.heap.m[o], dd, m, minID)
	}
	in.accelerated++
	debugf("accelerated loop in %s by %s\n", fr.info.fn, m)
}
