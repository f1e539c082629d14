package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C11, C12, C13, C22, C23, C24: all circuits, all hints, the driver.
// ---------------------------------------------------------------------------

func init() {
	checks["C11"] = checkFn{"no constraint event and no native validity check of an accepting run is guarded by an undecided condition on input values, and no constraint operand is selected by one", checkC11}
	checks["C12"] = checkFn{"for every hint request: the function is registered, has an accepting run with the requested arity, every output slot ends up holding a determined number that aliases neither an input, a package variable nor another slot, no shared store is executed and no nondeterministic source is read", checkC12}
	checks["C13"] = checkFn{"value of every output of the requested hints equals the group operation, reduction or hash of the inputs; acceptance facts are exactly the validity of the input points", checkC13}
	checks["C22"] = checkFn{"every normally ending run of main executes plonk.Verify on (Prove(ccs, pk, w), vk, public(w)) with pk and vk from one Setup of the compiled aggregation circuit, all failures decided false", checkC22}
	checks["C23"] = checkFn{"effect analysis: no store of a circuit definition, gadget, hint or the driver reaches an object of the package state; no such store in any function that is not only run by initialisation", checkC23}
	checks["C24"] = checkFn{"taint: no value derived from circuit inputs is type-inspected, converted to a native number or decides a branch inside a circuit definition", checkC24}
}

// validity checks on concrete values that a definition may consist of
func validityCheck(g *Event) bool {
	return g.Kind == "fallible" && (strings.Contains(g.S, "IsOnCurve") || strings.Contains(g.S, "IsInSubGroup") || strings.Contains(g.S, "Unmarshal"))
}

func inputLeaf(n *Node) bool {
	return n.Op == "leaf" && (strings.HasPrefix(n.S, "in:") || strings.HasPrefix(n.S, "par:") || strings.HasPrefix(n.S, "hint:"))
}

// valueCond: the condition depends on the value of an input (and not only on
// the outcome of a library step).
func valueCond(n *Node) bool {
	memo := map[Hash]bool{}
	var f func(n *Node) bool
	f = func(n *Node) bool {
		if v, ok := memo[n.H]; ok {
			return v
		}
		memo[n.H] = false
		r := false
		switch {
		case n.Op == "leaf":
			r = inputLeaf(n)
		case n.Op == "fails":
		default:
			for _, a := range n.Args {
				if f(a) {
					r = true
					break
				}
			}
		}
		memo[n.H] = r
		return r
	}
	return f(n)
}

func guardKey(gs []factEnt, flip int) string {
	var s []string
	for i, g := range gs {
		s = append(s, fmt.Sprint(g.N.H, g.V != (i == flip)))
	}
	sort.Strings(s)
	return strings.Join(s, "&")
}

func evKey(e *Event) string {
	s := e.Kind + "|" + e.S
	for _, n := range e.Nodes {
		s += fmt.Sprint("|", n.H)
	}
	return s
}

// selected looks for a value chosen by an undecided condition on input values.
func (in *Interp) selected(st *State, n *Node, memo map[Hash]*Node) *Node {
	if r, ok := memo[n.H]; ok {
		return r
	}
	memo[n.H] = nil
	if n.Op == "gamma" {
		if v, ok := in.condVal(st, n.Args[0]); ok {
			a := n.Args[2]
			if v {
				a = n.Args[1]
			}
			memo[n.H] = in.selected(st, a, memo)
			return memo[n.H]
		}
		if valueCond(n.Args[0]) {
			memo[n.H] = n.Args[0]
			return n.Args[0]
		}
	}
	for _, a := range n.Args {
		if r := in.selected(st, a, memo); r != nil {
			memo[n.H] = r
			return r
		}
	}
	return nil
}

// gadgetsAndCircuits are the definitions and the stand-alone gadget functions.
func (c *Ctx) gadgetsAndCircuits() []*entry {
	es := c.allEntries()
	called := map[*ssa.Function]bool{}
	for _, e := range es {
		for f := range e.In.CalledFn {
			called[f] = true
		}
	}
	return append(es, c.gadgetEntries(called)...)
}

func checkC11(c *Ctx) {
	n := 0
	for _, e := range c.gadgetsAndCircuits() {
		if e.Kind == "hint" || e.Acc.Never {
			continue
		}
		have := map[string]int{}
		for _, g := range e.Acc.All {
			if constraintKind[g.Kind] || validityCheck(g.Event) {
				have[evKey(g.Event)+"@"+guardKey(g.Guard, -1)]++
			}
		}
		memos := map[*State]map[Hash]*Node{}
		for _, g := range e.Acc.All {
			if !constraintKind[g.Kind] && !validityCheck(g.Event) {
				continue
			}
			n++
			ok := true
			for i, f := range g.Guard {
				if valueCond(f.N) && have[evKey(g.Event)+"@"+guardKey(g.Guard, i)] == 0 {
					ok = false
					c.ob(false, e.Name+": conditional "+g.Kind, e.In.where(g.Site), "%s: the %s constraint is enforced only when %s", e.Name, g.Kind, g.guardStr())
					break
				}
			}
			if ok {
				c.ob(true, "", "", "")
			}
			if !constraintKind[g.Kind] {
				continue
			}
			m := memos[g.St]
			if m == nil {
				m = map[Hash]*Node{}
				memos[g.St] = m
			}
			for _, nd := range g.Nodes {
				if s := e.In.selected(g.St, nd, m); s != nil {
					c.ob(false, e.Name+": selected "+g.Kind, e.In.where(g.Site), "%s: an operand of the %s constraint is selected natively by %s", e.Name, g.Kind, s)
					break
				}
			}
		}
	}
	c.count("constraint events of accepting runs examined", n)
}

// hintReqs collects the distinct hint requests of all circuits and gadgets.
type hintReq struct {
	e *entry
	u *HintUse
}

func (c *Ctx) hintReqs() []hintReq {
	var r []hintReq
	seen := map[string]bool{}
	for _, e := range c.gadgetsAndCircuits() {
		if e.Kind == "hint" {
			continue
		}
		for _, u := range e.In.Hints {
			k := u.Name
			if u.Fn != nil {
				k = u.Fn.String()
			}
			k = fmt.Sprint(k, "|", len(u.In), "|", len(u.Out), "|", u.Fn != nil && e.In.Registered[u.Fn])
			if !seen[k] {
				seen[k] = true
				r = append(r, hintReq{e, u})
			}
		}
	}
	return r
}

func checkC12(c *Ctx) {
	rs := c.hintReqs()
	c.ob(len(rs) > 0, "no hints", "package main", "no hint request found")
	for _, q := range rs {
		u, where := q.u, q.e.In.where(q.u.Site)
		if !c.ob(u.Fn != nil, "unknown hint in "+q.e.Name, where, "%s requests a hint that is not a known function", q.e.Name) {
			continue
		}
		c.ob(q.e.In.Registered[u.Fn], "unregistered "+fnShort(u.Fn), where, "hint %s is requested but never registered with the solver", fnShort(u.Fn))
		e, ins, outs := c.runHintEntry(u.Fn, len(u.In), len(u.Out))
		if e == nil {
			continue
		}
		name := fnShort(u.Fn)
		fw := c.P.Prog.Fset.Position(u.Fn.Pos()).String()
		if !c.ob(outs != nil && !e.Acc.Never, name+" never succeeds", where, "%s cannot serve a request of %d inputs and %d outputs: %s", name, len(u.In), len(u.Out), e.Run.Why) {
			continue
		}
		_ = ins
		slot := map[*Obj]int{}
		for i, o := range outs {
			stale := dependsOn(o, func(x *Node) bool {
				return x.Op == "leaf" && strings.HasPrefix(x.S, "stale output") || x.Op == "badout"
			}, map[Hash]bool{})
			c.ob(!stale, name+" output unset", fw, "%s succeeds with %d inputs without having set output %d of %d", name, len(u.In), i, len(u.Out))
			p := e.Run.Outs[i]
			if p == nil {
				continue
			}
			for _, q := range p {
				if q.O.Shared != "" {
					c.ob(false, name+" output aliases "+shareClass(q.O.Shared), fw, "output %d of %s aliases %s", i, name, q.O.Shared)
					continue
				}
				if j, dup := slot[q.O]; dup && j != i {
					c.ob(false, name+" outputs alias", fw, "outputs %d and %d of %s are the same number", j, i, name)
				}
				slot[q.O] = i
			}
			// outputs are functions of the inputs alone
			bad := ""
			dependsOn(o, func(x *Node) bool {
				if x.Op == "leaf" && !strings.HasPrefix(x.S, "in:arg") && !strings.HasPrefix(x.S, "stale output") {
					bad = x.S
					return true
				}
				return false
			}, map[Hash]bool{})
			c.ob(bad == "", name+" depends on more than its inputs", fw, "output %d of %s depends on %s", i, name, bad)
		}
		for _, g := range e.Acc.All {
			switch g.Kind {
			case "mutate":
				c.ob(false, name+" modifies "+shareClass(g.S), e.In.where(g.Site), "%s modifies %s", name, g.S)
			case "nondet", "maprange", "concurrency":
				c.ob(false, name+" "+g.Kind, e.In.where(g.Site), "%s reads a nondeterministic source (%s %s)", name, g.Kind, g.S)
			}
		}
		c.count("hint outputs examined", len(outs))
		c.sample("%s %d -> %d requested by %s", name, len(u.In), len(u.Out), q.e.Name)
	}
}

func shareClass(s string) string {
	return strings.TrimRight(s, "0123456789 ")
}

// pointFacts assumes the given points are valid curve points.
func (in *Interp) pointFacts(st *State, ps ...[2]*Node) {
	for _, p := range ps {
		in.assume(st, Opaque("g1valid", p[0], p[1]), true)
		in.assume(st, Opaque("oncurve", p[0], p[1]), true)
	}
	in.saturate(st)
}

func checkC13(c *Ctx) {
	done := map[string]bool{}
	roles := map[string]int{}
	type req struct {
		f         *ssa.Function
		nin, nout int
	}
	var rs []req
	for _, q := range c.hintReqs() {
		if q.u.Fn != nil {
			rs = append(rs, req{q.u.Fn, len(q.u.In), len(q.u.Out)})
			// the instance hash for other numbers of instances
			if len(q.u.Out) == 1+32*(len(q.u.In)+1) && len(q.u.In) > 1 {
				ns := []int{1, 2, 3, 4, 6, 8}
				if c.thorough() {
					ns = append(ns, 5, 7, 9, 12, 16, 24)
				}
				for _, n := range ns {
					rs = append(rs, req{q.u.Fn, n, 1 + 32*(n+1)})
				}
			}
		}
	}
	for _, q := range rs {
		k := fmt.Sprint(q.f.String(), q.nin, "|", q.nout)
		if done[k] {
			continue
		}
		done[k] = true
		name := fnShort(q.f)
		fw := c.P.Prog.Fset.Position(q.f.Pos()).String()
		arg := func(i int) *Node { return Leaf(fmt.Sprintf("in:arg[%d]", i), q.nin != 1) }
		var want []*Node
		var pts [][2]*Node
		switch {
		case q.nin == 3 && q.nout == 2:
			roles["multiplication"]++
			pts = [][2]*Node{{arg(0), arg(1)}}
			g := Opaque("gmul", arg(2), Pt(arg(0), arg(1)))
			want = []*Node{CX(g), CY(g)}
		case q.nin == 4 && q.nout == 2:
			roles["addition"]++
			pts = [][2]*Node{{arg(0), arg(1)}, {arg(2), arg(3)}}
			g := Opaque("gadd", Pt(arg(0), arg(1)), Pt(arg(2), arg(3)))
			want = []*Node{CX(g), CY(g)}
		case q.nin == 1 && q.nout == 2:
			roles["reduction"]++
			want = []*Node{Opaque("idiv", arg(0), IntB(fieldR)), IMod(arg(0), IntB(fieldR))}
		case q.nout == 1+32*(q.nin+1):
			roles["instance hash"]++
			var pre []*Node
			for i := 0; i < q.nin; i++ {
				pre = append(pre, wordBytes(arg(i))...)
			}
			d := hashBytes("keccak", pre)
			want = append(want, FromBytes(d))
			want = append(want, d...)
			want = append(want, pre...)
		default:
			c.count("hints of another kind", 1)
			continue
		}
		e, _, outs := c.runHintEntry(q.f, q.nin, q.nout)
		if e == nil || !c.ob(outs != nil && !e.Acc.Never, name+" never succeeds", fw, "%s never succeeds on %d inputs and %d outputs: %s", name, q.nin, q.nout, e.Run.Why) {
			continue
		}
		e.succeed()
		ev := NewEval(e.In, e.Acc.St, c.evalSeed())
		for i, w := range want {
			a, b := ev.val(outs[i]), ev.val(w)
			c.ob(a.un == nil && a.eq(b), fmt.Sprintf("%s output", name), fw, "output %d of %s (%d inputs) is not the value it stands for", i, name, q.nin)
		}
		// boundary values of the number arguments
		for _, b := range hintBoundaries(q.nin, len(pts) == 1 && q.nin == 3, len(pts) == 0, q.nout == 2) {
			bv := NewEval(e.In, e.Acc.St, c.evalSeed())
			bv.pattern = true
			for i, k := range b {
				if k != nil {
					bv.bind[arg(i).H] = num(func(int) *big.Int { return k })
				}
			}
			for i, w := range want {
				x, y := bv.val(outs[i]), bv.val(w)
				c.ob(x.un == nil && x.eq(y), fmt.Sprintf("%s boundary output", name), fw, "output %d of %s is not the value it stands for when the inputs are %v", i, name, b)
			}
			c.count("boundary inputs", 1)
		}
		// acceptance: exactly the validity of the points
		for _, p := range pts {
			ok := false
			for _, op := range []string{"g1valid", "oncurve"} {
				if v, known := e.In.condVal(e.Acc.St, Opaque(op, p[0], p[1])); known && v {
					ok = true
				}
			}
			c.ob(ok, name+" accepts invalid points", fw, "%s succeeds for coordinates (%s, %s) that are not a curve point", name, p[0], p[1])
		}
		ref := e.Init.fork()
		e.In.pointFacts(ref, pts...)
		for _, f := range factList(e.Acc.St) {
			if strings.HasPrefix(f.N.S, "fails:") || f.N.Op == "fails" || !valueCond(f.N) {
				continue
			}
			v, known := e.In.condVal(ref, f.N)
			c.ob(known && v == f.V, name+" rejects valid inputs", fw, "%s rejects valid inputs unless %v is %v", name, f.N, f.V)
		}
		c.count("hint outputs compared", len(want))
	}
	for r, n := range roles {
		c.count("requests: "+r, n)
	}
	for _, r := range []string{"multiplication", "addition", "reduction", "instance hash"} {
		c.ob(roles[r] > 0, "no "+r+" hint", "package main", "no circuit requests a hint of the kind %s", r)
	}
}

// hintBoundaries: special values of the number arguments of a hint (nil: any).
func hintBoundaries(nin int, scalar, numbers, reduction bool) [][]*big.Int {
	off := func(b *big.Int, d int64) *big.Int { return new(big.Int).Add(b, big.NewInt(d)) }
	pow := func(k uint) *big.Int { return new(big.Int).Lsh(big1, k) }
	small := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(255), big.NewInt(256), off(pow(63), -1), pow(63), off(pow(64), -1), pow(64), pow(128), off(pow(248), -1), pow(248), off(pow(253), 0), off(fieldR, -2), off(fieldR, -1)}
	var r [][]*big.Int
	switch {
	case scalar:
		for _, k := range small[1:] {
			r = append(r, []*big.Int{nil, nil, k})
		}
	case numbers && reduction:
		for m := int64(1); m <= 6; m++ {
			b := new(big.Int).Mul(fieldR, big.NewInt(m))
			small = append(small, off(b, -1), b, off(b, 1))
		}
		small = append(small, off(pow(256), -1), pow(256), new(big.Int).Mul(fieldR, fieldR))
		for _, k := range small {
			r = append(r, []*big.Int{k})
		}
	case numbers:
		for _, k := range small {
			for i := 0; i <= nin && i < 6; i++ {
				v := make([]*big.Int, nin)
				for j := range v {
					if i == nin || i == j || i == 5 {
						v[j] = k
					}
				}
				r = append(r, v)
			}
		}
	}
	return r
}

// ---------------------------------------------------------------------------
// C22
// ---------------------------------------------------------------------------

// norm rewrites gated values by what the state decides.
func (in *Interp) norm(st *State, n *Node, memo map[Hash]*Node) *Node {
	if r, ok := memo[n.H]; ok {
		return r
	}
	r := n
	if n.Op == "gamma" {
		if v, ok := in.condVal(st, n.Args[0]); ok {
			a := n.Args[2]
			if v {
				a = n.Args[1]
			}
			r = in.norm(st, a, memo)
			memo[n.H] = r
			return r
		}
	}
	switch n.Op {
	case "leaf", "int", "str", "bool":
	default:
		ch := false
		as := make([]*Node, len(n.Args))
		for i, a := range n.Args {
			as[i] = in.norm(st, a, memo)
			ch = ch || as[i].H != a.H
		}
		if ch {
			r = OpaqueS(n.Op, n.S, as...)
		}
	}
	memo[n.H] = r
	return r
}

func isLib(n *Node, name string) bool { return n.Op == "lib" && n.S == name }

// outOf matches result i of a library call.
func outOf(n *Node, i int, name string) *Node {
	if n.Op == "out" && n.S == fmt.Sprint(i) && len(n.Args) == 1 && isLib(n.Args[0], name) {
		return n.Args[0]
	}
	return nil
}

func (c *Ctx) driverRun(e *entry, a *Accept, how string) {
	in := e.In
	memo := map[Hash]*Node{}
	norm := func(n *Node) *Node { return in.norm(a.St, n, memo) }
	verified := false
	why := "no verification step is executed by every such run"
	for _, ev := range a.Must {
		if ev.Kind != "lib" || ev.S != "plonk.Verify" || len(ev.Nodes) < 3 {
			continue
		}
		prove, vk, pub := norm(ev.Nodes[0]), norm(ev.Nodes[1]), norm(ev.Nodes[2])
		call := norm(ev.Nodes[len(ev.Nodes)-1])
		_ = call
		if v, ok := in.condVal(a.St, Opaque("fails", ev.Nodes[len(ev.Nodes)-1])); !ok || v {
			why = "the verification may have failed"
			continue
		}
		if !isLib(prove, "plonk.Prove") || len(prove.Args) < 3 {
			why = "what is verified is not the proof just made"
			continue
		}
		ccs, pk, w := prove.Args[0], prove.Args[1], prove.Args[2]
		s1, s2 := outOf(pk, 0, "plonk.Setup"), outOf(vk, 1, "plonk.Setup")
		if s1 == nil || s2 == nil || s1.H != s2.H {
			why = "proving and verifying key are not from the same setup"
			continue
		}
		if len(s1.Args) < 1 || s1.Args[0].H != ccs.H {
			why = "the setup is for another constraint system than the one proved"
			continue
		}
		if !isLib(ccs, "frontend.Compile") || len(ccs.Args) < 3 || !strings.Contains(ccs.Args[2].S, "AggregatorCircuit") {
			why = "the constraint system is not the compiled aggregation circuit"
			continue
		}
		if len(s1.Args) > 2 {
			r0, r1 := s1.Args[1], s1.Args[2]
			if r0.Op == "out" && r1.Op == "out" && (r0.S != "0" || r1.S != "1" || r0.Args[0].H != r1.Args[0].H || len(r0.Args[0].Args) == 0 || r0.Args[0].Args[0].H != ccs.H) {
				why = "the reference strings of the setup are not those of the constraint system, in order"
				continue
			}
		}
		if !isLib(w, "frontend.NewWitness") || len(w.Args) < 1 || !strings.Contains(w.Args[0].S, "AggregatorCircuit") {
			why = "the witness is not an assignment of the aggregation circuit"
			continue
		}
		okPub := isLib(pub, "iface.Public") && len(pub.Args) > 0 && pub.Args[0].H == w.H
		if !okPub && isLib(pub, "frontend.NewWitness") && len(pub.Args) > 1 && pub.Args[0].H == w.Args[0].H && strings.Contains(pub.str(40), "PublicOnly") {
			okPub = true
		}
		if !okPub {
			why = "the proof is not verified against the public part of the proved witness"
			continue
		}
		verified = true
		c.driverWitness(e, w.Args[0], ccs.Args[2])
	}
	c.ob(verified, "driver "+how, "main", "main can end normally (%s) without having verified its proof: %s", how, why)
	for _, g := range a.All {
		if g.Kind != "fallible" {
			continue
		}
		v, ok := in.condVal(g.St, g.Nodes[0])
		c.ob(ok && !v, "driver: "+g.S, in.where(g.Site), "main ends normally (%s) although %s may have failed", how, g.S)
	}
}

// seqOf lists the elements of field i of the circuit value in a summary.
func seqOf(w *Node, i int) []*Node {
	for w != nil && (w.Op == "dyn" || w.Op == "at") && len(w.Args) > 0 {
		w = w.Args[0]
	}
	if w == nil || w.Op != "agg" || i >= len(w.Args) || w.Args[i].Op != "seq" {
		return nil
	}
	return w.Args[i].Args
}

func (c *Ctx) driverWitness(e *entry, w, shape *Node) {
	in := e.In
	t := c.P.namedType("AggregatorCircuit")
	if t == nil {
		return
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i).Name()
		a, b := seqOf(w, i), seqOf(shape, i)
		if !c.ob(a != nil && b != nil, "witness "+f, "main", "field %s of the assignment cannot be read", f) {
			continue
		}
		c.ob(len(a) == len(b), "witness length "+f, "main", "%s is assigned %d values, compiled with %d", f, len(a), len(b))
		global := map[string]string{"Proof": "proofStr", "Aux": "auxStr"}[f]
		var data []*Node
		if global != "" {
			data = in.globalStrings(e.Init, global)
			if !c.ob(data != nil, "embedded "+global, "main", "the embedded list %s cannot be read", global) {
				continue
			}
			c.ob(len(a) == len(data), "witness length "+f, "main", "%s is assigned %d values, %d are embedded", f, len(a), len(data))
		}
		for j, n := range a {
			if global == "" {
				c.ob(n.isInt(), "witness "+f, "main", "%s[%d] is not assigned", f, j)
				continue
			}
			ok := n.isInt() && j < len(data) && data[j].isStr() && n.K.String() == strings.TrimSpace(data[j].strVal())
			c.ob(ok, "witness "+f, "main", "%s[%d] is not assigned the embedded element", f, j)
		}
	}
}

// globalStrings reads a package-level string list after initialisation.
func (in *Interp) globalStrings(st *State, name string) []*Node {
	g, ok := in.P.Pkg.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	var r []*Node
	why := in.protect(func() {
		v := in.load(st.fork(), &Ptr{O: in.global(g)})
		el, ok := in.elems(st, v)
		if !ok {
			panic(incomplete{"not a list"})
		}
		for _, x := range el {
			r = append(r, nodeOr(in.resolve(st, x)))
		}
	})
	if why != "" {
		return nil
	}
	return r
}

func checkC22(c *Ctx) {
	e := c.driver()
	if e == nil {
		return
	}
	if !e.Acc.Never {
		c.driverRun(e, e.Acc, "main returns")
	}
	good := !e.Acc.Never
	for _, x := range e.In.Exits {
		if x.Code.isInt() && x.Code.K.Sign() != 0 {
			continue
		}
		r := &Run{In: e.In, St: x.St, Name: "main"}
		a := e.In.accept(r, false)
		if a.Never {
			continue
		}
		good = true
		c.driverRun(e, a, "exit at "+e.In.where(x.Site))
	}
	c.ob(good, "driver never ends", "main", "main never ends normally")
	for _, g := range e.Acc.All {
		c.ob(g.Kind != "recover", "driver: recover", e.In.where(g.Site), "a recovery handler runs in the driver")
	}
	for _, f := range e.In.P.Funcs2() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" && e.In.CalledFn[f] {
						c.ob(false, "driver: recover", c.P.Prog.Fset.Position(ins.Pos()).String(), "a recovery handler is installed in the driver")
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------
// C23
// ---------------------------------------------------------------------------

// Funcs2 lists the repository's functions in a fixed order.
func (p *Program) Funcs2() []*ssa.Function {
	var r []*ssa.Function
	for f := range p.Funcs {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].String() != r[j].String() {
			return r[i].String() < r[j].String()
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}

func (c *Ctx) globalMutation(g string) string {
	return strings.TrimPrefix(g, "package variable ")
}

func checkC23(c *Ctx) {
	es := c.gadgetsAndCircuits()
	if e := c.driver(); e != nil {
		es = append(es, e)
	}
	reached := map[*ssa.Function]bool{}
	for _, e := range es {
		for f := range e.In.CalledFn {
			reached[f] = true
		}
		if e.Acc.Never {
			continue
		}
		n := 0
		report := func(g *Event, rejected string) {
			switch g.Kind {
			case "mutate":
				if strings.HasPrefix(g.S, "package variable ") {
					n++
					c.ob(false, "modifies "+c.globalMutation(g.S), e.In.where(g.Site), "%s modifies package state %s%s", e.Name, c.globalMutation(g.S), rejected)
				}
			case "concurrency":
				n++
				c.ob(false, e.Name+" "+g.S, e.In.where(g.Site), "%s starts or talks to another goroutine (%s): its effects on package state are not ordered", e.Name, g.S)
			}
		}
		for _, g := range e.Acc.All {
			report(g.Event, "")
		}
		if n == 0 {
			c.ob(true, "", "", "")
		}
	}
	// effect roots, whichever path is taken, in every function that is not
	// reached from initialisation alone
	initOnly := c.P.initOnly()
	k := 0
	for _, f := range c.P.Funcs2() {
		if initOnly[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				addr, what := effect(ins)
				if addr == nil {
					continue
				}
				k++
				if g := globalRoot(addr, 0); g != nil && c.P.ownGlobal(g) {
					c.ob(false, "modifies "+g.Name(), c.P.Prog.Fset.Position(ins.Pos()).String()+" in "+fnShort(f), "%s %s package variable %s", fnShort(f), what, g.Name())
				} else {
					c.ob(true, "", "", "")
				}
			}
		}
	}
	c.count("stores and in-place updates examined", k)
	c.count("functions run only by initialisation", len(initOnly))
}

func (p *Program) ownGlobal(g *ssa.Global) bool {
	for _, pk := range p.Pkgs {
		if g.Pkg == pk {
			return true
		}
	}
	return false
}

// initOnly: functions all of whose static uses are calls from package
// initialisation (transitively).
func (p *Program) initOnly() map[*ssa.Function]bool {
	users := map[*ssa.Function]map[*ssa.Function]bool{}
	isInit := map[*ssa.Function]bool{}
	all := map[*ssa.Function]bool{}
	for f := range p.Funcs {
		all[f] = true
	}
	for _, pk := range p.Pkgs {
		if f := pk.Func("init"); f != nil {
			all[f] = true
		}
	}
	for f := range all {
		if f.Parent() == nil && f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			isInit[f] = true
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if users[g] == nil {
							users[g] = map[*ssa.Function]bool{}
						}
						// a function value that is not called here may be kept
						if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().Value == g {
							users[g][f] = true
						} else if _, ok := ins.(*ssa.MakeClosure); ok {
							users[g][f] = true
						} else {
							users[g][nil] = true
						}
					}
				}
			}
		}
	}
	r := map[*ssa.Function]bool{}
	for f := range isInit {
		r[f] = true
	}
	for ch := true; ch; {
		ch = false
		for f := range all {
			if r[f] || len(users[f]) == 0 {
				continue
			}
			ok := true
			for u := range users[f] {
				if u == nil || !r[u] {
					ok = false
				}
			}
			if ok && !ast_exported(f) {
				r[f] = true
				ch = true
			}
		}
	}
	return r
}

func ast_exported(f *ssa.Function) bool { return f.Object() != nil && f.Object().Exported() }

// effect returns the address an instruction writes through.
func effect(ins ssa.Instruction) (ssa.Value, string) {
	switch x := ins.(type) {
	case *ssa.Store:
		return x.Addr, "assigns to"
	case *ssa.MapUpdate:
		return x.Map, "updates"
	case ssa.CallInstruction:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy", "delete", "clear", "append":
				if len(cc.Args) > 0 {
					return cc.Args[0], b.Name() + "s into"
				}
			}
			return nil, ""
		}
		if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && f.Pkg != nil && len(cc.Args) > 0 {
			if mutatingMethod(f) {
				return cc.Args[0], "calls in-place " + f.Name() + " on"
			}
		}
	}
	return nil, ""
}

// mutatingMethod: library methods that write their receiver.
func mutatingMethod(f *ssa.Function) bool {
	path := f.Pkg.Pkg.Path()
	if _, ptr := f.Signature.Recv().Type().(*types.Pointer); !ptr {
		return false
	}
	switch {
	case path == "math/big":
	case strings.HasPrefix(path, "github.com/consensys/gnark-crypto"), strings.HasPrefix(path, "github.com/ethereum/go-ethereum"):
	case path == "bytes" || path == "strings":
		return strings.HasPrefix(f.Name(), "Write") || f.Name() == "Reset" || f.Name() == "Truncate"
	default:
		return false
	}
	if readOnly[f.Name()] || strings.HasPrefix(f.Name(), "Is") {
		return false
	}
	// the library's convention: z.Op(...) returns z
	return true
}

var readOnly = map[string]bool{"Cmp": true, "CmpAbs": true, "Sign": true, "BitLen": true, "Bit": true, "Bits": true, "Bytes": true, "FillBytes": true,
	"String": true, "Text": true, "Append": true, "Int64": true, "Uint64": true, "Equal": true, "BigInt": true, "ToBigInt": true, "ToBigIntRegular": true,
	"ToRegular": true, "Marshal": true, "TrailingZeroBits": true, "ProbablyPrime": true, "MarshalJSON": true, "MarshalText": true, "Format": true,
	"RawBytes": true, "Float64": true, "GobEncode": true, "LexicographicallyLargest": true, "FitsOnOneWord": true, "NotEqual": true, "Legendre": true, "ModInverse0": true}

// globalRoot follows an address to the package variable it may point into.
func globalRoot(v ssa.Value, d int) *ssa.Global {
	if d > 20 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return globalRoot(x.X, d+1)
	case *ssa.IndexAddr:
		return globalRoot(x.X, d+1)
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			return globalRoot(x.X, d+1)
		}
	case *ssa.Slice:
		return globalRoot(x.X, d+1)
	case *ssa.ChangeType:
		return globalRoot(x.X, d+1)
	case *ssa.Convert:
		return globalRoot(x.X, d+1)
	case *ssa.TypeAssert:
		return globalRoot(x.X, d+1)
	case *ssa.MakeInterface:
		return globalRoot(x.X, d+1)
	case *ssa.Extract:
		return globalRoot(x.Tuple, d+1)
	case *ssa.Field:
		return globalRoot(x.X, d+1)
	case *ssa.Index:
		return globalRoot(x.X, d+1)
	case *ssa.Lookup:
		return globalRoot(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if g := globalRoot(e, d+5); g != nil {
				return g
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && f.Pkg != nil && len(x.Call.Args) > 0 && mutatingMethod(f) {
			return globalRoot(x.Call.Args[0], d+1)
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// C24
// ---------------------------------------------------------------------------

const (
	roleStep  = "an operand of an emulated curve step"
	roleCoord = "a coordinate of an on-curve check"
	rolePair  = "a pairing operand"
	roleHash  = "a hashed element"
)

// roles names what the inspected values of a run are used for; a value with
// several uses is attributed to the one that explains the inspection.
func (e *entry) roles() func(n *Node, kind string) string {
	role := map[string]map[Hash]bool{roleStep: {}, roleCoord: {}, rolePair: {}, roleHash: {}}
	memo := map[Hash]*Node{}
	norm := func(n *Node) *Node { return e.In.norm(e.Acc.St, n, memo) }
	var each func(r string, n *Node, d int)
	each = func(r string, n *Node, d int) {
		n = norm(n)
		role[r][n.H] = true
		if d == 0 || n.Op == "leaf" {
			return
		}
		for _, a := range n.Args {
			each(r, a, d-1)
		}
	}
	for _, g := range e.Acc.All {
		switch g.Kind {
		case "ecEq":
			for _, n := range g.Nodes {
				each(roleStep, n, 3)
			}
		case "pairing":
			for _, n := range g.Nodes {
				each(rolePair, n, 1)
			}
		case "hash":
			for _, n := range g.Nodes {
				each(roleHash, n, 3)
			}
		}
	}
	for _, f := range factList(e.Acc.St) {
		if f.N.Op == "oncurve" {
			for _, n := range f.N.Args {
				each(roleCoord, n, 2)
			}
		}
	}
	has := func(r string, n *Node) bool {
		if role[r][n.H] {
			return true
		}
		if n.Op == "frombytes" && len(n.Args) > 0 {
			for _, a := range n.Args {
				if !role[r][norm(a).H] {
					return false
				}
			}
			return true
		}
		return false
	}
	return func(n *Node, kind string) string {
		n = norm(n)
		order := []string{roleStep, roleCoord, rolePair, roleHash}
		if kind == "dynamic type inspected" {
			order = []string{roleHash, roleStep, roleCoord, rolePair}
		}
		for _, r := range order {
			if has(r, n) {
				return r
			}
		}
		if inputLeaf(n) {
			if strings.HasPrefix(n.S, "hint:") {
				return "a hint result"
			}
			p := n.S[strings.IndexByte(n.S, ':')+1:]
			if i := strings.IndexAny(p, "[."); i > 0 {
				p = p[:i]
			}
			return "input " + p
		}
		return "a value derived from the inputs"
	}
}

func checkC24(c *Ctx) {
	n := 0
	for _, e := range c.allEntries() {
		if e.Kind != "circuit" || e.Acc.Never {
			continue
		}
		role := e.roles()
		bad := 0
		times := map[string]int{}
		for _, g := range e.Acc.All {
			what := ""
			switch g.Kind {
			case "inspect":
				what = g.S
			case "branch":
				if valueCond(g.Nodes[0]) && !libOutcome(g.Nodes[0]) {
					what = "decides a branch"
				}
			}
			if what == "" {
				continue
			}
			n++
			var nd *Node
			if len(g.Nodes) > 0 {
				nd = g.Nodes[0]
			}
			if nd == nil || !valueCond(nd) {
				continue
			}
			bad++
			r := role(nd, what)
			if g.Kind == "branch" {
				r = "a comparison of values"
			}
			if what == "dynamic type inspected" {
				// one use explains one inspection
				k := fmt.Sprint(nd.H)
				if times[k]++; times[k] > 1 {
					r += " (again)"
				}
			}
			c.ob(false, e.Name+": "+r+" "+what, e.In.where(g.Site), "%s: %s is %s", e.Name, r, what)
		}
		if bad == 0 {
			c.ob(true, "", "", "")
		}
	}
	c.count("inspections examined", n)
}

// libOutcome: the condition is the outcome of library steps (their failures,
// unreadable conversions, curve membership), reported elsewhere.
func libOutcome(n *Node) bool {
	switch n.Op {
	case "not", "gamma", "and", "or":
		for _, a := range n.Args {
			if !libOutcome(a) {
				return false
			}
		}
		return true
	case "bool", "fails", "unreadable", "oncurve", "g1valid":
		return true
	case "leaf":
		return strings.HasPrefix(n.S, "fails:")
	}
	return false
}

// wordBytes: the 32-byte big-endian encoding of a number.
func wordBytes(n *Node) []*Node {
	var r []*Node
	for i := 31; i >= 0; i-- {
		r = append(r, ByteOf(n, i))
	}
	return r
}
