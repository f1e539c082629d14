package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"
)

// ---------------------------------------------------------------------------
// C01-C08: the aggregation circuit.
// ---------------------------------------------------------------------------

var aggShape = Shape{"Proof": nProof, "VerifyInst": 1, "Aux": 21, "TargetInst": 4}

type aggRun struct {
	c       *Ctx
	in      *Interp
	init    *State
	run     *Run
	acc     *Accept
	pairing *Event
	// operand indices of the pair that holds the given G2 point
	opS, opN int
}

func (c *Ctx) aggregator(sh Shape) *aggRun {
	in, init, ok := c.interp()
	if !ok {
		return nil
	}
	t := c.P.namedType("AggregatorCircuit")
	if t == nil {
		c.ob(false, "no AggregatorCircuit", "package", "type AggregatorCircuit not found")
		return nil
	}
	r := in.runDefine(init, t, sh, nil)
	c.stats(in)
	if r.Why != "" {
		c.ob(false, "AggregatorCircuit undecided", r.Name, "the circuit definition cannot be analysed: %s", r.Why)
		return nil
	}
	a := &aggRun{c: c, in: in, init: init, run: r, opS: -1, opN: -1}
	a.acc = in.accept(r, true)
	if a.acc.Never {
		c.ob(false, "AggregatorCircuit never accepts", r.Name, "no run of the circuit definition ends in acceptance")
		return nil
	}
	c.count("constraint events in accepting runs", len(a.acc.All))
	c.count("unconditional constraint events", len(a.acc.Must))
	c.count("hint requests", len(in.Hints))
	return a
}

// otherShapes are further numbers of target and inner instances.
func (c *Ctx) otherShapes() []Shape {
	ns := [][2]int{{1, 1}, {12, 3}, {0, 1}, {2, 3}, {4, 2}, {8, 1}, {20, 20}, {30, 8}, {42, 1}, {1, 42}}
	if c.thorough() {
		ns = nil
		for i := 0; i <= 42; i++ {
			ns = append(ns, [2]int{i, 1})
			if i > 1 {
				ns = append(ns, [2]int{43 - i, i}, [2]int{4, min(i, 39)})
			}
		}
	}
	var r []Shape
	for _, n := range ns {
		r = append(r, Shape{"Proof": nProof, "VerifyInst": n[1], "Aux": 21, "TargetInst": n[0]})
	}
	return r
}

func (c *Ctx) shape() Shape {
	if c.cur != nil {
		return c.cur
	}
	return aggShape
}

// overShapes decides a rule for several numbers of instances.
func overShapes(f func(c *Ctx)) func(c *Ctx) {
	return func(c *Ctx) {
		t0 := time.Now()
		f(c)
		one := time.Since(t0)
		for i, sh := range c.otherShapes() {
			// further lengths add nothing once a violation is known, and on code
			// that is expensive to analyse two more lengths have to do
			if c.newViolation() || i >= 2 && one > 20*time.Second && !c.thorough() {
				break
			}
			c.cur = sh
			f(c)
		}
		c.cur = nil
	}
}

func isAuxOrHint(n *Node) bool {
	return n.Op == "leaf" && (strings.HasPrefix(n.S, "hint:") || strings.HasPrefix(n.S, "in:Aux"))
}

// nativeDigest: a digest byte computed outside the circuit.
func nativeDigest(kind string) func(n *Node) bool {
	return func(n *Node) bool {
		return n.Op == "hbyte" && n.Args[0].Op == "H" && strings.HasPrefix(n.Args[0].S, kind) && !strings.HasSuffix(n.Args[0].S, "c")
	}
}

func (a *aggRun) eval(extra func(n *Node) bool) *Eval {
	e := NewEval(a.in, a.acc.St, a.c.evalSeed())
	e.unknown = func(n *Node) bool { return isAuxOrHint(n) || extra != nil && extra(n) }
	e.resolve(a.acc.Must)
	return e
}

func g2Key(q [4]string) (r [4]*big.Int) {
	for i := range q {
		r[i] = bigFrom(q[i])
	}
	return
}

// findPairing locates the unconditional pairing check and its operands.
func (a *aggRun) findPairing(e *Eval) bool {
	for _, ev := range a.acc.Must {
		if ev.Kind == "pairing" {
			a.pairing = ev
		}
	}
	if a.pairing == nil {
		a.c.ob(false, "no pairing check", a.run.Name, "no pairing check is enforced by every accepting run")
		return false
	}
	for i := 0; i+2 < len(a.pairing.Nodes); i += 3 {
		switch e.g2Name(a.pairing.Nodes[i+2]) {
		case "s":
			if a.opS < 0 {
				a.opS = i
			}
		case "-1":
			if a.opN < 0 {
				a.opN = i
			}
		}
	}
	return true
}

// g2Name identifies the fixed G2 operand.
func (e *Eval) g2Name(q *Node) string {
	fl := e.g2Coords(q)
	if len(fl) != 4 {
		return ""
	}
	match := func(w [4]string) bool {
		for i, s := range w {
			if fl[i] == nil || fl[i].Cmp(bigFrom(s)) != 0 {
				return false
			}
		}
		return true
	}
	if match(g2S) {
		return "s"
	}
	if match(g2N) {
		return "-1"
	}
	return "?"
}
func (e *Eval) g2Coords(q *Node) []*big.Int {
	var r []*big.Int
	if q.Op == "g2" && len(q.Args) == 4 {
		for _, x := range q.Args {
			r = append(r, e.val(x).konst())
		}
	}
	return r
}

// lin of operand i of the pairing.
func (a *aggRun) operand(e *Eval, i int) (*EV, string) {
	x, y := e.val(a.pairing.Nodes[i]), e.val(a.pairing.Nodes[i+1])
	for _, v := range []*EV{x, y} {
		if v.un != nil {
			return nil, "depends on " + describe(v.un) + ", which no constraint of every accepting run determines"
		}
	}
	r := &EV{}
	for t := 0; t < tuples; t++ {
		if x.N[t] == nil || y.N[t] == nil {
			return nil, "is not a coordinate pair"
		}
		r.G[t] = e.point(t, x.N[t], y.N[t])
	}
	return r, ""
}

func describe(n *Node) string {
	if n.Op == "hbyte" {
		return fmt.Sprintf("byte %v of a natively computed %s digest", n.K, n.Args[0].S)
	}
	return n.str(2)
}

// challenges finds the digests the accumulator depends on, by chain depth.
func (a *aggRun) challenges(e *Eval) (ch []*Node, why string) {
	depth := map[Hash]int{}
	var dep func(n *Node) int
	memo := map[Hash]int{}
	dep = func(n *Node) int {
		if d, ok := memo[n.H]; ok {
			return d
		}
		memo[n.H] = 0
		d := 0
		if p, ok := e.how[n.H]; ok {
			_ = p // hint results do not nest digests in the chain
		}
		for _, x := range n.Args {
			if k := dep(x); k > d {
				d = k
			}
		}
		if n.Op == "H" && strings.HasPrefix(n.S, "sha256") {
			d++
			depth[n.H] = d
		}
		memo[n.H] = d
		return d
	}
	var hs []*Node
	have := map[string]bool{}
	var roots []*Node
	for i := 0; i+2 < len(a.pairing.Nodes); i += 3 {
		roots = append(roots, a.pairing.Nodes[i], a.pairing.Nodes[i+1])
	}
	e.cone(roots, func(n *Node) bool {
		if n.Op == "H" && strings.HasPrefix(n.S, "sha256") {
			k := e.val(n).key()
			if !have[k] {
				have[k] = true
				hs = append(hs, n)
			}
			return false
		}
		return true
	})
	byDepth := map[int]*Node{}
	for _, h := range hs {
		d := dep(h)
		if byDepth[d] != nil {
			return nil, "two digests at the same place of the transcript chain"
		}
		byDepth[d] = h
	}
	if len(byDepth) != len(phases) {
		return nil, fmt.Sprintf("%d transcript digests instead of %d", len(byDepth), len(phases))
	}
	for d := 1; d <= len(phases); d++ {
		h := byDepth[d]
		if h == nil {
			return nil, fmt.Sprintf("no digest at chain depth %d", d)
		}
		bs := make([]*Node, 32)
		for i := range bs {
			bs[i] = mkNode("hbyte", big.NewInt(int64(i)), "", h)
			bs[i].Canon = true
		}
		ch = append(ch, Canonize(FromBytes(bs)))
	}
	return ch, ""
}

// instCommit is the code's instance commitment, if it is recognisable.
func (a *aggRun) spec(e *Eval) *halo2 {
	_, ix, iy := specInstance(a.c.shape()["TargetInst"], a.c.shape()["VerifyInst"])
	ch, why := a.challenges(e)
	if why != "" {
		_, _, ch = specTranscript(ix, iy)
	}
	return newHalo2(ch, ix, iy)
}

// specLin is the specified second accumulator.
func (h *halo2) lin(e *Eval, t int) (map[string]string, lin) {
	name := map[string]string{}
	l := lin{}
	add := func(what string, g lin, s *big.Int) {
		for k := range g {
			if name[k] != "" && name[k] != what {
				name[k] += " / " + what
			} else {
				name[k] = what
			}
		}
		l = l.add(g, s)
	}
	add("G1 generator", e.point(t, big1, big.NewInt(2)), e.val(h.gScalar).N[t])
	for _, tm := range h.terms {
		x, y, s := e.val(tm.x), e.val(tm.y), e.val(tm.scalar)
		if x.un != nil || y.un != nil || s.un != nil {
			continue
		}
		add(tm.what, e.point(t, x.N[t], y.N[t]), s.N[t])
	}
	return name, l
}

func genKey(e *Eval) string {
	for k := range e.point(0, big1, big.NewInt(2)) {
		return k
	}
	return ""
}

func init() {
	checks["C01"] = checkFn{"cone of the pairing operands: every SHA-256 digest that reaches them does so through one of the 8 transcript challenges of the specification, with every natively computed digest byte pinned to the in-circuit gadget's byte by an unconditional byte equality", overShapes(checkC01)}
	checks["C02"] = checkFn{"acceptance facts contain on-curve(x,y)=true, by value, for all 24 proof points; stand-alone point checks accept only curve points and readable coordinates", overShapes(checkC02)}
	checks["C03"] = checkFn{"coefficient of the G1 generator in the second pairing operand's linear form equals the specification's combination of claimed evaluations (algebraic value numbering)", overShapes(checkC03)}
	checks["C04"] = checkFn{"linear form of both pairing operands over the independent base points equals the specification's commitment -> scalar map (algebraic value numbering)", overShapes(checkC04)}
	checks["C05"] = checkFn{"every auxiliary value in the cone of the pairing operands is the unique solution of an unconditional affine equation whose slope is a constant multiple of the protocol's divisor and whose numerator is a constant multiple of the protocol's numerator", overShapes(checkC05)}
	checks["C06"] = checkFn{"every hint output in the cone of the pairing operands is pinned by an unconditional constraint to the value the hint function computes from the recorded inputs", overShapes(checkC06)}
	checks["C07"] = checkFn{"every accepting run enforces 1 <= each accumulator coordinate, an on-curve fact for both G1 operands, and the pairing check of the two accumulators with the fixed G2 points; the pairing engine's failures are decided false", overShapes(checkC07)}
	checks["C08"] = checkFn{"the Keccak digest that reaches the accumulator is, after pinning digest and preimage bytes by unconditional constraints only, the specification's digest of the instances; its reduction times the instance base point is the instance commitment", checkC08}
}

func (a *aggRun) accRoots() []*Node {
	var roots []*Node
	for i := 0; i+2 < len(a.pairing.Nodes); i += 3 {
		roots = append(roots, a.pairing.Nodes[i], a.pairing.Nodes[i+1])
	}
	return roots
}

func checkC01(c *Ctx) {
	a := c.aggregator(c.shape())
	if a == nil {
		return
	}
	e := a.eval(nativeDigest("sha256"))
	if !a.findPairing(e) {
		return
	}
	_, ix, iy := specInstance(c.shape()["TargetInst"], c.shape()["VerifyInst"])
	pre, _, ch := specTranscript(ix, iy)
	key := map[string]int{}
	for i, n := range ch {
		key[e.val(n).key()] = i
		c.sample("challenge %s = SHA-256 of %d bytes mod r", phases[i].name, len(pre[i]))
	}
	seen := make([]bool, len(ch))
	bad := map[string]bool{}
	visited := 0
	hashSite := map[Hash]string{}
	for _, ev := range a.acc.All {
		if ev.Kind == "hash" && len(ev.Nodes) > 0 && ev.Nodes[0].Op == "hbyte" {
			hashSite[ev.Nodes[0].Args[0].H] = a.in.where(ev.Site)
		}
	}
	e.cone(a.accRoots(), func(n *Node) bool {
		visited++
		v := e.val(n)
		if v.un == nil {
			if k, ok := key[v.key()]; ok && n.Op != "leaf" || ok && n.In {
				seen[k] = true
				return false
			}
		}
		if nativeDigest("sha256")(n) && !e.resolved(n) {
			d := n.Args[0].H.String()
			if !bad[d] {
				bad[d] = true
				c.ob(false, "unenforced digest", a.run.Name, "byte %v of a natively computed SHA-256 digest over %d bytes reaches the accumulator without an unconditional equality with the in-circuit digest", n.K, len(n.Args[0].Args))
			}
			return false
		}
		if n.Op == "H" && strings.HasPrefix(n.S, "sha256") {
			d := n.H.String()
			if !bad[d] {
				bad[d] = true
				c.ob(false, "foreign digest", hashSite[n.H], "a SHA-256 digest over %d bytes reaches the accumulator that is not (reduced mod r) one of the specified challenges: %s", len(n.Args), diffPreimage(e, n.Args, pre))
			}
			return false
		}
		return true
	})
	for i := range ch {
		c.ob(seen[i], "missing challenge "+phases[i].name, a.run.Name, "the specified challenge %s does not reach the accumulator", phases[i].name)
	}
	c.count("value-flow nodes visited", visited)
	nb := 0
	for _, ev := range a.acc.Must {
		if ev.Kind == "byteEq" {
			nb++
		}
	}
	c.count("unconditional byte equalities", nb)
}

// diffPreimage explains how a preimage differs from the closest specified one.
func diffPreimage(e *Eval, bs []*Node, pre [][]*Node) string {
	best, bestN := -1, -1
	at := 0
	for i, p := range pre {
		n := 0
		f := -1
		for j := 0; j < len(p) && j < len(bs); j++ {
			if e.val(p[j]).eq(e.val(bs[j])) {
				n++
			} else if f < 0 {
				f = j
			}
		}
		if len(p) == len(bs) {
			n += 1000000
		}
		if n > bestN {
			best, bestN, at = i, n, f
		}
	}
	if best < 0 {
		return "no specified preimage"
	}
	if len(pre[best]) != len(bs) {
		return fmt.Sprintf("closest: %s with %d bytes, first difference at byte %d", phases[best].name, len(pre[best]), at)
	}
	if at < 0 {
		return fmt.Sprintf("preimage of %s is right, its reduction is not", phases[best].name)
	}
	return fmt.Sprintf("closest: %s, first difference at byte %d (32-byte word %d): got %s", phases[best].name, at, at/32, bs[at].str(3))
}

func checkC02(c *Ctx) {
	a := c.aggregator(c.shape())
	if a != nil {
		// Values are not resolved through pinned hint outputs here: that a
		// hinted multiple of a point is on the curve says nothing about the
		// point itself.
		e := NewEval(a.in, a.acc.St, c.evalSeed())
		e.unknown = isAuxOrHint
		got := map[string]bool{}
		nf := 0
		mark := func(x, y *Node) {
			nf++
			vx, vy := e.val(x), e.val(y)
			if vx.un == nil && vy.un == nil {
				got[vx.key()+"#"+vy.key()] = true
			}
		}
		for _, f := range factList(a.acc.St) {
			if f.N.Op == "oncurve" && f.V {
				mark(f.N.Args[0], f.N.Args[1])
			}
		}
		for _, ev := range a.acc.Must {
			if ev.Kind == "assertOnCurve" {
				mark(ev.Nodes[0], ev.Nodes[1])
			}
		}
		idx := pointIdx()
		for _, i := range idx {
			k := e.val(proofEl(i)).key() + "#" + e.val(proofEl(i+1)).key()
			c.ob(got[k], fmt.Sprintf("proof point %d", i), a.run.Name, "no accepting run is known to have checked the point (Proof[%d], Proof[%d]) to be on the curve", i, i+1)
		}
		c.count("on-curve facts", nf)
	}
	for _, name := range []string{"CheckOnCurveCircuit", "CheckOnCurveCircuitVar"} {
		if c.cur != nil {
			break
		}
		t := c.P.instType(name)
		if t == nil {
			c.ob(false, name+" missing", name, "circuit type %s not found", name)
			continue
		}
		en := c.runCircuit(t, Shape{"*": 2}, nil)
		if en == nil {
			continue
		}
		in, acc := en.In, en.Acc
		if !c.ob(!acc.Never, name+" never accepts", en.Name, "no run accepts") {
			continue
		}
		st := acc.St.fork()
		for _, g := range acc.All {
			if g.Kind != "fallible" {
				continue
			}
			v, ok := in.condVal(g.St, g.Nodes[0])
			c.ob(ok && !v, name+": "+g.S+" failure accepted", in.where(g.Site), "%s may fail in a run that accepts", g.S)
			in.assume(st, g.Nodes[0], false)
		}
		in.saturate(st)
		e := NewEval(in, st, c.evalSeed())
		e.resolve(acc.Must)
		x, y := Leaf("in:X", true), Leaf("in:Y", true)
		want := e.val(x).key() + "#" + e.val(y).key()
		found := false
		for _, f := range factList(st) {
			if f.N.Op == "oncurve" && f.V && e.val(f.N.Args[0]).key()+"#"+e.val(f.N.Args[1]).key() == want {
				found = true
			}
		}
		for _, ev := range acc.Must {
			if ev.Kind == "assertOnCurve" && e.val(ev.Nodes[0]).key()+"#"+e.val(ev.Nodes[1]).key() == want {
				found = true
			}
		}
		c.ob(found, name+" accepts off-curve", en.Name, "acceptance (with readable coordinates) does not imply that (X, Y) is on the curve")
	}
}

func pointIdx() []int {
	var r []int
	for i := 0; i < 44; i += 2 {
		r = append(r, i)
	}
	return append(r, 100, 102)
}

func checkC03(c *Ctx) {
	a := c.aggregator(c.shape())
	if a == nil {
		return
	}
	e := a.eval(nil)
	if !a.findPairing(e) {
		return
	}
	if !c.ob(a.opN >= 0, "no second accumulator", a.in.where(a.pairing.Site), "no operand is paired with the negated G2 generator") {
		return
	}
	l, why := a.operand(e, a.opN)
	if !c.ob(l != nil, "second accumulator undetermined", a.in.where(a.pairing.Site), "the second accumulator %s", why) {
		return
	}
	h := a.spec(e)
	gk := genKey(e)
	for t := 0; t < tuples; t++ {
		_, sl := h.lin(e, t)
		g, s := l.G[t][gk], sl[gk]
		ok := g != nil && s != nil && g.Cmp(s) == 0
		c.ob(ok, "generator scalar", a.run.Name, "the scalar of the G1 generator in the accumulator differs from the protocol's combination of the claimed evaluations")
		if !ok {
			a.explainC03(e, h, t, g)
			break
		}
	}
	// every claimed evaluation takes part: dependence of the scalar
	used := map[string]bool{}
	e.cone(a.accRoots(), func(n *Node) bool {
		if n.Op == "leaf" {
			used[n.S] = true
		}
		return !(n.Op == "H")
	})
	for i := 44; i < 100; i++ {
		c.ob(used[fmt.Sprintf("in:Proof[%d]", i)], fmt.Sprintf("evaluation %d unused", i), a.run.Name, "claimed evaluation Proof[%d] does not reach the accumulator", i)
	}
}

// explainC03 tells which claimed evaluations enter with another coefficient.
func (a *aggRun) explainC03(e *Eval, h *halo2, t int, g *big.Int) {
	if g == nil {
		a.c.sample("no generator term")
	}
}

func checkC04(c *Ctx) {
	a := c.aggregator(c.shape())
	if a == nil {
		return
	}
	e := a.eval(nil)
	if !a.findPairing(e) {
		return
	}
	where := a.in.where(a.pairing.Site)
	if !c.ob(a.opN >= 0 && a.opS >= 0, "accumulators", where, "the pairing operands paired with the two fixed G2 points cannot be identified") {
		return
	}
	h := a.spec(e)
	if l, why := a.operand(e, a.opN); c.ob(l != nil, "second accumulator undetermined", where, "the second accumulator %s", why) {
		gk := genKey(e)
		for t := 0; t < tuples; t++ {
			name, sl := h.lin(e, t)
			keys := map[string]bool{}
			for k := range sl {
				keys[k] = true
			}
			for k := range l.G[t] {
				keys[k] = true
			}
			var ks []string
			for k := range keys {
				if k != gk {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			for _, k := range ks {
				g, s := l.G[t][k], sl[k]
				switch {
				case s == nil:
					c.ob(false, "foreign point in accumulator", where, "a point enters the accumulator that the protocol does not contain: %s", trunc(k, 60))
				case g == nil:
					c.ob(false, "missing commitment: "+name[k], where, "commitment missing from the accumulator: %s", name[k])
				default:
					c.ob(g.Cmp(s) == 0, "scalar of "+name[k], where, "the scalar of this commitment differs from the protocol's: %s", name[k])
				}
			}
		}
	}
	if l, why := a.operand(e, a.opS); c.ob(l != nil, "first accumulator undetermined", where, "the first accumulator %s", why) {
		x, y := e.val(proofEl(102)), e.val(proofEl(103))
		for t := 0; t < tuples; t++ {
			c.ob(l.G[t].key() == e.point(t, x.N[t], y.N[t]).key(), "first accumulator", where, "the first pairing operand is not the last opening point")
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// constRatio: x is a non-zero constant multiple of y.
func constRatio(x, y *EV) bool {
	var r *big.Int
	for i := range x.N {
		if y.N[i].Sign() == 0 || x.N[i].Sign() == 0 {
			return false
		}
		q := modR(new(big.Int).Mul(x.N[i], new(big.Int).ModInverse(y.N[i], fieldR)))
		if r != nil && r.Cmp(q) != 0 {
			return false
		}
		r = q
	}
	return true
}

// regular tells whether some enforced equation pins the unknown l with a slope
// that ok accepts. With deep set, hint results that this equation depends on
// have to be pinned by equations with a constant slope themselves.
func (a *aggRun) regular(c *Ctx, e *Eval, l *Node, ok func(s *EV) bool, deep bool) bool {
	x := e
	one := e.val(Int(1))
	for try := 0; try < 6; try++ {
		var bad *pin
		if s := x.slope[l.H]; s != nil && !ok(s) && !constRatio(x.numer[l.H], one) {
			bad = x.how[l.H]
			if bad == nil {
				return false
			}
		} else if p := x.how[l.H]; deep && p != nil {
			x.cone([]*Node{p.a, p.b}, func(n *Node) bool {
				if n.H != l.H && n.Op == "leaf" && strings.HasPrefix(n.S, "hint:") {
					if s := x.slope[n.H]; s != nil && !constRatio(s, one) && !constRatio(x.numer[n.H], one) && bad == nil {
						bad = x.how[n.H]
					}
				}
				return bad == nil && n.H != l.H
			})
		}
		if bad == nil {
			return true
		}
		if bad.ev == nil {
			return false
		}
		sk := map[*Event]bool{bad.ev: true}
		for k := range x.skip {
			sk[k] = true
		}
		x = NewEval(a.in, a.acc.St, c.evalSeed())
		x.skip = sk
		x.unknown = e.unknown
		x.resolve(a.acc.Must)
		if !x.resolved(l) {
			return false
		}
	}
	return false
}

func checkC05(c *Ctx) {
	a := c.aggregator(c.shape())
	if a == nil {
		return
	}
	e := a.eval(nil)
	if !a.findPairing(e) {
		return
	}
	h := a.spec(e)
	ratioConst := constRatio
	one := e.val(Int(1))
	type quo struct {
		q   specQuot
		val *EV
		den *EV
	}
	var qs []quo
	for _, q := range h.quot {
		n, d := e.val(q.num), e.val(q.den)
		if n.un != nil || d.un != nil {
			continue
		}
		qs = append(qs, quo{q, e.val(FMul(q.num, FInv(q.den))), d})
	}
	var aux []*Node
	e.cone(a.accRoots(), func(n *Node) bool {
		if n.Op == "leaf" && strings.HasPrefix(n.S, "in:Aux") {
			aux = append(aux, n)
		}
		return true
	})
	sort.Slice(aux, func(i, j int) bool { return aux[i].S < aux[j].S })
	for _, l := range aux {
		name := strings.TrimPrefix(l.S, "in:")
		if !c.ob(e.resolved(l), "unconstrained "+name, a.run.Name, "%s reaches the accumulator but no constraint of every accepting run determines it", name) {
			continue
		}
		v := e.val(l)
		which := -1
		for i, q := range qs {
			if sameResidue(v, q.val) {
				which = i
			}
		}
		where := a.pinWhere(e, l)
		if !c.ob(which >= 0, "foreign quotient "+name, where, "%s is constrained to a value that is none of the protocol's quotients", name) {
			continue
		}
		// uniqueness: some constraint pins it with a slope that is zero only where the divisor is
		good := a.regular(c, e, l, func(s *EV) bool { return ratioConst(s, qs[which].den) || ratioConst(s, one) }, true)
		c.ob(good, "degenerate equation "+name, where, "the equation that constrains %s (%s) can degenerate: its factor is not a constant multiple of the protocol's divisor", name, qs[which].q.what)
		c.sample("%s = %s, pinned at %s", name, qs[which].q.what, where)
	}
	for i := 0; i+2 < len(a.pairing.Nodes); i += 3 {
		l, why := a.operand(e, i)
		c.ob(l != nil, "undetermined accumulator", a.in.where(a.pairing.Site), "pairing operand %d %s", i/3, why)
	}
	c.count("auxiliary values in the cone", len(aux))
}

func checkC06(c *Ctx) {
	a := c.aggregator(c.shape())
	if a == nil {
		return
	}
	e := a.eval(nil)
	if !a.findPairing(e) {
		return
	}
	var leaves []*Node
	roots := a.accRoots()
	for _, ev := range a.acc.Must {
		if ev.Kind == "le" {
			roots = append(roots, ev.Nodes...)
		}
	}
	have := map[Hash]bool{}
	for len(roots) > 0 {
		var next []*Node
		e.cone(roots, func(n *Node) bool {
			if n.Op == "leaf" && strings.HasPrefix(n.S, "hint:") && !have[n.H] {
				have[n.H] = true
				leaves = append(leaves, n)
				// the hint a pinned value was taken from claims something too
				if u := a.in.HintOf[n.H]; u != nil {
					for _, x := range u.In {
						if x.Op == "leaf" && strings.HasPrefix(x.S, "hint:") && !have[x.H] {
							next = append(next, x)
						}
					}
				}
			}
			return true
		})
		roots = next
	}
	sort.Slice(leaves, func(i, j int) bool { return leaves[i].S < leaves[j].S })
	memo, whyOf := map[string][]*Node{}, map[string]string{}
	// with the prover's inverses given, every hint result has to be pinned by a
	// constraint that cannot degenerate
	given := NewEval(a.in, a.acc.St, c.evalSeed())
	given.resolve(a.acc.Must)
	one := given.val(Int(1))
	for _, l := range leaves {
		u := a.in.HintOf[l.H]
		if u == nil {
			c.ob(false, "unknown hint", a.run.Name, "hint result %s of unknown origin", l)
			continue
		}
		where := a.in.where(u.Site)
		if !c.ob(e.resolved(l), "unpinned "+u.Name, where, "result of hint %s is used but no constraint of every accepting run determines it", u.Name) {
			continue
		}
		outs, ok := memo[u.ID]
		if !ok {
			outs, whyOf[u.ID] = a.honest(u)
			memo[u.ID] = outs
		}
		if outs == nil {
			// the hint cannot be evaluated: fall back to "some group operation or reduction of the very inputs"
			c.ob(false, "hint undecided "+u.Name, where, "hint function %s cannot be analysed: %s", u.Name, whyOf[u.ID])
			continue
		}
		k := -1
		for i, o := range u.Out {
			if o.H == l.H {
				k = i
			}
		}
		c.ob(!given.resolved(l) || a.regular(c, given, l, func(s *EV) bool { return constRatio(s, one) }, false), "degenerate pin "+u.Name, where, "the equation that pins output %d of hint %s can degenerate (pinned at %s)", k, u.Name, a.pinWhere(e, l))
		got, want := e.val(l), e.val(outs[k])
		c.ob(sameResidue(got, want), "wrongly pinned "+u.Name, where, "the constraint on output %d of hint %s does not tie it to the operation on its operands (pinned at %s)", k, u.Name, a.pinWhere(e, l))
	}
	c.count("hint results in the cone of the final check", len(leaves))
}

func sameResidue(a, b *EV) bool {
	if a.un != nil || b.un != nil {
		return false
	}
	for i := range a.N {
		if a.N[i] == nil || b.N[i] == nil {
			return false
		}
		if modR(a.N[i]).Cmp(modR(b.N[i])) != 0 {
			return false
		}
	}
	return true
}

func (a *aggRun) pinWhere(e *Eval, l *Node) string {
	if p := e.how[l.H]; p != nil && p.ev != nil {
		return a.in.where(p.ev.Site)
	}
	return "a fact of acceptance"
}

// honest interprets the hint function on the inputs of a request.
func (a *aggRun) honest(u *HintUse) ([]*Node, string) {
	return a.in.honest(a.init, u)
}

func (in *Interp) honest(init *State, u *HintUse) ([]*Node, string) {
	if u.Fn == nil {
		return nil, "not a repository function"
	}
	ins := u.In
	if u.Raw != nil {
		ins = u.Raw
	}
	outs, r := in.runHint(init, u.Fn, ins, len(u.Out))
	if r.Why != "" {
		return nil, r.Why
	}
	return outs, ""
}

// runHint interprets a hint function on given input nodes; outputs are taken
// in the state in which it reports success.
func (in *Interp) runHint(init *State, fn interface{ String() string }, ins []*Node, nout int) ([]*Node, *Run) {
	f := in.P.ssaFn(fn.String())
	bt := in.bigPtrTc
	var iv, ov []Val
	var inObjs, outObjs []*Obj
	for i, n := range ins {
		o := in.newObj(bt.(*types.Pointer).Elem(), fmt.Sprintf("hint input %d", i), n)
		o.Shared = fmt.Sprintf("hint input %d", i)
		inObjs = append(inObjs, o)
		iv = append(iv, &Ptr{O: o})
	}
	for i := 0; i < nout; i++ {
		o := in.newObj(bt.(*types.Pointer).Elem(), fmt.Sprintf("hint output %d", i), Leaf(fmt.Sprintf("stale output %d", i), false))
		outObjs = append(outObjs, o)
		ov = append(ov, &Ptr{O: o})
	}
	si := in.newSlice(bt, iv)
	si.O.Shared = "hint inputs"
	so := in.newSlice(bt, ov)
	q := &Ptr{O: in.newObj(bt.(*types.Pointer).Elem(), "field", IntB(fieldR))}
	q.O.Shared = "hint modulus"
	r := in.runFunc(init, f, []Val{q, si, so})
	if r.Why != "" || r.St == nil {
		if r.Why == "" {
			r.Why = "hint never returns"
		}
		return nil, r
	}
	acc := in.accept(r, true)
	r.Acc = acc
	in.lastHint = acc
	if acc.Never {
		r.Why = "hint never succeeds"
		return nil, r
	}
	var outs []*Node
	for i := 0; i < nout; i++ {
		v := in.resolve(acc.St, in.sliceGet(acc.St, so, i))
		r.Outs = append(r.Outs, slotPtrs(v))
		var n *Node
		why := in.protect(func() {
			p := in.ptr(acc.St, v)
			if p == nil || p.O == nil {
				panic(incomplete{"output is nil"})
			}
			n = in.num(acc.St, p)
		})
		if why != "" {
			n = OpaqueS("badout", why)
		}
		outs = append(outs, n)
	}
	return outs, r
}

// slotPtrs lists the numbers a hint's output slot may refer to.
func slotPtrs(v Val) []*Ptr {
	switch x := v.(type) {
	case *Ptr:
		if x.O != nil {
			return []*Ptr{x}
		}
	case *GammaV:
		return append(slotPtrs(x.A), slotPtrs(x.B)...)
	}
	return nil
}

func checkC07(c *Ctx) {
	a := c.aggregator(c.shape())
	if a == nil {
		return
	}
	e := a.eval(nil)
	if !a.findPairing(e) {
		return
	}
	where := a.in.where(a.pairing.Site)
	c.ob(len(a.pairing.Nodes) == 6, "pairing operands", where, "the pairing check has %d operand pairs instead of 2", len(a.pairing.Nodes)/3)
	c.ob(a.opS >= 0, "G2 point s", where, "no operand is paired with the verifying key's fixed G2 point")
	c.ob(a.opN >= 0, "G2 generator", where, "no operand is paired with the negated fixed G2 generator")
	// the accumulators are not crossed
	if a.opS >= 0 && a.opN >= 0 {
		if l, _ := a.operand(e, a.opN); l != nil {
			x, y := e.val(proofEl(102)), e.val(proofEl(103))
			c.ob(l.G[0].key() != e.point(0, x.N[0], y.N[0]).key(), "crossed operands", where, "the last opening point is paired with the negated generator instead of the fixed point s")
		}
	}
	oncurve := map[string]bool{}
	for _, f := range factList(a.acc.St) {
		if f.N.Op == "oncurve" && f.V {
			oncurve[e.val(f.N.Args[0]).key()+"#"+e.val(f.N.Args[1]).key()] = true
		}
	}
	for _, ev := range a.acc.Must {
		if ev.Kind == "assertOnCurve" {
			oncurve[e.val(ev.Nodes[0]).key()+"#"+e.val(ev.Nodes[1]).key()] = true
		}
	}
	for i := 0; i+2 < len(a.pairing.Nodes); i += 3 {
		x, y := a.pairing.Nodes[i], a.pairing.Nodes[i+1]
		vx, vy := e.val(x), e.val(y)
		c.ob(oncurve[vx.key()+"#"+vy.key()], fmt.Sprintf("operand %d on curve", i/3), where, "G1 operand %d of the pairing is not known to be on the curve in accepting runs", i/3)
		for k, n := range []*Node{x, y} {
			v := e.val(n)
			ok := false
			for _, ev := range a.acc.Must {
				if ev.Kind == "nonzero" && e.val(ev.Nodes[0]).eq(v) {
					ok = true
				}
				if ev.Kind != "le" {
					continue
				}
				lo := e.val(ev.Nodes[0]).konst()
				if lo != nil && lo.Cmp(big1) == 0 && (e.val(ev.Nodes[1]).eq(v) || v.un != nil && e.val(ev.Nodes[1]).un != nil && ev.Nodes[1].H == n.H) {
					ok = true
				}
			}
			c.ob(ok, fmt.Sprintf("coordinate %d of operand %d non-zero", k, i/3), where, "no unconditional constraint 1 <= coordinate %d of accumulator %d", k, i/3)
		}
	}
	// failures of the final steps
	for _, g := range a.acc.All {
		if g.Kind != "fallible" || !strings.Contains(g.S, "Pairing") {
			continue
		}
		v, ok := a.in.condVal(a.acc.St, g.Nodes[0])
		c.ob(ok && !v, "ignored failure of "+g.S, a.in.where(g.Site), "%s may fail in a run that accepts", g.S)
	}
}

func checkC08(c *Ctx) {
	shapes := []Shape{aggShape}
	for _, s := range [][2]int{{0, 1}, {2, 3}, {4, 2}, {8, 1}} {
		shapes = append(shapes, Shape{"Proof": nProof, "VerifyInst": s[1], "Aux": 21, "TargetInst": s[0]})
	}
	shapes = append(shapes, c.otherShapes()...)
	for _, n := range c.lengthsNear(0, 42, []int{0, 1, 2, 4, 8, 12, 20, 30, 42}, "=AggregatorCircuit.Define", "=VerifyInstanceHash", "=Keccak256Hint") {
		shapes = append(shapes, Shape{"Proof": nProof, "VerifyInst": 1, "Aux": 21, "TargetInst": n})
		if n > 1 && n < 40 {
			shapes = append(shapes, Shape{"Proof": nProof, "VerifyInst": n, "Aux": 21, "TargetInst": 4})
		}
	}
	for _, sh := range shapes {
		a := c.aggregator(sh)
		if a == nil {
			continue
		}
		tag := fmt.Sprintf(" (%d target, %d inner instances)", sh["TargetInst"], sh["VerifyInst"])
		e := a.eval(nativeDigest("keccak"))
		if !a.findPairing(e) {
			continue
		}
		k, ix, iy := specInstance(sh["TargetInst"], sh["VerifyInst"])
		kv := e.val(k)
		vx := e.val(ix)
		e.val(iy)
		seenK, seenC := false, false
		reported := map[string]bool{}
		rep := func(key, where, f string, x ...interface{}) {
			if !reported[key] {
				reported[key] = true
				c.ob(false, key, where, f+tag, x...)
			}
		}
		visited := 0
		e.cone(a.accRoots(), func(n *Node) bool {
			visited++
			v := e.val(n)
			if v.un == nil && v.N[0] != nil && v.eq(kv) {
				seenK = true
				return false
			}
			if v.un == nil && v.N[0] != nil && v.eq(vx) {
				seenC = true
			}
			if n.Op == "gmul" || n.Op == "gadd" {
				if v.un == nil && v.G[0] != nil && len(v.G[0]) == 1 && len(vx.N) > 0 {
					b := e.point(0, instBaseX, instBaseY)
					if v.G[0].key() == (lin{}).add(b, kv.N[0]).key() {
						seenC = true
					}
				}
			}
			if nativeDigest("keccak")(n) && !e.resolved(n) {
				rep("unenforced keccak digest", a.run.Name, "byte %v of a natively computed Keccak digest reaches the accumulator without a constraint", n.K)
				return false
			}
			if n.Op == "leaf" && strings.HasPrefix(n.S, "hint:") && !e.resolved(n) {
				if u := a.in.HintOf[n.H]; u != nil && a.dependsOnInstances(u) {
					rep("unpinned "+u.Name, a.in.where(u.Site), "result %s of the instance hash is not determined by the constraints", n)
				}
				return false
			}
			if n.Op == "H" && strings.HasPrefix(n.S, "keccak") {
				var spec []*Node
				for x := k; x != nil && len(x.Args) > 0; x = x.Args[0] {
					if x.Op == "H" {
						spec = x.Args
						break
					}
				}
				msg := fmt.Sprintf("%d bytes hashed, %d expected", len(n.Args), len(spec))
				for j := 0; j < len(spec) && j < len(n.Args); j++ {
					if !e.val(spec[j]).eq(e.val(n.Args[j])) {
						msg += fmt.Sprintf("; first difference at byte %d: %s", j, n.Args[j].str(3))
						break
					}
				}
				rep("foreign keccak digest", a.run.Name, "a Keccak digest reaches the accumulator that is not (mod r) the digest of the instances: %s", msg)
				return false
			}
			return true
		})
		c.ob(seenK, "instance scalar", a.run.Name, "the Keccak digest of the instances does not reach the accumulator%s", tag)
		c.ob(seenC, "instance commitment", a.run.Name, "the instance commitment is not the digest times the instance base point%s", tag)
		c.count("value-flow nodes visited", visited)
	}
}

func (a *aggRun) dependsOnInstances(u *HintUse) bool {
	for _, n := range u.In {
		if dependsOn(n, func(x *Node) bool {
			return x.Op == "leaf" && (strings.HasPrefix(x.S, "in:TargetInst") || strings.HasPrefix(x.S, "in:VerifyInst"))
		}, map[Hash]bool{}) {
			return true
		}
	}
	return false
}
