package main

import (
	"math/big"
	"strings"
)

// ---------------------------------------------------------------------------
// C26: completeness. With the honest prover's values (hint results as the hint
// functions compute them, prover inverses and claimed results as the
// constraints require), nothing but the statement stands between an input and
// acceptance: every further condition of acceptance holds for all inputs.
// ---------------------------------------------------------------------------

func init() {
	checks["C26"] = checkFn{"every condition of acceptance (fact or constraint event) of every circuit but the KYC circuit is either one of the statement's own (point on the curve, pairing check, accumulator coordinate at least 1, stated hash or group result) or an identity once hint results are replaced by what the hint functions compute and prover-supplied results by the values the constraints determine", checkC26}
}

// claims are the leaves the prover computes from the other inputs.
var claims = map[string][]string{
	"Keccak256Circuit":       {"in:HashValue"},
	"Sha256Circuit":          {"in:HashValue"},
	"MultiScalarMul":         {"in:Res"},
	"BN254ScalarMul":         {"in:Res"},
	"BN254Add":               {"in:ExpectedRes"},
	"BN256MsmCircuit":        {"par:Res"},
	"BN256AddCircuit":        {"par:Res"},
	"BN256PairingCircuit":    {},
	"CheckOnCurveCircuit":    {},
	"CheckOnCurveCircuitVar": {},
}

// honestRun judges one circuit's acceptance conditions.
type hintAcc struct {
	u   *HintUse
	acc *Accept
}

type honestRun struct {
	hints []hintAcc
	c     *Ctx
	in    *Interp
	init  *State
	acc   *Accept
	name  string
	given *Eval               // with claims pinned by the constraints
	ev    *Eval               // with honest values
	ub    map[Hash]*big.Int   // upper bounds of values
	point func(x, y *EV) bool // on-curve conditions of the statement
	le    func(g *Event) bool // comparisons of the statement
	nz    func(v *EV) bool    // inverses of the statement
	hon   map[Hash]*Node      // hint result -> honest value
	pairs [][2]*Node          // operands of the circuit that look like points
}

// setup binds claims and hint results and assumes that gadgets work.
func (h *honestRun) setup() string {
	st := h.init.fork()
	seen := map[Hash]bool{}
	var points []*Node
	leaves := map[string]*Node{}
	var walk func(n *Node)
	walk = func(n *Node) {
		if seen[n.H] {
			return
		}
		seen[n.H] = true
		switch {
		case n.Op == "leaf" && strings.HasPrefix(n.S, "fails:"), n.Op == "fails", n.Op == "unreadable":
			if _, ok := h.in.condVal(st, n); !ok {
				h.in.assume(st, n, false)
			}
		case n.Op == "oncurve", n.Op == "g1valid":
			points = append(points, n)
		}
		if n.Op == "leaf" {
			leaves[n.S] = n
		}
		for _, a := range n.Args {
			walk(a)
		}
	}
	for _, f := range factList(h.acc.St) {
		walk(f.N)
	}
	for _, g := range h.acc.All {
		for _, n := range g.Nodes {
			walk(n)
		}
		for _, x := range g.Guard {
			walk(x.N)
		}
	}
	ev := NewEval(h.in, st, h.c.evalSeed())
	ev.unknown = h.given.unknown
	h.ev = ev
	h.hon = map[Hash]*Node{}
	for hash, v := range h.given.bind {
		if _, ok := h.in.HintOf[hash]; !ok {
			ev.bind[hash] = v
		}
	}
	for _, g := range h.acc.All {
		if g.Kind != "hint" || h.in.Hints[g.S] == nil {
			continue
		}
		u := *h.in.Hints[g.S]
		u.In = u.Raw
		outs, why := h.in.honest(h.init, &u)
		if why == "" {
			h.hints = append(h.hints, hintAcc{&u, h.in.lastHint})
			for _, f := range factList(h.in.lastHint.St) {
				walk(f.N)
			}
		}
		if outs == nil {
			return "hint " + u.Name + " at " + h.in.where(u.Site) + " cannot be evaluated: " + why
		}
		for k, o := range u.Out {
			// the hint succeeds on valid points
			walk(outs[k])
			h.hon[o.H] = outs[k]
			if v := ev.val(outs[k]); v.un == nil {
				ev.bind[o.H] = v
			}
		}
	}
	for s, x := range leaves {
		for _, suf := range [][2]string{{".X", ".Y"}, {"[0]", "[1]"}} {
			if y := leaves[strings.TrimSuffix(s, suf[0])+suf[1]]; y != nil && strings.HasSuffix(s, suf[0]) {
				h.pairs = append(h.pairs, [2]*Node{x, y})
			}
		}
	}
	// points: the statement's, and results of group operations
	for _, n := range points {
		x, y := ev.val(n.Args[0]), ev.val(n.Args[1])
		if x.un == nil && y.un == nil && h.point(x, y) {
			h.in.assume(st, n, true)
		}
	}
	ev.memo = map[Hash]*EV{}
	return ""
}

// upper bounds a value for all inputs (nil: no bound known).
func (h *honestRun) upper(n *Node) *big.Int {
	if w, ok := h.ub[n.H]; ok {
		return w
	}
	h.ub[n.H] = nil
	w := h.upper0(n)
	h.ub[n.H] = w
	return w
}

func ones(k int) *big.Int {
	return new(big.Int).Sub(new(big.Int).Lsh(big1, uint(k)), big1)
}

func (h *honestRun) upper0(n *Node) *big.Int {
	if m, ok := h.hon[n.H]; ok {
		return h.upper(m)
	}
	rmax := new(big.Int).Sub(fieldR, big1)
	field := func(w *big.Int) *big.Int {
		if w == nil || w.Cmp(rmax) > 0 {
			return rmax
		}
		return w
	}
	two := func(f func(z, x, y *big.Int) *big.Int) *big.Int {
		a, b := h.upper(n.Args[0]), h.upper(n.Args[1])
		if a == nil || b == nil {
			return nil
		}
		return f(new(big.Int), a, b)
	}
	switch n.Op {
	case "int":
		if n.K.Sign() >= 0 {
			return n.K
		}
	case "byte", "hbyte":
		return ones(8)
	case "bit", "iszero", "not", "eq", "bool", "oncurve":
		return big1
	case "H":
		return ones(256)
	case "trunc":
		return ones(int(n.K.Int64()))
	case "frombytes":
		return ones(8 * len(n.Args))
	case "gamma":
		if v, ok := h.ev.boolVal(n.Args[0]); ok {
			if v {
				return h.upper(n.Args[1])
			}
			return h.upper(n.Args[2])
		}
		return two(func(z, x, y *big.Int) *big.Int {
			if x.Cmp(y) < 0 {
				return y
			}
			return x
		})
	case "imod", "irem":
		if k := n.Args[1]; k.isInt() && k.K.Sign() > 0 {
			m := new(big.Int).Sub(k.K, big1)
			if w := h.upper(n.Args[0]); w != nil && w.Cmp(m) < 0 {
				return w
			}
			if n.Op == "imod" || h.upper(n.Args[0]) != nil {
				return m
			}
		}
	case "idiv", "iquo":
		if k := n.Args[1]; k.isInt() && k.K.Sign() > 0 {
			if w := h.upper(n.Args[0]); w != nil {
				return new(big.Int).Div(w, k.K)
			}
		}
	case "iadd":
		return two((*big.Int).Add)
	case "imul":
		return two((*big.Int).Mul)
	case "fadd":
		return field(two((*big.Int).Add))
	case "fmul":
		return field(two((*big.Int).Mul))
	case "fsub", "fneg", "finv", "divu", "fpow", "fcmp":
		return rmax
	case "cx", "cy":
		return new(big.Int).Sub(fieldP, big1)
	case "leaf":
		if n.In || strings.HasPrefix(n.S, "in:") {
			return rmax
		}
	}
	return nil
}

// fits: the value always has at most that many bits.
func (h *honestRun) fits(n *Node, bits int) bool {
	if bits >= 254 {
		return true
	}
	w := h.upper(n)
	return w != nil && w.BitLen() <= bits
}

// judge records one obligation per condition of acceptance.
func (h *honestRun) judge(allow map[string]bool) {
	c := h.c
	nf, nh, ne := 0, 0, 0
	for _, f := range factList(h.acc.St) {
		if strings.HasPrefix(f.N.S, "fails:") && f.N.Op == "leaf" {
			continue
		}
		nf++
		v, ok := h.ev.boolVal(f.N)
		c.ob(ok && v == f.V, h.name+" accepts only if "+firstAtom(f.N), h.name, "%s accepts only inputs for which %s is %v; the statement does not ask for that", h.name, f.N.str(3), f.V)
	}
	for _, x := range h.hints {
		for _, f := range factList(x.acc.St) {
			if f.N.Op == "fails" || f.N.Op == "leaf" && strings.HasPrefix(f.N.S, "fails:") {
				continue
			}
			nh++
			v, ok := h.ev.boolVal(f.N)
			c.ob(ok && v == f.V, h.name+": hint "+x.u.Name+" works only if "+f.N.Op, h.in.where(x.u.Site), "the hint %s succeeds only if %s is %v; the statement does not ask for that", x.u.Name, f.N.str(3), f.V)
		}
	}
	for _, g := range h.acc.All {
		if !constraintKind[g.Kind] {
			continue
		}
		dead := false
		for _, x := range g.Guard {
			if v, ok := h.ev.boolVal(x.N); ok && v != x.V {
				dead = true
			}
		}
		if dead {
			continue
		}
		ne++
		ok := false
		why := ""
		switch g.Kind {
		case "hash":
			ok = true
		case "pairing", "ecdsa", "assertOnG2":
			ok = allow[g.Kind]
		case "assertOnCurve":
			x, y := h.ev.val(g.Nodes[0]), h.ev.val(g.Nodes[1])
			ok = x.un == nil && y.un == nil && h.point(x, y)
		case "le":
			ok = h.le != nil && h.le(g.Event)
			if a, b := h.ev.val(g.Nodes[0]), h.ev.val(g.Nodes[1]); !ok && a.konst() != nil && b.konst() != nil {
				ok, _ = h.ev.holds(g.Event)
			}
			if !ok && g.Nodes[1].isInt() {
				// a bound that the value cannot exceed
				k := g.Nodes[1].K
				w := h.upper(g.Nodes[0])
				ok = k.Cmp(new(big.Int).Sub(fieldR, big1)) >= 0 || w != nil && w.Cmp(k) <= 0
			}
			if !ok && g.Nodes[0].isInt() && g.Nodes[0].K.Sign() == 0 {
				ok = true
			}
		case "nonzero", "neq":
			d := h.ev.val(g.Nodes[0])
			if g.Kind == "nonzero" && h.nz != nil && d.un == nil && h.nz(d) {
				ok = true
			}
			all := true
			for _, n := range g.Nodes {
				v := h.ev.val(n)
				all = all && v.konst() != nil
			}
			if all && !ok {
				ok, _ = h.ev.holds(g.Event)
			}
		case "bits":
			ok = g.Nodes[1].isInt() && h.fits(g.Nodes[0], int(g.Nodes[1].K.Int64()))
		case "ecEq":
			ok = true
			for i := 0; i < 2; i++ {
				a, b := h.ev.val(g.Nodes[i]), h.ev.val(g.Nodes[i+2])
				ok = ok && a.un == nil && a.eq(b)
			}
		default:
			v, known := h.ev.holds(g.Event)
			ok = v && known
			if !known {
				why = " (undecided)"
			}
		}
		c.ob(ok, h.name+" demands "+g.Kind+" at "+h.in.where(g.Site), h.in.where(g.Site), "%s demands %s%v%s, which does not follow from its statement", h.name, g.Kind, strs(g.Nodes), why)
	}
	c.count("conditions of acceptance (facts)", nf)
	c.count("conditions of hint success", nh)
	c.count("conditions of acceptance (constraints)", ne)
}

func strs(ns []*Node) []string {
	var r []string
	for _, n := range ns {
		r = append(r, n.str(3))
	}
	return r
}

// firstAtom names a condition by its kind only.
func firstAtom(n *Node) string { return n.Op }

func checkC26(c *Ctx) {
	// the aggregation circuit
	shs := append([]Shape{aggShape}, c.otherShapes()...)
	for _, sh := range shs {
		c.cur = sh
		a := c.aggregator(sh)
		if a == nil {
			continue
		}
		e := a.eval(nil)
		if !a.findPairing(e) {
			continue
		}
		h := &honestRun{c: c, in: a.in, init: a.init, acc: a.acc, name: "AggregatorCircuit", given: e, ub: map[Hash]*big.Int{}}
		h.point = func(x, y *EV) bool {
			for _, i := range pointIdx() {
				if x.eq(h.ev.val(proofEl(i))) && y.eq(h.ev.val(proofEl(i+1))) {
					return true
				}
			}
			return h.ev.inGroup(x, y)
		}
		h.le = func(g *Event) bool {
			if !g.Nodes[0].isInt() || g.Nodes[0].K.Cmp(big1) > 0 {
				return false
			}
			v := h.ev.val(g.Nodes[1])
			for _, op := range a.accRoots() {
				if sameResidue(v, h.ev.val(op)) {
					return true
				}
			}
			return false
		}
		h.nz = func(v *EV) bool {
			for _, op := range a.accRoots() {
				if sameResidue(v, h.ev.val(op)) {
					return true
				}
			}
			for _, s := range e.slope {
				if constRatio(s, v) {
					return true
				}
			}
			return false
		}
		if why := h.setup(); !c.ob(why == "", h.name+" undecided", h.name, "%s", why) {
			continue
		}
		h.judge(map[string]bool{"pairing": true})
	}
	c.cur = nil
	// the other circuits
	for _, t := range c.P.circuits() {
		name := circuitName(t)
		if name == "AggregatorCircuit" || name == "Circuit" {
			continue
		}
		cl, ok := claims[name]
		if !ok {
			c.count("circuits without a statement of their own", 1)
			continue
		}
		for _, sh := range c.complShapes(name) {
			e := c.runCircuit(t, sh, nil)
			if e == nil {
				continue
			}
			if !c.ob(!e.Acc.Never, name+" never accepts", e.Name, "no run of %s accepts %v", name, sh) {
				continue
			}
			g := e.eval(c, cl...)
			h := &honestRun{c: c, in: e.In, init: e.Init, acc: e.Acc, name: name, given: g, ub: map[Hash]*big.Int{}}
			h.point = func(x, y *EV) bool {
				if strings.HasPrefix(name, "CheckOnCurve") {
					return x.eq(h.ev.val(Leaf("in:X", true))) && y.eq(h.ev.val(Leaf("in:Y", true)))
				}
				return h.inputPoint(x, y) || h.ev.inGroup(x, y)
			}
			if why := h.setup(); !c.ob(why == "", name+" undecided", name, "%s", why) {
				continue
			}
			allow := map[string]bool{}
			if name == "BN256PairingCircuit" {
				allow["pairing"], allow["assertOnG2"] = true, true
			}
			h.judge(allow)
		}
	}
}

func (c *Ctx) complShapes(name string) []Shape {
	switch name {
	case "Keccak256Circuit", "Sha256Circuit":
		ls := []int{0, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 135, 136, 137, 225, 271, 272, 273, 512, 1025, 3553}
		if c.thorough() {
			ls = nil
			for i := 0; i <= 300; i++ {
				ls = append(ls, i)
			}
			ls = append(ls, 511, 512, 513, 1024, 1025, 3553)
		}
		ls = append(ls, c.lengthsNear(0, 4200, ls, name+".Define", strings.Replace("Verify"+name, "Circuit", "", 1))...)
		var r []Shape
		for _, n := range ls {
			r = append(r, Shape{"InputValue": n, "HashValue": 32})
		}
		return r
	case "MultiScalarMul":
		ls := []int{0, 1, 2, 3, 4, 5, 8, 9, 17, 33}
		if c.thorough() {
			ls = append(ls, 64, 65, 101, 128)
		}
		ls = append(ls, c.lengthsNear(0, 300, ls, "MultiScalarMul.Define")...)
		var r []Shape
		for _, n := range ls {
			r = append(r, Shape{"Points": n, "Scalars": n})
		}
		return r
	}
	return []Shape{{"*": 2}}
}

// inGroup: the coordinates come from a group operation.
func (e *Eval) inGroup(x, y *EV) bool {
	for i := 0; i < tuples; i++ {
		if x.N[i] == nil || y.N[i] == nil {
			return false
		}
		if _, ok := e.root().tab[tabKey(i, x.N[i], y.N[i])]; ok {
			continue
		}
		if k := x.konst(); k != nil && y.konst() != nil && onCurve(IntB(k), IntB(y.konst())).H == True.H {
			continue
		}
		return false
	}
	return true
}

// inputPoint: the coordinates are an operand of the circuit.
func (h *honestRun) inputPoint(x, y *EV) bool {
	for _, p := range h.pairs {
		if x.eq(h.ev.val(p[0])) && y.eq(h.ev.val(p[1])) {
			return true
		}
	}
	return false
}
