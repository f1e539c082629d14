package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Algebraic value numbering (random interpretation) of the value-flow graph.
//
// Leaves get pseudo-random field elements, hashes are pseudo-random functions
// of their preimage bytes, group elements are linear forms over formally
// independent base points. Two nodes get the same number iff they denote the
// same value (up to probability < 2^-240).
// ---------------------------------------------------------------------------

const tuples = 2

// lin is a linear form base point -> scalar (canonical: no zero entries).
type lin map[string]*big.Int

func (l lin) key() string {
	ks := make([]string, 0, len(l))
	for k := range l {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k)
		sb.WriteByte('*')
		sb.WriteString(l[k].Text(16))
		sb.WriteByte('+')
	}
	return sb.String()
}
func (l lin) add(o lin, c *big.Int) lin {
	r := lin{}
	for k, v := range l {
		r[k] = v
	}
	for k, v := range o {
		x := new(big.Int).Mul(v, c)
		if y, ok := r[k]; ok {
			x.Add(x, y)
		}
		x.Mod(x, fieldR)
		if x.Sign() == 0 {
			delete(r, k)
		} else {
			r[k] = x
		}
	}
	return r
}

type EV struct {
	N  [tuples]*big.Int
	G  [tuples]lin // group element if not nil
	un *Node       // an unresolved leaf the value depends on (value undefined)
}

func (v *EV) key() string {
	if v.un != nil {
		return "?" + v.un.str(2)
	}
	var sb strings.Builder
	for i := 0; i < tuples; i++ {
		if v.G[i] != nil {
			sb.WriteString("G:" + v.G[i].key())
		} else {
			sb.WriteString(v.N[i].Text(62))
		}
		sb.WriteByte('|')
	}
	return sb.String()
}
func (v *EV) eq(o *EV) bool { return v.un == nil && o.un == nil && v.key() == o.key() }

// konst: the value if it is the same number in all tuples.
func (v *EV) konst() *big.Int {
	if v.un != nil || v.N[0] == nil || v.G[0] != nil {
		return nil
	}
	for i := 1; i < tuples; i++ {
		if v.N[i] == nil || v.N[i].Cmp(v.N[0]) != 0 {
			return nil
		}
	}
	return v.N[0]
}

type Eval struct {
	in     *Interp
	st     *State // acceptance facts (may be nil)
	seed   string
	memo   map[Hash]*EV
	bind   map[Hash]*EV
	how    map[Hash]*pin // which constraint pinned an unknown
	tab    map[string]tabEnt
	numer  map[Hash]*EV // its constant part: slope * unknown = numer
	slope  map[Hash]*EV // slope of the pinning affine equation (nil: the unknown is one side)
	skip   map[*Event]bool
	parent *Eval
	at     map[Hash]*Eval // the same inputs, but one of them a given constant
	depth  int
	// pattern: leaves have representative values of a class of inputs;
	// comparisons are decided by them and library steps do not fail
	pattern bool
	// unresolved decides which nodes are unknowns until pinned
	unknown func(n *Node) bool
}
type tabEnt struct{ g lin }

func NewEval(in *Interp, st *State, seed string) *Eval {
	e := &Eval{in: in, st: st, seed: seed, memo: map[Hash]*EV{}, bind: map[Hash]*EV{}, how: map[Hash]*pin{}, tab: map[string]tabEnt{}, slope: map[Hash]*EV{}, numer: map[Hash]*EV{}}
	e.unknown = func(n *Node) bool { return n.Op == "leaf" && strings.HasPrefix(n.S, "hint:") }
	return e
}

// with is an overlay in which one unknown has a trial value.
func (e *Eval) with(n *Node, v *EV) *Eval {
	return &Eval{in: e.in, st: e.st, seed: e.seed, memo: map[Hash]*EV{}, bind: map[Hash]*EV{n.H: v}, tab: e.tab, parent: e, unknown: e.unknown, pattern: e.pattern}
}

func prf(parts ...string) *big.Int {
	h := sha256.New()
	for _, p := range parts {
		fmt.Fprintf(h, "%d:", len(p))
		h.Write([]byte(p))
	}
	s := h.Sum(nil)
	h.Write([]byte("x"))
	s = append(s, h.Sum(nil)...)
	return new(big.Int).SetBytes(s)
}

// prfR is a pseudo-random residue, kept away from the ends of the range.
func prfR(parts ...string) *big.Int {
	v := prf(parts...)
	lo := new(big.Int).Lsh(big1, 130)
	v.Mod(v, new(big.Int).Sub(fieldR, new(big.Int).Lsh(big1, 131)))
	return v.Add(v, lo)
}

func num(f func(i int) *big.Int) *EV {
	v := &EV{}
	for i := range v.N {
		v.N[i] = f(i)
	}
	return v
}

func (e *Eval) val(n *Node) *EV {
	if v, ok := e.bind[n.H]; ok {
		return v
	}
	if v, ok := e.memo[n.H]; ok {
		if v.un == nil {
			return v
		}
		if e.parent != nil || !e.resolved(v.un) {
			return v
		}
	}
	if e.parent != nil {
		v := e.parent.val(n)
		if v.un == nil {
			return v
		}
	}
	v := e.compute(n)
	e.memo[n.H] = v
	return v
}
func (e *Eval) resolved(n *Node) bool { _, ok := e.bind[n.H]; return ok }

func (e *Eval) opaque(n *Node, tag string, vs []*EV) *EV {
	return num(func(i int) *big.Int {
		parts := []string{"op", e.seed, fmt.Sprint(i), tag, n.Op, n.S}
		if n.K != nil {
			parts = append(parts, n.K.String())
		}
		for _, a := range vs {
			parts = append(parts, a.at(i))
		}
		return prfR(parts...)
	})
}
func (v *EV) at(i int) string {
	if v.G[i] != nil {
		return "G:" + v.G[i].key()
	}
	return v.N[i].String()
}

func bigBool(b bool) *big.Int {
	if b {
		return big1
	}
	return big0
}

// boolVal decides a boolean node: from the acceptance facts, structurally, or
// because both operands of a comparison are the same value.
func (e *Eval) boolVal(c *Node) (val, ok bool) {
	if e.st != nil {
		if v, ok := e.in.condVal(e.st, c); ok {
			return v, true
		}
	}
	switch c.Op {
	case "bool":
		return c.H == True.H, true
	case "not":
		v, ok := e.boolVal(c.Args[0])
		return !v, ok
	case "gamma":
		if v, ok := e.boolVal(c.Args[0]); ok {
			if v {
				return e.boolVal(c.Args[1])
			}
			return e.boolVal(c.Args[2])
		}
		a, oka := e.boolVal(c.Args[1])
		b, okb := e.boolVal(c.Args[2])
		return a, oka && okb && a == b
	case "leaf":
		if e.pattern && strings.HasPrefix(c.S, "fails:") {
			return false, true
		}
	case "fails", "unreadable":
		if e.pattern {
			return false, true
		}
	case "lt":
		if e.pattern {
			a, b := e.val(c.Args[0]), e.val(c.Args[1])
			if a.un == nil && b.un == nil && a.N[0] != nil && b.N[0] != nil {
				return a.N[0].Cmp(b.N[0]) < 0, true
			}
		}
	case "eq":
		a, b := e.val(c.Args[0]), e.val(c.Args[1])
		if a.eq(b) {
			return true, true
		}
		if e.pattern && a.un == nil && b.un == nil {
			return false, true
		}
		if ka, kb := a.konst(), b.konst(); ka != nil && kb != nil && c.Args[0].isInt() && c.Args[1].isInt() {
			return ka.Cmp(kb) == 0, true
		}
	case "oncurve":
		x, y := e.val(c.Args[0]), e.val(c.Args[1])
		if x.un == nil && y.un == nil {
			all := true
			for i := 0; i < tuples; i++ {
				if x.N[i] == nil || y.N[i] == nil {
					return false, false
				}
				if _, ok := e.root().tab[tabKey(i, x.N[i], y.N[i])]; !ok {
					all = false
				}
			}
			if all {
				return true, true
			}
		}
	}
	return false, false
}

// atEquality: a value that is A where x = k and B elsewhere is B everywhere if
// the two agree at x = k.
func (e *Eval) atEquality(n *Node) *EV {
	c := n.Args[0]
	if c.Op != "eq" || e.parent != nil || e.depth > 1 || e.pattern {
		return nil
	}
	x, k := c.Args[0], c.Args[1]
	if x.isInt() {
		x, k = k, x
	}
	if !k.isInt() || x.Op != "leaf" || e.unknown(x) {
		return nil
	}
	s := e.at[c.H]
	if s == nil {
		if len(e.at) > 200 {
			return nil
		}
		s = &Eval{in: e.in, st: e.st, seed: e.seed, memo: map[Hash]*EV{}, bind: map[Hash]*EV{}, tab: map[string]tabEnt{}, unknown: e.unknown, depth: e.depth + 1}
		for h, v := range e.tab {
			s.tab[h] = v
		}
		s.bind[x.H] = num(func(int) *big.Int { return k.K })
		if e.at == nil {
			e.at = map[Hash]*Eval{}
		}
		e.at[c.H] = s
	}
	a, b := s.val(n.Args[1]), s.val(n.Args[2])
	if a.un == nil && a.eq(b) {
		return e.val(n.Args[2])
	}
	return nil
}

func (e *Eval) root() *Eval {
	for e.parent != nil {
		e = e.parent
	}
	return e
}
func tabKey(i int, x, y *big.Int) string { return fmt.Sprint(i, "|", x.Text(62), "|", y.Text(62)) }

func (e *Eval) compute(n *Node) *EV {
	switch n.Op {
	case "int":
		return num(func(int) *big.Int { return n.K })
	case "str":
		return num(func(int) *big.Int { return prfR("str", n.S) })
	case "bool":
		return num(func(int) *big.Int { return bigBool(n.H == True.H) })
	case "leaf":
		if e.unknown(n) {
			return &EV{un: n}
		}
		return num(func(i int) *big.Int { return prfR("leaf", e.seed, fmt.Sprint(i), n.S) })
	case "gamma":
		if v, ok := e.boolVal(n.Args[0]); ok {
			if v {
				return e.val(n.Args[1])
			}
			return e.val(n.Args[2])
		}
		a, b := e.val(n.Args[1]), e.val(n.Args[2])
		if a.eq(b) {
			return a
		}
		if v := e.atEquality(n); v != nil {
			return v
		}
		c := e.val(n.Args[0])
		for _, x := range []*EV{c, a, b} {
			if x.un != nil {
				return x
			}
		}
		return e.opaque(n, "gamma", []*EV{c, a, b})
	case "not", "eq", "oncurve":
		if v, ok := e.boolVal(n); ok {
			return num(func(int) *big.Int { return bigBool(v) })
		}
	case "hbyte":
		if e.unknown(n) {
			return &EV{un: n}
		}
		h := e.val(n.Args[0])
		if h.un != nil {
			return h
		}
		j := uint(31 - n.K.Int64())
		return num(func(i int) *big.Int {
			return new(big.Int).And(new(big.Int).Rsh(h.N[i], 8*j), big.NewInt(255))
		})
	}
	vs := make([]*EV, len(n.Args))
	for i, a := range n.Args {
		vs[i] = e.val(a)
		if vs[i].un != nil {
			return &EV{un: vs[i].un}
		}
	}
	if n.Op == "H" {
		return num(func(i int) *big.Int {
			parts := []string{"H", strings.TrimSuffix(n.S, "c")}
			for _, a := range vs {
				parts = append(parts, a.at(i))
			}
			return new(big.Int).Mod(prf(parts...), new(big.Int).Lsh(big1, 256))
		})
	}
	if g := e.group(n, vs); g != nil {
		return g
	}
	for _, a := range vs {
		if a.G[0] != nil {
			return e.opaque(n, "grp", vs)
		}
	}
	mod := func(f func(z *big.Int, a []*big.Int)) *EV {
		return num(func(i int) *big.Int {
			a := make([]*big.Int, len(vs))
			for k := range vs {
				a[k] = vs[k].N[i]
			}
			z := new(big.Int)
			f(z, a)
			return z
		})
	}
	switch n.Op {
	case "fadd":
		return mod(func(z *big.Int, a []*big.Int) { z.Add(a[0], a[1]).Mod(z, fieldR) })
	case "fsub":
		return mod(func(z *big.Int, a []*big.Int) { z.Sub(a[0], a[1]).Mod(z, fieldR) })
	case "fmul":
		return mod(func(z *big.Int, a []*big.Int) { z.Mul(a[0], a[1]).Mod(z, fieldR) })
	case "fneg":
		return mod(func(z *big.Int, a []*big.Int) { z.Neg(a[0]).Mod(z, fieldR) })
	case "finv":
		return mod(func(z *big.Int, a []*big.Int) {
			if new(big.Int).Mod(a[0], fieldR).Sign() != 0 {
				z.ModInverse(a[0], fieldR)
			}
		})
	case "divu":
		return mod(func(z *big.Int, a []*big.Int) {
			if new(big.Int).Mod(a[1], fieldR).Sign() != 0 {
				z.ModInverse(a[1], fieldR)
				z.Mul(z, a[0]).Mod(z, fieldR)
			}
		})
	case "fpow":
		return mod(func(z *big.Int, a []*big.Int) { z.Exp(a[0], n.K, fieldR) })
	case "iadd":
		return mod(func(z *big.Int, a []*big.Int) { z.Add(a[0], a[1]) })
	case "isub":
		return mod(func(z *big.Int, a []*big.Int) { z.Sub(a[0], a[1]) })
	case "imul":
		if vs[0].N[0].BitLen() < 8192 && vs[1].N[0].BitLen() < 8192 {
			return mod(func(z *big.Int, a []*big.Int) { z.Mul(a[0], a[1]) })
		}
	case "imod":
		if vs[1].N[0].Sign() > 0 && vs[1].konst() != nil {
			return mod(func(z *big.Int, a []*big.Int) { z.Mod(a[0], a[1]) })
		}
	case "idiv":
		if vs[1].konst() != nil && vs[1].N[0].Sign() > 0 {
			return mod(func(z *big.Int, a []*big.Int) { z.Div(a[0], a[1]) })
		}
	case "iquo", "irem":
		if vs[1].konst() != nil && vs[1].N[0].Sign() > 0 {
			return mod(func(z *big.Int, a []*big.Int) {
				q, r := new(big.Int).QuoRem(a[0], a[1], new(big.Int))
				if n.Op == "iquo" {
					z.Set(q)
				} else {
					z.Set(r)
				}
			})
		}
	case "modinv":
		if vs[1].konst() != nil && vs[1].N[0].Sign() > 0 {
			return mod(func(z *big.Int, a []*big.Int) {
				if new(big.Int).Mod(a[0], a[1]).Sign() != 0 {
					z.ModInverse(a[0], a[1])
				}
			})
		}
	case "iexp":
		if k := vs[1].konst(); k != nil && k.Sign() >= 0 && len(vs) == 3 && vs[2].konst() != nil && vs[2].N[0].Sign() > 0 {
			return mod(func(z *big.Int, a []*big.Int) { z.Exp(a[0], a[1], a[2]) })
		}
	case "byte":
		return mod(func(z *big.Int, a []*big.Int) {
			z.Rsh(a[0], uint(8*n.K.Int64())).And(z, big.NewInt(255))
		})
	case "bit":
		return mod(func(z *big.Int, a []*big.Int) { z.Rsh(a[0], uint(n.K.Int64())).And(z, big1) })
	case "trunc":
		return mod(func(z *big.Int, a []*big.Int) {
			z.And(a[0], new(big.Int).Sub(new(big.Int).Lsh(big1, uint(n.K.Int64())), big1))
		})
	case "frombytes":
		return mod(func(z *big.Int, a []*big.Int) {
			for _, b := range a {
				z.Lsh(z, 8).Or(z, new(big.Int).And(b, big.NewInt(255)))
			}
		})
	case "be":
		// number behind big-endian bytes of a number
		if n.Args[0].Op == "minbytes" {
			return e.val(n.Args[0].Args[0])
		}
	case "dec":
		return vs[0]
	case "fcmp", "cmp":
		if e.pattern {
			return mod(func(z *big.Int, a []*big.Int) {
				z.SetInt64(int64(a[0].Cmp(a[1])))
				if n.Op == "fcmp" {
					z.Mod(z, fieldR)
				}
			})
		}
	case "iszero":
		if e.pattern {
			return mod(func(z *big.Int, a []*big.Int) {
				if modR(a[0]).Sign() == 0 {
					z.SetInt64(1)
				}
			})
		}
		if k := vs[0].konst(); k != nil && k.Sign() == 0 {
			return num(func(int) *big.Int { return big1 })
		}
	case "not":
		if vs[0].konst() == nil {
			break
		}
	case "iand", "ior", "ixor":
		return mod(func(z *big.Int, a []*big.Int) {
			switch n.Op {
			case "iand":
				z.And(a[0], a[1])
			case "ior":
				z.Or(a[0], a[1])
			default:
				z.Xor(a[0], a[1])
			}
		})
	}
	return e.opaque(n, "", vs)
}

var secpish = "@"

// group interprets curve operations as linear forms.
func (e *Eval) group(n *Node, vs []*EV) *EV {
	if strings.HasPrefix(n.S, secpish) {
		return nil
	}
	grp := func(f func(i int) lin) *EV {
		v := &EV{}
		for i := range v.G {
			v.G[i] = f(i)
			if v.G[i] == nil {
				return nil
			}
		}
		return v
	}
	g := func(k, i int) lin {
		if vs[k].G[i] != nil {
			return vs[k].G[i]
		}
		return lin{"?" + vs[k].N[i].Text(62): big1}
	}
	switch n.Op {
	case "pt":
		return grp(func(i int) lin {
			x, y := vs[0].N[i], vs[1].N[i]
			if x == nil || y == nil {
				return nil
			}
			return e.point(i, x, y)
		})
	case "gmul":
		return grp(func(i int) lin {
			if vs[0].N[i] == nil {
				return nil
			}
			return lin{}.add(g(1, i), vs[0].N[i])
		})
	case "gadd":
		return grp(func(i int) lin { return g(0, i).add(g(1, i), big1) })
	case "gneg":
		return grp(func(i int) lin { return lin{}.add(g(0, i), big.NewInt(-1)) })
	case "cx", "cy":
		return num(func(i int) *big.Int {
			x, y := e.coords(i, g(0, i))
			if n.Op == "cx" {
				return x
			}
			return y
		})
	}
	return nil
}

// point is the linear form of the point with the given coordinates.
func (e *Eval) point(i int, x, y *big.Int) lin {
	x, y = new(big.Int).Mod(x, fieldP), new(big.Int).Mod(y, fieldP)
	if x.Sign() == 0 && y.Sign() == 0 {
		return lin{}
	}
	if t, ok := e.tab[tabKey(i, x, y)]; ok {
		return t.g
	}
	ny := new(big.Int).Sub(fieldP, y)
	if y.Cmp(ny) > 0 {
		return lin{baseKey(x, ny): new(big.Int).Sub(fieldR, big1)}
	}
	return lin{baseKey(x, y): big1}
}
func baseKey(x, y *big.Int) string { return "(" + x.Text(62) + "," + y.Text(62) + ")" }

// coords gives (and records) coordinates of a group element.
func (e *Eval) coords(i int, l lin) (x, y *big.Int) {
	if len(l) == 0 {
		return big0, big0
	}
	if len(l) == 1 {
		for k, c := range l {
			minus := new(big.Int).Sub(fieldR, big1)
			if k[0] == '(' && (c.Cmp(big1) == 0 || c.Cmp(minus) == 0) {
				s := strings.Split(k[1:len(k)-1], ",")
				x, _ = new(big.Int).SetString(s[0], 62)
				y, _ = new(big.Int).SetString(s[1], 62)
				if c.Cmp(minus) == 0 {
					y = new(big.Int).Sub(fieldP, y)
				}
				return x, y
			}
		}
	}
	// sign-normal form: the smaller key of l and -l
	neg := lin{}.add(l, big.NewInt(-1))
	k, kn := l.key(), neg.key()
	flip := kn < k
	if flip {
		k = kn
	}
	x = prfR("cx", k)
	y = prfR("cy", k)
	e.tab[tabKey(i, x, y)] = tabEnt{l}
	ny := new(big.Int).Sub(fieldP, y)
	if flip {
		e.tab[tabKey(i, x, ny)] = tabEnt{l}
		e.tab[tabKey(i, x, y)] = tabEnt{neg}
		return x, ny
	}
	e.tab[tabKey(i, x, ny)] = tabEnt{neg}
	return x, y
}

// ---------------------------------------------------------------------------
// Resolution: unknowns (hint outputs, prover inverses, ...) that the enforced
// constraints determine uniquely are replaced by the value they must have.
// ---------------------------------------------------------------------------

type pin struct {
	a, b *Node
	ev   *Event
}

func pinsOf(e *Event) []pin {
	switch e.Kind {
	case "eq", "byteEq", "emEq":
		return []pin{{e.Nodes[0], e.Nodes[1], e}}
	case "ecEq":
		return []pin{{e.Nodes[0], e.Nodes[2], e}, {e.Nodes[1], e.Nodes[3], e}}
	}
	return nil
}

// resolve pins every unknown that the constraints determine.
func (e *Eval) resolve(evs []*Event) {
	var all []pin
	for _, x := range evs {
		if e.skip[x] {
			continue
		}
		all = append(all, pinsOf(x)...)
	}
	if e.st != nil {
		for _, f := range factList(e.st) {
			if f.V && f.N.Op == "eq" {
				all = append(all, pin{f.N.Args[0], f.N.Args[1], nil})
			}
		}
	}
	watch := map[Hash][]int{}
	queue := make([]int, len(all))
	for i := range queue {
		queue[i] = i
	}
	for len(queue) > 0 {
		i := queue[0]
		queue = queue[1:]
		p := all[i]
		a, b := e.val(p.a), e.val(p.b)
		if a.un == nil && b.un == nil {
			continue
		}
		u := a.un
		if u == nil {
			u = b.un
		}
		v, other := e.solve(p, u, a, b)
		if v == nil {
			// wait until one of the unknowns is resolved
			watch[u.H] = append(watch[u.H], i)
			if other != nil {
				watch[other.H] = append(watch[other.H], i)
			}
			continue
		}
		e.bind[u.H] = v
		q := p
		e.how[u.H] = &q
		w := watch[u.H]
		delete(watch, u.H)
		queue = append(w, queue...)
	}
}

func factList(st *State) []factEnt {
	var r []factEnt
	for f := st.facts; f != nil; f = f.parent {
		r = append(r, f.list...)
	}
	return r
}

// solve finds the unique value of unknown u under a = b.
func (e *Eval) solve(p pin, u *Node, a, b *EV) (*EV, *Node) {
	// the unknown itself on one side
	if p.a.H == u.H {
		if b.un == nil {
			return b, nil
		}
		if b.un.H != u.H {
			return nil, b.un
		}
	}
	if p.b.H == u.H {
		if a.un == nil {
			return a, nil
		}
		if a.un.H != u.H {
			return nil, a.un
		}
	}
	// affine in u over the scalar field
	var f [3]*EV
	for t := range f {
		o := e.with(u, num(func(i int) *big.Int {
			t0, d := prfR("trial", u.H.String(), fmt.Sprint(i)), prfR("step", u.H.String(), fmt.Sprint(i))
			return modR(t0.Add(t0, d.Mul(d, big.NewInt(int64(t)))))
		}))
		x, y := o.val(p.a), o.val(p.b)
		if x.un != nil {
			return nil, x.un
		}
		if y.un != nil {
			return nil, y.un
		}
		if x.G[0] != nil || y.G[0] != nil {
			return nil, nil
		}
		f[t] = num(func(i int) *big.Int { return modR(new(big.Int).Sub(x.N[i], y.N[i])) })
	}
	ok := true
	v := num(func(i int) *big.Int {
		t0, d := prfR("trial", u.H.String(), fmt.Sprint(i)), prfR("step", u.H.String(), fmt.Sprint(i))
		s := modR(new(big.Int).Sub(f[1].N[i], f[0].N[i]))
		s2 := modR(new(big.Int).Sub(f[2].N[i], f[1].N[i]))
		if s.Sign() == 0 || s.Cmp(s2) != 0 {
			ok = false
			return big0
		}
		// zero of f at t0 - d*f0/s
		z := new(big.Int).Mul(f[0].N[i], new(big.Int).ModInverse(s, fieldR))
		return modR(z.Sub(t0, z.Mul(z, d)))
	})
	if !ok {
		return nil, nil
	}
	e.slope[u.H] = num(func(i int) *big.Int {
		d := prfR("step", u.H.String(), fmt.Sprint(i))
		s := modR(new(big.Int).Sub(f[1].N[i], f[0].N[i]))
		return modR(s.Mul(s, new(big.Int).ModInverse(d, fieldR)))
	})
	e.numer[u.H] = num(func(i int) *big.Int { return modR(new(big.Int).Mul(v.N[i], e.slope[u.H].N[i])) })
	return v, nil
}

// cone visits every node the values of the roots are computed from; unknowns
// continue in the constraint that pins them. visit returning false prunes.
func (e *Eval) cone(roots []*Node, visit func(n *Node) bool) {
	seen := map[Hash]bool{}
	stack := append([]*Node(nil), roots...)
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[n.H] {
			continue
		}
		seen[n.H] = true
		if !visit(n) {
			continue
		}
		if p, ok := e.how[n.H]; ok {
			stack = append(stack, p.a, p.b)
			continue
		}
		if n.Op == "leaf" {
			// an unpinned hint result is whatever the prover computes from its inputs
			if u := e.in.HintOf[n.H]; u != nil && !e.resolved(n) {
				stack = append(stack, u.In...)
				continue
			}
		}
		if n.Op == "gamma" {
			if v, ok := e.boolVal(n.Args[0]); ok {
				if v {
					stack = append(stack, n.Args[1])
				} else {
					stack = append(stack, n.Args[2])
				}
				continue
			}
		}
		stack = append(stack, n.Args...)
	}
}
