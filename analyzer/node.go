package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"strings"
)

// ---------------------------------------------------------------------------
// Value-flow graph nodes.
//
// A Node is a vertex of the value dependence graph the abstract interpreter
// builds from the SSA form: a constant, a leaf (circuit input, hint output,
// ...) or an operation over other nodes. Nodes are hash-identified, so two
// nodes with the same hash denote the same value in every run (they are gated
// single-assignment values, not storage).
// ---------------------------------------------------------------------------

type Hash [2]uint64

type Node struct {
	Op    string
	Args  []*Node
	K     *big.Int // payload for "int", "fpow" (exponent), bit/byte positions
	S     string   // payload for "str", leaves, tags
	H     Hash
	Canon bool  // value is known to be a canonical scalar-field residue, 0 <= v < r
	In    bool  // depends on a circuit input or a hint output
	cz    *Node // Canonize of a gate
}

func bigFrom(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad constant " + s)
	}
	return v
}

var (
	fieldR = bigFrom("21888242871839275222246405745257275088548364400416034343698204186575808495617")
	fieldP = bigFrom("21888242871839275222246405745257275088696311157297823662689037894645226208583")
	big0   = big.NewInt(0)
	big1   = big.NewInt(1)
)

func mix(h uint64, v uint64) uint64 {
	h ^= v
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	return h
}

func hashStr(s string) Hash {
	a, b := uint64(0x243F6A8885A308D3), uint64(0x13198A2E03707344)
	for len(s) >= 8 {
		v := binary.LittleEndian.Uint64([]byte(s[:8]))
		a = mix(a, v)
		b = mix(b, v^0xA4093822299F31D0)
		s = s[8:]
	}
	var v uint64 = uint64(len(s)) << 56
	for i := 0; i < len(s); i++ {
		v |= uint64(s[i]) << (8 * uint(i))
	}
	return Hash{mix(a, v), mix(b, v^0x082EFA98EC4E6C89)}
}

func (h Hash) add(o Hash) Hash {
	return Hash{mix(h[0], o[0]), mix(h[1], o[1]^0x452821E638D01377)}
}
func (h Hash) addU(v uint64) Hash {
	return Hash{mix(h[0], v), mix(h[1], v^0xBE5466CF34E90C6C)}
}
func (h Hash) String() string { return fmt.Sprintf("%016x%016x", h[0], h[1]) }

var opHash = map[string]Hash{}

func ophash(op string) Hash {
	h, ok := opHash[op]
	if !ok {
		h = hashStr("op:" + op)
		opHash[op] = h
	}
	return h
}

func mkNode(op string, k *big.Int, s string, args ...*Node) *Node {
	h := ophash(op)
	if k != nil {
		h = h.addU(uint64(k.Sign() + 2))
		for _, w := range k.Bits() {
			h = h.addU(uint64(w))
		}
	}
	if s != "" {
		h = h.add(hashStr(s))
	}
	for _, a := range args {
		h = h.add(a.H)
	}
	h = h.addU(uint64(len(args)))
	n := &Node{Op: op, Args: args, K: k, S: s, H: h}
	for _, a := range args {
		if a.In {
			n.In = true
			break
		}
	}
	if op == "leaf" && (strings.HasPrefix(s, "in:") || strings.HasPrefix(s, "hint:")) {
		n.In = true
	}
	return n
}

// constants --------------------------------------------------------------

var smallInts [1024]*Node

func Int(v int64) *Node {
	if v >= 0 && v < int64(len(smallInts)) {
		if smallInts[v] == nil {
			smallInts[v] = IntB(big.NewInt(v))
		}
		return smallInts[v]
	}
	return IntB(big.NewInt(v))
}
func IntB(v *big.Int) *Node {
	n := mkNode("int", v, "")
	n.Canon = v.Sign() >= 0 && v.Cmp(fieldR) < 0
	return n
}
func Str(s string) *Node { return mkNode("str", nil, "s:"+s) }
func (n *Node) strVal() string {
	return strings.TrimPrefix(n.S, "s:")
}

var (
	True  = mkNode("bool", nil, "t")
	False = mkNode("bool", nil, "f")
)

func Bool(b bool) *Node {
	if b {
		return True
	}
	return False
}

func (n *Node) isInt() bool   { return n.Op == "int" }
func (n *Node) isStr() bool   { return n.Op == "str" }
func (n *Node) isConst() bool { return n.Op == "int" || n.Op == "str" || n.Op == "bool" }

// Leaf makes an unconstrained symbolic value.
func Leaf(name string, canon bool) *Node {
	n := mkNode("leaf", nil, name)
	n.Canon = canon
	return n
}

func Opaque(op string, args ...*Node) *Node { return mkNode(op, nil, "", args...) }
func OpaqueS(op, s string, args ...*Node) *Node {
	return mkNode(op, nil, s, args...)
}

// booleans ---------------------------------------------------------------

func Not(a *Node) *Node {
	switch {
	case a == True || a.H == True.H:
		return False
	case a.H == False.H:
		return True
	case a.Op == "not":
		return a.Args[0]
	}
	return mkNode("not", nil, "", a)
}

// Gamma is the gated join: c ? a : b.
func Gamma(c, a, b *Node) *Node {
	if c.H == True.H {
		return a
	}
	if c.H == False.H {
		return b
	}
	if a.H == b.H {
		return a
	}
	if c.Op == "not" {
		return Gamma(c.Args[0], b, a)
	}
	if a.H == c.H {
		a = True
	} else if a.Op == "not" && a.Args[0].H == c.H {
		a = False
	}
	if b.H == c.H {
		b = False
	} else if b.Op == "not" && b.Args[0].H == c.H {
		b = True
	}
	if a.H == b.H {
		return a
	}
	if a.H == True.H && b.H == False.H {
		return c
	}
	if a.H == False.H && b.H == True.H {
		return Not(c)
	}
	if a.Op == "gamma" && a.Args[0].H == c.H {
		return Gamma(c, a.Args[1], b)
	}
	if b.Op == "gamma" && b.Args[0].H == c.H {
		return Gamma(c, a, b.Args[2])
	}
	n := mkNode("gamma", nil, "", c, a, b)
	n.Canon = a.Canon && b.Canon
	return n
}
func And(a, b *Node) *Node { return Gamma(a, b, False) }
func Or(a, b *Node) *Node  { return Gamma(a, True, b) }

// scalar field (circuit API) -----------------------------------------------

func modR(v *big.Int) *big.Int { return new(big.Int).Mod(v, fieldR) }

// Canonize is the residue mod r of an integer node.
func Canonize(a *Node) *Node {
	if a.Canon {
		return a
	}
	if a.isInt() {
		return IntB(modR(a.K))
	}
	if a.Op == "gamma" {
		if a.cz == nil {
			a.cz = Gamma(a.Args[0], Canonize(a.Args[1]), Canonize(a.Args[2]))
		}
		return a.cz
	}
	n := mkNode("imod", nil, "", a, IntB(fieldR))
	n.Canon = true
	return n
}

func FAdd(a, b *Node) *Node {
	a, b = Canonize(a), Canonize(b)
	if a.isInt() && b.isInt() {
		return IntB(modR(new(big.Int).Add(a.K, b.K)))
	}
	if a.isInt() && a.K.Sign() == 0 {
		return b
	}
	if b.isInt() && b.K.Sign() == 0 {
		return a
	}
	n := mkNode("fadd", nil, "", a, b)
	n.Canon = true
	return n
}
func FNeg(a *Node) *Node {
	a = Canonize(a)
	if a.isInt() {
		return IntB(modR(new(big.Int).Neg(a.K)))
	}
	n := mkNode("fneg", nil, "", a)
	n.Canon = true
	return n
}
func FSub(a, b *Node) *Node {
	a, b = Canonize(a), Canonize(b)
	if a.isInt() && b.isInt() {
		return IntB(modR(new(big.Int).Sub(a.K, b.K)))
	}
	if b.isInt() && b.K.Sign() == 0 {
		return a
	}
	if a.isInt() && a.K.Sign() == 0 {
		return FNeg(b)
	}
	n := mkNode("fsub", nil, "", a, b)
	n.Canon = true
	return n
}
func fpow(a *Node, k *big.Int) *Node {
	n := mkNode("fpow", k, "", a)
	n.Canon = true
	return n
}
func FMul(a, b *Node) *Node {
	a, b = Canonize(a), Canonize(b)
	if a.isInt() && b.isInt() {
		return IntB(modR(new(big.Int).Mul(a.K, b.K)))
	}
	for _, p := range [2][2]*Node{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		if x.isInt() {
			if x.K.Sign() == 0 {
				return Int(0)
			}
			if x.K.Cmp(big1) == 0 {
				return y
			}
		}
	}
	ab, ak := a, big1
	if a.Op == "fpow" {
		ab, ak = a.Args[0], a.K
	}
	bb, bk := b, big1
	if b.Op == "fpow" {
		bb, bk = b.Args[0], b.K
	}
	if ab.H == bb.H {
		return fpow(ab, new(big.Int).Add(ak, bk))
	}
	n := mkNode("fmul", nil, "", a, b)
	n.Canon = true
	return n
}
func FInv(a *Node) *Node {
	a = Canonize(a)
	if a.isInt() && a.K.Sign() != 0 {
		return IntB(new(big.Int).ModInverse(a.K, fieldR))
	}
	n := mkNode("finv", nil, "", a)
	n.Canon = true
	return n
}

// FOp is an API operation whose result is a canonical residue but that is not
// interpreted algebraically (comparisons, boolean gates, ...).
func FOp(op string, args ...*Node) *Node {
	for i := range args {
		args[i] = Canonize(args[i])
	}
	n := mkNode(op, nil, "", args...)
	n.Canon = true
	return n
}

// integers (math/big and machine integers) ---------------------------------

func IAdd(a, b *Node) *Node {
	if a.isInt() && b.isInt() {
		return IntB(new(big.Int).Add(a.K, b.K))
	}
	if a.isInt() && a.K.Sign() == 0 {
		return b
	}
	if b.isInt() && b.K.Sign() == 0 {
		return a
	}
	return mkNode("iadd", nil, "", a, b)
}
func ISub(a, b *Node) *Node {
	if a.isInt() && b.isInt() {
		return IntB(new(big.Int).Sub(a.K, b.K))
	}
	if b.isInt() && b.K.Sign() == 0 {
		return a
	}
	return mkNode("isub", nil, "", a, b)
}
func IMul(a, b *Node) *Node {
	if a.isInt() && b.isInt() {
		return IntB(new(big.Int).Mul(a.K, b.K))
	}
	for _, p := range [2][2]*Node{{a, b}, {b, a}} {
		if p[0].isInt() && p[0].K.Cmp(big1) == 0 {
			return p[1]
		}
		if p[0].isInt() && p[0].K.Sign() == 0 {
			return Int(0)
		}
	}
	return mkNode("imul", nil, "", a, b)
}

// IMod is the Euclidean modulus (big.Int.Mod).
func IMod(a, m *Node) *Node {
	if m.isInt() && m.K.Sign() > 0 {
		if a.isInt() {
			return IntB(new(big.Int).Mod(a.K, m.K))
		}
		if m.K.Cmp(fieldR) == 0 {
			return Canonize(a)
		}
		if a.Canon && m.K.Cmp(fieldR) > 0 {
			return a
		}
		if a.Op == "imod" && a.Args[1].H == m.H {
			return a
		}
	}
	return mkNode("imod", nil, "", a, m)
}

// nonNeg: the integer is certainly not negative.
func nonNeg(n *Node) bool {
	if n.Canon {
		return true
	}
	switch n.Op {
	case "int":
		return n.K.Sign() >= 0
	case "frombytes", "be", "byte", "hbyte":
		return true
	case "imod":
		return n.Args[1].isInt() && n.Args[1].K.Sign() > 0
	case "iadd", "imul", "idiv":
		return nonNeg(n.Args[0]) && nonNeg(n.Args[1])
	case "gamma":
		return nonNeg(n.Args[1]) && nonNeg(n.Args[2])
	}
	return false
}

// FpOf is the canonical base-field representative of an integer.
func FpOf(a *Node) *Node {
	if a.Op == "gamma" {
		return Gamma(a.Args[0], FpOf(a.Args[1]), FpOf(a.Args[2]))
	}
	return IMod(a, IntB(fieldP))
}

// bytes ---------------------------------------------------------------------

// ByteOf is byte j (little-endian index) of integer v.
func ByteOf(v *Node, j int) *Node {
	if v.isInt() {
		return Int(int64(new(big.Int).And(new(big.Int).Rsh(v.K, uint(8*j)), big.NewInt(255)).Int64()))
	}
	if v.Op == "frombytes" { // args big-endian
		n := len(v.Args)
		if j < n {
			return v.Args[n-1-j]
		}
		return Int(0)
	}
	n := mkNode("byte", big.NewInt(int64(j)), "", v)
	n.Canon = true
	return n
}

// FromBytes is the big-endian number made of the given bytes.
func FromBytes(bs []*Node) *Node {
	all := true
	for _, b := range bs {
		if !b.isInt() {
			all = false
		}
	}
	if all {
		v := new(big.Int)
		for _, b := range bs {
			v.Lsh(v, 8)
			v.Or(v, new(big.Int).And(b.K, big.NewInt(255)))
		}
		return IntB(v)
	}
	for len(bs) > 0 && bs[0].isInt() && bs[0].K.Sign() == 0 {
		bs = bs[1:]
	}
	// all 32 (or more) low bytes of a canonical value, in order
	if len(bs) >= 32 && bs[len(bs)-1].Op == "byte" {
		v := bs[len(bs)-1].Args[0]
		ok := fits256(v)
		for i := range bs {
			j := len(bs) - 1 - i
			if bs[i].Op != "byte" || bs[i].Args[0].H != v.H || bs[i].K.Int64() != int64(j) {
				ok = false
			}
		}
		if ok {
			return v
		}
	}
	if len(bs) == 1 && (bs[0].Op == "byte" || bs[0].Op == "hbyte") {
		return bs[0]
	}
	return mkNode("frombytes", nil, "", bs...)
}

func fits256(v *Node) bool {
	if v.Canon {
		return true
	}
	if v.Op == "imod" && v.Args[1].isInt() && v.Args[1].K.BitLen() <= 256 {
		return true
	}
	return v.Op == "frombytes" && len(v.Args) <= 32
}

// printing ------------------------------------------------------------------

func (n *Node) String() string { return n.str(4) }
func (n *Node) str(d int) string {
	switch n.Op {
	case "int":
		s := n.K.String()
		if len(s) > 14 {
			s = s[:6] + ".." + s[len(s)-4:]
		}
		return s
	case "str":
		return fmt.Sprintf("%q", n.strVal())
	case "bool":
		return map[string]string{"t": "true", "f": "false"}[n.S]
	case "leaf":
		return n.S
	}
	var sb strings.Builder
	sb.WriteString(n.Op)
	if n.S != "" {
		sb.WriteString("<" + n.S + ">")
	}
	if n.K != nil {
		sb.WriteString("[" + n.K.String() + "]")
	}
	if len(n.Args) > 0 {
		sb.WriteString("(")
		if d == 0 {
			sb.WriteString("...")
		} else {
			for i, a := range n.Args {
				if i > 0 {
					sb.WriteString(",")
				}
				if i >= 6 {
					sb.WriteString("...")
					break
				}
				sb.WriteString(a.str(d - 1))
			}
		}
		sb.WriteString(")")
	}
	return sb.String()
}
