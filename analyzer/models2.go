package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var g2Gen = [4]*big.Int{
	bigFrom("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
	bigFrom("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
	bigFrom("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
	bigFrom("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
}

func (in *Interp) retPtr(fr *Frame, instr ssa.Instruction, st *State, z Val, n Val) Val {
	p := in.ptr(st, z)
	in.store(fr, instr, st, p, n)
	return p
}

// big.Int -----------------------------------------------------------------------

func foldable(ns ...*Node) bool {
	for _, n := range ns {
		if !n.isInt() {
			return false
		}
	}
	return true
}

func (in *Interp) modelBig(fr *Frame, st *State, instr ssa.Instruction, m string, args []Val, cc *ssa.CallCommon) (Val, *State) {
	n := func(i int) *Node { return in.num(st, args[i]) }
	ret := func(x *Node) (Val, *State) { return in.retPtr(fr, instr, st, args[0], x), st }
	bin := func(f func(z, x, y *big.Int) *big.Int, op string, nz bool) (Val, *State) {
		x, y := n(1), n(2)
		if foldable(x, y) {
			if nz && y.K.Sign() == 0 {
				panic(deadReq{"division by zero"})
			}
			if r := f(new(big.Int), x.K, y.K); r != nil {
				return ret(IntB(r))
			}
		}
		return ret(Opaque(op, x, y))
	}
	switch m {
	case "Set":
		return ret(n(1))
	case "SetInt64", "SetUint64":
		return ret(nodeOr(in.resolve(st, args[1])))
	case "SetBytes":
		bs, ok := in.byteList(st, args[1])
		if !ok {
			return ret(Opaque("be", in.bytesNode(st, args[1])))
		}
		return ret(FromBytes(bs))
	case "Add":
		return ret(IAdd(n(1), n(2)))
	case "Sub":
		return ret(ISub(n(1), n(2)))
	case "Mul":
		return ret(IMul(n(1), n(2)))
	case "Mod":
		x, y := n(1), n(2)
		if y.isInt() && y.K.Sign() == 0 {
			panic(deadReq{"division by zero"})
		}
		return ret(IMod(x, y))
	case "Div":
		return bin(func(z, x, y *big.Int) *big.Int { return z.Div(x, y) }, "idiv", true)
	case "Quo":
		if y := n(2); y.isInt() && y.K.Sign() > 0 && nonNeg(n(1)) {
			return bin(func(z, x, y *big.Int) *big.Int { return z.Div(x, y) }, "idiv", true)
		}
		return bin(func(z, x, y *big.Int) *big.Int { return z.Quo(x, y) }, "iquo", true)
	case "Rem":
		if y := n(2); y.isInt() && y.K.Sign() > 0 && nonNeg(n(1)) {
			return ret(IMod(n(1), y))
		}
		return bin(func(z, x, y *big.Int) *big.Int { return z.Rem(x, y) }, "irem", true)
	case "And":
		return bin(func(z, x, y *big.Int) *big.Int { return z.And(x, y) }, "iand", false)
	case "Or":
		return bin(func(z, x, y *big.Int) *big.Int { return z.Or(x, y) }, "ior", false)
	case "Xor":
		return bin(func(z, x, y *big.Int) *big.Int { return z.Xor(x, y) }, "ixor", false)
	case "DivMod", "QuoRem":
		x, y := n(1), n(2)
		if y.isInt() && y.K.Sign() == 0 {
			panic(deadReq{"division by zero"})
		}
		var q, r *Node
		if foldable(x, y) {
			a, b := new(big.Int), new(big.Int)
			if m == "DivMod" {
				a.DivMod(x.K, y.K, b)
			} else {
				a.QuoRem(x.K, y.K, b)
			}
			q, r = IntB(a), IntB(b)
		} else if m == "DivMod" || y.isInt() && y.K.Sign() > 0 && nonNeg(x) {
			q, r = Opaque("idiv", x, y), IMod(x, y)
		} else {
			q, r = Opaque("iquo", x, y), Opaque("irem", x, y)
		}
		z := in.retPtr(fr, instr, st, args[0], q)
		w := in.retPtr(fr, instr, st, args[3], r)
		return tuple(z, w), st
	case "Neg":
		return ret(ISub(Int(0), n(1)))
	case "Abs":
		x := n(1)
		if x.isInt() {
			return ret(IntB(new(big.Int).Abs(x.K)))
		}
		if x.Canon {
			return ret(x)
		}
		return ret(Opaque("iabs", x))
	case "Not":
		return ret(ISub(Int(-1), n(1)))
	case "Lsh", "Rsh":
		x := n(1)
		k := nodeOr(in.resolve(st, args[2]))
		if k.isInt() && k.K.IsInt64() && k.K.Int64() < 1<<16 {
			kk := uint(k.K.Int64())
			if m == "Lsh" {
				return ret(IMul(x, IntB(new(big.Int).Lsh(big1, kk))))
			}
			if x.isInt() {
				return ret(IntB(new(big.Int).Rsh(x.K, kk)))
			}
			return ret(Opaque("idiv", x, IntB(new(big.Int).Lsh(big1, kk))))
		}
		return ret(Opaque("i"+strings.ToLower(m), x, k))
	case "Exp":
		x, y := n(1), n(2)
		var mm *Node
		if p, ok := in.concrete(st, args[3]).(*Ptr); ok && p.O == nil {
			mm = Int(0)
		} else {
			mm = n(3)
		}
		if foldable(x, y, mm) && (mm.K.Sign() != 0 || y.K.BitLen() < 20) {
			return ret(IntB(new(big.Int).Exp(x.K, y.K, mm.K)))
		}
		if mm.isInt() && mm.K.Cmp(fieldR) == 0 && y.isInt() && y.K.Sign() > 0 {
			return ret(fpow(Canonize(x), y.K))
		}
		return ret(Opaque("iexp", x, y, mm))
	case "ModInverse":
		x, y := n(1), n(2)
		if foldable(x, y) && y.K.Sign() != 0 {
			if r := new(big.Int).ModInverse(x.K, y.K); r != nil {
				return ret(IntB(r))
			}
			return nilPtr, st
		}
		if y.isInt() && y.K.Cmp(fieldR) == 0 {
			c := eqNodes(Canonize(x), Int(0))
			p := in.ptr(st, args[0])
			old := in.load(st, p)
			in.store(fr, instr, st, p, joinVal(c, old, FInv(x)))
			return joinVal(c, nilPtr, p), st
		}
		return ret(Opaque("imodinv", x, y))
	case "SetBit":
		x := n(1)
		if i, ok := in.intArg(st, args[2]); ok {
			if b, ok := in.intArg(st, args[3]); ok && x.isInt() {
				return ret(IntB(new(big.Int).SetBit(x.K, i, uint(b))))
			}
		}
		return ret(Opaque("isetbit", x, nodeOr(args[2]), nodeOr(args[3])))
	case "Bit":
		x := n(0)
		if i, ok := in.intArg(st, args[1]); ok {
			if x.isInt() {
				return Int(int64(x.K.Bit(i))), st
			}
			return mkNode("bit", big.NewInt(int64(i)), "", x), st
		}
	case "SetString":
		s := nodeOr(in.resolve(st, args[1]))
		base, okb := in.intArg(st, args[2])
		var v *Node
		cond := False
		switch {
		case s.isStr() && okb:
			k, ok := new(big.Int).SetString(s.strVal(), base)
			if !ok {
				cond = True
				v = Int(0)
			} else {
				v = IntB(k)
			}
		case s.Op == "dec" && okb && (base == 10 || base == 0):
			v = s.Args[0]
		case s.Op == "hex64" && okb && base == 16:
			v = s.Args[0]
		default:
			v = Opaque("parse", s, nodeOr(args[2]))
			cond = Opaque("fails-parse", s, nodeOr(args[2]))
		}
		p := in.ptr(st, args[0])
		if cond.H != False.H {
			st.event(&Event{Kind: "fallible", S: "(*big.Int).SetString", Nodes: []*Node{cond}, Site: in.site(fr, instr)})
		}
		old := in.load(st, p)
		on, ok := old.(*Node)
		if !ok {
			on = Opaque("?")
		}
		in.store(fr, instr, st, p, Gamma(cond, on, v))
		return tuple(joinVal(cond, nilPtr, p), Not(cond)), st
	case "Cmp":
		x, y := n(0), n(1)
		return cmpNode(x, y), st
	case "CmpAbs":
		x, y := n(0), n(1)
		if foldable(x, y) {
			return Int(int64(x.K.CmpAbs(y.K))), st
		}
		return cmpNode(Opaque("iabs", x), Opaque("iabs", y)), st
	case "Sign":
		x := n(0)
		if x.isInt() {
			return Int(int64(x.K.Sign())), st
		}
		return cmpNode(x, Int(0)), st
	case "Int64", "Uint64":
		x := n(0)
		if x.isInt() {
			if m == "Int64" {
				return Int(x.K.Int64()), st
			}
			return IntB(new(big.Int).SetUint64(x.K.Uint64())), st
		}
		if x.Op == "byte" || x.Op == "hbyte" || x.Op == "bit" {
			return x, st
		}
		return mkNode("trunc", big.NewInt(64), m, x), st
	case "IsInt64", "IsUint64":
		x := n(0)
		if x.isInt() {
			return Bool(m == "IsInt64" && x.K.IsInt64() || m == "IsUint64" && x.K.IsUint64()), st
		}
		return Opaque("is"+m, x), st
	case "BitLen":
		x := n(0)
		if x.isInt() {
			return Int(int64(x.K.BitLen())), st
		}
		return Opaque("bitlen", x), st
	case "Bytes":
		x := n(0)
		if x.isInt() {
			var el []*Node
			for _, b := range x.K.Bytes() {
				el = append(el, Int(int64(b)))
			}
			return in.bytesSlice(el), st
		}
		return &SymBytes{N: Opaque("minbytes", x)}, st
	case "FillBytes":
		x := n(0)
		sl, ok := in.concrete(st, args[1]).(*Slice)
		if !ok {
			break
		}
		if x.isInt() && (x.K.BitLen()+7)/8 > sl.Len {
			panic(deadReq{"FillBytes: value too large"})
		}
		if !x.isInt() && sl.Len < 32 {
			st.event(&Event{Kind: "fallible-panic", S: "FillBytes", Nodes: []*Node{x}, Site: in.site(fr, instr)})
		}
		el := make([]Val, sl.Len)
		for i := range el {
			el[i] = ByteOf(x, sl.Len-1-i)
		}
		in.writeSlice(fr, instr, st, sl, 0, el)
		return sl, st
	case "String":
		x := n(0)
		if x.isInt() {
			return Str(x.K.String()), st
		}
		return mkNode("dec", nil, "", x), st
	case "Text":
		x := n(0)
		b, ok := in.intArg(st, args[1])
		if ok && x.isInt() && b >= 2 && b <= 62 {
			return Str(x.K.Text(b)), st
		}
		if ok && b == 10 {
			return mkNode("dec", nil, "", x), st
		}
		return Opaque("text", x, nodeOr(args[1])), st
	}
	return in.unknownCall(fr, st, instr, "(*big.Int)."+m, args, cc), st
}

func cmpNode(x, y *Node) *Node {
	if foldable(x, y) {
		return Int(int64(x.K.Cmp(y.K)))
	}
	if x.H == y.H {
		return Int(0)
	}
	return Opaque("cmp", x, y)
}

// prime field elements -------------------------------------------------------------

func (in *Interp) modelElement(fr *Frame, st *State, instr ssa.Instruction, m string, args []Val, cc *ssa.CallCommon, q *big.Int) (Val, *State) {
	red := func(x *Node) *Node {
		if q == fieldR {
			return Canonize(x)
		}
		return FpOf(x)
	}
	Q := IntB(q)
	n := func(i int) *Node { return in.num(st, args[i]) }
	ret := func(x *Node) (Val, *State) { return in.retPtr(fr, instr, st, args[0], x), st }
	switch m {
	case "SetInterface":
		return in.setInterface(fr, st, instr, args, q)
	case "SetBigInt", "Set", "SetUint64", "SetInt64":
		return ret(red(n(1)))
	case "SetZero":
		return ret(Int(0))
	case "SetOne":
		return ret(Int(1))
	case "SetBytes":
		bs, ok := in.byteList(st, args[1])
		if !ok {
			return ret(red(Opaque("be", in.bytesNode(st, args[1]))))
		}
		return ret(red(FromBytes(bs)))
	case "Unmarshal":
		bs, ok := in.byteList(st, args[1])
		if !ok {
			break
		}
		in.retPtr(fr, instr, st, args[0], red(FromBytes(bs)))
		return nil, st
	case "SetString":
		s := nodeOr(in.resolve(st, args[1]))
		var v *Node
		cond := False
		switch {
		case s.isStr():
			k, ok := new(big.Int).SetString(s.strVal(), 0)
			if !ok {
				cond, v = True, Int(0)
			} else {
				v = red(IntB(k))
			}
		case s.Op == "dec":
			v = red(s.Args[0])
		default:
			v = red(Opaque("parse", s, Int(0)))
			cond = Opaque("fails-parse", s, Int(0))
		}
		p := in.ptr(st, args[0])
		old := in.num(st, p)
		in.store(fr, instr, st, p, Gamma(cond, old, v))
		return tuple(joinVal(cond, nilPtr, p), in.fail(fr, instr, st, "Element.SetString", cond)), st
	case "Add":
		return ret(IMod(IAdd(n(1), n(2)), Q))
	case "Sub":
		return ret(IMod(ISub(n(1), n(2)), Q))
	case "Mul":
		return ret(IMod(IMul(n(1), n(2)), Q))
	case "Square":
		return ret(IMod(IMul(n(1), n(1)), Q))
	case "Double":
		return ret(IMod(IMul(n(1), Int(2)), Q))
	case "Neg":
		return ret(IMod(ISub(Int(0), n(1)), Q))
	case "Inverse":
		x := n(1)
		if x.isInt() {
			if x.K.Sign() == 0 {
				return ret(Int(0))
			}
			return ret(IntB(new(big.Int).ModInverse(x.K, q)))
		}
		return ret(IMod(Opaque("modinv", x, Q), Q))
	case "Div":
		x, y := n(1), n(2)
		if y.isInt() && y.K.Sign() != 0 {
			return ret(IMod(IMul(x, IntB(new(big.Int).ModInverse(y.K, q))), Q))
		}
		return ret(IMod(IMul(x, Opaque("modinv", y, Q)), Q))
	case "Exp":
		x, k := n(1), n(2)
		if foldable(x, k) && k.K.Sign() >= 0 {
			return ret(IntB(new(big.Int).Exp(x.K, k.K, q)))
		}
		if q == fieldR && k.isInt() && k.K.Sign() > 0 {
			return ret(fpow(Canonize(x), k.K))
		}
		return ret(IMod(Opaque("iexp", x, k, Q), Q))
	case "BigInt", "ToBigIntRegular", "ToBigInt":
		x := n(0)
		p := in.ptr(st, args[1])
		in.store(fr, instr, st, p, x)
		return p, st
	case "Bytes", "Marshal":
		x := n(0)
		var bs []*Node
		for j := 31; j >= 0; j-- {
			bs = append(bs, ByteOf(x, j))
		}
		if m == "Marshal" {
			return in.bytesSlice(bs), st
		}
		return &Agg{E: nodeVals(bs)}, st
	case "String":
		x := n(0)
		if x.isInt() {
			// gnark-crypto prints small negatives with a minus sign; keep it abstract unless small
			if x.K.BitLen() < 64 {
				return Str(x.K.String()), st
			}
			return OpaqueS("fn", "Element.String", x), st
		}
		return OpaqueS("fn", "Element.String", x), st
	case "Equal":
		return eqNodes(n(0), n(1)), st
	case "IsZero":
		return eqNodes(n(0), Int(0)), st
	case "IsOne":
		return eqNodes(n(0), Int(1)), st
	case "Cmp":
		return cmpNode(n(0), n(1)), st
	case "IsUint64":
		x := n(0)
		if x.isInt() {
			return Bool(x.K.IsUint64()), st
		}
		return Opaque("isIsUint64", x), st
	case "Uint64":
		x := n(0)
		if x.isInt() {
			return IntB(new(big.Int).SetUint64(x.K.Uint64())), st
		}
		return mkNode("trunc", big.NewInt(64), "Uint64", x), st
	}
	return in.unknownCall(fr, st, instr, "Element."+m, args, cc), st
}

func (in *Interp) setInterface(fr *Frame, st *State, instr ssa.Instruction, args []Val, q *big.Int) (Val, *State) {
	red := FpOf
	if q == fieldR {
		red = Canonize
	}
	p := in.ptr(st, args[0])
	v := in.resolve(st, args[1])
	var node *Node
	cond := False
	switch x := v.(type) {
	case *GammaV:
		node = in.varNode(st, x)
		if node == nil {
			panic(splitReq{x.C})
		}
	case *Iface:
		switch {
		case x.T == nil || x.T == errMarker || x.T == apiMarker || x.T == objMarker:
			cond = True
		case x.T == opaqueMarker:
			node = nodeOr(x.V)
			cond = Opaque("unreadable", node)
		default:
			other := tFr
			if q == fieldR {
				other = tFp
			}
			t := types.Unalias(x.T)
			if pt, ok := t.(*types.Pointer); ok {
				t = types.Unalias(pt.Elem())
				if pp, ok := in.resolve(st, x.V).(*Ptr); ok && pp.O == nil {
					cond = True
				}
			}
			k := typeKey(t)
			_, isBasic := t.(*types.Basic)
			_, isSlice := t.Underlying().(*types.Slice)
			if k == other || !(isBasic || isSlice || k == "math/big.Int" || k == tFp || k == tFr) {
				cond = True
			}
			if cond.H == False.H {
				node = in.varNode(st, x)
				if node == nil {
					node = Opaque("parse", in.summary(st, x.V, 0), Int(0))
					if n, ok := x.V.(*Node); ok && n.isStr() {
						cond = True // not a number
					} else {
						cond = Opaque("unreadable", node)
					}
				}
			}
		}
	default:
		node = in.summary(st, v, 0)
		cond = Opaque("unreadable", node)
	}
	if node != nil && node.In {
		st.event(&Event{Kind: "inspect", S: "converted to a native number", Nodes: []*Node{node}, Site: in.site(fr, instr)})
		if cond.H == False.H {
			cond = Opaque("unreadable", node)
		}
	}
	if node == nil {
		node = Int(0)
	}
	old := in.num(st, p)
	nv := red(node)
	in.store(fr, instr, st, p, Gamma(cond, old, nv))
	err := in.fail(fr, instr, st, "Element.SetInterface", cond)
	return tuple(joinVal(cond, nilPtr, p), err), st
}

// buffers and regular expressions ------------------------------------------------------

func (in *Interp) modelBuf(fr *Frame, st *State, instr ssa.Instruction, m string, args []Val, cc *ssa.CallCommon) (Val, *State) {
	p := in.ptr(st, args[0])
	sp, ok := in.concrete(st, in.load(st, p)).(*Special)
	if !ok {
		return in.unknownCall(fr, st, instr, "Buffer."+m, args, cc), st
	}
	put := func(ns *Special) { in.store(fr, instr, st, p, ns) }
	switch m {
	case "Write", "WriteString":
		bs, ok := in.byteList(st, args[1])
		if !ok {
			put(&Special{Kind: "buf", N: Opaque("cat", nodeOrNil(sp.N), in.bytesNode(st, args[1])), L: sp.L})
			return tuple(Opaque("len", in.bytesNode(st, args[1])), nilIface), st
		}
		put(&Special{Kind: "buf", N: sp.N, L: append(append([]Val(nil), sp.L...), nodeVals(bs)...)})
		return tuple(Int(int64(len(bs))), nilIface), st
	case "WriteByte":
		put(&Special{Kind: "buf", N: sp.N, L: append(append([]Val(nil), sp.L...), args[1])})
		return nilIface, st
	case "Bytes":
		if sp.N != nil {
			return &SymBytes{N: Opaque("buf", append([]*Node{sp.N}, flatNodes(&Agg{E: sp.L})...)...)}, st
		}
		return in.newSlice(types.Typ[types.Uint8], append([]Val(nil), sp.L...)), st
	case "Len":
		if sp.N == nil {
			return Int(int64(len(sp.L))), st
		}
		return Opaque("len", sp.N), st
	case "Reset":
		put(&Special{Kind: "buf"})
		return nil, st
	case "Grow":
		return nil, st
	case "Truncate":
		if k, ok := in.intArg(st, args[1]); ok && sp.N == nil && k >= 0 && k <= len(sp.L) {
			put(&Special{Kind: "buf", L: append([]Val(nil), sp.L[:k]...)})
			return nil, st
		}
	case "String":
		if sp.N == nil {
			var sb []byte
			for _, e := range sp.L {
				n := nodeOr(e)
				if !n.isInt() {
					return Opaque("strofbytes", flatNodes(&Agg{E: sp.L})...), st
				}
				sb = append(sb, byte(n.K.Int64()))
			}
			return Str(string(sb)), st
		}
	}
	return in.unknownCall(fr, st, instr, "Buffer."+m, args, cc), st
}

func (in *Interp) modelRegexp(fr *Frame, st *State, instr ssa.Instruction, m string, args []Val, cc *ssa.CallCommon) (Val, *State) {
	p := in.ptr(st, args[0])
	sp, _ := in.load(st, p).(*Special)
	if sp != nil && sp.N != nil && sp.N.isStr() {
		if re, err := regexp.Compile(sp.N.strVal()); err == nil {
			s := nodeOr(in.resolve(st, args[1]))
			switch m {
			case "FindStringSubmatch", "FindString", "MatchString":
				out, ok := strFunc(func(a []string) []string {
					switch m {
					case "MatchString":
						return b2s(re.MatchString(a[0]))
					case "FindString":
						return []string{re.FindString(a[0])}
					}
					return re.FindStringSubmatch(a[0])
				}, []*Node{s})
				if ok {
					switch m {
					case "MatchString":
						return Bool(out[0].strVal() == "true"), st
					case "FindString":
						return out[0], st
					}
					if len(out) == 0 {
						return nilSlice, st
					}
					return in.newSlice(types.Typ[types.String], nodeVals(out)), st
				}
				if m == "FindStringSubmatch" && s.Op == "leaf" {
					// arbitrary text: no match, or one string per group
					c := OpaqueS("nomatch", sp.N.strVal(), s)
					var el []*Node
					for i := 0; i <= re.NumSubexp(); i++ {
						el = append(el, OpaqueS("group", fmt.Sprint(i), s))
					}
					st.event(&Event{Kind: "fallible", S: "regexp match", Nodes: []*Node{c}, Site: in.site(fr, instr)})
					return joinVal(c, nilSlice, in.newSlice(types.Typ[types.String], nodeVals(el))), st
				}
			}
		}
	}
	return in.unknownCall(fr, st, instr, "Regexp."+m, args, cc), st
}

// native BN254 group ---------------------------------------------------------------------

func (in *Interp) g1(st *State, v Val) (*Node, *Node) {
	p := in.ptr(st, v)
	a, ok := in.concrete(st, in.load(st, p)).(*Agg)
	if !ok || len(a.E) < 2 {
		panic(incomplete{"native G1 point"})
	}
	return in.elemNode(st, a.E[0]), in.elemNode(st, a.E[1])
}

func (in *Interp) modelG1Affine(fr *Frame, st *State, instr ssa.Instruction, m string, args []Val, cc *ssa.CallCommon) (Val, *State) {
	pt := func(i int) *Node { x, y := in.g1(st, args[i]); return Pt(x, y) }
	ret := func(g *Node) (Val, *State) {
		p := in.ptr(st, args[0])
		in.store(fr, instr, st, p, &Agg{E: []Val{CX(g), CY(g)}})
		return p, st
	}
	switch m {
	case "IsOnCurve", "IsInSubGroup":
		v := in.concrete(st, args[0])
		var x, y *Node
		if a, ok := v.(*Agg); ok {
			x, y = in.elemNode(st, a.E[0]), in.elemNode(st, a.E[1])
		} else {
			x, y = in.g1(st, v)
		}
		c := onCurve(x, y)
		if c.Op != "bool" {
			st.event(&Event{Kind: "fallible", S: "G1Affine." + m, Nodes: []*Node{Not(c)}, Site: in.site(fr, instr)})
		} else if c.H == False.H {
			st.event(&Event{Kind: "fallible", S: "G1Affine." + m, Nodes: []*Node{True}, Site: in.site(fr, instr)})
		}
		return c, st
	case "IsInfinity":
		x, y := in.g1(st, args[0])
		return And(eqNodes(x, Int(0)), eqNodes(y, Int(0))), st
	case "Set":
		return ret(pt(1))
	case "Neg":
		return ret(Opaque("gneg", pt(1)))
	case "Add":
		return ret(Opaque("gadd", pt(1), pt(2)))
	case "Sub":
		return ret(Opaque("gadd", pt(1), Opaque("gneg", pt(2))))
	case "Double":
		g := pt(1)
		return ret(Opaque("gadd", g, g))
	case "ScalarMultiplication":
		return ret(Opaque("gmul", in.num(st, args[2]), pt(1)))
	case "ScalarMultiplicationBase":
		return ret(Opaque("gmul", in.num(st, args[1]), Pt(Int(1), Int(2))))
	case "Equal":
		a, b := pt(0), pt(1)
		return And(eqNodes(CX(a), CX(b)), eqNodes(CY(a), CY(b))), st
	case "String":
		return OpaqueS("fn", "G1Affine.String", pt(0)), st
	}
	return in.unknownCall(fr, st, instr, "G1Affine."+m, args, cc), st
}

// Fp2 arithmetic for constant G2 points.
type fp2 [2]*big.Int

func (a fp2) mul(b fp2) fp2 {
	t := func(x *big.Int) *big.Int { return x.Mod(x, fieldP) }
	r0 := new(big.Int).Sub(new(big.Int).Mul(a[0], b[0]), new(big.Int).Mul(a[1], b[1]))
	r1 := new(big.Int).Add(new(big.Int).Mul(a[0], b[1]), new(big.Int).Mul(a[1], b[0]))
	return fp2{t(r0), t(r1)}
}
func (a fp2) add(b fp2) fp2 {
	return fp2{new(big.Int).Mod(new(big.Int).Add(a[0], b[0]), fieldP), new(big.Int).Mod(new(big.Int).Add(a[1], b[1]), fieldP)}
}
func (a fp2) eq(b fp2) bool { return a[0].Cmp(b[0]) == 0 && a[1].Cmp(b[1]) == 0 }

var twistB = fp2{
	bigFrom("19485874751759354771024239261021720505790618469301721065564631296452457478373"),
	bigFrom("266929791119991161246907387137283842545076965332900288569378510910307636690"),
}

func g2OnCurve(x, y, z fp2) bool {
	z2 := z.mul(z)
	z6 := z2.mul(z2).mul(z2)
	return y.mul(y).eq(x.mul(x).mul(x).add(twistB.mul(z6)))
}

func constFp2(ns []*Node) (fp2, bool) {
	if len(ns) == 2 && ns[0].isInt() && ns[1].isInt() {
		return fp2{ns[0].K, ns[1].K}, true
	}
	return fp2{}, false
}

func (in *Interp) modelG2(fr *Frame, st *State, instr ssa.Instruction, recv, m string, args []Val, cc *ssa.CallCommon) (Val, *State) {
	switch recv + "." + m {
	case "fptower.E2.SetString":
		var el []Val
		for i := 1; i <= 2; i++ {
			s := nodeOr(in.resolve(st, args[i]))
			if !s.isStr() {
				return in.unknownCall(fr, st, instr, recv+"."+m, args, cc), st
			}
			k, ok := new(big.Int).SetString(s.strVal(), 0)
			if !ok {
				st.event(&Event{Kind: "fallible", S: "E2.SetString", Nodes: []*Node{True}, Site: in.site(fr, instr)})
				k = new(big.Int)
			}
			el = append(el, FpOf(IntB(k)))
		}
		p := in.ptr(st, args[0])
		in.store(fr, instr, st, p, &Agg{E: el})
		return p, st
	case "fptower.E2.Set":
		p := in.ptr(st, args[0])
		in.store(fr, instr, st, p, in.load(st, in.ptr(st, args[1])))
		return p, st
	case "fptower.E2.SetOne":
		p := in.ptr(st, args[0])
		in.store(fr, instr, st, p, &Agg{E: []Val{Int(1), Int(0)}})
		return p, st
	case "fptower.E2.SetZero":
		p := in.ptr(st, args[0])
		in.store(fr, instr, st, p, &Agg{E: []Val{Int(0), Int(0)}})
		return p, st
	case "fptower.E2.Neg":
		p := in.ptr(st, args[0])
		ns := flatNodes(in.load(st, in.ptr(st, args[1])))
		if len(ns) == 2 {
			in.store(fr, instr, st, p, &Agg{E: []Val{IMod(ISub(Int(0), ns[0]), IntB(fieldP)), IMod(ISub(Int(0), ns[1]), IntB(fieldP))}})
			return p, st
		}
	case "bn254.G2Affine.Neg":
		p := in.ptr(st, args[0])
		ns := flatNodes(in.load(st, in.ptr(st, args[1])))
		if len(ns) == 4 {
			in.store(fr, instr, st, p, &Agg{E: []Val{&Agg{E: []Val{ns[0], ns[1]}},
				&Agg{E: []Val{IMod(ISub(Int(0), ns[2]), IntB(fieldP)), IMod(ISub(Int(0), ns[3]), IntB(fieldP))}}}})
			return p, st
		}
	case "bn254.G2Affine.Set", "bn254.G2Jac.Set":
		p := in.ptr(st, args[0])
		in.store(fr, instr, st, p, in.load(st, in.ptr(st, args[1])))
		return p, st
	case "bn254.G2Jac.FromAffine":
		p := in.ptr(st, args[0])
		if a, ok := in.load(st, in.ptr(st, args[1])).(*Agg); ok && len(a.E) == 2 {
			in.store(fr, instr, st, p, &Agg{E: []Val{a.E[0], a.E[1], &Agg{E: []Val{Int(1), Int(0)}}}})
			return p, st
		}
	case "bn254.G2Affine.FromJacobian":
		p := in.ptr(st, args[0])
		a, ok := in.concrete(st, in.load(st, in.ptr(st, args[1]))).(*Agg)
		if ok && len(a.E) == 3 {
			z := flatNodes(a.E[2])
			if len(z) == 2 && z[0].isInt() && z[1].isInt() && z[0].K.Cmp(big1) == 0 && z[1].K.Sign() == 0 {
				in.store(fr, instr, st, p, &Agg{E: []Val{a.E[0], a.E[1]}})
				return p, st
			}
			ns := flatNodes(a)
			f := func(i int) *Node { return OpaqueS("jac2aff", fmt.Sprint(i), ns...) }
			in.store(fr, instr, st, p, &Agg{E: []Val{&Agg{E: []Val{f(0), f(1)}}, &Agg{E: []Val{f(2), f(3)}}}})
			return p, st
		}
	case "bn254.G2Affine.IsOnCurve", "bn254.G2Jac.IsOnCurve", "bn254.G2Affine.IsInSubGroup", "bn254.G2Jac.IsInSubGroup":
		ns := flatNodes(in.concrete(st, in.valOrDeref(st, args[0])))
		if len(ns) >= 4 {
			x, okx := constFp2(ns[0:2])
			y, oky := constFp2(ns[2:4])
			z, okz := fp2{big.NewInt(1), big.NewInt(0)}, true
			if len(ns) == 6 {
				z, okz = constFp2(ns[4:6])
			}
			if okx && oky && okz {
				c := Bool(g2OnCurve(x, y, z))
				if c.H == False.H {
					st.event(&Event{Kind: "fallible", S: recv + "." + m, Nodes: []*Node{True}, Site: in.site(fr, instr)})
				}
				return c, st
			}
		}
		c := Opaque("g2oncurve", ns...)
		st.event(&Event{Kind: "fallible", S: recv + "." + m, Nodes: []*Node{Not(c)}, Site: in.site(fr, instr)})
		return c, st
	}
	return in.unknownCall(fr, st, instr, recv+"."+m, args, cc), st
}

// go-ethereum bn256.G1 -------------------------------------------------------------------

func (in *Interp) modelBn256(fr *Frame, st *State, instr ssa.Instruction, m string, args []Val, cc *ssa.CallCommon) (Val, *State) {
	g := func(i int) *Node {
		n := in.num(st, args[i])
		if n.Op == "g1" && n.S == "zero" {
			panic(deadReq{"nil bn256 point"})
		}
		return n
	}
	ret := func(x *Node) (Val, *State) { return in.retPtr(fr, instr, st, args[0], x), st }
	switch m {
	case "Unmarshal":
		bs, ok := in.byteList(st, args[1])
		if !ok {
			break
		}
		if len(bs) < 64 {
			return tuple(nilSlice, in.fail(fr, instr, st, "G1.Unmarshal", True)), st
		}
		x, y := FromBytes(bs[:32]), FromBytes(bs[32:64])
		ok1 := onCurve(x, y)
		cond := Not(ok1)
		if !(x.isInt() && y.isInt()) {
			cond = Not(Opaque("g1valid", x, y))
		}
		p := in.ptr(st, args[0])
		old := in.num(st, p)
		in.store(fr, instr, st, p, Gamma(cond, Opaque("garbage", old), Pt(x, y)))
		rest := in.bytesSlice(bs[64:])
		return tuple(joinVal(cond, nilSlice, rest), in.fail(fr, instr, st, "G1.Unmarshal", cond)), st
	case "ScalarMult":
		return ret(Opaque("gmul", in.num(st, args[2]), g(1)))
	case "ScalarBaseMult":
		return ret(Opaque("gmul", in.num(st, args[1]), Pt(Int(1), Int(2))))
	case "Add":
		return ret(Opaque("gadd", g(1), g(2)))
	case "Neg":
		return ret(Opaque("gneg", g(1)))
	case "Set":
		return ret(g(1))
	case "Marshal":
		x := g(0)
		var bs []*Node
		for _, c := range []*Node{CX(x), CY(x)} {
			for j := 31; j >= 0; j-- {
				bs = append(bs, ByteOf(c, j))
			}
		}
		return in.bytesSlice(bs), st
	case "String":
		x := g(0)
		h := func(n *Node) *Node {
			if n.isInt() {
				b := make([]byte, 32)
				n.K.FillBytes(b)
				return Str(hex.EncodeToString(b))
			}
			return mkNode("hex64", nil, "", n)
		}
		s := StrCat(Str("bn256.G1("), h(CX(x)))
		s = StrCat(s, Str(", "))
		s = StrCat(s, h(CY(x)))
		return StrCat(s, Str(")")), st
	}
	return in.unknownCall(fr, st, instr, "bn256.G1."+m, args, cc), st
}
