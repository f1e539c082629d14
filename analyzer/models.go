package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Transfer functions of the libraries the repository uses.
// ---------------------------------------------------------------------------

var pathRe = regexp.MustCompile(`([A-Za-z0-9_.@~-]+/)+`)
var shortCache = map[string]string{}

// short keeps the last element of every package path in a full name.
func short(name string) string {
	s, ok := shortCache[name]
	if !ok {
		s = pathRe.ReplaceAllString(name, "")
		shortCache[name] = s
	}
	return s
}

func (in *Interp) pkgType(path, name string) types.Type {
	key := path + "." + name
	if t, ok := in.typeCache[key]; ok {
		return t
	}
	var found types.Type
	seen := map[*types.Package]bool{}
	var walk func(p *types.Package)
	walk = func(p *types.Package) {
		if seen[p] || found != nil {
			return
		}
		seen[p] = true
		if p.Path() == path {
			if o := p.Scope().Lookup(name); o != nil {
				found = o.Type()
			}
			return
		}
		for _, i := range p.Imports() {
			walk(i)
		}
	}
	walk(in.P.Types)
	in.typeCache[key] = found
	return found
}

func (in *Interp) bigPtrT() types.Type {
	t := in.pkgType("math/big", "Int")
	if t == nil {
		t = opaqueMarker
	}
	return types.NewPointer(t)
}

func (in *Interp) bigPtr(n *Node) *Ptr {
	return &Ptr{O: in.newObj(in.bigPtrT().(*types.Pointer).Elem(), "big", n)}
}

// apiVar wraps a node as a circuit variable.
func (in *Interp) apiVar(n *Node) *Iface { return &Iface{T: in.bigPtrTc, V: in.bigPtr(n)} }

func (in *Interp) varNode(st *State, v Val) *Node { return in.varNodeM(st, v, nil) }

// varNodeM remembers the gates looked at: gated values share their parts.
func (in *Interp) varNodeM(st *State, v Val, memo map[*GammaV]*Node) *Node {
	v = in.resolve(st, v)
	switch x := v.(type) {
	case *GammaV:
		if n, ok := memo[x]; ok {
			return n
		}
		if memo == nil {
			memo = map[*GammaV]*Node{}
		}
		var n *Node
		if a := in.varNodeM(st, x.A, memo); a != nil {
			if b := in.varNodeM(st, x.B, memo); b != nil {
				n = Gamma(x.C, a, b)
			}
		}
		memo[x] = n
		return n
	case *Node:
		return x
	case *Iface:
		if x.T == nil || x.T == errMarker || x.T == apiMarker || x.T == objMarker {
			return nil
		}
		if x.T == opaqueMarker {
			n, _ := x.V.(*Node)
			return n
		}
		if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			n, ok := in.resolve(st, x.V).(*Node)
			if !ok {
				return nil
			}
			if n.isStr() {
				if k, ok := new(big.Int).SetString(n.strVal(), 0); ok {
					return IntB(k)
				}
				return nil
			}
			if n.Op == "dec" {
				return n.Args[0]
			}
			return OpaqueS("conv", "atoi", n)
		}
		return in.numNode(st, x.V)
	}
	return nil
}

// numNode: numbers behind values and pointers.
func (in *Interp) numNode(st *State, v Val) *Node { return in.numNodeM(st, v, nil) }

func (in *Interp) numNodeM(st *State, v Val, memo map[*GammaV]*Node) *Node {
	v = in.resolve(st, v)
	switch x := v.(type) {
	case *Node:
		return x
	case *Ptr:
		if x.O == nil {
			return nil
		}
		l := in.load(st, x)
		switch y := l.(type) {
		case *Node:
			return y
		case *GammaV:
			return in.numNodeM(st, y, memo)
		}
		return nil
	case *GammaV:
		if n, ok := memo[x]; ok {
			return n
		}
		if memo == nil {
			memo = map[*GammaV]*Node{}
		}
		var n *Node
		if a := in.numNodeM(st, x.A, memo); a != nil {
			if b := in.numNodeM(st, x.B, memo); b != nil {
				n = Gamma(x.C, a, b)
			}
		}
		memo[x] = n
		return n
	case *Slice:
		var bs []*Node
		for _, e := range in.sliceElems(st, x) {
			n, ok := e.(*Node)
			if !ok {
				return nil
			}
			bs = append(bs, n)
		}
		return FromBytes(bs)
	}
	return nil
}

// toNode is the field element a circuit variable denotes; unusable values abort the run.
func (in *Interp) toNode(st *State, v Val) *Node {
	v = in.resolve(st, v)
	if g, ok := v.(*GammaV); ok {
		if in.varNode(st, g.A) == nil || in.varNode(st, g.B) == nil {
			panic(splitReq{g.C})
		}
	}
	n := in.varNode(st, v)
	if n == nil {
		panic(deadReq{"unusable circuit variable"})
	}
	return Canonize(n)
}

func tuple(v ...Val) Val { return &Agg{E: v} }

func (in *Interp) ptr(st *State, v Val) *Ptr {
	p, ok := in.concrete(st, v).(*Ptr)
	if !ok {
		panic(incomplete{"pointer expected, got " + valStr(v)})
	}
	if p.O == nil {
		panic(deadReq{"nil pointer"})
	}
	return p
}

// num loads the number behind a *big.Int, *fp.Element, ... argument.
func (in *Interp) num(st *State, v Val) *Node {
	v = in.concrete(st, v)
	if p, ok := v.(*Ptr); ok && p.O == nil {
		panic(deadReq{"nil number"})
	}
	n := in.numNode(st, v)
	if n == nil {
		return OpaqueS("val", valStr(v))
	}
	if r, ok := in.resolve(st, n).(*Node); ok {
		n = r
	}
	return n
}

func (in *Interp) elems(st *State, v Val) ([]Val, bool) {
	switch s := in.concrete(st, v).(type) {
	case *Slice:
		return in.sliceElems(st, s), true
	}
	return nil, false
}

// fail registers a possible failure and gives the error value for it.
func (in *Interp) fail(fr *Frame, instr ssa.Instruction, st *State, what string, cond *Node) Val {
	if cond.H == False.H {
		return nilIface
	}
	st.event(&Event{Kind: "fallible", S: what, Nodes: []*Node{cond}, Site: in.site(fr, instr)})
	return fallible(cond)
}

func (in *Interp) byteList(st *State, v Val) ([]*Node, bool) {
	el, ok := in.elems(st, v)
	if !ok {
		if a, ok2 := in.concrete(st, v).(*Agg); ok2 {
			el = a.E
		} else if n, ok2 := v.(*Node); ok2 && n.isStr() {
			for _, c := range []byte(n.strVal()) {
				el = append(el, Int(int64(c)))
			}
		} else {
			return nil, false
		}
	}
	var bs []*Node
	for _, e := range el {
		n, ok := in.resolve(st, e).(*Node)
		if !ok {
			return nil, false
		}
		bs = append(bs, n)
	}
	return bs, true
}

func nodeVals(ns []*Node) []Val {
	v := make([]Val, len(ns))
	for i, n := range ns {
		v[i] = n
	}
	return v
}

// hashBytes: the digest bytes of a hash over a byte list. kind "sha256" or
// "keccak"; gadget digests carry the suffix "c".
func hashBytes(kind string, bs []*Node) []*Node {
	h := OpaqueS("H", kind, bs...)
	r := make([]*Node, 32)
	for i := range r {
		r[i] = mkNode("hbyte", big.NewInt(int64(i)), "", h)
		r[i].Canon = true
	}
	return r
}

func (in *Interp) bytesSlice(ns []*Node) *Slice {
	return in.newSlice(types.Typ[types.Uint8], nodeVals(ns))
}

// group nodes -----------------------------------------------------------------

func Pt(x, y *Node) *Node {
	if x.Op == "cx" && y.Op == "cy" && x.Args[0].H == y.Args[0].H {
		return x.Args[0]
	}
	return Opaque("pt", x, y)
}
func CX(g *Node) *Node {
	if g.Op == "pt" {
		return g.Args[0]
	}
	return Opaque("cx", g)
}
func CY(g *Node) *Node {
	if g.Op == "pt" {
		return g.Args[1]
	}
	return Opaque("cy", g)
}

// onCurve is the predicate y^2 = x^3+3 (or (0,0)).
func onCurve(x, y *Node) *Node {
	if x.isInt() && y.isInt() {
		if x.K.Sign() == 0 && y.K.Sign() == 0 {
			return True
		}
		l := new(big.Int).Mul(y.K, y.K)
		r := new(big.Int).Mul(x.K, x.K)
		r.Mul(r, x.K)
		r.Add(r, big.NewInt(3))
		return Bool(new(big.Int).Mod(l.Sub(l, r), fieldP).Sign() == 0)
	}
	if x.Op == "cx" && y.Op == "cy" && x.Args[0].H == y.Args[0].H {
		return True
	}
	return Opaque("oncurve", x, y)
}

// strings ---------------------------------------------------------------------

func StrCat(a, b *Node) *Node {
	var parts []*Node
	for _, x := range []*Node{a, b} {
		if x.Op == "strcat" {
			parts = append(parts, x.Args...)
		} else {
			parts = append(parts, x)
		}
	}
	var out []*Node
	for _, p := range parts {
		if p.isStr() && p.strVal() == "" {
			continue
		}
		if len(out) > 0 && p.isStr() && out[len(out)-1].isStr() {
			out[len(out)-1] = Str(out[len(out)-1].strVal() + p.strVal())
			continue
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return Str("")
	case 1:
		return out[0]
	}
	return mkNode("strcat", nil, "", out...)
}

// hexDigits: sample instantiations of a 64-digit hex placeholder.
func hexSample(variant, idx int) string {
	d := []byte(strings.Repeat("0", 64))
	seed := uint64(variant*7919+idx*104729) + 12345
	for i := range d {
		seed = mix(seed, uint64(i+1))
		switch variant {
		case 0: // letters and digits
			d[i] = "0123456789abcdef"[seed%16]
		case 1: // small value: leading zeros
			if i >= 40+idx {
				d[i] = "0123456789abcdef"[seed%16]
			}
		case 2: // digits only
			d[i] = "0123456789"[seed%10]
		default: // odd number of leading zeros
			if i >= 3 {
				d[i] = "0123456789abcdef"[seed%16]
			}
		}
	}
	if variant == 0 {
		d[0] = 'c'
	}
	d[63] = "13579bdf"[(variant+idx)%8]
	return string(d)
}

const strVariants = 4

// strLen is the length of a string made of constants and hex placeholders.
func strLen(n *Node) (int, bool) {
	if n.isStr() {
		return len(n.strVal()), true
	}
	r, ok := strFunc(func(a []string) []string { return []string{strconv.Itoa(len(a[0]))} }, []*Node{n})
	if !ok || len(r) != 1 || !r[0].isStr() {
		return 0, false
	}
	l, err := strconv.Atoi(r[0].strVal())
	return l, err == nil
}

// strSlice is n[lo:hi] (hi < 0: to the end) where that is the same piece for
// every value of the placeholders.
func strSlice(n *Node, lo, hi int) (*Node, bool) {
	l, ok := strLen(n)
	if !ok {
		return nil, false
	}
	if hi < 0 {
		hi = l
	}
	if lo < 0 || hi < lo || hi > l {
		panic(deadReq{"slice bounds"})
	}
	r, ok := strFunc(func(a []string) []string { return []string{a[0][lo:hi]} }, []*Node{n})
	if !ok || len(r) != 1 {
		return nil, false
	}
	return r[0], true
}

func strIndex(n *Node, i int) (*Node, bool) {
	c, ok := strSlice(n, i, i+1)
	if !ok || !c.isStr() {
		return nil, false
	}
	return Int(int64(c.strVal()[0])), true
}

// strFunc folds a pure string function over constants and over strings with
// hex placeholders: the function is applied to several instantiations and the
// abstract result must be the same for all of them.
func strFunc(f func(args []string) []string, args []*Node) ([]*Node, bool) {
	var holes []*Node
	hole := func(n *Node) int {
		for i, h := range holes {
			if h.H == n.H {
				return i
			}
		}
		holes = append(holes, n)
		return len(holes) - 1
	}
	var inst func(n *Node, v int) (string, bool)
	inst = func(n *Node, v int) (string, bool) {
		switch n.Op {
		case "str":
			return n.strVal(), true
		case "int":
			return n.K.String(), true
		case "hex64":
			return hexSample(v, hole(n)), true
		case "strcat":
			s := ""
			for _, a := range n.Args {
				t, ok := inst(a, v)
				if !ok {
					return "", false
				}
				s += t
			}
			return s, true
		}
		return "", false
	}
	var res []*Node
	for v := 0; v < strVariants; v++ {
		ss := make([]string, len(args))
		for i, a := range args {
			s, ok := inst(a, v)
			if !ok {
				return nil, false
			}
			ss[i] = s
		}
		out := f(ss)
		var lifted []*Node
		for _, o := range out {
			// locate placeholders
			n := Str("")
			for o != "" {
				best, bi := -1, -1
				for i := range holes {
					if k := strings.Index(o, hexSample(v, i)); k >= 0 && (best < 0 || k < best) {
						best, bi = k, i
					}
				}
				if best < 0 {
					n = StrCat(n, Str(o))
					break
				}
				n = StrCat(n, Str(o[:best]))
				n = StrCat(n, holes[bi])
				o = o[best+64:]
			}
			lifted = append(lifted, n)
		}
		if v == 0 {
			res = lifted
			if len(holes) == 0 {
				return res, true
			}
			continue
		}
		if len(lifted) != len(res) {
			return nil, false
		}
		for i := range res {
			if res[i].H != lifted[i].H {
				return nil, false
			}
		}
	}
	return res, true
}

func atoi(s string) int {
	k, _ := strconv.Atoi(s)
	return k
}

func b2s(b bool) []string {
	if b {
		return []string{"true"}
	}
	return []string{"false"}
}

var strFuncs = map[string]struct {
	f    func(a []string) []string
	kind string // "s", "b" (bool), "i" (int), "l" (slice)
}{
	"strings.TrimPrefix": {func(a []string) []string { return []string{strings.TrimPrefix(a[0], a[1])} }, "s"},
	"strings.TrimSuffix": {func(a []string) []string { return []string{strings.TrimSuffix(a[0], a[1])} }, "s"},
	"strings.TrimSpace":  {func(a []string) []string { return []string{strings.TrimSpace(a[0])} }, "s"},
	"strings.Trim":       {func(a []string) []string { return []string{strings.Trim(a[0], a[1])} }, "s"},
	"strings.TrimLeft":   {func(a []string) []string { return []string{strings.TrimLeft(a[0], a[1])} }, "s"},
	"strings.TrimRight":  {func(a []string) []string { return []string{strings.TrimRight(a[0], a[1])} }, "s"},
	"strings.ToLower":    {func(a []string) []string { return []string{strings.ToLower(a[0])} }, "s"},
	"strings.ToUpper":    {func(a []string) []string { return []string{strings.ToUpper(a[0])} }, "s"},
	"strings.ReplaceAll": {func(a []string) []string { return []string{strings.ReplaceAll(a[0], a[1], a[2])} }, "s"},
	"strings.Split":      {func(a []string) []string { return strings.Split(a[0], a[1]) }, "l"},
	"strings.Fields":     {func(a []string) []string { return strings.Fields(a[0]) }, "l"},
	"strings.Contains":   {func(a []string) []string { return b2s(strings.Contains(a[0], a[1])) }, "b"},
	"strings.HasPrefix":  {func(a []string) []string { return b2s(strings.HasPrefix(a[0], a[1])) }, "b"},
	"strings.HasSuffix":  {func(a []string) []string { return b2s(strings.HasSuffix(a[0], a[1])) }, "b"},
	"strings.EqualFold":  {func(a []string) []string { return b2s(strings.EqualFold(a[0], a[1])) }, "b"},
	"strings.Index":      {func(a []string) []string { return []string{fmt.Sprint(strings.Index(a[0], a[1]))} }, "i"},
	"strings.LastIndex":  {func(a []string) []string { return []string{fmt.Sprint(strings.LastIndex(a[0], a[1]))} }, "i"},
	"strings.Cut": {func(a []string) []string {
		x, y, ok := strings.Cut(a[0], a[1])
		return append([]string{x, y}, b2s(ok)...)
	}, "t"},
	"strings.CutPrefix": {func(a []string) []string {
		x, ok := strings.CutPrefix(a[0], a[1])
		return append([]string{x}, b2s(ok)...)
	}, "t"},
	"strings.CutSuffix": {func(a []string) []string {
		x, ok := strings.CutSuffix(a[0], a[1])
		return append([]string{x}, b2s(ok)...)
	}, "t"},
	"strings.SplitN":        {func(a []string) []string { return strings.SplitN(a[0], a[1], atoi(a[2])) }, "l"},
	"strings.SplitAfter":    {func(a []string) []string { return strings.SplitAfter(a[0], a[1]) }, "l"},
	"strings.Replace":       {func(a []string) []string { return []string{strings.Replace(a[0], a[1], a[2], atoi(a[3]))} }, "s"},
	"strings.IndexByte":     {func(a []string) []string { return []string{fmt.Sprint(strings.IndexByte(a[0], byte(atoi(a[1]))))} }, "i"},
	"strings.LastIndexByte": {func(a []string) []string { return []string{fmt.Sprint(strings.LastIndexByte(a[0], byte(atoi(a[1]))))} }, "i"},
	"strings.IndexRune":     {func(a []string) []string { return []string{fmt.Sprint(strings.IndexRune(a[0], rune(atoi(a[1]))))} }, "i"},
	"strings.IndexAny":      {func(a []string) []string { return []string{fmt.Sprint(strings.IndexAny(a[0], a[1]))} }, "i"},
	"strings.LastIndexAny":  {func(a []string) []string { return []string{fmt.Sprint(strings.LastIndexAny(a[0], a[1]))} }, "i"},
	"strings.ContainsRune":  {func(a []string) []string { return b2s(strings.ContainsRune(a[0], rune(atoi(a[1])))) }, "b"},
	"strings.ContainsAny":   {func(a []string) []string { return b2s(strings.ContainsAny(a[0], a[1])) }, "b"},
	"strings.Count":         {func(a []string) []string { return []string{fmt.Sprint(strings.Count(a[0], a[1]))} }, "i"},
}

// model dispatches a call to a library function.
func (in *Interp) model(fr *Frame, st *State, instr ssa.Instruction, name string, fn *ssa.Function, args []Val, cc *ssa.CallCommon) (Val, *State) {
	if strings.HasPrefix(name, "api.") {
		return in.modelAPI(fr, st, instr, name[4:], args, cc)
	}
	if strings.HasPrefix(name, "iface.") {
		return in.modelIface(fr, st, instr, name[6:], args, cc)
	}
	s := short(name)
	if fn != nil && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 {
		return nil, st // initialiser of an imported package
	}
	if i := strings.IndexByte(s, ')'); strings.HasPrefix(s, "(") && i > 0 && i+2 <= len(s) {
		recv := strings.TrimPrefix(s[1:i], "*")
		m := s[i+2:]
		switch recv {
		case "big.Int":
			return in.modelBig(fr, st, instr, m, args, cc)
		case "fp.Element":
			if strings.Contains(name, "ecc/bn254/fp") {
				return in.modelElement(fr, st, instr, m, args, cc, fieldP)
			}
		case "fr.Element":
			if strings.Contains(name, "ecc/bn254/fr") {
				return in.modelElement(fr, st, instr, m, args, cc, fieldR)
			}
		case "bytes.Buffer", "strings.Builder":
			return in.modelBuf(fr, st, instr, m, args, cc)
		case "regexp.Regexp":
			return in.modelRegexp(fr, st, instr, m, args, cc)
		case "bn254.G1Affine":
			return in.modelG1Affine(fr, st, instr, m, args, cc)
		case "bn254.G2Affine", "bn254.G2Jac", "fptower.E2":
			return in.modelG2(fr, st, instr, recv, m, args, cc)
		case "cloudflare.G1", "google.G1", "bn256.G1", "gnark.G1":
			return in.modelBn256(fr, st, instr, m, args, cc)
		case "common.Hash":
			return in.modelHashT(fr, st, instr, m, args, cc)
		case "uints.BinaryField", "sw_emulated.Curve", "emulated.Field", "sw_bn254.Pairing", "ecdsa.PublicKey":
			return in.modelGadget(fr, st, instr, recv+"."+m, args, cc)
		case "sync.Once":
			if m == "Do" {
				if f, ok := in.concrete(st, args[1]).(*FuncVal); ok && f.Fn != nil && in.inRepo(f.Fn) {
					return in.callFunction(fr, instr, st, f.Fn, nil, f.Bind)
				}
			}
		case "sync.Mutex", "sync.RWMutex":
			if m == "TryLock" || m == "TryRLock" {
				return in.freshLeaf("trylock", false), st
			}
			return nil, st
		case "sync.WaitGroup":
			return nil, st
		case "emparams.BN254Fr", "emparams.BN254Fp", "emparams.Secp256k1Fp", "emparams.Secp256k1Fr", "emulated.BN254Fr", "emulated.BN254Fp":
			if f := fieldOfTypeArgName(s); f != nil && m == "Modulus" {
				return in.bigPtr(IntB(f)), st
			}
		case "log.Logger":
			return in.modelLog(fr, st, instr, m, args, cc)
		}
		return in.unknownCall(fr, st, instr, s, args, cc), st
	}
	return in.modelFunc(fr, st, instr, s, name, args, cc)
}

func (in *Interp) modelLog(fr *Frame, st *State, instr ssa.Instruction, m string, args []Val, cc *ssa.CallCommon) (Val, *State) {
	switch {
	case strings.HasPrefix(m, "Fatal"), strings.HasPrefix(m, "Panic"):
		return nil, nil
	}
	rt := resultType(cc)
	if rt == nil {
		return nil, st
	}
	return in.opaqueVal(rt, in.freshLeaf("log", false)), st
}

// frontend.API and frontend.Compiler ----------------------------------------------

func (in *Interp) modelAPI(fr *Frame, st *State, instr ssa.Instruction, m string, args []Val, cc *ssa.CallCommon) (Val, *State) {
	n := func(i int) *Node { return in.toNode(st, args[i]) }
	vs := func(i int) []*Node {
		el, ok := in.elems(st, args[i])
		if !ok {
			panic(incomplete{"circuit API call with a variable list of unknown length in " + fr.info.fn.String()})
		}
		var r []*Node
		for _, e := range el {
			r = append(r, in.toNode(st, e))
		}
		return r
	}
	ev := func(kind string, ns ...*Node) {
		st.event(&Event{Kind: kind, Nodes: ns, Site: in.site(fr, instr)})
	}
	switch m {
	case "Add", "Mul", "Sub":
		r, b := n(1), n(2)
		op := FAdd
		if m == "Mul" {
			op = FMul
		} else if m == "Sub" {
			op = FSub
		}
		r = op(r, b)
		for _, x := range vs(3) {
			r = op(r, x)
		}
		return in.apiVar(r), st
	case "MulAcc":
		return in.apiVar(FAdd(n(1), FMul(n(2), n(3)))), st
	case "Neg":
		return in.apiVar(FNeg(n(1))), st
	case "Div", "DivUnchecked":
		a, b := n(1), n(2)
		if b.isInt() && b.K.Sign() == 0 && m == "Div" {
			panic(deadReq{"division by zero"})
		}
		if !b.isInt() {
			if m == "Div" {
				ev("nonzero", b)
			} else {
				return in.apiVar(FOp("divu", a, b)), st
			}
		}
		return in.apiVar(FMul(a, FInv(b))), st
	case "Inverse":
		a := n(1)
		if a.isInt() && a.K.Sign() == 0 {
			panic(deadReq{"inverse of zero"})
		}
		if !a.isInt() {
			ev("nonzero", a)
		}
		return in.apiVar(FInv(a)), st
	case "ToBinary":
		a := n(1)
		nb := 254
		if el, ok := in.elems(st, args[2]); ok && len(el) > 0 {
			k, ok := in.intArg(st, el[0])
			if !ok {
				panic(incomplete{"ToBinary with unknown width"})
			}
			nb = k
		}
		if nb < 254 {
			ev("bits", a, Int(int64(nb)))
		}
		var el []Val
		for i := 0; i < nb; i++ {
			var b *Node
			if a.isInt() {
				b = Int(int64(a.K.Bit(i)))
			} else if i >= 254 {
				b = Int(0)
			} else {
				b = mkNode("bit", big.NewInt(int64(i)), "", a)
				b.Canon = true
			}
			el = append(el, in.apiVar(b))
		}
		return in.newSlice(nil, el), st
	case "FromBinary":
		bs := vs(1)
		r := Int(0)
		for i := len(bs) - 1; i >= 0; i-- {
			r = FAdd(FMul(r, Int(2)), bs[i])
		}
		for _, b := range bs {
			if b.Op != "bit" && !b.isInt() {
				ev("boolean", b)
			}
		}
		// byte j, or everything
		if len(bs) > 0 && bs[0].Op == "bit" {
			v, lo := bs[0].Args[0], bs[0].K.Int64()
			ok := true
			for i, b := range bs {
				if b.Op == "int" && b.K.Sign() == 0 && lo+int64(i) >= 254 {
					continue
				}
				if b.Op != "bit" || b.Args[0].H != v.H || b.K.Int64() != lo+int64(i) {
					ok = false
				}
			}
			if ok && lo == 0 && len(bs) >= 254 {
				r = v
			} else if ok && lo%8 == 0 && (len(bs) == 8 || lo+int64(len(bs)) >= 254 && len(bs) < 8) {
				r = ByteOf(v, int(lo/8))
			}
		}
		return in.apiVar(r), st
	case "And", "Or", "Xor":
		a, b := n(1), n(2)
		for _, x := range []*Node{a, b} {
			if !x.isInt() && !isBoolNode(x) {
				ev("boolean", x)
			}
		}
		p := FMul(a, b)
		var r *Node
		switch m {
		case "And":
			r = p
		case "Or":
			r = FSub(FAdd(a, b), p)
		default:
			r = FSub(FAdd(a, b), FMul(Int(2), p))
		}
		in.boolNode[r.H] = true
		return in.apiVar(r), st
	case "Select":
		c, a, b := n(1), n(2), n(3)
		if !c.isInt() && !isBoolNode(c) && !in.boolNode[c.H] {
			ev("boolean", c)
		}
		return in.apiVar(FAdd(b, FMul(c, FSub(a, b)))), st
	case "Lookup2":
		b0, b1 := n(1), n(2)
		for _, x := range []*Node{b0, b1} {
			if !x.isInt() && !isBoolNode(x) && !in.boolNode[x.H] {
				ev("boolean", x)
			}
		}
		sel := func(c, a, b *Node) *Node { return FAdd(b, FMul(c, FSub(a, b))) }
		return in.apiVar(sel(b1, sel(b0, n(6), n(5)), sel(b0, n(4), n(3)))), st
	case "IsZero":
		a := n(1)
		if a.isInt() {
			return in.apiVar(Int(map[bool]int64{true: 1, false: 0}[a.K.Sign() == 0])), st
		}
		return in.apiVar(FOp("iszero", a)), st
	case "Cmp":
		a, b := n(1), n(2)
		if a.isInt() && b.isInt() {
			return in.apiVar(Canonize(Int(int64(a.K.Cmp(b.K))))), st
		}
		return in.apiVar(FOp("fcmp", a, b)), st
	case "AssertIsEqual":
		a, b := n(1), n(2)
		if x := testedForZero(a, b); x != nil {
			ev("le", Int(1), x)
			return nil, st
		}
		ev("eq", a, b)
		if a.isInt() && b.isInt() && a.K.Cmp(b.K) != 0 {
			return nil, nil
		}
		return nil, st
	case "AssertIsDifferent":
		a, b := n(1), n(2)
		if a.isInt() && a.K.Sign() == 0 {
			a, b = b, a
		}
		if b.isInt() && b.K.Sign() == 0 && !a.isInt() {
			ev("le", Int(1), a) // the same condition
			return nil, st
		}
		ev("neq", a, b)
		return nil, st
	case "AssertIsBoolean":
		ev("boolean", n(1))
		return nil, st
	case "AssertIsCrumb":
		ev("crumb", n(1))
		return nil, st
	case "AssertIsLessOrEqual":
		a, b := n(1), n(2)
		ev("le", a, b)
		if a.isInt() && b.isInt() && a.K.Cmp(b.K) > 0 {
			return nil, nil
		}
		return nil, st
	case "Check": // range checker
		if k, ok := in.intArg(st, args[2]); ok {
			ev("bits", n(1), Int(int64(k)))
		}
		return nil, st
	case "Println", "MarkBoolean":
		return nil, st
	case "IsBoolean":
		a := n(1)
		return Bool(a.isInt() && a.K.BitLen() <= 1), st
	case "Compiler":
		return &Iface{T: apiMarker, V: Int(0)}, st
	case "Field":
		return in.bigPtr(IntB(fieldR)), st
	case "FieldBitLen":
		return Int(254), st
	case "ConstantValue":
		a := n(1)
		if a.isInt() {
			return tuple(in.bigPtr(a), True), st
		}
		st.event(&Event{Kind: "inspect", S: "constant-value query", Nodes: []*Node{a}, Site: in.site(fr, instr)})
		return tuple(nilPtr, False), st
	case "NewHint":
		return in.newHint(fr, st, instr, args, cc)
	case "Defer":
		if f, ok := in.concrete(st, args[1]).(*FuncVal); ok && f.Fn != nil && in.inRepo(f.Fn) {
			v, ns := in.callFunction(fr, instr, st, f.Fn, []Val{&Iface{T: apiMarker, V: Int(0)}}, f.Bind)
			if ns == nil {
				return nil, nil
			}
			// an error of the deferred callback rejects
			c := Not(in.eqVals(ns, v, nilIface))
			if c.H == True.H {
				return nil, nil
			}
			if c.H != False.H && !in.assume(ns, c, false) {
				return nil, nil
			}
			return nil, ns
		}
	}
	return in.unknownCall(fr, st, instr, "frontend.API."+m, args, cc), st
}

func isBoolNode(n *Node) bool {
	return n.Op == "bit" || n.Op == "iszero"
}

func (in *Interp) newHint(fr *Frame, st *State, instr ssa.Instruction, args []Val, cc *ssa.CallCommon) (Val, *State) {
	f, ok := in.concrete(st, args[1]).(*FuncVal)
	if !ok {
		return in.unknownCall(fr, st, instr, "NewHint with unknown function", args, cc), st
	}
	nb, ok := in.intArg(st, args[2])
	if !ok || nb < 0 || nb > 1<<16 {
		panic(incomplete{"hint with unknown number of outputs in " + fr.info.fn.String()})
	}
	el, ok := in.elems(st, args[3])
	if !ok {
		panic(incomplete{"hint with unknown number of inputs in " + fr.info.fn.String()})
	}
	var ins, raw []*Node
	for _, e := range el {
		n := in.toNode(st, e)
		ins = append(ins, n)
		// constants above the modulus reach a hint unreduced
		if r := in.varNode(st, e); r != nil && r.isInt() {
			n = r
		}
		raw = append(raw, n)
	}
	name := f.Ext
	if f.Fn != nil {
		name = fnShort(f.Fn)
	}
	in.fresh++
	id := fmt.Sprintf("%s#%d", name, in.fresh)
	var outs []Val
	var leaves []*Node
	for i := 0; i < nb; i++ {
		l := Leaf(fmt.Sprintf("hint:%s[%d]", id, i), true)
		leaves = append(leaves, l)
		outs = append(outs, in.apiVar(l))
	}
	e := &Event{Kind: "hint", S: id, Nodes: append(append([]*Node{}, ins...), leaves...), Vals: []Val{f, Int(int64(len(ins)))}, Site: in.site(fr, instr)}
	st.event(e)
	in.Hints[id] = &HintUse{ID: id, Fn: f.Fn, Name: name, In: ins, Raw: raw, Out: leaves, Site: e.Site}
	for _, l := range leaves {
		in.HintOf[l.H] = in.Hints[id]
	}
	cond := Leaf("fails:NewHint "+id, false)
	err := in.fail(fr, instr, st, "NewHint("+name+")", cond)
	vt := in.variableT()
	return tuple(joinVal(cond, nilSlice, in.newSlice(vt, outs)), err), st
}

func (in *Interp) variableT() types.Type {
	if t := in.pkgType("github.com/consensys/gnark/frontend", "Variable"); t != nil {
		return t
	}
	return types.NewInterfaceType(nil, nil)
}

// gadgets ---------------------------------------------------------------------

func (in *Interp) u8Val(st *State, v Val) *Node {
	a, ok := in.concrete(st, v).(*Agg)
	if !ok || len(a.E) == 0 {
		return OpaqueS("val", valStr(v))
	}
	return in.toNode(st, a.E[0])
}
func (in *Interp) mkU8(n *Node) Val {
	return &Agg{E: []Val{in.apiVar(n), True}}
}

func fieldOfTypeArg(t types.Type) *big.Int {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	switch n.Obj().Name() {
	case "BN254Fp":
		return fieldP
	case "BN254Fr":
		return fieldR
	case "Secp256k1Fp":
		return secpP
	case "Secp256k1Fr":
		return secpN
	}
	return nil
}

var (
	secpP = bigFrom("115792089237316195423570985008687907853269984665640564039457584007908834671663")
	secpN = bigFrom("115792089237316195423570985008687907852837564279074904382605163141518161494337")
)

// typeArg finds the i-th type argument of a named type (through pointers).
func typeArg(t types.Type, i int) types.Type {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		return typeArg(p.Elem(), i)
	}
	if n, ok := t.(*types.Named); ok && n.TypeArgs().Len() > i {
		return n.TypeArgs().At(i)
	}
	return nil
}

func (in *Interp) affPoint(st *State, v Val) *Node {
	p := in.ptr(st, v)
	a, ok := in.concrete(st, in.load(st, p)).(*Agg)
	if !ok || len(a.E) < 2 {
		return Opaque("pt?", in.summary(st, v, 0))
	}
	return Pt(in.elemNode(st, a.E[0]), in.elemNode(st, a.E[1]))
}
func (in *Interp) elemNode(st *State, v Val) *Node {
	n := in.numNode(st, v)
	if n == nil {
		return OpaqueS("val", valStr(v))
	}
	return n
}
func (in *Interp) affResult(g *Node) *Ptr {
	return &Ptr{O: in.newObj(nil, "affine", &Agg{E: []Val{CX(g), CY(g)}})}
}

func (in *Interp) modelGadget(fr *Frame, st *State, instr ssa.Instruction, m string, args []Val, cc *ssa.CallCommon) (Val, *State) {
	ev := func(kind string, ns ...*Node) {
		st.event(&Event{Kind: kind, Nodes: ns, Site: in.site(fr, instr)})
	}
	recvT := func() types.Type {
		if f, ok := cc.Value.(*ssa.Function); ok && f.Signature.Recv() != nil {
			return f.Signature.Recv().Type()
		}
		return nil
	}
	noOpts := func(i int) bool {
		el, ok := in.elems(st, args[i])
		return ok && len(el) == 0
	}
	recvField := func() string { // curve of a sw_emulated.Curve
		ta := typeArg(recvT(), 0)
		if f := fieldOfTypeArg(ta); f != nil && f.Cmp(fieldP) == 0 {
			return ""
		}
		return "@" + fmt.Sprint(ta)
	}
	gop := func(op string, ns ...*Node) *Node {
		if c := recvField(); c != "" {
			return OpaqueS(op, c, ns...)
		}
		return Opaque(op, ns...)
	}
	switch m {
	case "uints.BinaryField.ByteValueOf":
		a := in.toNode(st, args[1])
		ev("bits", a, Int(8))
		return in.mkU8(a), st
	case "uints.BinaryField.ByteAssertEq":
		ev("byteEq", in.u8Val(st, args[1]), in.u8Val(st, args[2]))
		return nil, st
	case "uints.BinaryField.AssertEq":
		a, ok1 := in.concrete(st, args[1]).(*Agg)
		b, ok2 := in.concrete(st, args[2]).(*Agg)
		if ok1 && ok2 && len(a.E) == len(b.E) {
			for i := range a.E {
				ev("byteEq", in.u8Val(st, a.E[i]), in.u8Val(st, b.E[i]))
			}
			return nil, st
		}
	case "uints.BinaryField.ToValue":
		if a, ok := in.concrete(st, args[1]).(*Agg); ok {
			r := Int(0)
			for i := len(a.E) - 1; i >= 0; i-- {
				r = FAdd(FMul(r, Int(256)), in.u8Val(st, a.E[i]))
			}
			return in.apiVar(r), st
		}
	case "uints.BinaryField.ValueOf":
		n := in.toNode(st, args[1])
		if rt, ok := resultType(cc).Underlying().(*types.Array); ok {
			ev("bits", n, Int(8*rt.Len()))
			a := &Agg{}
			for i := 0; i < int(rt.Len()); i++ {
				a.E = append(a.E, in.mkU8(ByteOf(n, i)))
			}
			return a, st
		}
	case "uints.BinaryField.PackMSB", "uints.BinaryField.PackLSB", "uints.BinaryField.UnpackMSB", "uints.BinaryField.UnpackLSB":
		rev := strings.HasSuffix(m, "MSB")
		var el []Val
		if strings.Contains(m, "Unpack") {
			a, ok := in.concrete(st, args[1]).(*Agg)
			if !ok {
				break
			}
			el = append(el, a.E...)
		} else {
			e, ok := in.elems(st, args[1])
			if !ok {
				break
			}
			el = append(el, e...)
		}
		if rev {
			for i, j := 0, len(el)-1; i < j; i, j = i+1, j-1 {
				el[i], el[j] = el[j], el[i]
			}
		}
		if strings.Contains(m, "Unpack") {
			return in.newSlice(nil, el), st
		}
		return &Agg{E: el}, st

	case "sw_emulated.Curve.ScalarMul":
		if !noOpts(3) {
			// option-dependent algorithm: same group law
			ev("scalarmul-options")
		}
		g := gop("gmul", in.num(st, args[2]), in.affPoint(st, args[1]))
		return in.affResult(g), st
	case "sw_emulated.Curve.ScalarMulBase":
		if recvField() == "" {
			return in.affResult(Opaque("gmul", in.num(st, args[1]), Pt(Int(1), Int(2)))), st
		}
	case "sw_emulated.Curve.AddUnified":
		return in.affResult(gop("gadd", in.affPoint(st, args[1]), in.affPoint(st, args[2]))), st
	case "sw_emulated.Curve.Add":
		return in.affResult(gop("gaddi", in.affPoint(st, args[1]), in.affPoint(st, args[2]))), st
	case "sw_emulated.Curve.Neg":
		return in.affResult(gop("gneg", in.affPoint(st, args[1]))), st
	case "sw_emulated.Curve.Generator":
		if recvField() == "" {
			return in.affResult(Pt(Int(1), Int(2))), st
		}
	case "sw_emulated.Curve.MultiScalarMul":
		ps, ok1 := in.elems(st, args[1])
		ss, ok2 := in.elems(st, args[2])
		if !ok1 || !ok2 {
			break
		}
		if len(ps) != len(ss) {
			return tuple(nilPtr, in.fail(fr, instr, st, "MultiScalarMul", True)), st
		}
		var terms []*Node
		for i := range ps {
			terms = append(terms, gop("gmul", in.num(st, ss[i]), in.affPoint(st, ps[i])))
		}
		var g *Node
		if !noOpts(3) {
			g = Opaque("msm-with-options", terms...)
		} else if len(terms) == 0 {
			g = Pt(Int(0), Int(0))
		} else {
			g = terms[0]
			for _, t := range terms[1:] {
				g = gop("gadd", g, t)
			}
		}
		c := in.freshLeaf("fails:MultiScalarMul", false)
		return tuple(joinVal(c, nilPtr, in.affResult(g)), in.fail(fr, instr, st, "MultiScalarMul", c)), st
	case "sw_emulated.Curve.AssertIsEqual":
		a, b := in.affPoint(st, args[1]), in.affPoint(st, args[2])
		ev("ecEq", CX(a), CY(a), CX(b), CY(b))
		return nil, st
	case "sw_emulated.Curve.AssertIsOnCurve":
		a := in.affPoint(st, args[1])
		ev("assertOnCurve", CX(a), CY(a))
		return nil, st
	case "sw_emulated.Curve.Select":
		c := in.toNode(st, args[1])
		a, b := in.affPoint(st, args[2]), in.affPoint(st, args[3])
		return in.affResult(gop("gselect", c, a, b)), st

	case "emulated.Field.AssertIsEqual":
		a, b := in.num(st, args[1]), in.num(st, args[2])
		ev("emEq", a, b)
		return nil, st
	case "emulated.Field.NewElement":
		n := in.varNode(st, args[1])
		if n == nil {
			break
		}
		f := fieldOfTypeArg(typeArg(recvT(), 0))
		if f == nil {
			break
		}
		return &Ptr{O: in.newObj(nil, "elem", IMod(n, IntB(f)))}, st
	case "emulated.Field.Add", "emulated.Field.Sub", "emulated.Field.Mul", "emulated.Field.MulMod":
		f := fieldOfTypeArg(typeArg(recvT(), 0))
		if f == nil {
			break
		}
		a, b := in.num(st, args[1]), in.num(st, args[2])
		op := IAdd
		if strings.HasSuffix(m, "Sub") {
			op = ISub
		} else if strings.Contains(m, "Mul") {
			op = IMul
		}
		return &Ptr{O: in.newObj(nil, "elem", IMod(op(a, b), IntB(f)))}, st
	case "emulated.Field.Reduce", "emulated.Field.ReduceStrict":
		return &Ptr{O: in.newObj(nil, "elem", in.num(st, args[1]))}, st

	case "sw_bn254.Pairing.PairingCheck":
		ps, ok1 := in.elems(st, args[1])
		qs, ok2 := in.elems(st, args[2])
		if !ok1 || !ok2 {
			break
		}
		if len(ps) != len(qs) || len(ps) == 0 {
			return in.fail(fr, instr, st, "PairingCheck", True), st
		}
		var ns []*Node
		for i := range ps {
			a, okp := in.concrete(st, in.load(st, in.ptr(st, ps[i]))).(*Agg)
			q := in.num(st, qs[i])
			if !okp || len(a.E) < 2 {
				panic(incomplete{"pairing operand"})
			}
			ns = append(ns, in.elemNode(st, a.E[0]), in.elemNode(st, a.E[1]), q)
		}
		c := in.freshLeaf("fails:PairingCheck", false)
		ev("pairing", ns...)
		return in.fail(fr, instr, st, "PairingCheck", c), st
	case "sw_bn254.Pairing.AssertIsOnG1", "sw_bn254.Pairing.AssertIsOnCurve":
		a := in.affPoint(st, args[1])
		ev("assertOnCurve", CX(a), CY(a))
		return nil, st
	case "sw_bn254.Pairing.AssertIsOnG2", "sw_bn254.Pairing.AssertIsOnTwist":
		ev("assertOnG2", in.num(st, args[1]))
		return nil, st

	case "ecdsa.PublicKey.Verify":
		// receiver, api, params, msg, sig
		pk, ok := in.concrete(st, in.valOrDeref(st, args[0])).(*Agg)
		sig := in.summaryDeref(st, args[4])
		if !ok || len(pk.E) < 2 {
			break
		}
		params := in.summary(st, args[2], 0)
		st.event(&Event{Kind: "ecdsa", Nodes: []*Node{in.elemNode(st, pk.E[0]), in.elemNode(st, pk.E[1]), in.num(st, args[3]), sig, params}, Site: in.site(fr, instr)})
		return nil, st
	}
	return in.unknownCall(fr, st, instr, m, args, cc), st
}

func (in *Interp) valOrDeref(st *State, v Val) Val {
	v = in.concrete(st, v)
	if p, ok := v.(*Ptr); ok {
		if p.O == nil {
			panic(deadReq{"nil"})
		}
		return in.load(st, p)
	}
	return v
}
func (in *Interp) summaryDeref(st *State, v Val) *Node {
	return in.summary(st, in.valOrDeref(st, v), 0)
}

// objects behind opaque interfaces (hashers, witnesses, ...) ----------------------

func (in *Interp) modelIface(fr *Frame, st *State, instr ssa.Instruction, m string, args []Val, cc *ssa.CallCommon) (Val, *State) {
	if p, ok := args[0].(*Ptr); ok && p.O != nil {
		if sp, ok := in.concrete(st, in.load(st, p)).(*Special); ok {
			return in.modelHasher(fr, st, instr, m, p, sp, args, cc)
		}
	}
	return in.libCall(fr, st, instr, "iface."+m, args, cc), st
}

func (in *Interp) modelHasher(fr *Frame, st *State, instr ssa.Instruction, m string, p *Ptr, sp *Special, args []Val, cc *ssa.CallCommon) (Val, *State) {
	gadget := strings.HasSuffix(sp.Kind, "c")
	bad := sp.N != nil
	collect := func() []*Node {
		var bs []*Node
		for _, e := range sp.L {
			bs = append(bs, e.(*Node))
		}
		if bad {
			bs = append(bs, sp.N)
		}
		return bs
	}
	switch m {
	case "Write":
		ns := &Special{Kind: sp.Kind, N: sp.N, L: append([]Val(nil), sp.L...)}
		var cnt Val = Int(0)
		if gadget {
			el, ok := in.elems(st, args[1])
			if !ok {
				ns.N = Opaque("written", in.summary(st, args[1], 0))
			}
			for _, e := range el {
				ns.L = append(ns.L, in.u8Val(st, e))
			}
			in.store(fr, instr, st, p, ns)
			return nil, st
		}
		bs, ok := in.byteList(st, args[1])
		if !ok {
			ns.N = Opaque("written", in.bytesNode(st, args[1]), nodeOrNil(ns.N))
		}
		for _, b := range bs {
			ns.L = append(ns.L, b)
		}
		cnt = Int(int64(len(bs)))
		in.store(fr, instr, st, p, ns)
		return tuple(cnt, nilIface), st
	case "Sum":
		d := hashBytes(sp.Kind, collect())
		if gadget {
			var el []Val
			for _, b := range d {
				el = append(el, in.mkU8(b))
			}
			st.event(&Event{Kind: "hash", S: sp.Kind, Nodes: d, Site: in.site(fr, instr)})
			return in.newSlice(in.pkgType("github.com/consensys/gnark/std/math/uints", "U8"), el), st
		}
		base, ok := in.byteList(st, args[1])
		if !ok {
			break
		}
		return in.bytesSlice(append(append([]*Node{}, base...), d...)), st
	case "Reset":
		in.store(fr, instr, st, p, &Special{Kind: sp.Kind})
		return nil, st
	case "Size":
		return Int(32), st
	case "BlockSize":
		if strings.HasPrefix(sp.Kind, "sha256") {
			return Int(64), st
		}
		return Int(136), st
	}
	return in.unknownCall(fr, st, instr, "hash."+m, args, cc), st
}
func nodeOrNil(n *Node) *Node {
	if n == nil {
		return Opaque("none")
	}
	return n
}

func (in *Interp) newHasher(kind string) Val {
	return &Iface{T: objMarker, V: &Ptr{O: in.newObj(nil, "hasher", &Special{Kind: kind})}}
}

// libCall: a deterministic library step; results are functions of the
// arguments, and an error result may be non-nil.
func (in *Interp) libCall(fr *Frame, st *State, instr ssa.Instruction, name string, args []Val, cc *ssa.CallCommon) Val {
	var ns []*Node
	for _, a := range args {
		ns = append(ns, in.summary(st, a, 0))
	}
	n := OpaqueS("lib", name, ns...)
	st.event(&Event{Kind: "lib", S: name, Nodes: append(ns, n), Site: in.site(fr, instr)})
	rs := cc.Signature().Results()
	if rs.Len() == 0 {
		return nil
	}
	last := rs.At(rs.Len() - 1).Type()
	isErr := typeKey(last) == "error"
	cond := False
	if isErr {
		cond = Opaque("fails", n)
	}
	var out []Val
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if i == rs.Len()-1 && isErr {
			out = append(out, in.fail(fr, instr, st, name, cond))
			continue
		}
		x := n
		if rs.Len() > 1 && !(rs.Len() == 2 && isErr) {
			x = OpaqueS("out", fmt.Sprint(i), n)
		}
		v := in.opaqueVal(t, x)
		if isErr {
			v = joinVal(cond, in.zeroVal(t), v)
		}
		out = append(out, v)
	}
	if len(out) == 1 {
		return out[0]
	}
	return &Agg{E: out}
}

// package-level functions -----------------------------------------------------------

func (in *Interp) modelFunc(fr *Frame, st *State, instr ssa.Instruction, s, full string, args []Val, cc *ssa.CallCommon) (Val, *State) {
	switch {
	case strings.HasPrefix(full, "github.com/consensys/gnark/"), strings.HasPrefix(full, "github.com/consensys/gnark-crypto/"), strings.HasPrefix(full, "github.com/ethereum/"):
		return in.modelRepoLib(fr, st, instr, s, full, args, cc)
	}
	if sf, ok := strFuncs[s]; ok {
		var ns []*Node
		for _, a := range args {
			ns = append(ns, nodeOr(in.resolve(st, a)))
		}
		if out, ok := strFunc(sf.f, ns); ok {
			switch sf.kind {
			case "s":
				return out[0], st
			case "b":
				if out[0].isStr() {
					return Bool(out[0].strVal() == "true"), st
				}
			case "i":
				if out[0].isStr() {
					k, _ := new(big.Int).SetString(out[0].strVal(), 10)
					return IntB(k), st
				}
			case "t":
				var vs []Val
				for i, o := range out {
					if i == len(out)-1 {
						if !o.isStr() {
							vs = nil
							break
						}
						o = Bool(o.strVal() == "true")
					}
					vs = append(vs, o)
				}
				if vs != nil {
					return tuple(vs...), st
				}
			case "l":
				return in.newSlice(types.Typ[types.String], nodeVals(out)), st
			}
		}
		return in.opaqueVal(resultType(cc), OpaqueS("fn", s, ns...)), st
	}
	switch s {
	case "big.NewInt":
		return in.bigPtr(in.num(st, args[0])), st
	case "errors.New", "fmt.Errorf":
		return mkErr(Opaque("err", in.summary(st, args[0], 0))), st
	case "strings.Join":
		el, ok := in.elems(st, args[0])
		sep := nodeOr(in.resolve(st, args[1]))
		if !ok {
			break
		}
		n := Str("")
		for i, e := range el {
			if i > 0 {
				n = StrCat(n, sep)
			}
			n = StrCat(n, nodeOr(in.resolve(st, e)))
		}
		return n, st
	case "errors.Join":
		el, ok := in.elems(st, args[0])
		if !ok {
			break
		}
		allNil := True
		for _, e := range el {
			allNil = And(allNil, in.eqVals(st, e, nilIface))
		}
		return fallible(Not(allNil)), st
	case "errors.Is", "errors.As":
		return Opaque("errors", in.summary(st, args[0], 0), in.summary(st, args[1], 0)), st
	case "errors.Unwrap":
		return fallible(Opaque("unwrap", in.summary(st, args[0], 0))), st
	case "os.Exit":
		st.event(&Event{Kind: "exit", Nodes: []*Node{nodeOr(args[0])}, Site: in.site(fr, instr)})
		in.Exits = append(in.Exits, Exit{Code: nodeOr(args[0]), St: st, Site: in.site(fr, instr)})
		return nil, nil
	case "runtime.Goexit":
		in.Exits = append(in.Exits, Exit{Code: Int(0), St: st, Site: in.site(fr, instr)})
		return nil, nil
	case "sha256.Sum256":
		bs, ok := in.byteList(st, args[0])
		if !ok {
			bs = []*Node{in.bytesNode(st, args[0])}
		}
		return &Agg{E: nodeVals(hashBytes("sha256", bs))}, st
	case "sha256.New":
		return in.newHasher("sha256"), st
	case "sha3.NewLegacyKeccak256":
		if strings.HasPrefix(full, "golang.org/x/crypto") {
			return in.newHasher("keccak"), st
		}
	case "hex.DecodeString":
		n := nodeOr(in.resolve(st, args[0]))
		if n.isStr() {
			b, err := hex.DecodeString(n.strVal())
			var el []*Node
			for _, c := range b {
				el = append(el, Int(int64(c)))
			}
			if err != nil {
				return tuple(in.bytesSlice(el), in.fail(fr, instr, st, s, True)), st
			}
			return tuple(in.bytesSlice(el), nilIface), st
		}
		if n.Op == "hex64" {
			var el []*Node
			for j := 31; j >= 0; j-- {
				el = append(el, ByteOf(n.Args[0], j))
			}
			return tuple(in.bytesSlice(el), nilIface), st
		}
		c := OpaqueS("fails", s, n)
		return tuple(&SymBytes{N: OpaqueS("hexdecode", "", n)}, in.fail(fr, instr, st, s, c)), st
	case "hex.EncodeToString":
		if bs, ok := in.byteList(st, args[0]); ok {
			v := FromBytes(bs)
			if v.isInt() {
				b := make([]byte, len(bs))
				v.K.FillBytes(b)
				return Str(hex.EncodeToString(b)), st
			}
			if len(bs) == 32 {
				return mkNode("hex64", nil, "", v), st
			}
		}
		return OpaqueS("fn", s, in.bytesNode(st, args[0])), st
	case "regexp.MustCompile":
		n := nodeOr(in.resolve(st, args[0]))
		return &Ptr{O: in.newObj(nil, "regexp", &Special{Kind: "regexp", N: n})}, st
	case "regexp.Compile":
		n := nodeOr(in.resolve(st, args[0]))
		if n.isStr() {
			if _, err := regexp.Compile(n.strVal()); err == nil {
				return tuple(&Ptr{O: in.newObj(nil, "regexp", &Special{Kind: "regexp", N: n})}, nilIface), st
			}
		}
		c := in.freshLeaf("fails:regexp", false)
		return tuple(&Ptr{O: in.newObj(nil, "regexp", &Special{Kind: "regexp", N: n})}, in.fail(fr, instr, st, s, c)), st
	case "strconv.Itoa":
		n := nodeOr(args[0])
		if n.isInt() {
			return Str(n.K.String()), st
		}
		return mkNode("dec", nil, "", n), st
	case "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln":
		if n := in.sprint(fr, st, instr, s, args, cc); n != nil {
			return n, st
		}
		return OpaqueS("fn", s, in.summarySafe(st, args)...), st
	case "strings.Repeat":
		n, k := nodeOr(args[0]), nodeOr(args[1])
		if n.isStr() && k.isInt() && k.K.IsInt64() && k.K.Int64() >= 0 && k.K.Int64() < 1<<16 {
			return Str(strings.Repeat(n.strVal(), int(k.K.Int64()))), st
		}
	case "bytes.NewBuffer", "bytes.NewBufferString":
		sp := &Special{Kind: "buf"}
		if bs, ok := in.byteList(st, args[0]); ok {
			sp.L = nodeVals(bs)
		} else {
			sp.N = in.bytesNode(st, args[0])
		}
		return &Ptr{O: in.newObj(in.pkgType("bytes", "Buffer"), "buffer", sp)}, st
	case "bytes.Equal":
		a, ok1 := in.byteList(st, args[0])
		b, ok2 := in.byteList(st, args[1])
		if ok1 && ok2 {
			if len(a) != len(b) {
				return False, st
			}
			r := True
			for i := range a {
				r = And(r, eqNodes(a[i], b[i]))
			}
			return r, st
		}
		return OpaqueS("fn", s, in.bytesNode(st, args[0]), in.bytesNode(st, args[1])), st
	case "subtle.ConstantTimeCompare":
		return OpaqueS("fn", s, in.bytesNode(st, args[0]), in.bytesNode(st, args[1])), st
	case "slices.Clone":
		if sl, ok := in.concrete(st, args[0]).(*Slice); ok {
			if sl.O == nil {
				return nilSlice, st
			}
			el := append([]Val(nil), in.sliceElems(st, sl)...)
			var et types.Type
			if t, ok := resultType(cc).Underlying().(*types.Slice); ok {
				et = t.Elem()
			}
			return in.newSlice(et, el), st
		}
	case "slices.Reverse":
		if sl, ok := in.concrete(st, args[0]).(*Slice); ok {
			el := in.sliceElems(st, sl)
			rev := make([]Val, len(el))
			for i := range el {
				rev[len(el)-1-i] = el[i]
			}
			in.writeSlice(fr, instr, st, sl, 0, rev)
			return nil, st
		}
	}
	pkg := s
	if i := strings.IndexByte(s, '.'); i >= 0 {
		pkg = s[:i]
	}
	switch pkg {
	case "log":
		return in.modelLog(fr, st, instr, s[4:], args, cc)
	case "fmt":
		if strings.HasPrefix(s, "fmt.Print") || strings.HasPrefix(s, "fmt.Fprint") {
			return tuple(Int(0), nilIface), st
		}
	case "time":
		rt := resultType(cc)
		if rt == nil {
			return nil, st
		}
		st.event(&Event{Kind: "nondet", S: s, Site: in.site(fr, instr)})
		return in.opaqueVal(rt, in.freshLeaf("time", false)), st
	case "rand":
		st.event(&Event{Kind: "nondet", S: s, Site: in.site(fr, instr)})
	case "strings", "strconv", "unicode", "utf8", "math", "bits", "bytes", "filepath", "path", "runtime":
		// pure
		rt := resultType(cc)
		in.note("uninterpreted %s", s)
		n := OpaqueS("fn", s, in.summarySafe(st, args)...)
		if rt == nil {
			return nil, st
		}
		if tt, ok := rt.(*types.Tuple); ok && tt.Len() > 0 && typeKey(tt.At(tt.Len()-1).Type()) == "error" {
			return in.libCall(fr, st, instr, s, args, cc), st
		}
		return in.opaqueVal(rt, n), st
	}
	return in.unknownCall(fr, st, instr, s, args, cc), st
}

func (in *Interp) summarySafe(st *State, args []Val) []*Node {
	var ns []*Node
	for _, a := range args {
		ns = append(ns, in.summary(st, a, 0))
	}
	return ns
}

func (in *Interp) modelRepoLib(fr *Frame, st *State, instr ssa.Instruction, s, full string, args []Val, cc *ssa.CallCommon) (Val, *State) {
	okErr := func(v Val, zero Val, what string) Val {
		c := in.freshLeaf("fails:"+what, false)
		return tuple(joinVal(c, zero, v), in.fail(fr, instr, st, what, c))
	}
	switch s {
	case "solver.RegisterHint":
		el, ok := in.elems(st, args[0])
		if !ok {
			break
		}
		for _, e := range el {
			if f, ok := in.concrete(st, e).(*FuncVal); ok && f.Fn != nil {
				st.event(&Event{Kind: "register", S: fnShort(f.Fn), Vals: []Val{f}, Site: in.site(fr, instr)})
				if !in.initDone {
					in.Registered[f.Fn] = true
				}
			}
		}
		return nil, st
	case "solver.GetRegisteredHints":
		return &SymBytes{N: in.freshLeaf("hints", false)}, st
	case "uints.New":
		pt := resultType(cc).(*types.Tuple).At(0).Type().Underlying().(*types.Pointer)
		return okErr(in.allocPtr(pt.Elem(), "uapi", Opaque("uapi")), nilPtr, s), st
	case "uints.NewU8":
		return &Agg{E: []Val{&Iface{T: types.Typ[types.Uint8], V: args[0]}, True}}, st
	case "uints.NewU8Array":
		bs, ok := in.byteList(st, args[0])
		if !ok {
			break
		}
		var el []Val
		for _, b := range bs {
			el = append(el, &Agg{E: []Val{&Iface{T: types.Typ[types.Uint8], V: b}, True}})
		}
		return in.newSlice(in.pkgType("github.com/consensys/gnark/std/math/uints", "U8"), el), st
	case "sha2.New":
		return okErr(in.newHasher("sha256c"), nilIface, s), st
	case "sha3.NewLegacyKeccak256":
		if el, ok := in.elems(st, args[len(args)-1]); ok && len(args) > 1 && len(el) > 0 {
			in.note("hasher options")
		}
		return okErr(in.newHasher("keccakc"), nilIface, s), st
	case "sha3.New256":
		return okErr(in.newHasher("sha3-256c"), nilIface, s), st
	case "sw_emulated.New":
		pt := resultType(cc).(*types.Tuple).At(0).Type().Underlying().(*types.Pointer)
		return okErr(in.allocPtr(pt.Elem(), "curve", Opaque("curve")), nilPtr, s), st
	case "emulated.NewField":
		pt := resultType(cc).(*types.Tuple).At(0).Type().Underlying().(*types.Pointer)
		return okErr(in.allocPtr(pt.Elem(), "field", Opaque("field")), nilPtr, s), st
	case "sw_emulated.GetCurveParams":
		ta := cc.StaticCallee().TypeArgs()
		return OpaqueS("curveparams", fmt.Sprint(typeNames(ta))), st
	case "sw_emulated.GetBN254Params", "sw_emulated.GetSecp256k1Params":
		nm := map[string]string{"sw_emulated.GetBN254Params": "[BN254Fp]", "sw_emulated.GetSecp256k1Params": "[Secp256k1Fp]"}[s]
		return OpaqueS("curveparams", nm), st
	case "emulated.ValueOf":
		n := in.varNode(st, args[0])
		if n == nil {
			g, ok := in.resolve(st, args[0]).(*GammaV)
			if ok {
				panic(splitReq{g.C})
			}
			if i, ok := args[0].(*Iface); ok && i.T == nil {
				return Int(0), st
			}
			break
		}
		if n.In {
			st.event(&Event{Kind: "inspect", S: "converted to a constant emulated element", Nodes: []*Node{n}, Site: in.site(fr, instr)})
		}
		ta := cc.StaticCallee().TypeArgs()
		if len(ta) == 1 {
			if f := fieldOfTypeArg(ta[0]); f != nil {
				return IMod(n, IntB(f)), st
			}
		}
		return OpaqueS("valueof", fmt.Sprint(typeNames(ta)), n), st
	case "(emparams.BN254Fr).Modulus", "(emulated.BN254Fr).Modulus":
		return in.bigPtr(IntB(fieldR)), st
	case "sw_bn254.NewPairing":
		pt := resultType(cc).(*types.Tuple).At(0).Type().Underlying().(*types.Pointer)
		return okErr(in.allocPtr(pt.Elem(), "pairing", Opaque("pairing")), nilPtr, s), st
	case "sw_bn254.NewG1Affine":
		a, ok := in.concrete(st, args[0]).(*Agg)
		if !ok {
			break
		}
		return &Agg{E: []Val{FpOf(nodeOr(a.E[0])), FpOf(nodeOr(a.E[1]))}}, st
	case "sw_bn254.NewG2Affine", "sw_bn254.NewG2AffineFixed":
		var ns []*Node
		for _, x := range flatNodes(args[0]) {
			ns = append(ns, x)
		}
		if len(ns) != 4 {
			break
		}
		return Opaque("g2", ns...), st
	case "bn254.Generators":
		return &Agg{E: []Val{
			in.opaqueVal(in.pkgType("github.com/consensys/gnark-crypto/ecc/bn254", "G1Jac"), Opaque("g1jac-gen")),
			in.opaqueVal(in.pkgType("github.com/consensys/gnark-crypto/ecc/bn254", "G2Jac"), Opaque("g2jac-gen")),
			&Agg{E: []Val{Int(1), Int(2)}},
			&Agg{E: []Val{&Agg{E: []Val{IntB(g2Gen[0]), IntB(g2Gen[1])}}, &Agg{E: []Val{IntB(g2Gen[2]), IntB(g2Gen[3])}}}},
		}}, st
	case "fp.NewElement", "fr.NewElement":
		n := in.num(st, args[0])
		if strings.HasPrefix(s, "fp") {
			return FpOf(n), st
		}
		return Canonize(n), st
	case "fp.One", "fr.One":
		return Int(1), st
	case "fp.Modulus":
		if strings.Contains(full, "bn254") {
			return in.bigPtr(IntB(fieldP)), st
		}
	case "fr.Modulus":
		if strings.Contains(full, "bn254") {
			return in.bigPtr(IntB(fieldR)), st
		}
	case "crypto.Keccak256Hash", "crypto.Keccak256":
		el, ok := in.elems(st, args[0])
		if !ok {
			break
		}
		var bs []*Node
		for _, e := range el {
			b, ok := in.byteList(st, e)
			if !ok {
				b = []*Node{in.bytesNode(st, e)}
			}
			bs = append(bs, b...)
		}
		d := hashBytes("keccak", bs)
		if s == "crypto.Keccak256" {
			return in.bytesSlice(d), st
		}
		return &Agg{E: nodeVals(d)}, st
	}
	if strings.HasSuffix(s, ".Modulus") && strings.HasPrefix(s, "(") {
		if f := fieldOfTypeArgName(s); f != nil {
			return in.bigPtr(IntB(f)), st
		}
	}
	switch {
	case strings.HasPrefix(s, "frontend."), strings.HasPrefix(s, "plonk."), strings.HasPrefix(s, "groth16."),
		strings.HasPrefix(s, "unsafekzg."), strings.HasPrefix(s, "kzg."), strings.HasPrefix(s, "witness."), strings.HasPrefix(s, "ecc."), strings.HasPrefix(s, "(ecc."):
		return in.libCall(fr, st, instr, s, args, cc), st
	}
	return in.unknownCall(fr, st, instr, s, args, cc), st
}

func fieldOfTypeArgName(s string) *big.Int {
	switch {
	case strings.Contains(s, ".BN254Fp)"):
		return fieldP
	case strings.Contains(s, ".BN254Fr)"):
		return fieldR
	case strings.Contains(s, ".Secp256k1Fp)"):
		return secpP
	case strings.Contains(s, ".Secp256k1Fr)"):
		return secpN
	}
	return nil
}

func typeNames(ts []types.Type) []string {
	var r []string
	for _, t := range ts {
		if n, ok := types.Unalias(t).(*types.Named); ok {
			r = append(r, n.Obj().Name())
		} else {
			r = append(r, t.String())
		}
	}
	return r
}

func flatNodes(v Val) []*Node {
	switch x := v.(type) {
	case *Node:
		return []*Node{x}
	case *Agg:
		var r []*Node
		for _, e := range x.E {
			r = append(r, flatNodes(e)...)
		}
		return r
	}
	return []*Node{OpaqueS("val", valStr(v))}
}

func (in *Interp) modelHashT(fr *Frame, st *State, instr ssa.Instruction, m string, args []Val, cc *ssa.CallCommon) (Val, *State) {
	a, ok := in.concrete(st, in.valOrDeref(st, args[0])).(*Agg)
	if ok {
		switch m {
		case "Bytes":
			return in.newSlice(types.Typ[types.Uint8], append([]Val(nil), a.E...)), st
		case "Big":
			var bs []*Node
			for _, e := range a.E {
				bs = append(bs, nodeOr(e))
			}
			return in.bigPtr(FromBytes(bs)), st
		}
	}
	return in.opaqueVal(resultType(cc), OpaqueS("fn", "hash."+m, in.summary(st, args[0], 0))), st
}

// testedForZero: the x of an equation iszero(x) = 0, which says 1 <= x.
func testedForZero(a, b *Node) *Node {
	if b.Op == "iszero" {
		a, b = b, a
	}
	if a.Op == "iszero" && b.isInt() && b.K.Sign() == 0 {
		return a.Args[0]
	}
	return nil
}

// sprint formats operands whose text is known: strings, numbers in decimal,
// numbers of 64 hex digits, and printed points.
func (in *Interp) sprint(fr *Frame, st *State, instr ssa.Instruction, s string, args []Val, cc *ssa.CallCommon) *Node {
	if len(args) == 0 {
		return nil
	}
	vals, ok := in.elems(st, args[len(args)-1])
	if !ok {
		return nil
	}
	isString := func(v Val) bool {
		i, ok := in.concrete(st, v).(*Iface)
		if !ok || i.T == nil {
			return false
		}
		b, ok := types.Unalias(i.T).(*types.Basic)
		return ok && b.Kind() == types.String
	}
	render := func(verb string, v Val) *Node {
		i, ok := in.concrete(st, v).(*Iface)
		if !ok || i.T == nil {
			return nil
		}
		plain := verb == "v" || verb == "s"
		switch t := types.Unalias(i.T).(type) {
		case *types.Basic:
			n, ok := in.resolve(st, i.V).(*Node)
			switch {
			case !ok:
			case t.Kind() == types.String && plain:
				return n
			case t.Info()&types.IsInteger != 0 && (verb == "v" || verb == "d"):
				if n.isInt() {
					return Str(n.K.String())
				}
				return mkNode("dec", nil, "", n)
			}
		case *types.Pointer:
			p, ok := in.concrete(st, i.V).(*Ptr)
			if !ok || p.O == nil {
				return nil
			}
			switch k := typeKey(t.Elem()); {
			case k == "math/big.Int" && (plain || verb == "d"):
				v, _ := in.modelBig(fr, st, instr, "String", []Val{p}, cc)
				n, _ := v.(*Node)
				return n
			case k == "math/big.Int" && verb == "064x":
				n := in.num(st, p)
				if n.isInt() && n.K.Sign() >= 0 && n.K.BitLen() <= 256 {
					return Str(fmt.Sprintf("%064x", n.K))
				}
				if fits256(n) {
					return mkNode("hex64", nil, "", n)
				}
			case strings.HasSuffix(k, "bn256.G1") || strings.HasSuffix(k, "bn256/cloudflare.G1"):
				if plain {
					v, _ := in.modelBn256(fr, st, instr, "String", []Val{p}, cc)
					n, _ := v.(*Node)
					return n
				}
			}
		}
		return nil
	}
	out := Str("")
	if s != "fmt.Sprintf" {
		for i, v := range vals {
			if i > 0 && s == "fmt.Sprintln" {
				out = StrCat(out, Str(" "))
			} else if i > 0 && !isString(v) && !isString(vals[i-1]) {
				out = StrCat(out, Str(" "))
			}
			n := render("v", v)
			if n == nil {
				return nil
			}
			out = StrCat(out, n)
		}
		if s == "fmt.Sprintln" {
			out = StrCat(out, Str("\n"))
		}
		return out
	}
	f := nodeOr(in.resolve(st, args[0]))
	if !f.isStr() {
		return nil
	}
	text := f.strVal()
	for len(text) > 0 {
		i := strings.IndexByte(text, '%')
		if i < 0 {
			i = len(text)
		}
		if i > 0 {
			out = StrCat(out, Str(text[:i]))
			text = text[i:]
			continue
		}
		j := 1
		for j < len(text) && strings.IndexByte("0123456789+-# .", text[j]) >= 0 {
			j++
		}
		if j == len(text) {
			return nil
		}
		verb := text[1 : j+1]
		text = text[j+1:]
		if verb == "%" {
			out = StrCat(out, Str("%"))
			continue
		}
		if len(vals) == 0 {
			return nil
		}
		n := render(verb, vals[0])
		if n == nil {
			return nil
		}
		vals = vals[1:]
		out = StrCat(out, n)
	}
	if len(vals) > 0 {
		return nil
	}
	return out
}
