package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Flow-sensitive, interprocedural abstract interpreter over SSA.
//
// It propagates constants, builds the value-flow graph and joins at immediate
// post-dominators with gated (gamma) values; nothing is enumerated path by
// path, nothing is handed to a solver, and no repository code runs.
// ---------------------------------------------------------------------------

type Interp struct {
	lastHint *Accept // acceptance of the hint interpreted last
	P        *Program
	nextID   int
	globals  map[*ssa.Global]*Obj
	cfgs     map[*ssa.Function]*fnInfo
	steps    int64
	Budget   int64
	depth    int
	Notes    map[string]int // unmodelled constructs met
	fresh    int
	CalledFn map[*ssa.Function]bool
	initDone bool
	initEv   *Ev
	initHeap *Heap
	nforks   int
	flat     int // conditional groups of constraints told apart
	late     func(*Interp) bool
	pruned   int // case splits followed on one side only
	njoins   int

	typeCache   map[string]types.Type
	bigPtrTc    types.Type
	boolNode    map[Hash]bool
	Hints       map[string]*HintUse
	HintOf      map[Hash]*HintUse
	Registered  map[*ssa.Function]bool
	Exits       []Exit
	cur         string
	nameCache   map[*ssa.Function]string
	repoCache   map[*ssa.Function]bool
	loops       map[*ssa.BasicBlock]*loopInfo
	accelerated int
}

// HintUse is one NewHint request.
type HintUse struct {
	ID, Name string
	Fn       *ssa.Function
	In, Out  []*Node
	Raw      []*Node // inputs as the execution engine passes them
	Site     Site
}

// Exit is a process exit reached by the program.
type Exit struct {
	Code *Node
	St   *State
	Site Site
}

type operand struct {
	reg int
	val Val
}
type cInstr struct {
	in  ssa.Instruction
	ops []operand
	dst int
}
type cBlock struct {
	b    *ssa.BasicBlock
	phis []*cInstr
	body []*cInstr
}
type fnInfo struct {
	fn       *ssa.Function
	nregs    int
	idx      map[ssa.Value]int
	blocks   []*cBlock
	ipdom    []*ssa.BasicBlock
	loopRegs map[int][]int
}

type Frame struct {
	info   *fnInfo
	regs   []Val
	caller *Frame
	call   ssa.Instruction
	defers []deferred
	depth  int
	loops  map[*ssa.BasicBlock]int
	acc    map[*ssa.BasicBlock]*accel
}
type deferred struct {
	instr *ssa.Defer
	fn    Val
	args  []Val
}

type splitReq struct{ C *Node }
type deadReq struct{ why string }

type incomplete struct{ why string }

func NewInterp(P *Program) *Interp {
	in := &Interp{P: P, globals: map[*ssa.Global]*Obj{}, cfgs: map[*ssa.Function]*fnInfo{}, Budget: 2_000_000_000,
		Notes: map[string]int{}, CalledFn: map[*ssa.Function]bool{},
		typeCache: map[string]types.Type{}, boolNode: map[Hash]bool{}, Hints: map[string]*HintUse{}, HintOf: map[Hash]*HintUse{},
		Registered: map[*ssa.Function]bool{}, nameCache: map[*ssa.Function]string{}, repoCache: map[*ssa.Function]bool{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	in.bigPtrTc = in.bigPtrT()
	return in
}

func (in *Interp) newObj(t types.Type, name string, init Val) *Obj {
	in.nextID++
	return &Obj{ID: in.nextID, Type: t, Name: name, Init: init}
}

func (in *Interp) note(f string, a ...interface{}) { in.Notes[fmt.Sprintf(f, a...)]++ }

// type classification ---------------------------------------------------------

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		o := n.Origin().Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return o.Pkg().Path() + "." + o.Name()
	}
	return ""
}

var transparent = map[string]bool{
	"github.com/consensys/gnark-crypto/ecc/bn254.G1Affine":                    true,
	"github.com/consensys/gnark-crypto/ecc/bn254.G2Affine":                    true,
	"github.com/consensys/gnark-crypto/ecc/bn254.G1Jac":                       true,
	"github.com/consensys/gnark-crypto/ecc/bn254.G2Jac":                       true,
	"github.com/consensys/gnark-crypto/ecc/bn254/internal/fptower.E2":         true,
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated.AffinePoint": true,
	"github.com/consensys/gnark/std/math/uints.U8":                            true,
	"github.com/consensys/gnark/std/math/uints.U32":                           true,
	"github.com/consensys/gnark/std/math/uints.U64":                           true,
	"github.com/consensys/gnark/std/signature/ecdsa.Signature":                true,
	"github.com/consensys/gnark/std/signature/ecdsa.PublicKey":                true,
	"github.com/ethereum/go-ethereum/common.Hash":                             true,
	"github.com/ethereum/go-ethereum/common.Address":                          true,
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254.G1Affine":       true,
	"github.com/consensys/gnark/std/algebra/emulated/fields_bn254.E2":         true,
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254.g2AffP":         true,
}

func (in *Interp) isTransparent(t types.Type) bool {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok {
		return true
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return true
	}
	if in.P.owns(o.Pkg()) {
		return true
	}
	switch n.Underlying().(type) {
	case *types.Struct, *types.Array:
		return transparent[typeKey(t)]
	}
	return true
}

func (in *Interp) zeroVal(t types.Type) Val {
	if t == nil {
		return Int(0)
	}
	ut := types.Unalias(t)
	if !in.isTransparent(ut) {
		return in.opaqueZero(ut)
	}
	if _, ok := ut.(*types.TypeParam); ok {
		return OpaqueS("zero", ut.String())
	}
	switch u := ut.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Kind() == types.UntypedNil:
			return nilIface
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		}
		return OpaqueS("float", "0")
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return nilSlice
	case *types.Map:
		return nilPtr
	case *types.Chan:
		return nilPtr
	case *types.Signature:
		return &FuncVal{}
	case *types.Interface:
		return nilIface
	case *types.Struct:
		a := &Agg{E: make([]Val, u.NumFields())}
		for i := range a.E {
			a.E[i] = in.zeroVal(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		if n > 1<<20 {
			return OpaqueS("zero", ut.String())
		}
		z := in.zeroVal(u.Elem())
		a := &Agg{E: make([]Val, n)}
		for i := range a.E {
			a.E[i] = z
		}
		return a
	case *types.Tuple:
		a := &Agg{E: make([]Val, u.Len())}
		for i := range a.E {
			a.E[i] = in.zeroVal(u.At(i).Type())
		}
		return a
	}
	return OpaqueS("zero", ut.String())
}

func (in *Interp) opaqueZero(t types.Type) Val {
	switch typeKey(t) {
	case "math/big.Int", tFp, tFr:
		return Int(0)
	case "bytes.Buffer", "strings.Builder":
		return &Special{Kind: "buf"}
	case "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare.G1", "github.com/ethereum/go-ethereum/crypto/bn256.G1":
		return OpaqueS("g1", "zero")
	}
	return OpaqueS("zero", shortType(t))
}

func shortType(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
}

const (
	tFp = "github.com/consensys/gnark-crypto/ecc/bn254/fp.Element"
	tFr = "github.com/consensys/gnark-crypto/ecc/bn254/fr.Element"
)

var errMarker = types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("verif", "verif"), "error", nil), types.NewStruct(nil, nil), nil)
var opaqueMarker = types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("verif", "verif"), "opaque", nil), types.NewStruct(nil, nil), nil)
var apiMarker = types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("verif", "verif"), "api", nil), types.NewStruct(nil, nil), nil)

var objMarker = types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("verif", "verif"), "object", nil), types.NewStruct(nil, nil), nil)

func mkErr(n *Node) *Iface { return &Iface{T: errMarker, V: n} }

// fallible gives an error value that is non-nil exactly when cond holds.
func fallible(cond *Node) Val {
	return joinVal(cond, mkErr(Opaque("err", cond)), nilIface)
}

func (in *Interp) freshLeaf(kind string, canon bool) *Node {
	in.fresh++
	return Leaf(fmt.Sprintf("%s#%d", kind, in.fresh), canon)
}

// opaqueVal is an unknown value of type t.
func (in *Interp) opaqueVal(t types.Type, n *Node) Val {
	return in.opaqueValD(t, n, 0)
}
func (in *Interp) opaqueValD(t types.Type, n *Node, d int) Val {
	ut := types.Unalias(t)
	if !in.isTransparent(ut) {
		return n
	}
	if _, ok := ut.(*types.TypeParam); ok {
		return n
	}
	switch u := ut.Underlying().(type) {
	case *types.Basic:
		return n
	case *types.Pointer:
		if d > 5 {
			return nilPtr
		}
		return &Ptr{O: in.newObj(u.Elem(), "opaque", in.opaqueValD(u.Elem(), Opaque("deref", n), d+1))}
	case *types.Slice, *types.Map, *types.Chan:
		return &SymBytes{N: n}
	case *types.Signature:
		return &FuncVal{Ext: "opaque " + n.str(8)}
	case *types.Interface:
		if typeKey(ut) == "error" {
			return fallible(Opaque("fails", n))
		}
		return &Iface{T: opaqueMarker, V: n}
	case *types.Struct:
		a := &Agg{E: make([]Val, u.NumFields())}
		for i := range a.E {
			a.E[i] = in.opaqueValD(u.Field(i).Type(), OpaqueS("fld", fmt.Sprint(i), n), d+1)
		}
		return a
	case *types.Array:
		a := &Agg{E: make([]Val, int(u.Len()))}
		for i := range a.E {
			a.E[i] = in.opaqueValD(u.Elem(), OpaqueS("fld", fmt.Sprint(i), n), d+1)
		}
		return a
	case *types.Tuple:
		a := &Agg{E: make([]Val, u.Len())}
		for i := range a.E {
			a.E[i] = in.opaqueValD(u.At(i).Type(), OpaqueS("fld", fmt.Sprint(i), n), d+1)
		}
		return a
	}
	return n
}

// function preparation ---------------------------------------------------------

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := in.cfgs[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}}
	reg := func(v ssa.Value) int {
		i, ok := fi.idx[v]
		if !ok {
			i = fi.nregs
			fi.nregs++
			fi.idx[v] = i
		}
		return i
	}
	for _, p := range fn.Params {
		reg(p)
	}
	for _, p := range fn.FreeVars {
		reg(p)
	}
	for _, b := range fn.Blocks {
		cb := &cBlock{b: b}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := &cInstr{in: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = reg(v)
			}
			var rands []*ssa.Value
			if ph, ok := ins.(*ssa.Phi); ok {
				for i := range ph.Edges {
					rands = append(rands, &ph.Edges[i])
				}
			} else {
				rands = ins.Operands(nil)
			}
			for _, r := range rands {
				if r == nil || *r == nil {
					ci.ops = append(ci.ops, operand{reg: -1})
					continue
				}
				switch v := (*r).(type) {
				case *ssa.Const:
					ci.ops = append(ci.ops, operand{reg: -1, val: in.constVal(v)})
				case *ssa.Global:
					ci.ops = append(ci.ops, operand{reg: -1, val: &Ptr{O: in.global(v)}})
				case *ssa.Function:
					ci.ops = append(ci.ops, operand{reg: -1, val: &FuncVal{Fn: v}})
				case *ssa.Builtin:
					ci.ops = append(ci.ops, operand{reg: -1, val: &FuncVal{Ext: "builtin " + v.Name()}})
				default:
					ci.ops = append(ci.ops, operand{reg: reg(v)})
				}
			}
			if _, ok := ins.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
			} else {
				cb.body = append(cb.body, ci)
			}
		}
		fi.blocks = append(fi.blocks, cb)
	}
	fi.ipdom = postdoms(fn)
	in.cfgs[fn] = fi
	return fi
}

// postdoms computes the blocks where the two sides of a branch are joined:
// immediate post-dominators, ignoring the parts of the function that only panic
// or that only lead to an early return. (Runs that return early are kept apart
// and joined with the final outcome; inside such a part its own
// post-dominators apply.)
func postdoms(fn *ssa.Function) []*ssa.BasicBlock {
	all := make([]bool, len(fn.Blocks))
	for i := range all {
		all[i] = true
	}
	res := make([]*ssa.BasicBlock, len(fn.Blocks))
	for len(all) > 0 {
		main := mainReturn(fn, all)
		if main < 0 {
			break
		}
		joins, live := postdomsTo(fn, main, all)
		for i := range live {
			if live[i] {
				res[i] = joins[i]
				all[i] = false
			}
		}
	}
	return res
}

// loopRegs: the registers that are assigned before block b on every path to it
// and again on a path from b to itself. What a later block reads from them
// depends on the way taken from b.
func (in *Interp) loopRegs(fi *fnInfo, b *ssa.BasicBlock) []int {
	if fi.loopRegs == nil {
		fi.loopRegs = map[int][]int{}
	}
	if rs, ok := fi.loopRegs[b.Index]; ok {
		return rs
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	rs := []int{}
	for _, d := range fi.fn.Blocks {
		if !seen[d] || !d.Dominates(b) {
			continue
		}
		for _, ins := range d.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				if u.Block() != d && u.Block() != nil {
					if r, ok := fi.idx[v]; ok {
						rs = append(rs, r)
					}
					break
				}
			}
		}
	}
	fi.loopRegs[b.Index] = rs
	return rs
}

// mainReturn is the return that most blocks of the set lead to.
func mainReturn(fn *ssa.Function, set []bool) int {
	best, bestc, bestp := -1, 0, token.NoPos
	for i, b := range fn.Blocks {
		if !set[i] || len(b.Succs) > 0 || len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
			continue
		}
		seen := map[*ssa.BasicBlock]bool{b: true}
		work := []*ssa.BasicBlock{b}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			for _, p := range x.Preds {
				if set[p.Index] && !seen[p] {
					seen[p] = true
					work = append(work, p)
				}
			}
		}
		// of two returns reached from as many blocks, the one that reports
		// success (a nil error), or else the later one
		score := 2 * len(seen)
		ret := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if n := len(ret.Results); n > 0 {
			if c, ok := ret.Results[n-1].(*ssa.Const); ok && c.IsNil() {
				score++
			}
		}
		if score > bestc || score == bestc && ret.Pos() > bestp {
			best, bestc, bestp = i, score, ret.Pos()
		}
	}
	return best
}

// postdomsTo: post-dominators within the blocks of the set that lead to the
// return block.
func postdomsTo(fn *ssa.Function, ret int, set []bool) ([]*ssa.BasicBlock, []bool) {
	n := len(fn.Blocks)
	exit := n
	succ := make([][]int, n+1)
	for i, b := range fn.Blocks {
		if !set[i] {
			continue
		}
		for _, s := range b.Succs {
			if set[s.Index] {
				succ[i] = append(succ[i], s.Index)
			}
		}
	}
	succ[ret] = append(succ[ret], exit)
	// live: can reach exit
	live := make([]bool, n+1)
	live[exit] = true
	for ch := true; ch; {
		ch = false
		for i := 0; i < n; i++ {
			if !live[i] {
				for _, s := range succ[i] {
					if live[s] {
						live[i] = true
						ch = true
						break
					}
				}
			}
		}
	}
	// pdom sets as bitsets
	w := (n + 64) / 64
	full := make([]uint64, w)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << uint(i%64)
	}
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[exit] = make([]uint64, w)
	pd[exit][exit/64] |= 1 << uint(exit%64)
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if !live[i] {
				continue
			}
			cur := append([]uint64(nil), full...)
			for _, s := range succ[i] {
				if !live[s] {
					continue
				}
				for k := range cur {
					cur[k] &= pd[s][k]
				}
			}
			cur[i/64] |= 1 << uint(i%64)
			for k := range cur {
				if cur[k] != pd[i][k] {
					pd[i] = cur
					ch = true
					break
				}
			}
		}
	}
	cnt := func(s []uint64) int {
		c := 0
		for _, x := range s {
			for ; x != 0; x &= x - 1 {
				c++
			}
		}
		return c
	}
	res := make([]*ssa.BasicBlock, n)
	for i := 0; i < n; i++ {
		if !live[i] {
			continue
		}
		best, bestc := -1, -1
		for j := 0; j <= n; j++ {
			if j == i || pd[i][j/64]&(1<<uint(j%64)) == 0 {
				continue
			}
			if c := cnt(pd[j]); c > bestc {
				best, bestc = j, c
			}
		}
		if best >= 0 && best < n {
			res[i] = fn.Blocks[best]
		}
	}
	return res, live[:n]
}

func (in *Interp) global(g *ssa.Global) *Obj {
	if o, ok := in.globals[g]; ok {
		return o
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	o := in.newObj(et, g.Name(), nil)
	if g.Pkg != nil && in.P.owns(g.Pkg.Pkg) {
		o.Init = in.zeroVal(et)
		if !strings.HasPrefix(g.Name(), "init$guard") {
			o.Shared = "package variable " + g.Name()
		}
	} else {
		o.Init = in.opaqueVal(et, Leaf("global:"+g.String(), false))
		o.Shared = "package variable " + g.String()
	}
	in.globals[g] = o
	return o
}

func (in *Interp) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return in.zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			v, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return IntB(v)
		}
	}
	return OpaqueS("float", c.Value.ExactString())
}

// ---------------------------------------------------------------------------

type outcome struct {
	st    *State
	vals  []Val // phi values (reach) or results (ret)
	guard *Node
}
type flow struct{ reach, ret *outcome }

func (in *Interp) get(fr *Frame, o operand) Val {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.val
}

func (in *Interp) stack(fr *Frame) string {
	var s []string
	for f := fr; f != nil; f = f.caller {
		s = append(s, fnShort(f.info.fn))
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return strings.Join(s, " > ")
}

func fnShort(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, "gnark-halo2-verify.", "")
	return s
}

func (in *Interp) site(fr *Frame, i ssa.Instruction) Site {
	return Site{Fn: fr.info.fn, Instr: i, Stack: in.stack(fr)}
}

func (in *Interp) where(s Site) string {
	if s.Fn == nil {
		return "?"
	}
	pos := token.NoPos
	if s.Instr != nil {
		pos = s.Instr.Pos()
	}
	if pos == token.NoPos {
		pos = s.Fn.Pos()
	}
	p := in.P.Prog.Fset.Position(pos)
	f := p.Filename
	f = strings.TrimPrefix(f, in.P.Dir+"/")
	return fmt.Sprintf("%s:%d in %s [%s]", f, p.Line, fnShort(s.Fn), s.Stack)
}

// callFunction interprets fn with the given arguments.
func (in *Interp) callFunction(caller *Frame, site ssa.Instruction, st *State, fn *ssa.Function, args []Val, bind []Val) (Val, *State) {
	fi := in.info(fn)
	in.CalledFn[fn] = true
	in.cur = fn.Name()
	fr := &Frame{info: fi, regs: make([]Val, fi.nregs), caller: caller, call: site}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > 700 {
		panic(incomplete{"call depth exceeded in " + fn.String()})
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.regs[fi.idx[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			fr.regs[fi.idx[p]] = bind[i]
		}
	}
	fl := in.run(fr, st, fn.Blocks[0], nil, nil, nil)
	if fl.ret == nil {
		return nil, nil
	}
	switch len(fl.ret.vals) {
	case 0:
		return nil, fl.ret.st
	case 1:
		return fl.ret.vals[0], fl.ret.st
	}
	return &Agg{E: fl.ret.vals}, fl.ret.st
}

func (in *Interp) phiVals(fr *Frame, b, pred *ssa.BasicBlock) []Val {
	cb := fr.info.blocks[b.Index]
	if len(cb.phis) == 0 {
		return nil
	}
	k := -1
	for i, p := range b.Preds {
		if p == pred {
			k = i
			break
		}
	}
	vs := make([]Val, len(cb.phis))
	for i, ph := range cb.phis {
		vs[i] = in.get(fr, ph.ops[k])
	}
	return vs
}

// run interprets from block b (entered from pred, or with the given phi
// values) until it would enter stop, returns, or dies.
func (in *Interp) run(fr *Frame, st *State, b, pred *ssa.BasicBlock, phis []Val, stop *ssa.BasicBlock) flow {
	in.depth++
	defer func() { in.depth-- }()
	if in.depth > 20000 {
		panic(incomplete{"branch nesting too deep in " + fr.info.fn.String()})
	}
	for {
		if pred != nil || phis != nil {
			vs := phis
			if pred != nil {
				vs = in.phiVals(fr, b, pred)
			}
			if b == stop {
				return flow{reach: &outcome{st: st, vals: vs, guard: True}}
			}
			if pred != nil && b.Dominates(pred) {
				in.tryAccel(fr, st, b, vs)
			}
			for i, ph := range fr.info.blocks[b.Index].phis {
				fr.regs[ph.dst] = vs[i]
			}
		} else if b == stop {
			return flow{reach: &outcome{st: st, guard: True}}
		}
		phis = nil
		cb := fr.info.blocks[b.Index]
		var next *ssa.BasicBlock
		for _, ci := range cb.body {
			in.steps++
			if in.steps > in.Budget {
				panic(incomplete{"analysis budget exceeded in " + fr.info.fn.String()})
			}
			if in.steps&1023 == 0 && in.late != nil && in.late(in) {
				panic(tooLate{})
			}
			switch x := ci.in.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				vals := make([]Val, len(ci.ops))
				for i, o := range ci.ops {
					vals[i] = in.resolve(st, in.get(fr, o))
				}
				return flow{ret: &outcome{st: st, vals: vals, guard: True}}
			case *ssa.Panic:
				return flow{}
			case *ssa.If:
				c := in.cond(st, in.get(fr, ci.ops[0]))
				if c == True || c.H == True.H {
					next = b.Succs[0]
					break
				}
				if c.H == False.H {
					next = b.Succs[1]
					break
				}
				return in.branch(fr, st, b, c, x, stop)
			case *ssa.RunDefers:
				for i := len(fr.defers) - 1; i >= 0; i-- {
					d := fr.defers[i]
					fr.defers = fr.defers[:i]
					_, ns := in.invoke(fr, st, d.instr, d.fn, d.args, &d.instr.Call)
					if ns == nil {
						return flow{}
					}
					st = ns
				}
			default:
				st = in.step(fr, st, ci)
				if st == nil {
					return flow{}
				}
			}
		}
		if next == nil {
			return flow{}
		}
		pred, b = b, next
	}
}

func (in *Interp) branch(fr *Frame, st *State, b *ssa.BasicBlock, c *Node, x *ssa.If, stop *ssa.BasicBlock) flow {
	in.nforks++
	if fr.loops == nil {
		fr.loops = map[*ssa.BasicBlock]int{}
	}
	fr.loops[b]++
	defer func() { fr.loops[b]-- }()
	if fr.loops[b] > 600 {
		panic(incomplete{"loop whose trip count depends on analysed values in " + fr.info.fn.String()})
	}
	J := fr.info.ipdom[b.Index]
	if debugOn {
		debugf("branch %s at %s\n", c.str(60), in.where(in.site(fr, x)))
	}
	st.event(&Event{Kind: "branch", Nodes: []*Node{c}, Site: in.site(fr, x)})
	saved := append([]Val(nil), fr.regs...)
	savedDefers := append([]deferred(nil), fr.defers...)
	var T, F flow
	stT, stF := st.fork(), st.fork()
	okT, okF := in.assume(stT, c, true), in.assume(stF, c, false)
	if okT {
		T = in.run(fr, stT, b.Succs[0], b, nil, J)
	}
	dT := fr.defers
	regsT := append([]Val(nil), fr.regs...)
	copy(fr.regs, saved)
	fr.defers = savedDefers
	if okF {
		F = in.run(fr, stF, b.Succs[1], b, nil, J)
	}
	if len(fr.defers) != len(dT) && T.reach != nil && F.reach != nil {
		in.note("conditional defer in %s", fr.info.fn)
	}
	if T.reach != nil && F.reach == nil {
		fr.defers = dT
	}
	regsF := append([]Val(nil), fr.regs...)
	copy(fr.regs, saved)
	// registers that a side assigned again on its way round a loop
	for _, r := range in.loopRegs(fr.info, b) {
		switch {
		case T.reach != nil && F.reach != nil:
			if regsT[r] != regsF[r] && regsT[r] != nil && regsF[r] != nil {
				fr.regs[r] = joinVal(c, regsT[r], regsF[r])
			} else {
				fr.regs[r] = regsT[r]
			}
		case T.reach != nil:
			fr.regs[r] = regsT[r]
		case F.reach != nil:
			fr.regs[r] = regsF[r]
		}
	}
	reach := in.merge(c, T.reach, F.reach, T, F)
	ret := in.merge(c, T.ret, F.ret, T, F)
	if reach == nil {
		return flow{ret: ret}
	}
	if ret == nil {
		// the common base can absorb the surviving state
		rst := reach.st
		if in.descends(rst, st) {
			st.absorb(rst)
			rst = st
		}
		fl := in.runPhis(fr, rst, J, reach.vals, stop)
		return fl
	}
	in.assume(reach.st, reach.guard, true)
	fl := in.runPhis(fr, reach.st, J, reach.vals, stop)
	// combine: pending returns happened under !guard
	out := flow{}
	g := reach.guard
	if fl.reach != nil {
		out.reach = &outcome{st: fl.reach.st, vals: fl.reach.vals, guard: And(g, fl.reach.guard)}
	}
	if fl.ret != nil {
		jc := g // under g (and not having reached stop) the later return is taken
		out.ret = in.joinOutcomes(jc, fl.ret, ret)
		if fl.reach != nil {
			out.ret.guard = Gamma(g, fl.ret.guard, True)
		} else {
			out.ret.guard = True
		}
		if fl.reach == nil && out.ret.guard != True {
			out.ret.guard = True
		}
	} else {
		out.ret = &outcome{st: ret.st, vals: ret.vals, guard: Not(g)}
		if fl.reach == nil {
			// everything past the join dies: only the early returns survive
			out.ret.guard = True
			in.assume(ret.st, g, false)
		}
	}
	return out
}

func (in *Interp) descends(a, base *State) bool {
	h := a.heap
	for h != nil && h.depth > base.heap.depth {
		h = h.parent
	}
	f := a.facts
	for f != nil && f.depth > base.facts.depth {
		f = f.parent
	}
	return h == base.heap && f == base.facts
}

func (in *Interp) runPhis(fr *Frame, st *State, b *ssa.BasicBlock, vals []Val, stop *ssa.BasicBlock) flow {
	if b == nil {
		return flow{}
	}
	if vals == nil {
		vals = []Val{}
	}
	return in.run(fr, st, b, nil, vals, stop)
}

// merge joins the outcomes of the two sides of a branch; the guard tells when
// this outcome (rather than the other kind) happens.
func (in *Interp) merge(c *Node, a, b *outcome, T, F flow) *outcome {
	if a == nil && b == nil {
		return nil
	}
	tAlive := T.reach != nil || T.ret != nil
	fAlive := F.reach != nil || F.ret != nil
	if a != nil && b != nil {
		o := in.joinOutcomes(c, a, b)
		o.guard = Gamma(c, a.guard, b.guard)
		return o
	}
	if a != nil {
		g := a.guard
		if fAlive {
			g = And(c, a.guard)
		}
		return &outcome{st: a.st, vals: a.vals, guard: g}
	}
	g := b.guard
	if tAlive {
		g = And(Not(c), b.guard)
	}
	return &outcome{st: b.st, vals: b.vals, guard: g}
}

func (in *Interp) joinOutcomes(c *Node, a, b *outcome) *outcome {
	in.njoins++
	o := &outcome{st: joinStates(c, a.st, b.st), guard: True}
	o.vals = make([]Val, len(a.vals))
	for i := range a.vals {
		if i < len(b.vals) {
			o.vals[i] = joinVal(c, a.vals[i], b.vals[i])
		}
	}
	return o
}

// facts -------------------------------------------------------------------

// condVal decides a boolean node under the state's facts, if possible.
func (in *Interp) condVal(st *State, c *Node) (bool, bool) {
	return in.condValD(st, c, 0)
}

// condValD remembers the answer for gates deep in a condition.
func (in *Interp) condValD(st *State, c *Node, depth int) (bool, bool) {
	switch {
	case c.H == True.H:
		return true, true
	case c.H == False.H:
		return false, true
	case c.Op == "not":
		v, ok := in.condValD(st, c.Args[0], depth)
		return !v, ok
	}
	if c.Op != "gamma" {
		return st.facts.get(c.H)
	}
	f := st.facts
	if depth >= 3 {
		if r, ok := f.cv[c]; ok && (r.r != 0 || r.n == len(f.list)) {
			return r.r == 1, r.r != 0
		}
	}
	v, ok := f.get(c.H)
	if !ok {
		if g, okg := in.condValD(st, c.Args[0], depth+1); okg {
			if g {
				v, ok = in.condValD(st, c.Args[1], depth+1)
			} else {
				v, ok = in.condValD(st, c.Args[2], depth+1)
			}
		} else if a, oka := in.condValD(st, c.Args[1], depth+1); oka {
			if b, okb := in.condValD(st, c.Args[2], depth+1); okb && a == b {
				v, ok = a, true
			}
		}
	}
	if depth >= 3 {
		r := int8(0)
		if ok && v {
			r = 1
		} else if ok {
			r = 2
		}
		if f.cv == nil {
			f.cv = map[*Node]condAns{}
		}
		f.cv[c] = condAns{r, len(f.list)}
	}
	return v, ok
}

func (in *Interp) cond(st *State, v Val) *Node {
	n, ok := v.(*Node)
	if !ok {
		return Opaque("cond?")
	}
	if b, ok := in.condVal(st, n); ok {
		return Bool(b)
	}
	return n
}

// assume adds a fact; false means the state is contradictory.
func (in *Interp) assume(st *State, c *Node, v bool) bool {
	if c.H == True.H {
		return v
	}
	if c.H == False.H {
		return !v
	}
	if c.Op == "not" {
		return in.assume(st, c.Args[0], !v)
	}
	if ov, ok := st.facts.get(c.H); ok {
		return ov == v
	}
	st.facts.m[c.H] = v
	st.facts.list = append(st.facts.list, factEnt{c, v})
	if c.Op == "gamma" {
		c0, a, b := c.Args[0], c.Args[1], c.Args[2]
		av, aok := in.condVal(st, a)
		bv, bok := in.condVal(st, b)
		if aok && av != v {
			if !in.assume(st, c0, false) || !in.assume(st, b, v) {
				return false
			}
		} else if bok && bv != v {
			if !in.assume(st, c0, true) || !in.assume(st, a, v) {
				return false
			}
		} else if cv, ok := in.condVal(st, c0); ok {
			side := b
			if cv {
				side = a
			}
			if !in.assume(st, side, v) {
				return false
			}
		}
	}
	for x := st.cf; x != nil; x = x.prev {
		if x.C.H == c.H || x.C.Op == "not" && x.C.Args[0].H == c.H {
			t := v
			if x.C.Op == "not" {
				t = !v
			}
			l := x.F
			if t {
				l = x.T
			}
			for _, e := range l {
				if !in.assume(st, e.N, e.V) {
					return false
				}
			}
		}
	}
	return true
}

// resolve picks the side of gated values that the facts decide.
func (in *Interp) resolve(st *State, v Val) Val {
	for {
		switch x := v.(type) {
		case *GammaV:
			if b, ok := in.condVal(st, x.C); ok {
				if b {
					v = x.A
				} else {
					v = x.B
				}
				continue
			}
			return v
		case *Node:
			if x.Op == "gamma" {
				if b, ok := in.condVal(st, x.Args[0]); ok {
					if b {
						v = x.Args[1]
					} else {
						v = x.Args[2]
					}
					continue
				}
			}
			return v
		}
		return v
	}
}

// concrete resolves v and asks for a case split if it is still gated.
func (in *Interp) concrete(st *State, v Val) Val {
	v = in.resolve(st, v)
	if g, ok := v.(*GammaV); ok {
		panic(splitReq{g.C})
	}
	return v
}

// memory ---------------------------------------------------------------------

func (in *Interp) load(st *State, p *Ptr) Val {
	if p.O == nil {
		panic(deadReq{"nil dereference"})
	}
	v := st.heap.get(p.O)
	if len(p.Path) == 0 {
		if g, ok := v.(*GammaV); ok {
			r := in.resolve(st, g)
			return r
		}
		r := in.resolve(st, v)
		if n, ok := v.(*Node); ok && n.Op == "gamma" && r != v {
			// same value under the state's facts: keep the resolved form
			p.O.Wr = true
			st.heap.m[p.O] = r
		}
		return r
	}
	return in.resolve(st, getPath(v, p.Path))
}

func (in *Interp) store(fr *Frame, instr ssa.Instruction, st *State, p *Ptr, v Val) {
	if p.O == nil {
		panic(deadReq{"nil dereference"})
	}
	if p.O.Shared != "" && in.initDone {
		st.event(&Event{Kind: "mutate", S: p.O.Shared, Site: in.site(fr, instr), Vals: []Val{p}})
	}
	if len(p.Path) == 0 {
		p.O.Wr = true
		st.heap.m[p.O] = v
		return
	}
	old := st.heap.get(p.O)
	p.O.Wr = true
	st.heap.m[p.O] = setPath(old, p.Path, v)
}

func (in *Interp) allocPtr(t types.Type, name string, v Val) *Ptr {
	return &Ptr{O: in.newObj(t, name, v)}
}

// markShared flags every object reachable from v.
func (in *Interp) markShared(st *State, v Val, why string, seen map[*Obj]bool) {
	switch x := v.(type) {
	case *Ptr:
		if x.O != nil && !seen[x.O] {
			seen[x.O] = true
			if x.O.Shared == "" {
				x.O.Shared = why
			}
			in.markShared(st, st.heap.get(x.O), why, seen)
		}
	case *Slice:
		if x.O != nil && !seen[x.O] {
			seen[x.O] = true
			if x.O.Shared == "" {
				x.O.Shared = why
			}
			in.markShared(st, st.heap.get(x.O), why, seen)
		}
	case *Iface:
		if x.T != nil {
			in.markShared(st, x.V, why, seen)
		}
	case *Agg:
		for _, e := range x.E {
			in.markShared(st, e, why, seen)
		}
	case *GammaV:
		in.markShared(st, x.A, why, seen)
		in.markShared(st, x.B, why, seen)
	case *MapV:
		for _, e := range x.Keys {
			in.markShared(st, e, why, seen)
		}
		for _, e := range x.Vals {
			in.markShared(st, e, why, seen)
		}
	case *FuncVal:
		for _, e := range x.Bind {
			in.markShared(st, e, why, seen)
		}
	case *Special:
		for _, e := range x.L {
			in.markShared(st, e, why, seen)
		}
	}
}

// RunInit interprets the package initialisers.
func (in *Interp) RunInit() (*State, error) {
	st := newState()
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(incomplete); ok {
					err = fmt.Errorf("package init: %s", x.why)
					return
				}
				panic(r)
			}
		}()
		for _, p := range in.P.Pkgs {
			fn := p.Func("init")
			if fn == nil || fn.Blocks == nil {
				continue
			}
			_, ns := in.callFunction(nil, nil, st, fn, nil, nil)
			if ns == nil {
				err = fmt.Errorf("package init cannot complete")
				return
			}
			st = ns
		}
	}()
	if err != nil {
		return nil, err
	}
	for _, p := range in.P.Pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$guard") {
				o := in.global(g)
				in.markShared(st, st.heap.get(o), "package variable "+g.Name(), map[*Obj]bool{})
			}
		}
	}
	in.initDone = true
	in.initEv = st.ev
	return st, nil
}

var debugOn = os.Getenv("VERIF_DEBUG") != ""

func debugf(f string, a ...interface{}) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}
