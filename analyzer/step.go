package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// step interprets one non-control instruction. It returns nil if the run
// cannot continue past it.
func (in *Interp) step(fr *Frame, st *State, ci *cInstr) (res *State) {
	leaves := 0
	return in.stepSplit(fr, st, ci, &leaves)
}

// splitLimit bounds the case splits of one instruction. Past it only the
// generic side of a split is followed and the run counts as pruned: whatever
// it shows still holds of the followed cases, but the rest stays undecided.
const splitLimit = 40

// generic picks the side of a condition that a random value takes.
func generic(c *Node) bool {
	if c.Op == "not" {
		return !generic(c.Args[0])
	}
	return c.Op != "eq"
}

func (in *Interp) stepSplit(fr *Frame, st *State, ci *cInstr, leaves *int) (res *State) {
	switch ci.in.(type) {
	case *ssa.Call, *ssa.UnOp, *ssa.Store, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.TypeAssert,
		*ssa.Lookup, *ssa.Index, *ssa.MapUpdate, *ssa.Next, *ssa.Range, *ssa.Convert, *ssa.MakeSlice, *ssa.Field:
	default:
		return in.exec(fr, st, ci)
	}
	done := false
	var split *Node
	func() {
		nd := in.depth
		defer func() {
			if done {
				return
			}
			r := recover()
			in.depth = nd
			switch x := r.(type) {
			case splitReq:
				split = x.C
			case deadReq:
				res = nil
			default:
				panic(r)
			}
		}()
		res = in.exec(fr, st, ci)
		done = true
	}()
	if done || split == nil {
		return res
	}
	if debugOn {
		debugf("split %s at %s\n", split, in.where(in.site(fr, ci.in)))
	}
	in.nforks++
	*leaves++
	stT, stF := st.fork(), st.fork()
	okT, okF := in.assume(stT, split, true), in.assume(stF, split, false)
	limit := splitLimit
	if in.pruned > 0 {
		limit = 3 // the run stays undecided anyway
	}
	if okT && okF && *leaves > limit {
		in.pruned++
		okT = generic(split)
		okF = !okT
	}
	var vT, vF Val
	var rT, rF *State
	if okT {
		rT = in.stepSplit(fr, stT, ci, leaves)
		if ci.dst >= 0 {
			vT = fr.regs[ci.dst]
		}
	}
	if okF {
		rF = in.stepSplit(fr, stF, ci, leaves)
		if ci.dst >= 0 {
			vF = fr.regs[ci.dst]
		}
	}
	switch {
	case rT == nil && rF == nil:
		return nil
	case rF == nil:
		if ci.dst >= 0 {
			fr.regs[ci.dst] = vT
		}
		st.absorb(rT)
		return st
	case rT == nil:
		st.absorb(rF)
		return st
	}
	if ci.dst >= 0 {
		if vT == nil || vF == nil {
			fr.regs[ci.dst] = vT
		} else {
			fr.regs[ci.dst] = joinVal(split, vT, vF)
		}
	}
	j := joinStates(split, rT, rF)
	if in.descends(j, st) {
		st.absorb(j)
		return st
	}
	return j
}

func (in *Interp) intArg(st *State, v Val) (int, bool) {
	n, ok := in.concrete(st, v).(*Node)
	if !ok {
		return 0, false
	}
	if n.Op == "gamma" {
		panic(splitReq{n.Args[0]})
	}
	if n.isInt() && n.K.IsInt64() {
		return int(n.K.Int64()), true
	}
	return 0, false
}

func (in *Interp) exec(fr *Frame, st *State, ci *cInstr) *State {
	op := func(i int) Val { return in.get(fr, ci.ops[i]) }
	set := func(v Val) { fr.regs[ci.dst] = v }
	switch x := ci.in.(type) {
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		name := x.Comment
		set(&Ptr{O: in.newObj(et, name, in.zeroVal(et))})
	case *ssa.BinOp:
		set(in.binop(st, x.Op, op(0), op(1), x.X.Type(), x.Type()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p, ok := in.concrete(st, op(0)).(*Ptr)
			if !ok {
				set(in.opaqueVal(x.Type(), in.freshLeaf("load", false)))
				in.note("load through unmodelled pointer in %s", fr.info.fn)
				break
			}
			set(in.load(st, p))
		case token.NOT:
			if n, ok := op(0).(*Node); ok {
				set(Not(n))
			} else {
				set(in.freshLeaf("not", false))
			}
		case token.SUB:
			n, _ := op(0).(*Node)
			if n == nil {
				n = Opaque("?")
			}
			if n.isInt() {
				set(in.wrap(IntB(new(big.Int).Neg(n.K)), x.Type()))
			} else {
				set(in.wrap(ISub(Int(0), n), x.Type()))
			}
		case token.XOR:
			n, _ := op(0).(*Node)
			if n != nil && n.isInt() {
				set(in.wrap(IntB(new(big.Int).Not(n.K)), x.Type()))
			} else {
				set(Opaque("bitnot", n))
			}
		default:
			in.note("channel receive in %s", fr.info.fn)
			st.event(&Event{Kind: "concurrency", S: "channel receive", Site: in.site(fr, x)})
			set(in.opaqueVal(x.Type(), in.freshLeaf("recv", false)))
		}
	case *ssa.FieldAddr:
		p, ok := in.concrete(st, op(0)).(*Ptr)
		if !ok || p.O == nil {
			if ok {
				panic(deadReq{"nil field"})
			}
			set(&Ptr{O: in.newObj(x.Type(), "opaque", in.freshLeaf("field", false))})
			break
		}
		set(&Ptr{O: p.O, Path: extend(p.Path, x.Field)})
	case *ssa.Field:
		set(in.resolve(st, getPath(in.resolve(st, op(0)), []int{x.Field})))
	case *ssa.IndexAddr:
		set(in.indexAddr(fr, st, x, in.concrete(st, op(0)), op(1)))
	case *ssa.Index:
		base := in.concrete(st, op(0))
		i, ok := in.intArg(st, op(1))
		switch b := base.(type) {
		case *Agg:
			if ok {
				if i < 0 || i >= len(b.E) {
					panic(deadReq{"index"})
				}
				set(in.resolve(st, b.E[i]))
			} else {
				set(in.symSelect(fr, st, x, b.E, op(1), x.Type()))
			}
		case *Node: // string index
			if b.isStr() && ok {
				s := b.strVal()
				if i < 0 || i >= len(s) {
					panic(deadReq{"index"})
				}
				set(Int(int64(s[i])))
			} else if c, ok2 := strIndex(b, i); ok && ok2 {
				set(c)
			} else {
				set(Opaque("strindex", b, nodeOr(op(1))))
			}
		default:
			set(in.opaqueVal(x.Type(), in.freshLeaf("index", false)))
		}
	case *ssa.Lookup:
		set(in.lookup(fr, st, x, in.concrete(st, op(0)), op(1)))
	case *ssa.Store:
		p, ok := in.concrete(st, op(0)).(*Ptr)
		if !ok {
			in.note("store through unmodelled pointer in %s", fr.info.fn)
			break
		}
		in.store(fr, x, st, p, op(1))
	case *ssa.MakeInterface:
		set(&Iface{T: x.X.Type(), V: op(0), Nat: true})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		set(op(0))
	case *ssa.Convert:
		set(in.convert(st, op(0), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(in.convert(st, op(0), x.X.Type(), x.Type()))
	case *ssa.TypeAssert:
		set(in.typeAssert(fr, st, x, in.concrete(st, op(0))))
	case *ssa.Extract:
		v := in.resolve(st, op(0))
		switch a := v.(type) {
		case *Agg:
			if x.Index < len(a.E) {
				set(in.resolve(st, a.E[x.Index]))
			} else {
				set(in.opaqueVal(x.Type(), in.freshLeaf("extract", false)))
			}
		case *GammaV:
			set(getPath(a, []int{x.Index}))
		case *Node:
			set(in.opaqueVal(x.Type(), OpaqueS("fld", fmt.Sprint(x.Index), a)))
		default:
			set(in.opaqueVal(x.Type(), in.freshLeaf("extract", false)))
		}
	case *ssa.Slice:
		set(in.slice(fr, st, x, ci))
	case *ssa.MakeSlice:
		n, ok := in.intArg(st, op(0))
		if !ok {
			set(&SymBytes{N: Opaque("make", nodeOr(op(0)))})
			break
		}
		if n < 0 {
			panic(deadReq{"makeslice"})
		}
		if n > 1<<22 {
			panic(incomplete{"huge slice"})
		}
		c, ok := in.intArg(st, op(1))
		if !ok || c < n {
			c = n
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		z := in.zeroVal(et)
		a := &Agg{E: make([]Val, c)}
		for i := range a.E {
			a.E[i] = z
		}
		set(&Slice{O: in.newObj(types.NewArray(et, int64(c)), "make", a), Len: n, Cap: c})
	case *ssa.MakeMap:
		set(&Ptr{O: in.newObj(x.Type(), "map", &MapV{})})
	case *ssa.MapUpdate:
		p, ok := in.concrete(st, op(0)).(*Ptr)
		if !ok {
			break
		}
		if p.O == nil {
			panic(deadReq{"nil map"})
		}
		m, _ := in.concrete(st, in.load(st, p)).(*MapV)
		if m == nil {
			in.note("map update unmodelled in %s", fr.info.fn)
			break
		}
		nm := m.clone()
		key := in.resolve(st, op(1))
		fresh := True
		for i, k := range nm.Keys {
			c := And(nm.Pres[i], in.eqVals(st, k, key))
			if v, ok := in.condVal(st, c); ok {
				c = Bool(v)
			}
			nm.Vals[i] = joinVal(c, op(2), nm.Vals[i])
			fresh = And(Not(c), fresh)
		}
		if fresh.H != False.H {
			nm.Keys = append(nm.Keys, key)
			nm.Vals = append(nm.Vals, op(2))
			nm.Pres = append(nm.Pres, fresh)
		}
		in.store(fr, x, st, p, nm)
	case *ssa.MakeClosure:
		fv := &FuncVal{Fn: x.Fn.(*ssa.Function)}
		for i := 1; i < len(ci.ops); i++ {
			fv.Bind = append(fv.Bind, op(i))
		}
		set(fv)
	case *ssa.Range:
		base := in.concrete(st, op(0))
		set(&Ptr{O: in.newObj(nil, "iter", &Special{Kind: "iter", N: Int(0), L: []Val{base}})})
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			st.event(&Event{Kind: "maprange", Site: in.site(fr, x)})
		}
	case *ssa.Next:
		set(in.next(fr, st, x, op(0).(*Ptr)))
	case *ssa.Call:
		return in.call(fr, st, ci, x)
	case *ssa.Defer:
		d := deferred{instr: x}
		d.fn, d.args = in.callee(fr, ci, &x.Call)
		fr.defers = append(append([]deferred(nil), fr.defers...), d)
	case *ssa.Go:
		st.event(&Event{Kind: "concurrency", S: "go statement", Site: in.site(fr, x)})
		in.note("go statement in %s", fr.info.fn)
		// a goroutine nobody waits for may not have run when its function
		// returns: nothing it does counts. If it is waited for, its effects are
		// taken at the spawn point; "concurrency" marks the run.
		if !waits(fr.info.fn) {
			break
		}
		fn, args := in.callee(fr, ci, &x.Call)
		_, ns := in.invoke(fr, st, x, fn, args, &x.Call)
		if ns != nil {
			return ns
		}
	case *ssa.Send, *ssa.Select:
		st.event(&Event{Kind: "concurrency", S: "channel operation", Site: in.site(fr, ci.in)})
		if ci.dst >= 0 {
			set(in.opaqueVal(ci.in.(ssa.Value).Type(), in.freshLeaf("chan", false)))
		}
	case *ssa.MakeChan:
		set(&Ptr{O: in.newObj(x.Type(), "chan", Opaque("chan"))})
	case *ssa.SliceToArrayPointer:
		s, ok := in.concrete(st, op(0)).(*Slice)
		al := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || s.O == nil || s.Off != 0 || s.Len < int(al.Len()) {
			if ok && s.O != nil && s.Len < int(al.Len()) {
				panic(deadReq{"slice to array"})
			}
			// copy semantics are the best available for offset slices
			if ok && s.O != nil {
				a := &Agg{}
				for i := 0; i < int(al.Len()); i++ {
					a.E = append(a.E, in.sliceGet(st, s, i))
				}
				set(&Ptr{O: in.newObj(al, "arr", a)})
				in.note("slice-to-array pointer at offset in %s", fr.info.fn)
				break
			}
			set(in.opaqueVal(x.Type(), in.freshLeaf("s2a", false)))
			break
		}
		set(&Ptr{O: s.O, Path: s.Path})
	default:
		in.note("instruction %T in %s", ci.in, fr.info.fn)
		if ci.dst >= 0 {
			set(in.opaqueVal(ci.in.(ssa.Value).Type(), in.freshLeaf("instr", false)))
		}
	}
	return st
}

func nodeOr(v Val) *Node {
	if n, ok := v.(*Node); ok {
		return n
	}
	return OpaqueS("val", valStr(v))
}

func (in *Interp) symSelect(fr *Frame, st *State, ins ssa.Instruction, elems []Val, idx Val, t types.Type) Val {
	// element at a statically unknown index: gate over the (constant) candidates
	n := nodeOr(idx)
	if len(elems) == 0 || len(elems) > 64 {
		in.note("symbolic index in %s", fr.info.fn)
		return in.opaqueVal(t, Opaque("select", n))
	}
	v := elems[len(elems)-1]
	for i := len(elems) - 2; i >= 0; i-- {
		v = joinVal(in.eqVals(st, n, Int(int64(i))), elems[i], v)
	}
	return v
}

func (in *Interp) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr, base Val, idx Val) Val {
	i, ok := in.intArg(st, idx)
	switch b := base.(type) {
	case *Slice:
		if ok {
			if b.O == nil || i < 0 || i >= b.Len {
				panic(deadReq{"index out of range"})
			}
			return &Ptr{O: b.O, Path: extend(b.Path, b.Off+i)}
		}
		var el []Val
		if b.O != nil {
			for k := 0; k < b.Len; k++ {
				el = append(el, &Ptr{O: b.O, Path: extend(b.Path, b.Off+k)})
			}
		}
		return in.symSelect(fr, st, x, el, idx, x.Type())
	case *Ptr:
		if b.O == nil {
			panic(deadReq{"nil array"})
		}
		n := 0
		if at, ok2 := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok2 {
			n = int(at.Len())
		}
		if ok {
			if i < 0 || i >= n {
				panic(deadReq{"index out of range"})
			}
			return &Ptr{O: b.O, Path: extend(b.Path, i)}
		}
		var el []Val
		for k := 0; k < n && k < 65; k++ {
			el = append(el, &Ptr{O: b.O, Path: extend(b.Path, k)})
		}
		return in.symSelect(fr, st, x, el, idx, x.Type())
	case *SymBytes:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		return &Ptr{O: in.newObj(et, "elem", in.opaqueVal(et, Opaque("elem", b.N, nodeOr(idx))))}
	}
	in.note("index of unmodelled value in %s", fr.info.fn)
	return in.opaqueVal(x.Type(), in.freshLeaf("indexaddr", false))
}

func (in *Interp) sliceGet(st *State, s *Slice, i int) Val {
	return in.resolve(st, getPath(st.heap.get(s.O), extend(s.Path, s.Off+i)))
}

func (in *Interp) sliceElems(st *State, s *Slice) []Val {
	if s.O == nil || s.Len == 0 {
		return nil
	}
	arr := getPath(st.heap.get(s.O), s.Path)
	if a, ok := in.concrete(st, arr).(*Agg); ok {
		r := make([]Val, s.Len)
		for i := range r {
			r[i] = in.resolve(st, a.E[s.Off+i])
		}
		return r
	}
	r := make([]Val, s.Len)
	for i := range r {
		r[i] = in.sliceGet(st, s, i)
	}
	return r
}

func (in *Interp) newSlice(et types.Type, el []Val) *Slice {
	return &Slice{O: in.newObj(types.NewArray(et, int64(len(el))), "slice", &Agg{E: el}), Len: len(el), Cap: len(el)}
}

// writeSlice overwrites elements [at, at+len(el)) of s.
func (in *Interp) writeSlice(fr *Frame, ins ssa.Instruction, st *State, s *Slice, at int, el []Val) {
	if len(el) == 0 || s.O == nil {
		return
	}
	p := &Ptr{O: s.O, Path: s.Path}
	a, ok := in.load(st, p).(*Agg)
	if !ok {
		for i, e := range el {
			in.store(fr, ins, st, &Ptr{O: s.O, Path: extend(s.Path, s.Off+at+i)}, e)
		}
		return
	}
	n := &Agg{E: append([]Val(nil), a.E...)}
	copy(n.E[s.Off+at:], el)
	in.store(fr, ins, st, p, n)
}

func (in *Interp) slice(fr *Frame, st *State, x *ssa.Slice, ci *cInstr) Val {
	base := in.concrete(st, in.get(fr, ci.ops[0]))
	bound := func(v ssa.Value, k int, def int) (int, bool) {
		if v == nil {
			return def, true
		}
		return in.intArg(st, in.get(fr, ci.ops[k]))
	}
	switch b := base.(type) {
	case *Slice:
		lo, ok1 := bound(x.Low, 1, 0)
		hi, ok2 := bound(x.High, 2, b.Len)
		mx, ok3 := bound(x.Max, 3, b.Cap)
		if !ok1 || !ok2 || !ok3 {
			in.note("symbolic slice bounds in %s", fr.info.fn)
			return &SymBytes{N: in.freshLeaf("subslice", false)}
		}
		if lo < 0 || hi < lo || hi > b.Cap || mx > b.Cap || mx < hi {
			panic(deadReq{"slice bounds"})
		}
		if b.O == nil {
			return nilSlice
		}
		return &Slice{O: b.O, Path: b.Path, Off: b.Off + lo, Len: hi - lo, Cap: mx - lo}
	case *Ptr:
		if b.O == nil {
			panic(deadReq{"nil array"})
		}
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		lo, ok1 := bound(x.Low, 1, 0)
		hi, ok2 := bound(x.High, 2, n)
		mx, ok3 := bound(x.Max, 3, n)
		if !ok1 || !ok2 || !ok3 {
			in.note("symbolic slice bounds in %s", fr.info.fn)
			return &SymBytes{N: in.freshLeaf("subslice", false)}
		}
		if lo < 0 || hi < lo || hi > n || mx > n || mx < hi {
			panic(deadReq{"slice bounds"})
		}
		return &Slice{O: b.O, Path: b.Path, Off: lo, Len: hi - lo, Cap: mx - lo}
	case *Node:
		lo, ok1 := bound(x.Low, 1, 0)
		if b.isStr() && ok1 {
			s := b.strVal()
			hi, ok2 := bound(x.High, 2, len(s))
			if ok2 {
				if lo < 0 || hi < lo || hi > len(s) {
					panic(deadReq{"slice bounds"})
				}
				return Str(s[lo:hi])
			}
		}
		if ok1 && lo == 0 && x.High == nil {
			return b
		}
		if hi, ok2 := bound(x.High, 2, -1); ok1 && ok2 {
			if r, ok := strSlice(b, lo, hi); ok {
				return r
			}
		}
		args := []*Node{b}
		for k := 1; k < len(ci.ops); k++ {
			if v := in.get(fr, ci.ops[k]); v != nil {
				args = append(args, nodeOr(v))
			} else {
				args = append(args, Str("-"))
			}
		}
		return Opaque("substr", args...)
	case *SymBytes:
		lo, ok1 := bound(x.Low, 1, 0)
		if ok1 && lo == 0 && x.High == nil {
			return b
		}
		args := []*Node{b.N}
		for k := 1; k < len(ci.ops); k++ {
			if v := in.get(fr, ci.ops[k]); v != nil {
				args = append(args, nodeOr(v))
			} else {
				args = append(args, Str("-"))
			}
		}
		return &SymBytes{N: Opaque("subslice", args...)}
	}
	return in.opaqueVal(x.Type(), in.freshLeaf("slice", false))
}

func (in *Interp) lookup(fr *Frame, st *State, x *ssa.Lookup, base Val, key Val) Val {
	if n, ok := base.(*Node); ok { // string
		if i, ok2 := in.intArg(st, key); ok2 && n.isStr() {
			s := n.strVal()
			if i < 0 || i >= len(s) {
				panic(deadReq{"index"})
			}
			return Int(int64(s[i]))
		} else if ok2 {
			if c, ok3 := strIndex(n, i); ok3 {
				return c
			}
		}
		return Opaque("strindex", n, nodeOr(key))
	}
	vt := x.Type()
	if x.CommaOk {
		vt = x.Type().(*types.Tuple).At(0).Type()
	}
	v := in.zeroVal(vt)
	okn := False
	p, isPtr := base.(*Ptr)
	if !isPtr {
		o := in.opaqueVal(vt, in.freshLeaf("maplookup", false))
		if x.CommaOk {
			return &Agg{E: []Val{o, in.freshLeaf("mapok", false)}}
		}
		return o
	}
	if p.O != nil {
		if m, ok := in.concrete(st, in.load(st, p)).(*MapV); ok {
			for i, k := range m.Keys {
				c := And(m.Pres[i], in.eqVals(st, k, in.resolve(st, key)))
				v = joinVal(c, m.Vals[i], v)
				okn = Or(c, okn)
			}
		}
	}
	if x.CommaOk {
		return &Agg{E: []Val{v, okn}}
	}
	return v
}

// here tells whether a map entry is there; it asks for a case split if that
// is open.
func (in *Interp) here(st *State, m *MapV, i int) bool {
	v, ok := in.condVal(st, m.Pres[i])
	if !ok {
		panic(splitReq{m.Pres[i]})
	}
	return v
}

func (in *Interp) next(fr *Frame, st *State, x *ssa.Next, it *Ptr) Val {
	sp := st.heap.get(it.O).(*Special)
	pos := int(sp.N.K.Int64())
	adv := func(k int) { st.heap.m[it.O] = &Special{Kind: "iter", N: Int(int64(k)), L: sp.L} }
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		n, _ := sp.L[0].(*Node)
		if n == nil || !n.isStr() {
			panic(incomplete{"range over unknown string in " + fr.info.fn.String()})
		}
		s := n.strVal()
		if pos >= len(s) {
			return &Agg{E: []Val{False, Int(0), Int(0)}}
		}
		for i, r := range s[pos:] {
			_ = i
			w := len(string(r))
			adv(pos + w)
			return &Agg{E: []Val{True, Int(int64(pos)), Int(int64(r))}}
		}
	}
	p, ok := sp.L[0].(*Ptr)
	if ok && p.O == nil {
		return &Agg{E: []Val{False, in.zeroVal(tt.At(1).Type()), in.zeroVal(tt.At(2).Type())}}
	}
	if ok {
		if m, ok := in.concrete(st, in.load(st, p)).(*MapV); ok {
			for pos < len(m.Keys) && !in.here(st, m, pos) {
				pos++
			}
			if pos >= len(m.Keys) {
				return &Agg{E: []Val{False, in.zeroVal(tt.At(1).Type()), in.zeroVal(tt.At(2).Type())}}
			}
			adv(pos + 1)
			return &Agg{E: []Val{True, m.Keys[pos], m.Vals[pos]}}
		}
	}
	panic(incomplete{"range over unknown map in " + fr.info.fn.String()})
}

// wrap reduces a machine integer to its type's width.
func (in *Interp) wrap(n *Node, t types.Type) *Node {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return n
	}
	bits, signed := 64, true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		signed = false
	case types.UntypedInt:
		return n
	}
	if !n.isInt() {
		if b.Kind() == types.Uint8 && (n.Op == "byte" || n.Op == "hbyte") {
			return n
		}
		if n.Op == "leaf" || n.Op == "len" || bits == 64 {
			return n
		}
		if n.Op == "trunc" && n.K.Int64() <= int64(bits) {
			return n
		}
		return mkNode("trunc", big.NewInt(int64(bits)), "", n)
	}
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big1, uint(bits))
	if signed {
		lo = new(big.Int).Neg(new(big.Int).Lsh(big1, uint(bits-1)))
		hi = new(big.Int).Lsh(big1, uint(bits-1))
	}
	if n.K.Cmp(lo) >= 0 && n.K.Cmp(hi) < 0 {
		return n
	}
	m := new(big.Int).Lsh(big1, uint(bits))
	v := new(big.Int).Mod(n.K, m)
	if signed && v.Cmp(hi) >= 0 {
		v.Sub(v, m)
	}
	return IntB(v)
}

func (in *Interp) binop(st *State, op token.Token, a, b Val, t, rt types.Type) Val {
	switch op {
	case token.EQL:
		return in.eqVals(st, a, b)
	case token.NEQ:
		return Not(in.eqVals(st, a, b))
	}
	x, ok1 := a.(*Node)
	y, ok2 := b.(*Node)
	if !ok1 || !ok2 {
		return in.opaqueVal(rt, Opaque("binop"+op.String(), nodeOr(a), nodeOr(b)))
	}
	x, _ = in.resolve(st, x).(*Node)
	y, _ = in.resolve(st, y).(*Node)
	bt, _ := t.Underlying().(*types.Basic)
	if bt != nil && bt.Info()&types.IsString != 0 {
		if x.isStr() && y.isStr() {
			s, u := x.strVal(), y.strVal()
			switch op {
			case token.ADD:
				return Str(s + u)
			case token.LSS:
				return Bool(s < u)
			case token.LEQ:
				return Bool(s <= u)
			case token.GTR:
				return Bool(s > u)
			case token.GEQ:
				return Bool(s >= u)
			}
		}
		if op == token.ADD {
			return StrCat(x, y)
		}
		return Opaque("str"+op.String(), x, y)
	}
	if bt != nil && bt.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		}
	}
	if bt != nil && bt.Info()&types.IsInteger == 0 && bt.Info()&types.IsUntyped == 0 {
		return Opaque("fl"+op.String(), x, y)
	}
	switch op {
	case token.LSS:
		return Less(x, y)
	case token.GTR:
		return Less(y, x)
	case token.LEQ:
		return Not(Less(y, x))
	case token.GEQ:
		return Not(Less(x, y))
	}
	if x.isInt() && y.isInt() {
		r := new(big.Int)
		switch op {
		case token.ADD:
			r.Add(x.K, y.K)
		case token.SUB:
			r.Sub(x.K, y.K)
		case token.MUL:
			r.Mul(x.K, y.K)
		case token.QUO:
			if y.K.Sign() == 0 {
				panic(deadReq{"division by zero"})
			}
			r.Quo(x.K, y.K)
		case token.REM:
			if y.K.Sign() == 0 {
				panic(deadReq{"division by zero"})
			}
			r.Rem(x.K, y.K)
		case token.AND:
			r.And(x.K, y.K)
		case token.OR:
			r.Or(x.K, y.K)
		case token.XOR:
			r.Xor(x.K, y.K)
		case token.AND_NOT:
			r.AndNot(x.K, y.K)
		case token.SHL:
			if y.K.BitLen() > 16 {
				return Int(0)
			}
			r.Lsh(x.K, uint(y.K.Int64()))
		case token.SHR:
			if y.K.BitLen() > 16 {
				return Int(0)
			}
			r.Rsh(x.K, uint(y.K.Int64()))
		}
		return in.wrap(IntB(r), rt)
	}
	switch op {
	case token.ADD:
		return in.wrap(IAdd(x, y), rt)
	case token.SUB:
		return in.wrap(ISub(x, y), rt)
	case token.MUL:
		return in.wrap(IMul(x, y), rt)
	}
	return Opaque("i"+op.String(), x, y)
}

// Less is the integer order; comparisons of Cmp results are normalised.
func Less(a, b *Node) *Node {
	if a.isInt() && b.isInt() {
		return Bool(a.K.Cmp(b.K) < 0)
	}
	if a.Op == "cmp" && b.isInt() {
		switch b.K.Int64() {
		case 0:
			return Less(a.Args[0], a.Args[1])
		case 1:
			return Not(Less(a.Args[1], a.Args[0]))
		}
	}
	if b.Op == "cmp" && a.isInt() {
		switch a.K.Int64() {
		case 0:
			return Less(b.Args[1], b.Args[0])
		case -1:
			return Not(Less(b.Args[0], b.Args[1]))
		}
	}
	if a.H == b.H {
		return False
	}
	// canonical residues and bytes are never negative
	if b.isInt() && b.K.Sign() <= 0 && (a.Canon || a.Op == "byte" || a.Op == "len") {
		return False
	}
	if a.Op == "gamma" {
		return Gamma(a.Args[0], Less(a.Args[1], b), Less(a.Args[2], b))
	}
	if b.Op == "gamma" {
		return Gamma(b.Args[0], Less(a, b.Args[1]), Less(a, b.Args[2]))
	}
	return Opaque("lt", a, b)
}

func eqNodes(x, y *Node) *Node {
	if x.H == y.H {
		return True
	}
	if x.isConst() && y.isConst() {
		return False
	}
	if x.Op == "bool" {
		x, y = y, x
	}
	if y.Op == "bool" {
		if y.H == True.H {
			return x
		}
		return Not(x)
	}
	if x.Op == "gamma" {
		return Gamma(x.Args[0], eqNodes(x.Args[1], y), eqNodes(x.Args[2], y))
	}
	if y.Op == "gamma" {
		return Gamma(y.Args[0], eqNodes(x, y.Args[1]), eqNodes(x, y.Args[2]))
	}
	if x.isInt() {
		x, y = y, x
	}
	if x.Op == "cmp" && y.isInt() {
		switch y.K.Int64() {
		case 0:
			return eqNodes(x.Args[0], x.Args[1])
		case -1:
			return Less(x.Args[0], x.Args[1])
		case 1:
			return Less(x.Args[1], x.Args[0])
		}
		return False
	}
	if x.Op == "bitlen" && y.isInt() && y.K.Sign() == 0 {
		return eqNodes(x.Args[0], y)
	}
	if y.H[0] < x.H[0] && !y.isConst() {
		x, y = y, x
	}
	return Opaque("eq", x, y)
}

func (in *Interp) eqVals(st *State, a, b Val) *Node { return in.eqValsM(st, a, b, nil) }

func (in *Interp) eqValsM(st *State, a, b Val, memo map[[2]Val]*Node) *Node {
	a, b = in.resolve(st, a), in.resolve(st, b)
	ga, _ := a.(*GammaV)
	gb, _ := b.(*GammaV)
	if ga != nil || gb != nil {
		if memo == nil {
			memo = map[[2]Val]*Node{}
		}
		k := [2]Val{a, b}
		if n, ok := memo[k]; ok {
			return n
		}
		var n *Node
		if ga != nil {
			n = Gamma(ga.C, in.eqValsM(st, ga.A, b, memo), in.eqValsM(st, ga.B, b, memo))
		} else {
			n = Gamma(gb.C, in.eqValsM(st, a, gb.A, memo), in.eqValsM(st, a, gb.B, memo))
		}
		memo[k] = n
		return n
	}
	switch x := a.(type) {
	case *Node:
		if y, ok := b.(*Node); ok {
			return eqNodes(x, y)
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			if x.O == y.O && samePath(x.Path, y.Path) {
				return True
			}
			return False
		}
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return Opaque("eq?", nodeOr(a), nodeOr(b))
		}
		if x.T == nil || y.T == nil {
			if (x.T == opaqueMarker || y.T == opaqueMarker) && !(x.T == nil && y.T == nil) {
				n := x
				if x.T == nil {
					n = y
				}
				return Opaque("isnil", nodeOr(n.V))
			}
			return Bool(x.T == nil && y.T == nil)
		}
		if x.T == opaqueMarker || y.T == opaqueMarker {
			return Opaque("eq", nodeOr(x.V), nodeOr(y.V))
		}
		if !types.Identical(x.T, y.T) {
			return False
		}
		return in.eqVals(st, x.V, y.V)
	case *Slice: // only comparable to nil
		if _, ok := b.(*Slice); ok {
			return Bool(x.O == nil)
		}
	case *FuncVal:
		return Bool(x.Fn == nil && x.Ext == "")
	case *SymBytes:
		return Opaque("isnil", x.N)
	case *Agg:
		if y, ok := b.(*Agg); ok && len(x.E) == len(y.E) {
			r := True
			for i := range x.E {
				r = And(r, in.eqVals(st, x.E[i], y.E[i]))
			}
			return r
		}
	}
	if _, ok := b.(*SymBytes); ok {
		return Opaque("isnil", b.(*SymBytes).N)
	}
	return Opaque("eq?", nodeOr(a), nodeOr(b))
}

func (in *Interp) convert(st *State, v Val, from, to types.Type) Val {
	ft, tt := from.Underlying(), to.Underlying()
	fb, _ := ft.(*types.Basic)
	tb, _ := tt.(*types.Basic)
	if fb != nil && tb != nil {
		n, ok := v.(*Node)
		if !ok {
			return v
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return in.wrap(n, to)
		}
		if tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0 && n.isInt() {
			return Str(string(rune(n.K.Int64())))
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return n
		}
		return OpaqueS("conv", tb.Name(), n)
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		switch b := in.concrete(st, v).(type) {
		case *Slice:
			el := in.sliceElems(st, b)
			bs := make([]byte, 0, len(el))
			for _, e := range el {
				n, ok := e.(*Node)
				if !ok || !n.isInt() {
					var ns []*Node
					for _, e := range el {
						ns = append(ns, nodeOr(e))
					}
					return Opaque("strofbytes", ns...)
				}
				bs = append(bs, byte(n.K.Int64()))
			}
			return Str(string(bs))
		case *SymBytes:
			return Opaque("strofsym", b.N)
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if sl, ok := tt.(*types.Slice); ok {
			n := nodeOr(v)
			if n.isStr() {
				if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
					s := n.strVal()
					el := make([]Val, len(s))
					for i := range el {
						el[i] = Int(int64(s[i]))
					}
					return in.newSlice(sl.Elem(), el)
				}
			}
			return &SymBytes{N: Opaque("bytesofstr", n)}
		}
	}
	return v
}

func (in *Interp) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert, v Val) Val {
	ifc, ok := v.(*Iface)
	if !ok {
		o := in.opaqueVal(x.AssertedType, in.freshLeaf("assert", false))
		if x.CommaOk {
			return &Agg{E: []Val{o, in.freshLeaf("assertok", false)}}
		}
		return o
	}
	res := func(v Val, ok *Node) Val {
		if x.CommaOk {
			return &Agg{E: []Val{v, ok}}
		}
		if ok.H == False.H {
			panic(deadReq{"type assertion"})
		}
		return v
	}
	if ifc.T == nil {
		return res(in.zeroVal(x.AssertedType), False)
	}
	if n := in.varNode(st, ifc); n != nil && !ifc.Nat && hasInput(n) {
		st.event(&Event{Kind: "inspect", S: "dynamic type inspected", Nodes: []*Node{n}, Site: in.site(fr, x)})
	}
	if ifc.T == opaqueMarker {
		o := in.opaqueVal(x.AssertedType, OpaqueS("as", shortType(x.AssertedType), nodeOr(ifc.V)))
		return res(o, Opaque("is", Str(shortType(x.AssertedType)), nodeOr(ifc.V)))
	}
	if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		if ifc.T == apiMarker || ifc.T == errMarker || ifc.T == objMarker {
			if ifc.T == apiMarker || ifc.T == objMarker || typeKey(x.AssertedType) == "error" || it.NumMethods() == 0 {
				return res(ifc, True)
			}
			return res(in.zeroVal(x.AssertedType), False)
		}
		if types.Implements(ifc.T, it) {
			return res(ifc, True)
		}
		return res(in.zeroVal(x.AssertedType), False)
	}
	if types.Identical(types.Unalias(ifc.T), types.Unalias(x.AssertedType)) {
		return res(ifc.V, True)
	}
	return res(in.zeroVal(x.AssertedType), False)
}

// hasInput tells whether a node depends on a circuit input (or on a hint output).
func hasInput(n *Node) bool { return n.In }

func dependsOn(n *Node, pred func(*Node) bool, seen map[Hash]bool) bool {
	if seen[n.H] {
		return false
	}
	seen[n.H] = true
	if pred(n) {
		return true
	}
	for _, a := range n.Args {
		if dependsOn(a, pred, seen) {
			return true
		}
	}
	return false
}

// calls ----------------------------------------------------------------------

func (in *Interp) callee(fr *Frame, ci *cInstr, cc *ssa.CallCommon) (Val, []Val) {
	// Operands order: Value, Args...
	fn := in.get(fr, ci.ops[0])
	var args []Val
	for i := 1; i < len(ci.ops); i++ {
		args = append(args, in.get(fr, ci.ops[i]))
	}
	return fn, args
}

func (in *Interp) call(fr *Frame, st *State, ci *cInstr, x *ssa.Call) *State {
	fn, args := in.callee(fr, ci, &x.Call)
	v, ns := in.invoke(fr, st, x, fn, args, &x.Call)
	if ns == nil {
		return nil
	}
	fr.regs[ci.dst] = v
	return ns
}

func (in *Interp) fnName(fn *ssa.Function) string {
	s, ok := in.nameCache[fn]
	if !ok {
		s = in.fnName0(fn)
		in.nameCache[fn] = s
	}
	return s
}
func (in *Interp) fnName0(fn *ssa.Function) string {
	if o := fn.Object(); o != nil {
		if f, ok := o.(*types.Func); ok {
			return funcFullName(f)
		}
	}
	if fn.Origin() != nil {
		return in.fnName(fn.Origin())
	}
	return fn.String()
}

func funcFullName(f *types.Func) string {
	f = f.Origin()
	s := f.FullName()
	// drop type parameter lists
	for {
		i := strings.IndexByte(s, '[')
		if i < 0 {
			break
		}
		j := strings.IndexByte(s[i:], ']')
		if j < 0 {
			break
		}
		s = s[:i] + s[i+j+1:]
	}
	return s
}

// inRepo tells whether fn's body belongs to the repository.
func (in *Interp) inRepo(fn *ssa.Function) bool {
	b, ok := in.repoCache[fn]
	if !ok {
		b = in.inRepo0(fn)
		in.repoCache[fn] = b
	}
	return b
}
func (in *Interp) inRepo0(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	if y := fn.Synthetic; strings.Contains(y, "bound method wrapper") || strings.HasPrefix(y, "thunk for") || strings.HasPrefix(y, "wrapper for") {
		return true // the body only forwards to the method
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return in.P.owns(f.Pkg.Pkg)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return in.P.owns(o.Pkg())
	}
	// synthetic wrappers (bound methods, thunks, promoted methods)
	if f.Synthetic != "" {
		return true
	}
	return false
}

func (in *Interp) invoke(fr *Frame, st *State, instr ssa.Instruction, fn Val, args []Val, cc *ssa.CallCommon) (Val, *State) {
	if cc.IsInvoke() {
		recv := in.concrete(st, fn)
		ifc, ok := recv.(*Iface)
		if !ok || ifc.T == nil {
			if ok {
				panic(deadReq{"nil interface call"})
			}
			return in.unknownCall(fr, st, instr, "invoke "+cc.Method.Name(), append([]Val{recv}, args...), cc), st
		}
		switch ifc.T {
		case apiMarker:
			return in.model(fr, st, instr, "api."+cc.Method.Name(), nil, append([]Val{ifc.V}, args...), cc)
		case errMarker, opaqueMarker, objMarker:
			if cc.Method.Name() == "Error" {
				return Opaque("errstr", nodeOr(ifc.V)), st
			}
			return in.model(fr, st, instr, "iface."+cc.Method.Name(), nil, append([]Val{ifc.V}, args...), cc)
		}
		m := in.P.Prog.LookupMethod(ifc.T, cc.Method.Pkg(), cc.Method.Name())
		if m != nil {
			if in.inRepo(m) {
				return in.callFunction(fr, instr, st, m, append([]Val{ifc.V}, args...), nil)
			}
			return in.model(fr, st, instr, in.fnName(m), m, append([]Val{ifc.V}, args...), cc)
		}
		return in.unknownCall(fr, st, instr, "invoke "+cc.Method.FullName(), append([]Val{recv}, args...), cc), st
	}
	f, ok := in.concrete(st, fn).(*FuncVal)
	if !ok {
		return in.unknownCall(fr, st, instr, "dynamic call", args, cc), st
	}
	if f.Fn != nil {
		if in.inRepo(f.Fn) {
			return in.callFunction(fr, instr, st, f.Fn, args, f.Bind)
		}
		return in.model(fr, st, instr, in.fnName(f.Fn), f.Fn, args, cc)
	}
	if strings.HasPrefix(f.Ext, "builtin ") {
		return in.builtin(fr, st, instr, f.Ext[8:], args, cc)
	}
	if f.Ext == "" {
		panic(deadReq{"nil function call"})
	}
	return in.unknownCall(fr, st, instr, "dynamic call "+f.Ext, args, cc), st
}

func (in *Interp) builtin(fr *Frame, st *State, instr ssa.Instruction, name string, args []Val, cc *ssa.CallCommon) (Val, *State) {
	switch name {
	case "len", "cap":
		switch x := in.concrete(st, args[0]).(type) {
		case *Slice:
			if name == "cap" {
				return Int(int64(x.Cap)), st
			}
			return Int(int64(x.Len)), st
		case *Agg:
			return Int(int64(len(x.E))), st
		case *Node:
			if n, ok := strLen(x); ok {
				return Int(int64(n)), st
			}
			return Opaque("len", x), st
		case *SymBytes:
			return Opaque("len", x.N), st
		case *Ptr:
			if x.O == nil {
				return Int(0), st
			}
			if m, ok := in.concrete(st, in.load(st, x)).(*MapV); ok {
				n := 0
				for i := range m.Keys {
					if in.here(st, m, i) {
						n++
					}
				}
				return Int(int64(n)), st
			}
			if pt, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					return Int(at.Len()), st
				}
			}
			return Opaque("len?"), st
		}
		return in.freshLeaf("len", false), st
	case "append":
		return in.appendB(fr, st, instr, in.concrete(st, args[0]), in.concrete(st, args[1]), cc), st
	case "copy":
		dst := in.concrete(st, args[0])
		src := in.concrete(st, args[1])
		d, ok1 := dst.(*Slice)
		var el []Val
		ok2 := true
		switch s := src.(type) {
		case *Slice:
			el = in.sliceElems(st, s)
		case *Node:
			if s.isStr() {
				for _, b := range []byte(s.strVal()) {
					el = append(el, Int(int64(b)))
				}
			} else {
				ok2 = false
			}
		default:
			ok2 = false
		}
		if ok1 && ok2 {
			if len(el) > d.Len {
				el = el[:d.Len]
			}
			in.writeSlice(fr, instr, st, d, 0, el)
			return Int(int64(len(el))), st
		}
		if ok1 && d.O != nil {
			// unknown source: every destination byte becomes unknown
			nsrc := nodeOr(src)
			if sb, ok := src.(*SymBytes); ok {
				nsrc = sb.N
			}
			var ne []Val
			for i := 0; i < d.Len; i++ {
				ne = append(ne, mkNode("copied", big.NewInt(int64(i)), "", nsrc))
			}
			in.writeSlice(fr, instr, st, d, 0, ne)
			return Opaque("copylen", nsrc), st
		}
		return in.freshLeaf("copy", false), st
	case "panic":
		return nil, nil
	case "recover":
		st.event(&Event{Kind: "recover", Site: in.site(fr, instr)})
		return nilIface, st
	case "print", "println":
		return nil, st
	case "delete":
		p, ok := in.concrete(st, args[0]).(*Ptr)
		if ok && p.O != nil {
			if m, ok := in.concrete(st, in.load(st, p)).(*MapV); ok {
				nm := m.clone()
				for i, k := range m.Keys {
					nm.Pres[i] = And(Not(in.eqVals(st, k, args[1])), nm.Pres[i])
				}
				in.store(fr, instr, st, p, nm)
			}
		}
		return nil, st
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, y := nodeOr(r), nodeOr(a)
			if name == "min" {
				r = Gamma(Less(y, x), y, x)
			} else {
				r = Gamma(Less(x, y), y, x)
			}
		}
		return r, st
	case "clear":
		p := in.concrete(st, args[0])
		if s, ok := p.(*Slice); ok && s.O != nil {
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			z := in.zeroVal(et)
			el := make([]Val, s.Len)
			for i := range el {
				el[i] = z
			}
			in.writeSlice(fr, instr, st, s, 0, el)
		} else if m, ok := p.(*Ptr); ok && m.O != nil {
			in.store(fr, instr, st, m, &MapV{})
		}
		return nil, st
	case "ssa:wrapnilchk":
		if p, ok := in.concrete(st, args[0]).(*Ptr); ok && p.O == nil {
			panic(deadReq{"nil receiver"})
		}
		return args[0], st
	case "close":
		st.event(&Event{Kind: "concurrency", S: "channel close", Site: in.site(fr, instr)})
		return nil, st
	}
	in.note("builtin %s", name)
	return in.unknownCall(fr, st, instr, "builtin "+name, args, cc), st
}

func (in *Interp) appendB(fr *Frame, st *State, instr ssa.Instruction, a, b Val, cc *ssa.CallCommon) Val {
	var el []Val
	known := true
	switch s := b.(type) {
	case *Slice:
		el = in.sliceElems(st, s)
	case *Node: // append([]byte, string...)
		if s.isStr() {
			for _, c := range []byte(s.strVal()) {
				el = append(el, Int(int64(c)))
			}
		} else {
			known = false
		}
	default:
		known = false
	}
	base, ok := a.(*Slice)
	if !ok || !known {
		return &SymBytes{N: Opaque("append", in.bytesNode(st, a), in.bytesNode(st, b))}
	}
	if len(el) == 0 {
		return base
	}
	need := base.Len + len(el)
	if base.O != nil && need <= base.Cap {
		ns := &Slice{O: base.O, Path: base.Path, Off: base.Off, Len: need, Cap: base.Cap}
		in.writeSlice(fr, instr, st, ns, base.Len, el)
		return ns
	}
	cp := need
	if d := base.Cap * 2; d > cp && base.Cap < 256 {
		cp = d
	} else if d := base.Cap + base.Cap/4; d > cp {
		cp = d
	}
	var et types.Type
	if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
		et = sl.Elem()
	}
	z := in.zeroVal(et)
	all := make([]Val, 0, cp)
	all = append(all, in.sliceElems(st, base)...)
	all = append(all, el...)
	for len(all) < cp {
		all = append(all, z)
	}
	return &Slice{O: in.newObj(types.NewArray(et, int64(cp)), "append", &Agg{E: all}), Len: need, Cap: cp}
}

// bytesNode summarises a byte sequence as one node.
func (in *Interp) bytesNode(st *State, v Val) *Node {
	switch x := in.concrete(st, v).(type) {
	case *SymBytes:
		return x.N
	case *Slice:
		var ns []*Node
		for _, e := range in.sliceElems(st, x) {
			ns = append(ns, nodeOr(e))
		}
		return Opaque("bytes", ns...)
	case *Agg:
		var ns []*Node
		for _, e := range x.E {
			ns = append(ns, nodeOr(e))
		}
		return Opaque("bytes", ns...)
	case *Node:
		if x.isStr() {
			var ns []*Node
			for _, c := range []byte(x.strVal()) {
				ns = append(ns, Int(int64(c)))
			}
			return Opaque("bytes", ns...)
		}
		return x
	}
	return OpaqueS("val", valStr(v))
}

func resultType(cc *ssa.CallCommon) types.Type {
	r := cc.Signature().Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return r.At(0).Type()
	}
	return r
}

// unknownCall: result unknown, pointed-to arguments may change, may fail.
func (in *Interp) unknownCall(fr *Frame, st *State, instr ssa.Instruction, name string, args []Val, cc *ssa.CallCommon) Val {
	in.note("unmodelled call %s", name)
	in.fresh++
	var ns []*Node
	for _, a := range args {
		ns = append(ns, in.summary(st, a, 0))
	}
	n := OpaqueS("call", fmt.Sprintf("%s#%d", name, in.fresh), ns...)
	for _, a := range args {
		in.havoc(fr, instr, st, in.resolve(st, a), n, map[*Obj]bool{})
	}
	st.event(&Event{Kind: "extcall", S: name, Nodes: ns, Vals: args, Site: in.site(fr, instr)})
	rt := resultType(cc)
	if rt == nil {
		return nil
	}
	return in.opaqueVal(rt, n)
}

func (in *Interp) havoc(fr *Frame, instr ssa.Instruction, st *State, v Val, n *Node, seen map[*Obj]bool) {
	switch x := v.(type) {
	case *Ptr:
		if x.O == nil || seen[x.O] {
			return
		}
		seen[x.O] = true
		old := st.heap.get(x.O)
		in.havoc(fr, instr, st, old, n, seen)
		if x.O.Type != nil {
			if _, isMap := old.(*MapV); !isMap {
				in.store(fr, instr, st, &Ptr{O: x.O}, in.opaqueVal(x.O.Type, OpaqueS("havoc", fmt.Sprint(x.O.ID), n)))
			}
		}
	case *Slice:
		if x.O == nil || seen[x.O] {
			return
		}
		seen[x.O] = true
	case *Iface:
		if x.T != nil {
			in.havoc(fr, instr, st, x.V, n, seen)
		}
	}
}

// summary is a node standing for everything v gives access to.
func (in *Interp) summary(st *State, v Val, d int) *Node {
	if d > 6 {
		return Opaque("deep")
	}
	switch x := v.(type) {
	case nil:
		return Opaque("none")
	case *Node:
		return x
	case *Ptr:
		if x.O == nil {
			return Opaque("nil")
		}
		return Opaque("at", in.summary(st, getPath(st.heap.get(x.O), x.Path), d+1))
	case *Slice:
		var ns []*Node
		if x.O != nil {
			for i := 0; i < x.Len; i++ {
				ns = append(ns, in.summary(st, getPath(st.heap.get(x.O), extend(x.Path, x.Off+i)), d+1))
			}
		}
		return Opaque("seq", ns...)
	case *SymBytes:
		return x.N
	case *Iface:
		if x.T == nil {
			return Opaque("nil")
		}
		if n := in.varNode(st, x); n != nil {
			return n
		}
		return OpaqueS("dyn", shortType(x.T), in.summary(st, x.V, d+1))
	case *Agg:
		var ns []*Node
		for _, e := range x.E {
			ns = append(ns, in.summary(st, e, d+1))
		}
		return Opaque("agg", ns...)
	case *GammaV:
		return Gamma(x.C, in.summary(st, x.A, d+1), in.summary(st, x.B, d+1))
	case *Special:
		var ns []*Node
		if x.N != nil {
			ns = append(ns, x.N)
		}
		for _, e := range x.L {
			ns = append(ns, in.summary(st, e, d+1))
		}
		return OpaqueS("special", x.Kind, ns...)
	case *FuncVal:
		if x.Fn != nil {
			return OpaqueS("func", x.Fn.String())
		}
		return OpaqueS("func", x.Ext)
	case *MapV:
		var ns []*Node
		for i := range x.Keys {
			ns = append(ns, x.Pres[i], in.summary(st, x.Keys[i], d+1), in.summary(st, x.Vals[i], d+1))
		}
		return Opaque("map", ns...)
	}
	return Opaque("?")
}

// waits: f receives from a channel or waits for goroutines itself.
func waits(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			case *ssa.Select:
				if x.Blocking {
					return true
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && g.Name() == "Wait" && g.Pkg != nil {
					return true
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Chan); ok {
					return true
				}
			}
		}
	}
	return false
}
