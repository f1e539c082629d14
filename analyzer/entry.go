package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Entry points: symbolic circuit inputs and runs of Define / functions.
// ---------------------------------------------------------------------------

type Shape map[string]int // path of a slice -> length

func (s Shape) len(path string) int {
	if n, ok := s[path]; ok {
		return n
	}
	return s["*"]
}

// input builds a symbolic value of type t for the circuit input at path.
// pfx is the leaf prefix: "in:" for witness variables.
func (in *Interp) input(t types.Type, path string, sh Shape) Val {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		k := typeKey(n)
		switch {
		case k == "github.com/consensys/gnark/frontend.Variable":
			o := in.newObj(in.bigPtrTc.(*types.Pointer).Elem(), "input "+path, Leaf("in:"+path, true))
			o.Shared = "input " + path
			return &Iface{T: in.bigPtrTc, V: &Ptr{O: o}}
		case k == "github.com/consensys/gnark/std/math/emulated.Element":
			l := Leaf("in:"+path, false)
			return l
		case k == "github.com/consensys/gnark/std/math/uints.U8":
			o := in.newObj(in.bigPtrTc.(*types.Pointer).Elem(), "input "+path, Leaf("in:"+path, true))
			o.Shared = "input " + path
			return &Agg{E: []Val{&Iface{T: in.bigPtrTc, V: &Ptr{O: o}}, False}}
		case k == "math/big.Int", k == tFp:
			return Leaf("par:"+path, false)
		case k == tFr:
			return Leaf("par:"+path, true)
		case k == "github.com/consensys/gnark-crypto/ecc/bn254.G1Affine":
			x, y := Leaf("par:"+path+".X", false), Leaf("par:"+path+".Y", false)
			return &Agg{E: []Val{x, y}}
		}
		if !in.isTransparent(n) {
			return Leaf("in:"+path, false)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			p := f.Name()
			if path != "" {
				p = path + "." + p
			}
			a.E = append(a.E, in.input(f.Type(), p, sh))
		}
		return a
	case *types.Array:
		a := &Agg{}
		for i := 0; i < int(u.Len()); i++ {
			a.E = append(a.E, in.input(u.Elem(), fmt.Sprintf("%s[%d]", path, i), sh))
		}
		return a
	case *types.Slice:
		var el []Val
		for i := 0; i < sh.len(path); i++ {
			el = append(el, in.input(u.Elem(), fmt.Sprintf("%s[%d]", path, i), sh))
		}
		s := in.newSlice(u.Elem(), el)
		s.O.Shared = "input " + path
		s.O.Name = "input " + path
		return s
	case *types.Pointer:
		o := in.newObj(u.Elem(), "input "+path, in.input(u.Elem(), path, sh))
		o.Shared = "input " + path
		return &Ptr{O: o}
	case *types.Basic:
		return Leaf("par:"+path, false)
	case *types.Interface:
		return &Iface{T: opaqueMarker, V: Leaf("par:"+path, false)}
	}
	return Leaf("par:"+path, false)
}

// Result of one abstract run.
type Run struct {
	In   *Interp
	Ret  Val
	St   *State
	Recv Val
	Args []Val
	Name string
	Why  string // not empty: analysis incomplete
	Acc  *Accept
	Outs [][]*Ptr // hint runs: what each output slot refers to
}

var apiVal = &Iface{T: apiMarker, V: Int(0)}

func (in *Interp) protect(f func()) (why string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case incomplete:
				why = x.why
			case deadReq:
				why = "run dies: " + x.why
			case splitReq:
				why = "unresolved case split"
			default:
				panic(r)
			}
		}
	}()
	f()
	return
}

// lookup finds a package-level object of the repository's packages.
func (p *Program) lookup(name string) types.Object {
	return p.Types.Scope().Lookup(name)
}

func (p *Program) namedType(name string) *types.Named {
	o, ok := p.lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// method finds the SSA function of method m of T or *T.
func (p *Program) method(t types.Type, m string) (*ssa.Function, bool) {
	for _, x := range []types.Type{types.NewPointer(t), t} {
		ms := p.Prog.MethodSets.MethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if s := ms.At(i); s.Obj().Name() == m {
				if f := p.Prog.MethodValue(s); f != nil {
					_, isPtr := x.(*types.Pointer)
					return f, isPtr
				}
			}
		}
	}
	return nil, false
}

// runDefine interprets T.Define on symbolic inputs.
func (in *Interp) runDefine(init *State, t types.Type, sh Shape, prep func(st *State, recv *Ptr)) *Run {
	r := &Run{In: in, Name: shortType(t) + ".Define"}
	fn, _ := in.P.method(t, "Define")
	if fn == nil {
		r.Why = "no Define method on " + shortType(t)
		return r
	}
	st := init.fork()
	o := in.newObj(t, "circuit", in.input(t, "", sh))
	recv := &Ptr{O: o}
	if prep != nil {
		prep(st, recv)
	}
	r.Recv = recv
	r.Why = in.protect(func() {
		v, ns := in.callFunction(nil, nil, st, fn, []Val{recv, apiVal}, nil)
		r.Ret, r.St = v, ns
	})
	return r
}

// runFunc interprets a function on given arguments.
func (in *Interp) runFunc(init *State, fn *ssa.Function, args []Val) *Run {
	r := &Run{In: in, Name: fnShort(fn), Args: args}
	st := init.fork()
	r.Why = in.protect(func() {
		v, ns := in.callFunction(nil, nil, st, fn, args, nil)
		r.Ret, r.St = v, ns
	})
	return r
}

func (p *Program) fn(name string) *ssa.Function {
	return p.Pkg.Func(name)
}

// ---------------------------------------------------------------------------
// Acceptance: what holds in every run that ends without rejecting.
// ---------------------------------------------------------------------------

type GEvent struct {
	*Event
	Guard []factEnt // undecided gates around the event
	St    *State    // acceptance facts including the guard
}

type Accept struct {
	St    *State
	Never bool     // no accepting run
	All   []GEvent // every event an accepting run may execute, in order
	Must  []*Event // events every accepting run executes
}

// errOf picks the error component of a result (nil if there is none).
func (r *Run) errOf() Val {
	v := r.Ret
	if a, ok := v.(*Agg); ok && len(a.E) > 0 {
		return a.E[len(a.E)-1]
	}
	return v
}

// accept computes the acceptance state of a run whose last result is an error.
func (in *Interp) accept(r *Run, hasErr bool) *Accept {
	a := &Accept{}
	if r.St == nil {
		a.Never = true
		return a
	}
	st := r.St.fork()
	if hasErr {
		e := r.errOf()
		if e != nil {
			c := in.eqVals(st, e, nilIface)
			if c.H == False.H || !in.assume(st, c, true) {
				a.Never = true
				return a
			}
		}
	}
	in.saturate(st)
	a.St = st
	a.derive(in)
	return a
}

// derive lists the events of the accepting runs under the facts of a.St.
func (a *Accept) derive(in *Interp) {
	a.All, a.Must = nil, nil
	in.flatten(a, a.St, a.St.ev, in.initEv, nil)
	for _, g := range a.All {
		if len(g.Guard) == 0 {
			a.Must = append(a.Must, g.Event)
		}
	}
}

// saturate closes the facts under the conditional facts of decided gates.
func (in *Interp) saturate(st *State) {
	for ch := true; ch; {
		ch = false
		for x := st.cf; x != nil; x = x.prev {
			v, ok := in.condVal(st, x.C)
			if !ok {
				// a gate whose one side contradicts the facts
				t, f := in.consistent(st, x.T), in.consistent(st, x.F)
				if t != f {
					if in.assume(st, x.C, t) {
						ch = true
					}
				}
				continue
			}
			l := x.F
			if v {
				l = x.T
			}
			for _, e := range l {
				if _, known := in.condVal(st, e.N); !known {
					in.assume(st, e.N, e.V)
					ch = true
				}
			}
		}
	}
}
func (in *Interp) consistent(st *State, l []factEnt) bool {
	for _, e := range l {
		if v, ok := in.condVal(st, e.N); ok && v != e.V {
			return false
		}
	}
	return true
}

func (in *Interp) flatten(a *Accept, st *State, ev, base *Ev, guard []factEnt) {
	var l []*Event
	for e := ev; e != base && e != nil; e = e.prev {
		l = append(l, e.E)
	}
	for i := len(l) - 1; i >= 0; i-- {
		e := l[i]
		if e.Kind != "guarded" {
			a.All = append(a.All, GEvent{e, guard, st})
			continue
		}
		if v, ok := in.condVal(st, e.C); ok {
			if v {
				in.flatten(a, st, e.TEv, e.Base, guard)
			} else {
				in.flatten(a, st, e.FEv, e.Base, guard)
			}
			continue
		}
		if in.flat++; in.flat > 1500 {
			panic(incomplete{"too many constraints that depend on conditions on input values"})
		}
		for _, side := range []bool{true, false} {
			s2 := st.fork()
			if !in.assume(s2, e.C, side) {
				continue
			}
			in.saturate(s2)
			g := append(append([]factEnt(nil), guard...), factEnt{e.C, side})
			if side {
				in.flatten(a, s2, e.TEv, e.Base, g)
			} else {
				in.flatten(a, s2, e.FEv, e.Base, g)
			}
		}
	}
}

func (g GEvent) guardStr() string {
	var s []string
	for _, e := range g.Guard {
		p := ""
		if !e.V {
			p = "!"
		}
		s = append(s, p+e.N.String())
	}
	return strings.Join(s, " && ")
}
