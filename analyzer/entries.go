package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Discovery of the repository's entry points: circuit definitions, hints, main.
// ---------------------------------------------------------------------------

const emuPkg = "github.com/consensys/gnark/std/math/emulated"

// circuits lists every type of the repository with a circuit definition.
func (p *Program) circuits() []types.Type {
	var r []types.Type
	for _, pk := range p.Pkgs {
		sc := pk.Pkg.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, ok := n.Underlying().(*types.Struct); !ok {
				continue
			}
			o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, pk.Pkg, "Define")
			f, ok := o.(*types.Func)
			if !ok {
				continue
			}
			sg := f.Type().(*types.Signature)
			if sg.Params().Len() != 1 || sg.Results().Len() != 1 || typeKey(sg.Params().At(0).Type()) != "github.com/consensys/gnark/frontend.API" {
				continue
			}
			var t types.Type = n
			if n.TypeParams().Len() > 0 {
				var as []types.Type
				for i := 0; i < n.TypeParams().Len(); i++ {
					if a := p.typeArgFor(i); a != nil {
						as = append(as, a)
					}
				}
				if len(as) != n.TypeParams().Len() {
					continue
				}
				it, err := types.Instantiate(nil, n, as, false)
				if err != nil {
					continue
				}
				t = it
			}
			r = append(r, t)
		}
	}
	return r
}

// typeArgFor: BN254 base field, scalar field.
func (p *Program) typeArgFor(i int) types.Type {
	var pk *types.Package
	for _, q := range p.Prog.AllPackages() {
		if q.Pkg.Path() == emuPkg+"/emparams" {
			pk = q.Pkg
		}
	}
	if pk == nil {
		return nil
	}
	name := "BN254Fp"
	if i > 0 {
		name = "BN254Fr"
	}
	o := pk.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (p *Program) instType(name string) types.Type {
	for _, t := range p.circuits() {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == name {
			return t
		}
	}
	return nil
}

// hintFuncs are the repository functions that are requested or registered as
// hints anywhere (by reference from any repository function).
func (p *Program) hintFuncs() []*ssa.Function {
	set := map[*ssa.Function]bool{}
	for f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					v := *op
					if c, ok := v.(*ssa.ChangeType); ok {
						v = c.X
					}
					g, ok := v.(*ssa.Function)
					if !ok || !isHintSig(g.Signature) || g.Blocks == nil {
						continue
					}
					if cc, ok := ins.(ssa.CallInstruction); ok && cc.Common().Value == g {
						continue
					}
					set[g] = true
				}
			}
		}
	}
	var r []*ssa.Function
	for f := range set {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func isHintSig(s *types.Signature) bool {
	if s.Recv() != nil || s.Params().Len() != 3 || s.Results().Len() != 1 || typeKey(s.Results().At(0).Type()) != "error" {
		return false
	}
	return types.TypeString(s.Params().At(0).Type(), nil) == "*math/big.Int" &&
		types.TypeString(s.Params().At(1).Type(), nil) == "[]*math/big.Int" &&
		types.TypeString(s.Params().At(2).Type(), nil) == "[]*math/big.Int"
}

// entry is one interpreted entry point with its acceptance facts.
type entry struct {
	Name string
	Kind string // "circuit", "hint", "driver"
	In   *Interp
	Init *State
	Run  *Run
	Acc  *Accept
	T    types.Type
	Sh   Shape
	Fn   *ssa.Function
}

func circuitName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// shapesFor are the slice lengths a circuit type is analysed with.
func shapesFor(name string, thorough bool) []Shape {
	switch name {
	case "AggregatorCircuit":
		r := []Shape{aggShape}
		for _, n := range [][2]int{{1, 1}, {12, 3}, {42, 1}, {1, 42}} {
			r = append(r, Shape{"Proof": nProof, "VerifyInst": n[1], "Aux": 21, "TargetInst": n[0]})
		}
		return r
	case "Circuit":
		ls := []int{0, 1, 2, 4, 9, 17, 40}
		if thorough {
			ls = []int{0, 1, 2, 3, 4, 5, 8, 13, 17, 33, 40, 101}
		}
		return kycShapes(ls)
	case "Keccak256Circuit", "Sha256Circuit":
		r := []Shape{{"InputValue": 0, "HashValue": 32}, {"InputValue": 3, "HashValue": 32}, {"InputValue": 64, "HashValue": 32}, {"InputValue": 136, "HashValue": 32}, {"InputValue": 300, "HashValue": 32}, {"InputValue": 3, "HashValue": 31}, {"InputValue": 3, "HashValue": 33}}
		return r
	case "MultiScalarMul":
		r := []Shape{{"Points": 0, "Scalars": 0}, {"Points": 1, "Scalars": 1}, {"Points": 2, "Scalars": 2}, {"Points": 3, "Scalars": 3}, {"Points": 9, "Scalars": 9}, {"Points": 33, "Scalars": 33}}
		return r
	}
	return []Shape{{"*": 2}}
}

// runCircuit interprets a circuit and derives acceptance; nil if undecidable
// (an obligation is recorded).
func (c *Ctx) runCircuit(t types.Type, sh Shape, prep func(in *Interp, st *State, recv *Ptr)) *entry {
	in, init, ok := c.interp()
	if !ok {
		return nil
	}
	name := circuitName(t)
	var pr func(st *State, recv *Ptr)
	if prep != nil {
		pr = func(st *State, recv *Ptr) { prep(in, st, recv) }
	}
	r := in.runDefine(init, t, sh, pr)
	c.stats(in)
	e := &entry{Name: name, Kind: "circuit", In: in, Init: init, Run: r, T: t, Sh: sh}
	if r.Why != "" {
		if strings.HasPrefix(r.Why, "run dies") {
			e.Acc = &Accept{Never: true}
			return e
		}
		c.ob(false, name+" undecided", r.Name, "cannot be analysed %v: %s", sh, r.Why)
		return nil
	}
	e.Acc = in.accept(r, true)
	return e
}

// runHintEntry interprets a hint function on symbolic inputs.
func (c *Ctx) runHintEntry(f *ssa.Function, nin, nout int) (*entry, []*Node, []*Node) {
	in, init, ok := c.interp()
	if !ok {
		return nil, nil, nil
	}
	var ins []*Node
	for i := 0; i < nin; i++ {
		ins = append(ins, Leaf(fmt.Sprintf("in:arg[%d]", i), nin != 1))
	}
	outs, r := in.runHint(init, f, ins, nout)
	c.stats(in)
	e := &entry{Name: fnShort(f), Kind: "hint", In: in, Init: init, Run: r, Acc: r.Acc, Fn: f}
	if e.Acc == nil {
		e.Acc = &Accept{Never: true}
	}
	return e, ins, outs
}
