package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lengthsNear returns the lengths (from lo to hi, at most 40) at which the code
// reachable from the named functions may change its behaviour: the integer
// constants it compares with, divides by, adds, or cuts slices at, and their
// neighbours. They are analysed in addition to the fixed list have. Of a root
// written "=name" only the function itself is read.
func (c *Ctx) lengthsNear(lo, hi int, have []int, roots ...string) []int {
	known := map[int]bool{}
	for _, n := range have {
		known[n] = true
	}
	cand := map[int]bool{}
	add := func(v ssa.Value) {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil {
			return
		}
		if b, ok := k.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return
		}
		n := k.Int64()
		if n < 2 || n > int64(hi)+1 {
			return
		}
		for _, d := range []int{-1, 0, 1} {
			cand[int(n)+d] = true
			cand[2*int(n)+d] = true
		}
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, deep bool)
	visit = func(f *ssa.Function, deep bool) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		pk := f.Pkg
		if o := f.Origin(); o != nil {
			pk = o.Pkg
		}
		if pk == nil || !c.P.owns(pk.Pkg) {
			return
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.BinOp:
					add(x.X)
					add(x.Y)
				case *ssa.Slice:
					add(x.Low)
					add(x.High)
				case *ssa.MakeSlice:
					add(x.Len)
					add(x.Cap)
				case *ssa.Phi:
					for _, e := range x.Edges {
						add(e)
					}
				case *ssa.Alloc:
					if p, ok := x.Type().Underlying().(*types.Pointer); ok {
						if a, ok := p.Elem().Underlying().(*types.Array); ok {
							if n := a.Len(); n >= 2 && n <= int64(hi)+1 {
								for _, d := range []int{-1, 0, 1} {
									cand[int(n)+d] = true
								}
							}
						}
					}
				case ssa.CallInstruction:
					for _, a := range x.Common().Args {
						add(a)
					}
				}
				for _, r := range ins.Operands(nil) {
					if r == nil || *r == nil {
						continue
					}
					if g, ok := (*r).(*ssa.Function); ok && deep {
						visit(g, deep)
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g, deep)
		}
	}
	for f := range c.P.Funcs {
		name := f.Name()
		if i := strings.IndexByte(name, '['); i > 0 {
			name = name[:i]
		}
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				name = n.Obj().Name() + "." + name
			}
		}
		for _, r := range roots {
			if strings.TrimPrefix(r, "=") == name {
				visit(f, r == name)
			}
		}
	}
	var res []int
	for n := range cand {
		if n >= lo && n <= hi && !known[n] {
			res = append(res, n)
		}
	}
	sort.Ints(res)
	if len(res) > 40 {
		c.count("lengths suggested by the source but not analysed", len(res)-40)
		res = res[:40]
	}
	c.count("lengths suggested by constants of the source", len(res))
	return res
}
