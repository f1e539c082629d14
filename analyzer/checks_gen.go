package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C09-C12, C22-C24: properties over all circuits, hints and the driver.
// ---------------------------------------------------------------------------

func init() {
	checks["C10"] = checkFn{"in every accepting run of every circuit definition, gadget function, hint and the driver, every failure condition reported by a step that was executed is decided false by the acceptance facts; no recovery handler is installed", checkC10}
}

// allEntries interprets every circuit, requested hint and the driver.
func (c *Ctx) allEntries() []*entry {
	var es []*entry
	type req struct{ nin, nout int }
	hints := map[*ssa.Function]map[req]bool{}
	for _, t := range c.P.circuits() {
		for _, sh := range shapesFor(circuitName(t), c.thorough()) {
			e := c.runCircuit(t, sh, nil)
			if e == nil {
				continue
			}
			es = append(es, e)
			for _, u := range e.In.Hints {
				if u.Fn != nil {
					if hints[u.Fn] == nil {
						hints[u.Fn] = map[req]bool{}
					}
					hints[u.Fn][req{len(u.In), len(u.Out)}] = true
				}
			}
		}
	}
	var fs []*ssa.Function
	for f := range hints {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		var rs []req
		for r := range hints[f] {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].nin < rs[j].nin })
		for _, r := range rs {
			e, _, _ := c.runHintEntry(f, r.nin, r.nout)
			if e == nil {
				continue
			}
			if e.Run.Why != "" && !strings.HasPrefix(e.Run.Why, "run dies") && !strings.HasPrefix(e.Run.Why, "hint never") {
				c.ob(false, e.Name+" undecided", e.Name, "hint cannot be analysed: %s", e.Run.Why)
				continue
			}
			es = append(es, e)
		}
	}
	return es
}

func checkC10(c *Ctx) {
	es := c.allEntries()
	called := map[*ssa.Function]bool{}
	for _, e := range es {
		for f := range e.In.CalledFn {
			called[f] = true
		}
	}
	es = append(es, c.gadgetEntries(called)...)
	if e := c.driver(); e != nil {
		es = append(es, e)
	}
	for _, e := range es {
		if e.Acc.Never {
			continue
		}
		for _, g := range e.Acc.All {
			if g.Kind != "fallible" {
				continue
			}
			v, ok := e.In.condVal(g.St, g.Nodes[0])
			c.ob(ok && !v, e.Name+": "+g.S, e.In.where(g.Site), "%s of %s succeeds although %s may have failed", map[string]string{"circuit": "the definition", "hint": "the hint", "driver": "the driver", "gadget": "the gadget"}[e.Kind], e.Name, g.S)
		}
		for _, g := range e.Acc.All {
			c.ob(g.Kind != "recover", e.Name+": recover", e.In.where(g.Site), "a recovery handler runs in %s", e.Name)
		}
	}
	// no deferred recovery handler anywhere in the analysed functions
	for f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					c.ob(false, "recover in "+fnShort(f), c.P.Prog.Fset.Position(ins.Pos()).String(), "%s installs a recovery handler", fnShort(f))
				}
			}
		}
	}
}

// gadgetEntries interprets the functions that take the circuit API and report
// an error, on symbolic arguments.
func (c *Ctx) gadgetEntries(called map[*ssa.Function]bool) []*entry {
	var es []*entry
	var fs []*ssa.Function
	for f := range c.P.Funcs {
		if f.Parent() != nil || f.Signature.TypeParams().Len() > 0 || len(f.TypeArgs()) > 0 || f.Synthetic != "" {
			continue
		}
		s := f.Signature
		if r := s.Recv(); r != nil {
			if f.Name() == "Define" || recvStruct(r.Type()) == nil {
				continue
			}
		}
		if s.Params().Len() == 0 {
			continue
		}
		api := typeKey(s.Params().At(0).Type()) == "github.com/consensys/gnark/frontend.API"
		hasErr := lastIsError(s)
		text := true
		for i := 0; i < s.Params().Len(); i++ {
			if b, ok := s.Params().At(i).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				text = false
			}
		}
		plain := !api && !isHintSig(s)
		for i := 0; i < s.Params().Len(); i++ {
			k := typeKey(s.Params().At(i).Type())
			plain = plain && (k == "github.com/consensys/gnark/frontend.Variable" || k == "interface{}" || k == "[]github.com/consensys/gnark/frontend.Variable")
		}
		// a method that keeps the failure in its receiver is judged by its callers
		if r := s.Recv(); r != nil && plain && !hasErr && called[f] && keepsError(recvStruct(r.Type())) {
			continue
		}
		if hasErr && text || plain || hasErr && api && !called[f] {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		in, init, ok := c.interp()
		if !ok {
			return es
		}
		st := init.fork()
		var args []Val
		sg := f.Signature
		if r := sg.Recv(); r != nil {
			t := recvStruct(r.Type())
			o := in.newObj(t, "receiver", in.zeroVal(t))
			if _, ok := types.Unalias(r.Type()).(*types.Pointer); ok {
				args = append(args, &Ptr{O: o})
			} else {
				args = append(args, in.zeroVal(t))
			}
		}
		for i := 0; i < sg.Params().Len(); i++ {
			p := sg.Params().At(i)
			if typeKey(p.Type()) == "github.com/consensys/gnark/frontend.API" {
				args = append(args, apiVal)
				continue
			}
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				args = append(args, Int(2))
				continue
			}
			args = append(args, in.input(p.Type(), p.Name(), Shape{"*": 44, "transcript": 104, "aux": 21}))
		}
		r := in.runFunc(st, f, args)
		c.stats(in)
		e := &entry{Name: fnShort(f), Kind: "gadget", In: in, Init: init, Run: r, Fn: f}
		if r.Why != "" {
			c.count("gadget functions not analysable stand-alone", 1)
			c.sample("skipped %s: %s", fnShort(f), r.Why)
			continue
		}
		e.Acc = in.accept(r, lastIsError(sg))
		es = append(es, e)
	}
	return es
}

func lastIsError(s *types.Signature) bool {
	n := s.Results().Len()
	return n > 0 && typeKey(s.Results().At(n-1).Type()) == "error"
}

// recvStruct is the struct type of a receiver.
func recvStruct(t types.Type) types.Type {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return t
	}
	return nil
}

// keepsError: the struct has a field of type error.
func keepsError(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if typeKey(st.Field(i).Type()) == "error" {
			return true
		}
	}
	return false
}

// driver interprets main.
func (c *Ctx) driver() *entry {
	f := c.P.fn("main")
	if f == nil {
		c.ob(false, "no driver", "package main", "function main not found")
		return nil
	}
	in, init, ok := c.interp()
	if !ok {
		return nil
	}
	r := in.runFunc(init, f, nil)
	c.stats(in)
	e := &entry{Name: "main", Kind: "driver", In: in, Init: init, Run: r, Fn: f}
	if r.Why != "" {
		c.ob(false, "driver undecided", "main", "main cannot be analysed: %s", r.Why)
		return nil
	}
	e.Acc = in.accept(r, false)
	return e
}

var _ = fmt.Sprint
