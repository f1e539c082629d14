package main

import (
	"fmt"
	"strings"
)

// dump prints what the interpreter derives for one circuit (debugging aid).
func dump(repo, name string) {
	P, err := Load(repo)
	if err != nil {
		fmt.Println(err)
		return
	}
	in := NewInterp(P)
	init, err := in.RunInit()
	if err != nil {
		fmt.Println(err)
		return
	}
	sh := Shape{"Proof": 104, "VerifyInst": 1, "Aux": 21, "TargetInst": 4, "InputValue": 3, "HashValue": 32,
		"ConditionHash.Country": 5, "ConditionHash.Level": 2, "ConditionHash.Time": 2, "Points": 3, "Scalars": 3}
	r := in.runDefine(init, P.namedType(name), sh, nil)
	fmt.Println("why:", r.Why, "steps", in.steps)
	for k, v := range in.Notes {
		fmt.Println("note", k, v)
	}
	if r.St == nil {
		fmt.Println("no state")
		return
	}
	a := in.accept(r, true)
	fmt.Println("never", a.Never)
	for _, e := range a.All {
		fmt.Println(e.Kind, e.S, e.Nodes, in.where(e.Site), strings.TrimSpace(e.guardStr()))
	}
	if a.St != nil {
		for _, f := range factList(a.St) {
			fmt.Println("fact", f.V, f.N)
		}
	}
}

// dumpHint prints what a hint function computes (debugging aid).
func dumpHint(repo, name string, nin, nout int) {
	P, err := Load(repo)
	if err != nil {
		fmt.Println(err)
		return
	}
	c := &Ctx{P: P, Counts: map[string]int{}}
	e, _, outs := c.runHintEntry(P.fn(name), nin, nout)
	fmt.Println("why:", e.Run.Why, "never", e.Acc.Never)
	for i, o := range outs {
		fmt.Println("out", i, o.str(200))
	}
	for _, g := range e.Acc.All {
		fmt.Println(g.Kind, g.S, g.Nodes, e.In.where(g.Site), g.guardStr())
	}
	if e.Acc.St != nil {
		for _, f := range factList(e.Acc.St) {
			fmt.Println("fact", f.V, f.N)
		}
		for x := e.Acc.St.cf; x != nil; x = x.prev {
			fmt.Println("cf", x.C, x.T, x.F)
		}
	}
}

// dumpMain prints the driver's events (debugging aid).
func dumpMain(repo string) {
	P, err := Load(repo)
	if err != nil {
		fmt.Println(err)
		return
	}
	c := &Ctx{P: P, Counts: map[string]int{}}
	e := c.driver()
	if e == nil {
		fmt.Println(c.viols)
		return
	}
	for _, g := range e.Acc.All {
		fmt.Println(g.Kind, g.S, g.Nodes, e.In.where(g.Site), g.guardStr())
	}
	for _, x := range e.In.Exits {
		fmt.Println("exit", x)
	}
}
