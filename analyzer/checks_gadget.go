package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C09, C14-C21, C25: the other circuits, gadgets and helpers.
// ---------------------------------------------------------------------------

func init() {
	checks["C09"] = checkFn{"walk of the circuit struct types by gnark's schema rules (tags, inheritance, omission): the set of public leaf paths equals the intended one", checkC09}
	checks["C14"] = checkFn{"for every analysed input length, the must-constraints of the hash circuits pin each of the 32 claimed bytes to the byte of the gadget digest over exactly the input bytes in order; a shorter claim has no accepting run", checkC14}
	checks["C15"] = checkFn{"an unconditional ECDSA verification event whose key is the issuer's constant, whose curve is secp256k1 and whose message and signature operands are the circuit's own fields", checkC15}
	checks["C16"] = checkFn{"the acceptance condition of the KYC circuit (conjunction of facts and constraints) is decided for one representative of every order class of (age, bounds) and every equality class of (country, list) and equals the specification", checkC16}
	checks["C17"] = checkFn{"group normal form: the claimed coordinates are pinned by unconditional constraints to the sum of the terms, for several numbers of terms", checkC17}
	checks["C18"] = checkFn{"the pairing check event is unconditional, has exactly the circuit's operand pairs in order, its failure is decided false; the fill helpers write the given points with an on-curve fact and the fixed G2 points", checkC18}
	checks["C19"] = checkFn{"value of each helper's result, after pinning its reductions by unconditional constraints, equals the field operation; no mutation of the operands", checkC19}
	checks["C20"] = checkFn{"acceptance of the range and non-zero checks decided for one representative of every order class including the boundary neighbours equals the specification", checkC20}
	checks["C21"] = checkFn{"group normal form: both claimed coordinates are pinned by unconditional equalities to the group operation on the operands; no mutation of the operands", checkC21}
	checks["C25"] = checkFn{"symbolic bytes and printed-point templates: the result of the conversions equals the big-endian number; malformed constant texts propagate to an error result", checkC25}
}

// ---------------------------------------------------------------------------
// C09
// ---------------------------------------------------------------------------

type leafVis struct {
	path string
	vis  string // "", "secret", "public"
	err  string
}

// gnarkLeaves applies gnark's schema walk to a type.
func gnarkLeaves(t types.Type, path, vis string, out *[]leafVis, depth int) {
	if depth > 12 {
		return
	}
	t = types.Unalias(t)
	if typeKey(t) == "github.com/consensys/gnark/frontend.Variable" {
		*out = append(*out, leafVis{path: path, vis: vis})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		gnarkLeaves(u.Elem(), path, vis, out, depth+1)
	case *types.Slice:
		gnarkLeaves(u.Elem(), path+"[]", vis, out, depth+1)
	case *types.Array:
		if u.Len() > 0 {
			gnarkLeaves(u.Elem(), path+"[]", vis, out, depth+1)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			tag, ok := reflect.StructTag(u.Tag(i)).Lookup("gnark")
			if ok && tag == "-" {
				continue
			}
			v := vis
			if ok && tag != "" {
				opts := ""
				if j := strings.IndexByte(tag, ','); j >= 0 {
					opts = tag[j+1:]
				}
				has := func(o string) bool {
					for _, x := range strings.Split(strings.TrimSpace(opts), ",") {
						if strings.TrimSpace(x) == o {
							return true
						}
					}
					return false
				}
				if has("secret") {
					v = "secret"
				} else if has("public") {
					v = "public"
				}
			}
			p := f.Name()
			if path != "" {
				p = path + "." + p
			}
			if vis != "" && v != vis {
				*out = append(*out, leafVis{path: p, err: "conflicting visibility under a parent"})
				continue
			}
			gnarkLeaves(f.Type(), p, v, out, depth+1)
		}
	}
}

func checkC09(c *Ctx) {
	want := map[string][]string{
		"AggregatorCircuit": {"TargetInst[]"},
		"Circuit":           {"ConditionHash.Age[]", "ConditionHash.Country[]", "ConditionHash.Level[]", "ConditionHash.Time[]"},
		"RangeCheckCircuit": {"X"},
	}
	must := map[string][]string{
		"AggregatorCircuit": {"Proof[]", "VerifyInst[]", "Aux[]"},
		"Circuit":           {"Signature.R.Limbs[]", "Signature.S.Limbs[]", "KycHash.Limbs[]", "Kyc.Age", "Kyc.Country", "Kyc.Level", "Kyc.Time"},
	}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		t := c.P.namedType(name)
		if t == nil {
			if name != "RangeCheckCircuit" {
				c.ob(false, name+" missing", name, "circuit type %s not found", name)
			}
			continue
		}
		var ls []leafVis
		gnarkLeaves(t, "", "", &ls, 0)
		got := map[string]leafVis{}
		for _, l := range ls {
			got[l.path] = l
			c.ob(l.err == "", name+"."+l.path, name, "%s.%s: %s", name, l.path, l.err)
		}
		pub := map[string]bool{}
		for _, p := range want[name] {
			pub[p] = true
			l, ok := got[p]
			c.ob(ok, name+"."+p+" missing", name, "%s.%s is not a circuit input", name, p)
			c.ob(!ok || l.vis == "public", name+"."+p, name, "%s.%s must be public and is not", name, p)
		}
		for _, p := range must[name] {
			_, ok := got[p]
			c.ob(ok, name+"."+p+" missing", name, "%s.%s is not a circuit input", name, p)
		}
		for _, l := range ls {
			if !pub[l.path] {
				c.ob(l.vis != "public", name+"."+l.path, name, "%s.%s is public and must be private", name, l.path)
			}
		}
		c.count("input leaves classified", len(ls))
	}
	// the type that reaches gnark must not override the schema walk
	for _, t := range c.P.circuits() {
		for _, m := range []string{"GnarkInitHook"} {
			if f, _ := c.P.method(t, m); f != nil && c.P.Funcs[f] {
				c.ob(false, circuitName(t)+" "+m, circuitName(t), "%s installs a schema hook", circuitName(t))
			}
		}
	}
}

// ---------------------------------------------------------------------------
// helpers
// ---------------------------------------------------------------------------

// evalOf is an evaluator with the accepting run's constraints resolved;
// leaves with one of the given prefixes are unknowns.
func (e *entry) eval(c *Ctx, unknown ...string) *Eval {
	ev := NewEval(e.In, e.Acc.St, c.evalSeed())
	ev.unknown = func(n *Node) bool {
		if n.Op != "leaf" {
			return false
		}
		if strings.HasPrefix(n.S, "hint:") {
			return true
		}
		for _, u := range unknown {
			if strings.HasPrefix(n.S, u) {
				return true
			}
		}
		return false
	}
	ev.resolve(e.Acc.Must)
	return ev
}

// noMutation: the caller's operands keep their values.
func (c *Ctx) noMutation(e *entry, what string) {
	n := 0
	for _, g := range e.Acc.All {
		if g.Kind == "mutate" {
			n++
			c.ob(false, e.Name+" mutates "+g.S, e.In.where(g.Site), "%s modifies %s", e.Name, g.S)
		}
	}
	if n == 0 {
		c.ob(true, "", "", "")
	}
}

// gadgetRun interprets a repository function on the given kinds of arguments;
// nil if there is no such function. ok=false: undecided (recorded).
func (c *Ctx) gadgetRun(name string, args func(in *Interp, f *ssa.Function) []Val, hasErr bool) *entry {
	f := c.P.fn(name)
	if f == nil {
		return nil
	}
	in, init, ok := c.interp()
	if !ok {
		return nil
	}
	var as []Val
	why := in.protect(func() { as = args(in, f) })
	if why == "" && as == nil {
		c.count("helpers with another signature", 1)
		return nil
	}
	if why != "" {
		return nil
	}
	r := in.runFunc(init, f, as)
	c.stats(in)
	e := &entry{Name: name, Kind: "gadget", In: in, Init: init, Run: r, Fn: f}
	if r.Why != "" {
		if strings.HasPrefix(r.Why, "run dies") {
			e.Acc = &Accept{Never: true}
			return e
		}
		c.ob(false, name+" undecided", name, "cannot be analysed: %s", r.Why)
		return nil
	}
	e.Acc = in.accept(r, hasErr)
	return e
}

func paramTypes(f *ssa.Function) []string {
	var r []string
	for i := 0; i < f.Signature.Params().Len(); i++ {
		r = append(r, typeKey(f.Signature.Params().At(i).Type()))
	}
	return r
}

const tAPI = "github.com/consensys/gnark/frontend.API"
const tVar = "github.com/consensys/gnark/frontend.Variable"

// apiThenVars checks for the signature (frontend.API, Variable x n).
func apiThenVars(f *ssa.Function, n int) bool {
	p := paramTypes(f)
	if len(p) != n+1 || p[0] != tAPI || f.Signature.Variadic() {
		return false
	}
	for _, x := range p[1:] {
		if x != tVar {
			return false
		}
	}
	return true
}

// succeed assumes that every modelled step that may fail does not.
func (e *entry) succeed() {
	st := e.Acc.St
	if st == nil {
		return
	}
	for i := 0; i < 8; i++ {
		n := 0
		for _, g := range e.Acc.All {
			if g.Kind != "fallible" {
				continue
			}
			if _, ok := e.In.condVal(st, g.Nodes[0]); !ok {
				e.In.assume(st, g.Nodes[0], false)
				n++
			}
		}
		if n == 0 {
			return
		}
		e.In.saturate(st)
		e.Acc.derive(e.In)
	}
}

// holds decides a constraint event under the evaluation.
func (e *Eval) holds(g *Event) (val, ok bool) {
	var v []*EV
	for _, n := range g.Nodes {
		x := e.val(n)
		if x.un != nil {
			return false, false
		}
		v = append(v, x)
	}
	all := func(f func(i int) bool) (bool, bool) {
		n := 0
		for i := 0; i < tuples; i++ {
			for _, x := range v {
				if x.N[i] == nil {
					return false, false
				}
			}
			if f(i) {
				n++
			}
		}
		return n == tuples, n == 0 || n == tuples
	}
	switch g.Kind {
	case "eq", "byteEq":
		return all(func(i int) bool { return modR(v[0].N[i]).Cmp(modR(v[1].N[i])) == 0 })
	case "emEq":
		return all(func(i int) bool { return v[0].N[i].Cmp(v[1].N[i]) == 0 })
	case "neq":
		return all(func(i int) bool { return modR(v[0].N[i]).Cmp(modR(v[1].N[i])) != 0 })
	case "le":
		return all(func(i int) bool { return modR(v[0].N[i]).Cmp(modR(v[1].N[i])) <= 0 })
	case "nonzero":
		return all(func(i int) bool { return modR(v[0].N[i]).Sign() != 0 })
	case "boolean":
		return all(func(i int) bool { return modR(v[0].N[i]).BitLen() <= 1 })
	case "crumb":
		return all(func(i int) bool { return modR(v[0].N[i]).BitLen() <= 2 })
	case "bits":
		return all(func(i int) bool { return modR(v[0].N[i]).BitLen() <= int(v[1].N[i].Int64()) })
	}
	return false, false
}

// accepts decides whether the entry accepts for the class of inputs that the
// given values represent. Kinds in skip are taken to hold.
func (e *entry) accepts(c *Ctx, vals map[string]*big.Int, skip map[string]bool) (acc bool, why string) {
	if e.Acc.Never {
		return false, ""
	}
	ev := NewEval(e.In, nil, c.evalSeed())
	ev.pattern = true
	for l, v := range vals {
		v := v
		ev.bind[Leaf(l, true).H] = num(func(int) *big.Int { return v })
	}
	ev.resolve(e.Acc.Must)
	for _, f := range factList(e.Acc.St) {
		v, ok := ev.boolVal(f.N)
		if !ok {
			if !f.N.In {
				continue
			}
			return false, "the outcome of " + f.N.str(3) + " is not decided"
		}
		if v != f.V {
			return false, ""
		}
	}
	for _, g := range e.Acc.All {
		if skip[g.Kind] || !constraintKind[g.Kind] {
			continue
		}
		live := true
		for _, x := range g.Guard {
			v, ok := ev.boolVal(x.N)
			if !ok {
				return false, "the condition " + x.N.str(3) + " is not decided"
			}
			if v != x.V {
				live = false
			}
		}
		if !live {
			continue
		}
		v, ok := ev.holds(g.Event)
		if !ok {
			return false, "the constraint " + g.Kind + " at " + e.In.where(g.Site) + " is not decided"
		}
		if !v {
			return false, ""
		}
	}
	return true, ""
}

// constants lists the integer constants that take part in the constraints
// and the decisions of the run, as residues, with their negations: the values
// at which it may behave in a special way.
func (e *entry) constants(skip map[string]bool) []*big.Int {
	seen := map[string]bool{}
	var out []*big.Int
	done := map[Hash]bool{}
	put := func(v *big.Int) {
		v = modR(v)
		if len(out) < 64 && !seen[v.String()] {
			seen[v.String()] = true
			out = append(out, v)
		}
	}
	walk := func(n *Node) {
		dependsOn(n, func(x *Node) bool {
			if x.isInt() {
				put(x.K)
				put(new(big.Int).Neg(x.K))
			}
			return false
		}, done)
	}
	for _, g := range e.Acc.All {
		if !constraintKind[g.Kind] || skip[g.Kind] || g.Kind == "hash" {
			continue
		}
		for _, n := range g.Nodes {
			walk(n)
		}
		for _, x := range g.Guard {
			walk(x.N)
		}
	}
	for _, f := range factList(e.Acc.St) {
		if f.N.In {
			walk(f.N)
		}
	}
	return out
}

var constraintKind = map[string]bool{"eq": true, "byteEq": true, "emEq": true, "ecEq": true, "neq": true, "le": true, "nonzero": true,
	"boolean": true, "crumb": true, "bits": true, "assertOnCurve": true, "assertOnG2": true, "pairing": true, "ecdsa": true, "hash": true}

// ---------------------------------------------------------------------------
// C14
// ---------------------------------------------------------------------------

func checkC14(c *Ctx) {
	var lens []int
	for i := 0; i <= 300; i++ {
		lens = append(lens, i)
	}
	lens = append(lens, 407, 408, 409, 511, 512, 513, 543, 544, 545, 1023, 1024, 1025, 3553)
	if c.thorough() {
		for i := 301; i <= 1100; i++ {
			lens = append(lens, i)
		}
		lens = append(lens, 2047, 2048, 2049, 4095, 4096, 4097, 8192)
	}
	lens = append(lens, c.lengthsNear(0, 9000, lens, "Keccak256Circuit.Define", "Sha256Circuit.Define", "VerifyKeccak256", "VerifySha256")...)
	for _, ck := range []struct{ name, kind string }{{"Keccak256Circuit", "keccakc"}, {"Sha256Circuit", "sha256c"}} {
		t := c.P.instType(ck.name)
		if t == nil {
			c.ob(false, ck.name+" missing", ck.name, "circuit type %s not found", ck.name)
			continue
		}
		for _, n := range lens {
			e := c.runCircuit(t, Shape{"InputValue": n, "HashValue": 32}, nil)
			if e == nil {
				continue
			}
			if !c.ob(!e.Acc.Never, ck.name+" never accepts", e.Name, "no run accepts an input of %d bytes", n) {
				continue
			}
			e.succeed()
			var in []*Node
			for i := 0; i < n; i++ {
				in = append(in, Leaf(fmt.Sprintf("in:InputValue[%d]", i), true))
			}
			d := hashBytes(ck.kind, in)
			ev := e.eval(c, "in:HashValue")
			for i := 0; i < 32; i++ {
				h := Leaf(fmt.Sprintf("in:HashValue[%d]", i), true)
				v := ev.val(h)
				switch {
				case v.un != nil:
					c.ob(false, fmt.Sprintf("%s digest byte %d", ck.name, i), e.Run.Name, "with %d input bytes no constraint of every accepting run compares claimed byte %d", n, i)
				default:
					c.ob(v.eq(ev.val(d[i])), fmt.Sprintf("%s digest byte %d", ck.name, i), e.Run.Name, "with %d input bytes claimed byte %d is not compared with byte %d of the digest of the whole input", n, i, i)
				}
			}
		}
		for _, k := range []int{0, 1, 16, 31} {
			e := c.runCircuit(t, Shape{"InputValue": 3, "HashValue": k}, nil)
			if e == nil {
				continue
			}
			c.ob(e.Acc.Never, fmt.Sprintf("%s short digest", ck.name), e.Run.Name, "a claimed digest of %d bytes is accepted", k)
		}
	}
}

// ---------------------------------------------------------------------------
// C15, C16
// ---------------------------------------------------------------------------

const issuerX = "85997066971194522473057012223499312995837068047270353161199320975157154592866"
const issuerY = "40070151623224504185408656535330873345235311800089295101492157067180406840001"

func kycShape(n, l, t int) Shape {
	return Shape{"ConditionHash.Country": n, "ConditionHash.Level": l, "ConditionHash.Time": t}
}

// kycShapes are list lengths of the KYC circuit; the three lists vary
// independently.
func kycShapes(countries []int) []Shape {
	var r []Shape
	for _, n := range countries {
		for _, lt := range [][2]int{{n, n}, {0, 0}, {1, 1}, {0, 1}, {3, 0}} {
			if lt[0] == n && lt[1] == n && len(r) > 0 && r[len(r)-1]["ConditionHash.Country"] == n {
				continue
			}
			r = append(r, kycShape(n, lt[0], lt[1]))
		}
	}
	return r
}

func checkC15(c *Ctx) {
	t := c.P.instType("Circuit")
	if t == nil {
		c.ob(false, "Circuit missing", "Circuit", "KYC circuit type not found")
		return
	}
	ns := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 33, 40, 65, 101, 130}
	if c.thorough() {
		ns = nil
		for i := 0; i <= 140; i++ {
			ns = append(ns, i)
		}
		ns = append(ns, 200, 256, 257, 300)
	}
	ns = append(ns, c.lengthsNear(0, 600, ns, "Circuit.Define")...)
	for _, sh := range kycShapes(ns) {
		e := c.runCircuit(t, sh, nil)
		if e == nil {
			continue
		}
		if e.Acc.Never { // an empty list has no accepting run
			c.count("shapes without accepting run", 1)
			continue
		}
		ev := e.eval(c)
		found := false
		why := "no accepting run is forced to verify a signature"
		where := e.Run.Name
		for _, m := range e.Acc.Must {
			if m.Kind != "ecdsa" {
				continue
			}
			where = e.In.where(m.Site)
			x, y := ev.val(m.Nodes[0]).konst(), ev.val(m.Nodes[1]).konst()
			if x == nil || y == nil || x.Cmp(bigFrom(issuerX)) != 0 || y.Cmp(bigFrom(issuerY)) != 0 {
				why = "the signature is verified under another key than the issuer's constant key"
				continue
			}
			if m.Nodes[2].H != Leaf("in:KycHash", false).H {
				why = "the verified message is not the circuit's KycHash"
				continue
			}
			sig := e.In.summary(e.Run.St, &Agg{E: []Val{Leaf("in:Signature.R", false), Leaf("in:Signature.S", false)}}, 0)
			if m.Nodes[3].H != sig.H {
				why = "the verified signature is not the circuit's Signature (R, S)"
				continue
			}
			if m.Nodes[4].H != e.In.summary(e.Run.St, OpaqueS("curveparams", "[Secp256k1Fp]"), 0).H {
				why = "the signature is verified with other curve parameters than secp256k1"
				continue
			}
			found = true
		}
		c.ob(found, "signature", where, "%s", why)
		for _, l := range unbound(e, ev) {
			c.ob(false, l+" not bound to the signed hash", e.Run.Name, "no constraint of an accepting run relates %s to the signed KYC hash: any value passes", l)
		}
	}
}

// unbound lists the personal attributes no chain of constraints relates to the
// signed hash.
func unbound(e *entry, ev *Eval) []string {
	up := map[string]string{}
	var find func(s string) string
	find = func(s string) string {
		if p, ok := up[s]; ok && p != s {
			r := find(p)
			up[s] = r
			return r
		}
		return s
	}
	for _, m := range e.Acc.Must {
		switch m.Kind {
		case "eq", "le", "neq", "boolean", "crumb", "bits", "nonzero", "byteEq", "emEq", "ecEq", "ecdsa", "hash":
		default:
			continue
		}
		first := ""
		ev.cone(m.Nodes, func(n *Node) bool {
			if n.Op != "leaf" {
				return true
			}
			if first == "" {
				first = n.S
			}
			up[find(n.S)] = find(first)
			return true
		})
	}
	var r []string
	for _, f := range []string{"Age", "Country", "Level", "Time"} {
		if find("in:Kyc."+f) != find("in:KycHash") {
			r = append(r, "Kyc."+f)
		}
	}
	return r
}

func perms(vals []int64, f func(a, b, x int64)) {
	for _, a := range vals {
		for _, b := range vals {
			for _, x := range vals {
				f(a, b, x)
			}
		}
	}
}

func checkC16(c *Ctx) {
	t := c.P.instType("Circuit")
	if t == nil {
		c.ob(false, "Circuit missing", "Circuit", "KYC circuit type not found")
		return
	}
	skip := map[string]bool{"ecdsa": true}
	sizes := []int{1, 2, 3, 4, 5, 6}
	if c.thorough() {
		sizes = []int{1, 2, 3, 4, 5, 6, 7, 8, 9}
	}
	generic := func(s string) *big.Int { return prfR("rep", c.evalSeed(), s) }
	mk := func(n int, age, lo, hi *big.Int, country *big.Int, list []*big.Int) map[string]*big.Int {
		m := map[string]*big.Int{"in:Kyc.Age": age, "in:ConditionHash.Age[0]": lo, "in:ConditionHash.Age[1]": hi, "in:Kyc.Country": country}
		for i, v := range list {
			m[fmt.Sprintf("in:ConditionHash.Country[%d]", i)] = v
		}
		return m
	}
	undecided := map[string]bool{}
	decide := func(e *entry, m map[string]*big.Int, want bool, key, desc string) {
		got, why := e.accepts(c, m, skip)
		if why != "" {
			if !undecided[key] {
				undecided[key] = true
				c.ob(false, key+" undecided", e.Run.Name, "%s: %s", desc, why)
			}
			return
		}
		msg := "is accepted and must be rejected"
		if want {
			msg = "is rejected and must be accepted"
		}
		c.ob(got == want, key, e.Run.Name, "%s %s", desc, msg)
	}
	type job struct {
		n, l, t int
		many    bool // long list: no enumeration of subsets
	}
	var jobs []job
	for _, n := range sizes {
		jobs = append(jobs, job{n, n, n, false})
	}
	for _, j := range []job{{2, 0, 0, false}, {2, 1, 1, false}, {3, 0, 4, false}, {8, 8, 8, true}, {9, 9, 9, true}, {10, 10, 10, true}, {11, 11, 11, true}, {12, 12, 12, true}, {16, 1, 1, true}, {17, 1, 1, true}, {33, 1, 1, true}, {40, 1, 1, true}, {65, 1, 1, true}, {101, 1, 1, true}, {130, 130, 130, true}, {260, 1, 1, true}} {
		jobs = append(jobs, j)
	}
	if c.thorough() {
		for i := 13; i < 100; i++ {
			jobs = append(jobs, job{i, i, i, true})
		}
		jobs = append(jobs, job{300, 1, 1, true}, job{520, 1, 1, true})
	}
	known := []int{0}
	for _, j := range jobs {
		known = append(known, j.n)
	}
	for _, n := range c.lengthsNear(1, 600, known, "Circuit.Define") {
		jobs = append(jobs, job{n, 1, 1, true})
	}
	for _, j := range jobs {
		n := j.n
		e := c.runCircuit(t, kycShape(n, j.l, j.t), nil)
		if e == nil {
			continue
		}
		if !c.ob(!e.Acc.Never, "KYC never accepts", e.Run.Name, "no run accepts with %d countries", n) {
			continue
		}
		e.succeed()
		list := make([]*big.Int, n)
		for i := range list {
			list[i] = generic(fmt.Sprint("country", i))
		}
		// order classes of the age
		rm := new(big.Int).Sub(fieldR, big1)
		vals := []*big.Int{big0, big1, big.NewInt(17), big.NewInt(18), big.NewInt(19), big.NewInt(255), big.NewInt(256), new(big.Int).Rsh(fieldR, 1), new(big.Int).Add(new(big.Int).Rsh(fieldR, 1), big1), new(big.Int).Lsh(big1, 128), rm}
		if n > 2 {
			vals = []*big.Int{big0, big.NewInt(18), big.NewInt(19), rm}
		}
		for _, lo := range vals {
			for _, hi := range vals {
				for _, x := range vals {
					want := lo.Cmp(x) <= 0 && x.Cmp(hi) <= 0
					decide(e, mk(n, x, lo, hi, list[0], list), want, "age range", fmt.Sprintf("age %v with bounds [%v, %v]", short16(x), short16(lo), short16(hi)))
				}
			}
		}
		// equality classes of the country
		lo, hi, age := big.NewInt(18), big.NewInt(60), big.NewInt(30)
		for _, zero := range []bool{false, true} {
			country := generic("the country")
			if zero {
				country = big0
			}
			if j.many {
				decide(e, mk(n, age, lo, hi, country, list), false, "country list", fmt.Sprintf("an unlisted country (zero: %v) with %d entries", zero, n))
				for i := 0; i < n; i++ {
					l := append([]*big.Int(nil), list...)
					l[i] = country
					decide(e, mk(n, age, lo, hi, country, l), true, "country list", fmt.Sprintf("a country (zero: %v) that equals entry %d of %d", zero, i, n))
					l[(i+n/2)%n] = country
					decide(e, mk(n, age, lo, hi, country, l), true, "country list", fmt.Sprintf("a country (zero: %v) that equals entries %d and %d of %d", zero, i, (i+n/2)%n, n))
					if !zero {
						l := append([]*big.Int(nil), list...)
						l[i], l[(i+n/2)%n] = big0, l[(i+1)%n]
						decide(e, mk(n, age, lo, hi, country, l), false, "country list", fmt.Sprintf("an unlisted country, entry %d of %d zero", i, n))
					}
				}
				for i := range list {
					list[i] = modR(new(big.Int).Add(country, big.NewInt(int64(i+1))))
				}
				decide(e, mk(n, age, lo, hi, country, list), false, "country list", fmt.Sprintf("an unlisted country next to %d consecutive entries", n))
				for i := range list {
					list[i] = generic(fmt.Sprint("country", i))
				}
				continue
			}
			for set := 0; set < 1<<uint(n); set++ {
				l := make([]*big.Int, n)
				for i := range l {
					l[i] = list[i]
					if set>>uint(i)&1 == 1 {
						l[i] = country
					}
				}
				decide(e, mk(n, age, lo, hi, country, l), set != 0, "country list", fmt.Sprintf("a country (zero: %v) that equals the entries %0*b of %d", zero, n, set, n))
				if set == 0 || n < 2 {
					continue
				}
			}
			// duplicates among the other entries; zero among the other entries
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if i == j {
						continue
					}
					l := append([]*big.Int(nil), list...)
					l[j] = l[i]
					decide(e, mk(n, age, lo, hi, country, l), false, "country list", fmt.Sprintf("an unlisted country, entries %d and %d of %d equal", i, j, n))
					for k := 0; k < n; k++ {
						if k != i && k != j {
							l2 := append([]*big.Int(nil), l...)
							l2[k] = country
							decide(e, mk(n, age, lo, hi, country, l2), true, "country list", fmt.Sprintf("entry %d of %d listed, entries %d and %d equal", k, n, i, j))
						}
					}
				}
				if !zero {
					l := append([]*big.Int(nil), list...)
					l[i] = big0
					decide(e, mk(n, age, lo, hi, country, l), false, "country list", fmt.Sprintf("an unlisted country, entry %d of %d zero", i, n))
					// sums and differences must not cancel
					if i > 0 {
						l := append([]*big.Int(nil), list...)
						// (c-l0)+(c-li) = 0
						l[i] = modR(new(big.Int).Sub(new(big.Int).Lsh(country, 1), l[0]))
						decide(e, mk(n, age, lo, hi, country, l), false, "country list", fmt.Sprintf("an unlisted country, differences to entries 0 and %d of %d opposite", i, n))
						// (c-l0)*(c-li) = 1 and = 2
						for _, k := range []int64{1, 2, -1} {
							d := new(big.Int).ModInverse(modR(new(big.Int).Sub(country, l[0])), fieldR)
							d.Mul(d, big.NewInt(k))
							l[i] = modR(new(big.Int).Sub(country, d))
							decide(e, mk(n, age, lo, hi, country, l), false, "country list", fmt.Sprintf("an unlisted country, product of differences to entries 0 and %d of %d is %d", i, n, k))
						}
					}
					l = append([]*big.Int(nil), list...)
					l[i] = modR(new(big.Int).Sub(country, big1))
					decide(e, mk(n, age, lo, hi, country, l), false, "country list", fmt.Sprintf("an unlisted country, one above entry %d of %d", i, n))
					l = append([]*big.Int(nil), list...)
					l[i] = modR(new(big.Int).Add(country, big1))
					decide(e, mk(n, age, lo, hi, country, l), false, "country list", fmt.Sprintf("an unlisted country, one below entry %d of %d", i, n))
				}
			}
		}
		// coincidences with inputs that have no say in this
		if !j.many || n == 33 {
			var others []string
			seen := map[string]bool{}
			for _, g := range e.Acc.All {
				for _, nd := range g.Nodes {
					if !constraintKind[g.Kind] || skip[g.Kind] {
						continue
					}
					dependsOn(nd, func(x *Node) bool {
						if x.Op == "leaf" && strings.HasPrefix(x.S, "in:") && !seen[x.S] {
							seen[x.S] = true
							if x.S != "in:Kyc.Age" && x.S != "in:Kyc.Country" && !strings.HasPrefix(x.S, "in:ConditionHash.Age") && !strings.HasPrefix(x.S, "in:ConditionHash.Country") {
								others = append(others, x.S)
							}
						}
						return false
					}, map[Hash]bool{})
				}
			}
			for _, f := range factList(e.Acc.St) {
				dependsOn(f.N, func(x *Node) bool {
					if x.Op == "leaf" && !seen[x.S] && (x.S == "in:Kyc.Level" || x.S == "in:Kyc.Time") {
						seen[x.S] = true
						others = append(others, x.S)
					}
					return false
				}, map[Hash]bool{})
			}
			country := generic("the country")
			one := append([]*big.Int(nil), list...)
			one[n-1] = country
			for k, o := range append(others, "in:Kyc.Age", "in:ConditionHash.Age[0]", "in:ConditionHash.Age[1]") {
				vals := []*big.Int{big0, big1, country, list[0], lo, hi}
				if k >= len(others) {
					vals = vals[:1]
				}
				for _, v := range vals {
					with := func(x, c *big.Int, l []*big.Int) map[string]*big.Int {
						m := mk(n, x, lo, hi, c, l)
						if k < len(others) {
							m[o] = v
						}
						return m
					}
					if k < len(others) {
						decide(e, with(age, country, list), false, "country list", fmt.Sprintf("an unlisted country with %s = %v (%d entries)", o, short16(v), n))
						decide(e, with(big.NewInt(61), country, one), false, "age range", fmt.Sprintf("age 61 with bounds [18, 60] and %s = %v", o, short16(v)))
						decide(e, with(big.NewInt(17), country, one), false, "age range", fmt.Sprintf("age 17 with bounds [18, 60] and %s = %v", o, short16(v)))
					} else if w := mk(n, age, lo, hi, country, list)[o]; n < 4 {
						// the country has the value of an age
						decide(e, mk(n, age, lo, hi, w, list), false, "country list", fmt.Sprintf("an unlisted country equal to %s (%d entries)", o, n))
						l := append([]*big.Int(nil), list...)
						l[0] = w
						decide(e, mk(n, age, lo, hi, w, l), true, "country list", fmt.Sprintf("a listed country equal to %s (%d entries)", o, n))
						decide(e, mk(n, age, lo, hi, country, l), false, "country list", fmt.Sprintf("an unlisted country next to an entry equal to %s (%d entries)", o, n))
					}
				}
			}
		}
		// values the circuit itself names
		if n <= 3 && !j.many || n == 33 {
			country := generic("the country")
			for _, v := range e.constants(skip) {
				with := append([]*big.Int(nil), list...)
				with[n-1] = v
				decide(e, mk(n, age, lo, hi, v, list), false, "country list", fmt.Sprintf("the unlisted country %s (%d entries)", short16(v), n))
				decide(e, mk(n, age, lo, hi, v, with), true, "country list", fmt.Sprintf("the listed country %s (%d entries)", short16(v), n))
				decide(e, mk(n, age, lo, hi, country, with), false, "country list", fmt.Sprintf("an unlisted country next to the entry %s (%d entries)", short16(v), n))
				up, down := modR(new(big.Int).Add(v, big1)), modR(new(big.Int).Sub(v, big1))
				for _, b := range [][2]*big.Int{{v, v}, {big0, rm}, {up, rm}, {big0, down}, {up, down}} {
					want := b[0].Cmp(v) <= 0 && v.Cmp(b[1]) <= 0
					decide(e, mk(n, v, b[0], b[1], list[0], list), want, "age range", fmt.Sprintf("age %s with bounds [%s, %s]", short16(v), short16(b[0]), short16(b[1])))
				}
				for _, b := range [][2]*big.Int{{v, v}, {v, rm}, {big0, v}} {
					x := big.NewInt(30)
					want := b[0].Cmp(x) <= 0 && x.Cmp(b[1]) <= 0
					decide(e, mk(n, x, b[0], b[1], list[0], list), want, "age range", fmt.Sprintf("age 30 with bounds [%s, %s]", short16(b[0]), short16(b[1])))
				}
			}
		}
		// level and time take part in some constraint
		if !j.many && n == sizes[len(sizes)-1] && j.l == n {
			for _, f := range []string{"Level", "Time"} {
				a, b := "in:Kyc."+f, "in:ConditionHash."+f
				uses := false
				for _, m := range e.Acc.Must {
					if !constraintKind[m.Kind] {
						continue
					}
					ha, hb := false, false
					for _, nd := range m.Nodes {
						ha = ha || dependsOn(nd, func(x *Node) bool { return x.Op == "leaf" && strings.HasPrefix(x.S, a) }, map[Hash]bool{})
						hb = hb || dependsOn(nd, func(x *Node) bool { return x.Op == "leaf" && strings.HasPrefix(x.S, b) }, map[Hash]bool{})
					}
					uses = uses || ha && hb
				}
				c.ob(uses, "Kyc."+f+" unconstrained", e.Run.Name, "no constraint relates Kyc.%s to ConditionHash.%s", f, f)
			}
		}
	}
	// with an empty list nothing is accepted
	if e := c.runCircuit(t, kycShape(0, 0, 0), nil); e != nil {
		ok := e.Acc.Never
		if !ok {
			e.succeed()
			got, why := e.accepts(c, mk(0, big.NewInt(30), big.NewInt(18), big.NewInt(60), generic("the country"), nil), skip)
			ok = !got && why == ""
		}
		c.ob(ok, "empty country list", e.Run.Name, "an empty country list is accepted")
	}
}

func short16(v *big.Int) string {
	s := v.String()
	if len(s) > 12 {
		return s[:4] + ".." + s[len(s)-4:]
	}
	return s
}

// ---------------------------------------------------------------------------
// C17, C21: group circuits
// ---------------------------------------------------------------------------

// claims checks that the claimed coordinates are pinned to a group element.
func (c *Ctx) claims(e *entry, resX, resY *Node, want *Node, key, desc string) {
	ev := e.eval(c, resX.S, resY.S)
	for i, r := range []*Node{resX, resY} {
		w := CX(want)
		nm := "x"
		if i == 1 {
			w, nm = CY(want), "y"
		}
		v, x := ev.val(r), ev.val(w)
		if v.un != nil {
			c.ob(false, key, e.Run.Name, "%s: no constraint of every accepting run determines the claimed %s coordinate", desc, nm)
			continue
		}
		c.ob(sameResidue(v, x), key, e.Run.Name, "%s: the claimed %s coordinate is not compared with that of the group operation on the operands", desc, nm)
	}
}

func leafPt(x, y string, canon bool) *Node { return Pt(Leaf(x, canon), Leaf(y, canon)) }

func checkC17(c *Ctx) {
	var ns []int
	for i := 0; i <= 40; i++ {
		ns = append(ns, i)
	}
	ns = append(ns, 64, 65, 100, 101, 128, 129, 257)
	if c.thorough() {
		for i := 41; i <= 140; i++ {
			ns = append(ns, i)
		}
		ns = append(ns, 255, 256, 512, 513)
	}
	ns = append(ns, c.lengthsNear(0, 600, ns, "MultiScalarMul.Define")...)
	if t := c.P.instType("MultiScalarMul"); c.ob(t != nil, "MultiScalarMul missing", "MultiScalarMul", "circuit type not found") {
		for _, n := range ns {
			e := c.runCircuit(t, Shape{"Points": n, "Scalars": n}, nil)
			if e == nil || !c.ob(!e.Acc.Never, "MultiScalarMul never accepts", e.Name, "no run accepts %d terms", n) {
				continue
			}
			e.succeed()
			want := Pt(Int(0), Int(0))
			for i := 0; i < n; i++ {
				p := leafPt(fmt.Sprintf("in:Points[%d].X", i), fmt.Sprintf("in:Points[%d].Y", i), false)
				g := Opaque("gmul", Leaf(fmt.Sprintf("in:Scalars[%d]", i), false), p)
				if i == 0 {
					want = g
				} else {
					want = Opaque("gadd", want, g)
				}
			}
			c.claims(e, Leaf("in:Res.X", false), Leaf("in:Res.Y", false), want, "MultiScalarMul", fmt.Sprintf("%d terms", n))
		}
		// mismatched lengths must not silently drop terms
		for _, s := range [][2]int{{2, 1}, {1, 2}, {3, 2}, {0, 1}, {1, 0}, {8, 9}, {9, 8}, {32, 33}, {33, 32}, {1, 40}, {40, 1}} {
			e := c.runCircuit(t, Shape{"Points": s[0], "Scalars": s[1]}, nil)
			if e != nil {
				c.ob(e.Acc.Never, "MultiScalarMul lengths", e.Run.Name, "%d points with %d scalars are accepted", s[0], s[1])
			}
		}
	}
	if t := c.P.instType("BN254ScalarMul"); c.ob(t != nil, "BN254ScalarMul missing", "BN254ScalarMul", "circuit type not found") {
		if e := c.runCircuit(t, Shape{}, nil); e != nil && c.ob(!e.Acc.Never, "BN254ScalarMul never accepts", e.Name, "no run accepts") {
			e.succeed()
			want := Opaque("gmul", Leaf("in:Scalar", true), leafPt("in:Point[0]", "in:Point[1]", true))
			c.claims(e, Leaf("in:Res[0]", true), Leaf("in:Res[1]", true), want, "BN254ScalarMul", "scalar multiplication")
		}
	}
	if t := c.P.instType("BN254Add"); c.ob(t != nil, "BN254Add missing", "BN254Add", "circuit type not found") {
		if e := c.runCircuit(t, Shape{}, nil); e != nil && c.ob(!e.Acc.Never, "BN254Add never accepts", e.Name, "no run accepts") {
			e.succeed()
			want := Opaque("gadd", leafPt("in:Point1[0]", "in:Point1[1]", true), leafPt("in:Point2[0]", "in:Point2[1]", true))
			c.claims(e, Leaf("in:ExpectedRes[0]", true), Leaf("in:ExpectedRes[1]", true), want, "BN254Add", "point addition")
		}
	}
}

func checkC21(c *Ctx) {
	if t := c.P.instType("BN256MsmCircuit"); c.ob(t != nil, "BN256MsmCircuit missing", "BN256MsmCircuit", "circuit type not found") {
		if e := c.runCircuit(t, Shape{}, nil); e != nil && c.ob(!e.Acc.Never, "BN256MsmCircuit never accepts", e.Name, "no run accepts") {
			e.succeed()
			want := Opaque("gmul", Leaf("par:Scalar", false), leafPt("par:G1Point.X", "par:G1Point.Y", false))
			c.claims(e, Leaf("par:Res.X", false), Leaf("par:Res.Y", false), want, "BN256MsmCircuit", "scalar multiplication")
			c.noMutation(e, "operands")
		}
	}
	if t := c.P.instType("BN256AddCircuit"); c.ob(t != nil, "BN256AddCircuit missing", "BN256AddCircuit", "circuit type not found") {
		if e := c.runCircuit(t, Shape{}, nil); e != nil && c.ob(!e.Acc.Never, "BN256AddCircuit never accepts", e.Name, "no run accepts") {
			e.succeed()
			want := Opaque("gadd", leafPt("par:G10Point.X", "par:G10Point.Y", false), leafPt("par:G11Point.X", "par:G11Point.Y", false))
			c.claims(e, Leaf("par:Res.X", false), Leaf("par:Res.Y", false), want, "BN256AddCircuit", "point addition")
			c.noMutation(e, "operands")
		}
	}
}

// ---------------------------------------------------------------------------
// C18
// ---------------------------------------------------------------------------

func (c *Ctx) pairingGadget(e *entry, desc string, ps, qs []*Node) {
	if !c.ob(!e.Acc.Never, e.Name+" never accepts", e.Name, "%s: no run accepts", desc) {
		return
	}
	var ev *Event
	for _, m := range e.Acc.Must {
		if m.Kind == "pairing" {
			if ev != nil {
				c.ob(false, e.Name+" pairing checks", e.In.where(m.Site), "%s: the operands are spread over several pairing checks", desc)
			}
			ev = m
		}
	}
	if !c.ob(ev != nil, e.Name+" pairing check", e.Run.Name, "%s: no pairing check is enforced by every accepting run", desc) {
		return
	}
	where := e.In.where(ev.Site)
	ok := len(ev.Nodes) == 3*len(ps)
	c.ob(ok, e.Name+" operand pairs", where, "%s: the pairing check has %d operand pairs instead of %d", desc, len(ev.Nodes)/3, len(ps))
	if ok {
		used := make([]bool, len(ps))
		for i := range ps {
			hit := false
			for k := 0; k < len(ev.Nodes) && !hit; k += 3 {
				g := Pt(ev.Nodes[k], ev.Nodes[k+1])
				if !used[k/3] && g.H == ps[i].H && ev.Nodes[k+2].H == qs[i].H {
					used[k/3] = true
					hit = true
				}
			}
			c.ob(hit, e.Name+" operand pairs", where, "%s: G1 operand %d is not paired with G2 operand %d", desc, i, i)
		}
	}
	for _, g := range e.Acc.All {
		if g.Kind == "fallible" {
			v, ok := e.In.condVal(g.St, g.Nodes[0])
			c.ob(ok && !v, e.Name+" ignores "+g.S, e.In.where(g.Site), "%s: %s may fail in an accepting run", desc, g.S)
		}
	}
}

func checkC18(c *Ctx) {
	t := c.P.instType("BN256PairingCircuit")
	if !c.ob(t != nil, "BN256PairingCircuit missing", "BN256PairingCircuit", "circuit type not found") {
		return
	}
	operands := func(e *entry, g1, g2 []Val) (ps, qs []*Node) {
		st := e.Run.St
		for i := range g1 {
			ps = append(ps, e.In.affPoint(st, g1[i]))
			qs = append(qs, e.In.num(st, g2[i]))
		}
		return
	}
	var g1, g2 []Val
	e := c.runCircuit(t, Shape{}, func(in *Interp, st *State, recv *Ptr) {
		a := recv.O.Init.(*Agg)
		g1, g2 = a.E[0].(*Agg).E, a.E[1].(*Agg).E
	})
	if e != nil {
		if len(g1) == len(g2) && !e.Acc.Never {
			ps, qs := operands(e, g1, g2)
			c.pairingGadget(e, "pairing circuit", ps, qs)
		} else {
			c.ob(false, "BN256PairingCircuit never accepts", e.Name, "no run accepts")
		}
	}
	pairs := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33}
	pairs = append(pairs, c.lengthsNear(1, 130, pairs, "VerifyBN256Pairing")...)
	for _, n := range pairs {
		n := n
		var a, b []Val
		e := c.gadgetRun("VerifyBN256Pairing", func(in *Interp, f *ssa.Function) []Val {
			sg := f.Signature
			if sg.Params().Len() != 3 || typeKey(sg.Params().At(0).Type()) != tAPI {
				return nil
			}
			x := in.input(sg.Params().At(1).Type(), "P", Shape{"P": n})
			y := in.input(sg.Params().At(2).Type(), "Q", Shape{"Q": n})
			sx, ok1 := x.(*Slice)
			sy, ok2 := y.(*Slice)
			if !ok1 || !ok2 {
				return nil
			}
			a, b = sx.O.Init.(*Agg).E, sy.O.Init.(*Agg).E
			return []Val{apiVal, x, y}
		}, true)
		if e != nil {
			if e.Acc.Never {
				c.ob(false, e.Name+" never accepts", e.Name, "%d pairs: no run accepts", n)
				continue
			}
			ps, qs := operands(e, a, b)
			c.pairingGadget(e, fmt.Sprintf("%d pairs", n), ps, qs)
		}
	}
	// operands that do not pair up
	for _, l := range [][2]int{{2, 1}, {1, 2}, {3, 2}, {2, 3}, {1, 0}, {0, 1}, {5, 2}, {16, 17}} {
		l := l
		e := c.gadgetRun("VerifyBN256Pairing", func(in *Interp, f *ssa.Function) []Val {
			sg := f.Signature
			if sg.Params().Len() != 3 || typeKey(sg.Params().At(0).Type()) != tAPI {
				return nil
			}
			return []Val{apiVal, in.input(sg.Params().At(1).Type(), "P", Shape{"P": l[0]}), in.input(sg.Params().At(2).Type(), "Q", Shape{"Q": l[1]})}
		}, true)
		if e != nil {
			c.ob(e.Acc.Never, "pairing lengths", e.Name, "%d G1 with %d G2 operands are accepted", l[0], l[1])
		}
	}
	c.fillHelpers(t)
}

func (c *Ctx) fillHelpers(t types.Type) {
	if f, isPtr := c.P.method(t, "FillVerifyCircuitsG1"); f != nil && isPtr && f.Signature.Params().Len() == 4 {
		in, init, ok := c.interp()
		if !ok {
			return
		}
		st0 := init.fork()
		o := in.newObj(t, "circuit", in.zeroVal(t))
		args := []Val{&Ptr{O: o}}
		names := []string{"x1", "y1", "x2", "y2"}
		for i, n := range names {
			args = append(args, in.input(f.Signature.Params().At(i).Type(), n, Shape{}))
		}
		r := in.runFunc(st0, f, args)
		c.stats(in)
		if c.ob(r.Why == "", "FillVerifyCircuitsG1 undecided", r.Name, "cannot be analysed: %s", r.Why) {
			acc := in.accept(r, false)
			e := &entry{Name: "FillVerifyCircuitsG1", In: in, Init: init, Run: r, Acc: acc}
			if c.ob(!acc.Never, "FillVerifyCircuitsG1 never returns", r.Name, "never returns") {
				ev := e.eval(c)
				a, _ := in.load(acc.St, &Ptr{O: o}).(*Agg)
				var pts []Val
				if a != nil && len(a.E) == 2 {
					if g, ok := a.E[0].(*Agg); ok {
						pts = g.E
					}
				}
				if c.ob(len(pts) == 2, "FillVerifyCircuitsG1 points", r.Name, "does not set both G1 operands") {
					onc := map[string]bool{}
					for _, f := range factList(acc.St) {
						if f.N.Op == "oncurve" && f.V {
							onc[ev.val(f.N.Args[0]).key()+"#"+ev.val(f.N.Args[1]).key()] = true
						}
					}
					for i := 0; i < 2; i++ {
						var n *Node
						why := in.protect(func() { n = in.affPoint(acc.St, in.resolve(acc.St, pts[i])) })
						if !c.ob(why == "" && n != nil, fmt.Sprintf("FillVerifyCircuitsG1 point %d", i), r.Name, "G1 operand %d is not determined: %s", i, why) {
							continue
						}
						x, y := Leaf("in:"+names[2*i], true), Leaf("in:"+names[2*i+1], true)
						vx, vy := ev.val(x), ev.val(y)
						c.ob(ev.val(CX(n)).eq(vx) && ev.val(CY(n)).eq(vy), fmt.Sprintf("FillVerifyCircuitsG1 point %d", i), r.Name, "G1 operand %d is not the given point (%s, %s)", i, names[2*i], names[2*i+1])
						c.ob(onc[vx.key()+"#"+vy.key()], fmt.Sprintf("FillVerifyCircuitsG1 on curve %d", i), r.Name, "returns without the given point (%s, %s) being verified to be on the curve", names[2*i], names[2*i+1])
					}
				}
				for _, g := range acc.All {
					if g.Kind == "fallible" {
						v, ok := in.condVal(g.St, g.Nodes[0])
						c.ob(ok && !v, "FillVerifyCircuitsG1: "+g.S, in.where(g.Site), "returns although %s may have failed", g.S)
					}
				}
			}
		}
	} else {
		c.count("fill helpers not present", 1)
	}
	if f, isPtr := c.P.method(t, "FillVerifyCircuitsG2"); f != nil && isPtr && f.Signature.Params().Len() == 0 {
		in, init, ok := c.interp()
		if !ok {
			return
		}
		o := in.newObj(t, "circuit", in.zeroVal(t))
		r := in.runFunc(init, f, []Val{&Ptr{O: o}})
		c.stats(in)
		if c.ob(r.Why == "", "FillVerifyCircuitsG2 undecided", r.Name, "cannot be analysed: %s", r.Why) {
			acc := in.accept(r, false)
			e := &entry{Name: "FillVerifyCircuitsG2", In: in, Init: init, Run: r, Acc: acc}
			if c.ob(!acc.Never, "FillVerifyCircuitsG2 never returns", r.Name, "never returns") {
				ev := e.eval(c)
				a, _ := in.load(acc.St, &Ptr{O: o}).(*Agg)
				var pts []Val
				if a != nil && len(a.E) == 2 {
					if g, ok := a.E[1].(*Agg); ok {
						pts = g.E
					}
				}
				if c.ob(len(pts) == 2, "FillVerifyCircuitsG2 points", r.Name, "does not set both G2 operands") {
					for i, want := range []string{"s", "-1"} {
						var n *Node
						why := in.protect(func() { n = in.num(acc.St, in.resolve(acc.St, pts[i])) })
						ok := why == "" && n != nil && ev.g2Name(n) == want
						c.ob(ok, fmt.Sprintf("FillVerifyCircuitsG2 point %d", i), r.Name, "G2 operand %d is not the verifying key's fixed point %s", i, map[string]string{"s": "[s]G2", "-1": "-G2"}[want])
					}
				}
			}
		}
	}
	if f := c.P.fn("GetVerifyCircuitsG2Jac"); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 2 {
		in, init, ok := c.interp()
		if !ok {
			return
		}
		r := in.runFunc(init, f, nil)
		c.stats(in)
		if c.ob(r.Why == "", "GetVerifyCircuitsG2Jac undecided", r.Name, "cannot be analysed: %s", r.Why) && c.ob(r.St != nil, "GetVerifyCircuitsG2Jac never returns", r.Name, "never returns") {
			a, _ := r.Ret.(*Agg)
			if c.ob(a != nil && len(a.E) == 2, "GetVerifyCircuitsG2Jac result", r.Name, "does not return two points") {
				for i, want := range [][4]string{g2S, g2N} {
					fl := flatNodes(a.E[i])
					ok := len(fl) == 6
					for k := 0; ok && k < 6; k++ {
						w := big1
						if k < 4 {
							w = bigFrom(want[k])
						} else if k == 5 {
							w = big0
						}
						if !fl[k].isInt() || fl[k].K.Cmp(w) != 0 {
							ok = false
						}
					}
					c.ob(ok, fmt.Sprintf("GetVerifyCircuitsG2Jac point %d", i), r.Name, "point %d is not the verifying key's fixed point", i)
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------
// C19, C20
// ---------------------------------------------------------------------------

// helperVars runs a helper on n symbolic field variables.
func (c *Ctx) helperVars(name string, n int, more ...Val) *entry {
	return c.gadgetRun(name, func(in *Interp, f *ssa.Function) []Val {
		if !apiThenVars(f, n+len(more)) {
			return nil
		}
		as := []Val{apiVal}
		for i := 0; i < n; i++ {
			as = append(as, in.input(f.Signature.Params().At(i+1).Type(), string(rune('a'+i)), Shape{}))
		}
		for _, m := range more {
			if nd, ok := m.(*Node); ok {
				o := in.newObj(in.bigPtrTc.(*types.Pointer).Elem(), "input constant", nd)
				o.Shared = "input constant"
				as = append(as, &Iface{T: in.bigPtrTc, V: &Ptr{O: o}})
				continue
			}
			as = append(as, m)
		}
		return as
	}, false)
}

func (c *Ctx) helperValue(e *entry, want *Node, desc string) {
	if e == nil {
		return
	}
	if !c.ob(!e.Acc.Never, e.Name+" never returns", e.Name, "%s never returns", desc) {
		return
	}
	e.succeed()
	var n *Node
	why := e.In.protect(func() { n = e.In.toNode(e.Acc.St, e.In.resolve(e.Acc.St, e.Run.Ret)) })
	if !c.ob(why == "" && n != nil, e.Name, e.Name, "%s: result not determined: %s", desc, why) {
		return
	}
	ev := e.eval(c)
	v, w := ev.val(n), ev.val(want)
	if v.un != nil {
		c.ob(false, e.Name, e.Name, "%s: the result is the unconstrained %s", desc, describe(v.un))
		return
	}
	c.ob(sameResidue(v, w), e.Name, e.Name, "%s: the result differs from the field operation", desc)
	c.noMutation(e, "operands")
	// every reduction in the run is pinned
	for _, u := range e.In.Hints {
		for i, l := range u.Out {
			used := dependsOn(n, func(x *Node) bool { return x.H == l.H }, map[Hash]bool{})
			c.ob(!used || ev.resolved(l), e.Name+" unconstrained", e.In.where(u.Site), "%s: output %d of hint %s is not constrained", desc, i, u.Name)
		}
	}
}

func checkC19(c *Ctx) {
	a, b := Leaf("in:a", true), Leaf("in:b", true)
	c.helperValue(c.helperVars("fr_add", 2), FAdd(a, b), "fr_add(a, b)")
	c.helperValue(c.helperVars("fr_sub", 2), FSub(a, b), "fr_sub(a, b)")
	c.helperValue(c.helperVars("fr_mul", 2), FMul(a, b), "fr_mul(a, b)")
	c.helperValue(c.helperVars("fr_mul_neg", 2), FNeg(FMul(a, b)), "fr_mul_neg(a, b)")
	c.helperValue(c.helperVars("fr_neg", 1), FNeg(a), "fr_neg(a)")
	c.helperValue(c.helperVars("mod", 1), a, "mod(a)")
	// special operand values: zero, one, equal operands
	for _, k := range []int64{0, 1, 2, -1} {
		kn := IntB(modR(big.NewInt(k)))
		c.helperValue(c.helperVars("fr_add", 1, kn), FAdd(a, kn), fmt.Sprintf("fr_add(a, %d)", k))
		c.helperValue(c.helperVars("fr_sub", 1, kn), FSub(a, kn), fmt.Sprintf("fr_sub(a, %d)", k))
		c.helperValue(c.helperVars("fr_mul", 1, kn), FMul(a, kn), fmt.Sprintf("fr_mul(a, %d)", k))
		c.helperValue(c.helperVars("fr_mul_neg", 1, kn), FNeg(FMul(a, kn)), fmt.Sprintf("fr_mul_neg(a, %d)", k))
		c.helperValue(c.helperVars("fr_neg", 0, kn), FNeg(kn), fmt.Sprintf("fr_neg(%d)", k))
	}
	pows := []int64{}
	for i := int64(1); i <= 40; i++ {
		pows = append(pows, i)
	}
	pows = append(pows, 63, 64, 65, 127, 128, 255, 256, 1000, 65537, 1<<23-1, 1<<23, 1<<23+1)
	if c.thorough() {
		for i := int64(41); i <= 300; i++ {
			pows = append(pows, i)
		}
		pows = append(pows, 1<<16, 1<<20, 1<<28, 1<<32+1)
	}
	for _, p := range pows {
		if e := c.helperVars("fr_pow", 1, Int(p)); e != nil {
			c.helperValue(e, fpow(a, big.NewInt(p)), fmt.Sprintf("fr_pow(a, %d)", p))
		}
	}
	// division: pinned to the quotient
	if e := c.gadgetRun("fr_div", func(in *Interp, f *ssa.Function) []Val {
		if !apiThenVars(f, 3) {
			return nil
		}
		as := []Val{apiVal}
		for i := 0; i < 3; i++ {
			as = append(as, in.input(f.Signature.Params().At(i+1).Type(), string(rune('a'+i)), Shape{}))
		}
		return as
	}, false); e != nil && c.ob(!e.Acc.Never, "fr_div never returns", "fr_div", "never returns") {
		e.succeed()
		var n *Node
		why := e.In.protect(func() { n = e.In.toNode(e.Acc.St, e.In.resolve(e.Acc.St, e.Run.Ret)) })
		if c.ob(why == "" && n != nil, "fr_div", "fr_div", "result not determined: %s", why) {
			ev := e.eval(c, "in:c")
			q := ev.val(FMul(a, FInv(b)))
			v := ev.val(n)
			c.ob(v.un == nil && sameResidue(v, q), "fr_div", "fr_div", "the result of fr_div(a, b, aux) is not constrained to the quotient a/b")
			v = ev.val(Leaf("in:c", true))
			c.ob(v.un == nil && sameResidue(v, q), "fr_div aux", "fr_div", "fr_div(a, b, aux) does not constrain aux to a/b")
			c.noMutation(e, "operands")
		}
	}
	if f := c.P.fn("fr_from_string"); f != nil && len(paramTypes(f)) == 1 {
		for _, s := range []string{"0", "1", "2", "255", "256", "00", "01", "010", "0017", "0000000000000000000000000000000000000000000000000000000000000000000000000000000000000123", "10573525131658455000365299935369648652552518565632155338390913030155084554858", new(big.Int).Sub(fieldR, big1).String()} {
			s := s
			e := c.gadgetRun("fr_from_string", func(in *Interp, f *ssa.Function) []Val { return []Val{Str(s)} }, false)
			c.helperValue(e, IntB(bigFrom(s)), "fr_from_string("+trunc(s, 12)+")")
		}
	}
}

// around adds the given constants and their neighbours to the values.
func around(vals, consts []*big.Int) []*big.Int {
	seen := map[string]bool{}
	var out []*big.Int
	put := func(v *big.Int) {
		v = modR(v)
		if !seen[v.String()] {
			seen[v.String()] = true
			out = append(out, v)
		}
	}
	for _, v := range vals {
		put(v)
	}
	for _, v := range consts {
		if len(out) < 60 {
			put(new(big.Int).Sub(v, big1))
			put(v)
			put(new(big.Int).Add(v, big1))
		}
	}
	return out
}

func checkC20(c *Ctx) {
	rm := new(big.Int).Sub(fieldR, big1)
	half := new(big.Int).Rsh(fieldR, 1)
	vals := []*big.Int{big0, big1, big.NewInt(2), big.NewInt(255), big.NewInt(256), new(big.Int).Lsh(big1, 64), half, new(big.Int).Add(half, big1), new(big.Int).Lsh(big1, 253), new(big.Int).Sub(rm, big1), rm}
	if c.thorough() {
		for k := uint(3); k < 253; k += 7 {
			p := new(big.Int).Lsh(big1, k)
			vals = append(vals, p, new(big.Int).Sub(p, big1))
		}
	}
	run := func(name string, n int) *entry {
		return c.gadgetRun(name, func(in *Interp, f *ssa.Function) []Val {
			if !apiThenVars(f, n) {
				return nil
			}
			as := []Val{apiVal}
			for i := 0; i < n; i++ {
				as = append(as, in.input(f.Signature.Params().At(i+1).Type(), string(rune('a'+i)), Shape{}))
			}
			return as
		}, true)
	}
	bad := map[string]bool{}
	judge := func(e *entry, m map[string]*big.Int, want bool, desc string) {
		got, why := e.accepts(c, m, nil)
		if why != "" {
			if !bad[e.Name] {
				bad[e.Name] = true
				c.ob(false, e.Name+" undecided", e.Name, "%s: %s", desc, why)
			}
			return
		}
		msg := "is accepted and must be rejected"
		if want {
			msg = "is rejected and must be accepted"
		}
		c.ob(got == want, e.Name, e.Name, "%s %s", desc, msg)
	}
	if e := run("VerifyRangeCheck", 3); e != nil && c.ob(!e.Acc.Never, "VerifyRangeCheck never accepts", e.Name, "never accepts") {
		e.succeed()
		vals := around(vals, e.constants(nil))
		for _, x := range vals {
			for _, lo := range vals {
				for _, hi := range vals {
					judge(e, map[string]*big.Int{"in:a": x, "in:b": lo, "in:c": hi}, lo.Cmp(x) <= 0 && x.Cmp(hi) <= 0, fmt.Sprintf("value %s with bounds [%s, %s]", short16(x), short16(lo), short16(hi)))
				}
			}
		}
	}
	if e := run("VerifyNotZero", 1); e != nil && c.ob(!e.Acc.Never, "VerifyNotZero never accepts", e.Name, "never accepts") {
		e.succeed()
		for _, x := range around(vals, e.constants(nil)) {
			judge(e, map[string]*big.Int{"in:a": x}, x.Sign() != 0, "value "+short16(x))
		}
	}
}

// ---------------------------------------------------------------------------
// C25
// ---------------------------------------------------------------------------

func checkC25(c *Ctx) {
	max := 40
	if c.thorough() {
		max = 100
	}
	var counts []int
	for n := 1; n <= max; n++ {
		counts = append(counts, n)
	}
	for _, n := range append(counts, c.lengthsNear(1, 2100, counts, "PackUInt8Variables")...) {
		n := n
		e := c.gadgetRun("PackUInt8Variables", func(in *Interp, f *ssa.Function) []Val {
			p := paramTypes(f)
			if len(p) != 2 || p[0] != tAPI || !f.Signature.Variadic() {
				return nil
			}
			return []Val{apiVal, in.input(f.Signature.Params().At(1).Type(), "b", Shape{"b": n})}
		}, false)
		if e == nil {
			continue
		}
		want := Int(0)
		for i := 0; i < n; i++ {
			want = FAdd(FMul(want, Int(256)), Leaf(fmt.Sprintf("in:b[%d]", i), true))
		}
		c.helperValue(e, want, fmt.Sprintf("PackUInt8Variables of %d bytes", n))
	}
	// decoding of a printed point
	if f := c.P.fn("extractAndConvert"); c.ob(f != nil, "extractAndConvert missing", "extractAndConvert", "function not found") {
		run := func(s *Node) *entry {
			return c.gadgetRun("extractAndConvert", func(in *Interp, f *ssa.Function) []Val { return []Val{s} }, true)
		}
		coord := func(e *entry, i int) *Node {
			a, ok := e.Run.Ret.(*Agg)
			if !ok || len(a.E) < 2 {
				return nil
			}
			n, _ := e.In.resolve(e.Acc.St, a.E[i]).(*Node)
			return n
		}
		x, y := Leaf("in:x", true), Leaf("in:y", true)
		tmpl := StrCat(StrCat(StrCat(Str("bn256.G1("), mkNode("hex64", nil, "", x)), StrCat(Str(", "), mkNode("hex64", nil, "", y))), Str(")"))
		if e := run(tmpl); e != nil && c.ob(!e.Acc.Never, "printed point rejected", "extractAndConvert", "a printed point is not decoded") {
			got := []*Node{coord(e, 0), coord(e, 1)}
			for i, l := range []*Node{x, y} {
				c.ob(got[i] != nil && got[i].Op == "dec" && got[i].Args[0].H == l.H, fmt.Sprintf("coordinate %d", i), "extractAndConvert", "coordinate %d of a printed point is not decoded to its decimal text (got %v)", i, got[i])
			}
			// total: decoding must succeed for every pair of coordinates
			for _, f := range factList(e.Acc.St) {
				c.ob(!f.N.In, "printed point conditionally rejected", "extractAndConvert", "decoding succeeds only if %s is %v", f.N, f.V)
			}
		}
		hex := func(v *big.Int, n int) string { return fmt.Sprintf("%0*x", n, v) }
		small := []*big.Int{big0, big1, big.NewInt(255), big.NewInt(256), new(big.Int).Lsh(big1, 64), new(big.Int).Lsh(big1, 128), new(big.Int).Lsh(big1, 248), new(big.Int).Sub(fieldP, big1), new(big.Int).Rsh(fieldP, 1), bigFrom("1234567890123456789012345678901234567890")}
		for i, v := range small {
			for k, w := range small {
				if !c.thorough() && (i+k)%3 != 0 {
					continue
				}
				s := fmt.Sprintf("bn256.G1(%s, %s)", hex(v, 64), hex(w, 64))
				if e := run(Str(s)); e != nil && c.ob(!e.Acc.Never, "printed point rejected", "extractAndConvert", "%s is not decoded", s) {
					a, b := coord(e, 0), coord(e, 1)
					c.ob(a != nil && a.isStr() && a.strVal() == v.String(), "coordinate 0", "extractAndConvert", "x coordinate of %s", s)
					c.ob(b != nil && b.isStr() && b.strVal() == w.String(), "coordinate 1", "extractAndConvert", "y coordinate of %s", s)
				}
			}
		}
		for _, s := range []string{"", "bn256.G1", "bn256.G1()", "bn256.G1(,)", "bn256.G1(12)", "bn256.G1(12, )", "bn256.G1(, 12)", "bn256.G1(1g, 12)", "bn256.G1(12, 1g)", "bn256.G1(123, 1234)", "bn256.G1(1234, 123)", "bn256.G2(12, 34)", "G1(12, 34)", "12, 34", "bn256.G1(12; 34)", "bn256.G1(-12, 34)", "bn256.G1(12, -34)", "bn256.G1(12 34)", "bn256.G1(0x, 0y)", "bn256.G1(12, 34", "(12, 34)", "bn256xG1(12, 34)", "bn256.G1(_1, 23)", "bn256.G1(zz, zz)", "bn256.G1(0x1, 0x1)"} {
			if e := run(Str(s)); e != nil {
				c.ob(e.Acc.Never, "malformed text accepted", "extractAndConvert", "the malformed text %q is decoded", s)
			}
		}
		if e := run(Leaf("par:text", false)); e != nil && !e.Acc.Never {
			for _, g := range e.Acc.All {
				if g.Kind == "fallible" {
					v, ok := e.In.condVal(g.St, g.Nodes[0])
					c.ob(ok && !v, "failure of "+g.S+" ignored", e.In.where(g.Site), "extractAndConvert succeeds although %s may have failed", g.S)
				}
			}
		}
	}
	if f := c.P.fn("hexToDecimalString"); f != nil && len(paramTypes(f)) == 1 && f.Signature.Results().Len() == 2 {
		run := func(s *Node) (*entry, *Node) {
			e := c.gadgetRun("hexToDecimalString", func(in *Interp, f *ssa.Function) []Val { return []Val{s} }, true)
			if e == nil || e.Acc.Never {
				return e, nil
			}
			a, ok := e.Run.Ret.(*Agg)
			if !ok || len(a.E) < 2 {
				return e, nil
			}
			n, _ := e.In.resolve(e.Acc.St, a.E[0]).(*Node)
			return e, n
		}
		x := Leaf("in:x", true)
		for _, p := range []string{"", "0x"} {
			s := mkNode("hex64", nil, "", x)
			var in *Node = s
			if p != "" {
				in = StrCat(Str(p), s)
			}
			if e, n := run(in); e != nil && c.ob(!e.Acc.Never, "hex rejected", "hexToDecimalString", "64 hex digits are not decoded") {
				c.ob(n != nil && n.Op == "dec" && n.Args[0].H == x.H, "hex value", "hexToDecimalString", "64 hex digits (prefix %q) are not decoded to their big-endian value (got %v)", p, n)
			}
		}
		good := map[string]string{"00": "0", "01": "1", "0x01": "1", "ff": "255", "FF": "255", "0100": "256", "0x0100": "256", "00ff": "255", "ff00": "65280", "123456789abcdef0": "1311768467463790320", "0xfFfF": "65535",
			"010000000000000000000000000000000000": "87112285931760246646623899502532662132736", "0000000000000000000000000000000000000001": "1"}
		for s, w := range good {
			if e, n := run(Str(s)); e != nil && c.ob(!e.Acc.Never, "hex rejected", "hexToDecimalString", "%q is not decoded", s) {
				c.ob(n != nil && n.isStr() && n.strVal() == w, "hex value", "hexToDecimalString", "%q is not decoded to %s", s, w)
			}
		}
		// more digits than a coordinate has: the value or a rejection
		for _, n := range []int{66, 68, 96, 126, 128, 130, 256} {
			for k, v := range []*big.Int{big1, big.NewInt(0xabcdef), new(big.Int).Sub(new(big.Int).Lsh(big1, uint(4*n)), big.NewInt(3))} {
				s := fmt.Sprintf("%0*x", n, v)
				if k == 1 {
					s = "0x" + s
				}
				if e, r := run(Str(s)); e != nil && !e.Acc.Never {
					c.ob(r != nil && r.isStr() && r.strVal() == v.String(), "hex value", "hexToDecimalString", "a text of %d hex digits is not decoded to its big-endian value", n)
				}
			}
		}
		for _, s := range []string{"0", "1", "0x1", "abc", "0xabc", "zz", "0xzz", "1g", "g1", "-1", " 12", "12 ", "0x0x12", "+1", "1.", "12\n", "0X12", "x1", "ff_ff"} {
			if e, _ := run(Str(s)); e != nil {
				c.ob(e.Acc.Never, "malformed hex accepted", "hexToDecimalString", "the malformed text %q is decoded", s)
			}
		}
		if e, _ := run(Leaf("par:text", false)); e != nil && !e.Acc.Never {
			for _, g := range e.Acc.All {
				if g.Kind == "fallible" {
					v, ok := e.In.condVal(g.St, g.Nodes[0])
					c.ob(ok && !v, "failure of "+g.S+" ignored", e.In.where(g.Site), "hexToDecimalString succeeds although %s may have failed", g.S)
				}
			}
		}
	}
}
