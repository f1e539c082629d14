package main

import (
	"fmt"
	"math/big"
)

// ---------------------------------------------------------------------------
// Specification of the verified halo2 statement (SHPLONK multi-opening), as a
// value graph over the proof elements. Written from the protocol, independent
// of the code: domain, columns, gates and openings of this verifying key.
// ---------------------------------------------------------------------------

const (
	nProof  = 104
	nPoints = 24
	logN    = 23
)

var (
	omega     = bigFrom("8374374965308410102411073611984011876711565317741801500439755773472076597347")
	deltaH    = new(big.Int).Exp(big.NewInt(7), new(big.Int).Lsh(big1, 28), fieldR)
	vkDigest  = bigFrom("8025805240938309707562879759498205008153592202559235423490485577859843831056")
	instBaseX = bigFrom("13534086339230182803823178260078315691269243572458753455438283544709107378988")
	instBaseY = bigFrom("9053077977614827188269653632534212501565186534180282672519599630892718179094")
	vkComXY   = map[int][2]string{ // claimed evaluation -> fixed / permutation commitment
		58: {"14938380413158645463746726818663993049411440720262319458512240364576743949172", "612698444000497655149316219443956538920213548045757527589465098726453410217"},
		59: {"1602442613231540506062434465510844080484629772386483161935289973450738328411", "8632200768118172237953570969696965645934378330803102067059028669153881824687"},
		60: {"7302810833326292183657845455542786945088085612690237136517265240120492143686", "12265020872042776853325862543934338413628778238311540007481750568301839403357"},
		61: {"15714457855017303792793529634633875645702708944223275612000098593544931343989", "15257349176403661815620892222123615612513039066905856829097618251943836626674"},
		62: {"6588502116763777047662055789514359601800459134197048587585162560883404012798", "11714447983073049655392713639630119352182916653299642193786804830268642535746"},
		63: {"9125246457194062079192598275178850075343678690105278369118112655547944406336", "294075161521838319967190643963225379772318561607769296285010787743709643736"},
		64: {"21619461572256759847460179508152708219554585855297084173283796582786124555803", "4345524860916738024637605707697977254152854672257192099656709386158566955621"},
		65: {"17258678549324502889708499924818360135272319280666991023610380123832805047961", "5334989116053542497869652553010890811115308152577125353854023583257775982812"},
		66: {"5308159394739710035241344480420553410175387652800783904684585252715061491340", "3019131547261358901530790449779825851153791728474681515444029058543922522335"},
		67: {"15488644080723619432119612346004359086916581306660788742559926675716559909239", "8754616038193501373921013994731307318251353370144049595366428636287857472101"},
		68: {"9621060932553241457331309181312468446375012848693562416915297961501104714797", "18774224011527979955178720803820949077824414817387957068075380161701868796982"},
		69: {"7332275780326935691999111227339181700750973508937555651107089016408829877447", "10101962784746658718602667114782992736503033294933308373536577801383886245995"},
		70: {"18180235640340843615912844522870848024440129915340282133294923228193557588624", "16150223963193906991297402627411591966306440109235686551266596870812093013098"},
		72: {"14330957265734295635487529150089503047509680887155412481838936779763595454159", "11657029790297552620042403612079612021781553164410884915460958808861335447799"},
		73: {"3217632689962165131030083420553195932069690674124201615821228288158667916559", "11279851209809827628209572028517900058696331891386803672043677236706605258017"},
		74: {"6052548824579324632823008857297151984962554125394528409163563861993455062230", "5253299219790956244634070239415866732913146545893144333850618503587190167918"},
		75: {"20134811260136067172423268982757475565512657205230154765724273546621797752349", "6892971650116630821526804754060441250258363920342589425839414580605638919318"},
		76: {"17209526517725877136177243553045588666670528061781328851527842192340596792007", "673380535462416015709313880421335139519451950072360935904307055208109203957"},
		77: {"9973741392326192617521393709476164203221054644042980686853312098867551316157", "9696890272060053851986158851707718469926088811173404342570425124396426957984"},
		78: {"14118917696035322873139367456503207319385222068825598680486765986706935215403", "18580702656451937158771044279900207779359395181895031379070145857747412641911"},
	}
	g2S = [4]string{"13560776910958896778309428450808722712362583089620853136731412215646945297830", "17006984783035916014836003241042945838018391379603479329912940809520477208052",
		"18091431719069275340788954644764755415339503689597559484185985670418402491565", "12900589361605111856143562381318004229723309245412571888359653960504992734777"}
	g2N = [4]string{"10857046999023057135944570762232829481370756359578518086990519993285655852781", "11559732032986387107991004021392285783925812861821192530917403151452391805634",
		"13392588948715843804641432497768002650278120570034223513918757245338268106653", "17805874995975841540914202342111839520379459829704422454583296818431106115052"}
)

func proofEl(i int) *Node { return Leaf(fmt.Sprintf("in:Proof[%d]", i), true) }

// transcript phases: number of proof elements absorbed before each challenge.
var phases = []struct {
	name   string
	lo, hi int
}{
	{"theta", 0, 16}, {"beta", 16, 24}, {"gamma", 24, 24}, {"y", 24, 38}, {"x", 38, 44},
	{"y'", 44, 100}, {"v", 100, 100}, {"u", 100, 102},
}

// be32 are the 32 big-endian bytes of a value.
func be32(n *Node) []*Node {
	r := make([]*Node, 32)
	for j := range r {
		r[j] = ByteOf(n, 31-j)
	}
	return r
}

// specInstance is the instance scalar and its commitment.
func specInstance(nTarget, nVerify int) (k, x, y *Node) {
	var pre []*Node
	for i := 0; i < nTarget; i++ {
		pre = append(pre, be32(Leaf(fmt.Sprintf("in:TargetInst[%d]", i), true))...)
	}
	for i := 0; i < nVerify; i++ {
		pre = append(pre, be32(Leaf(fmt.Sprintf("in:VerifyInst[%d]", i), true))...)
	}
	k = Canonize(FromBytes(hashBytes("keccakc", pre)))
	g := Opaque("gmul", k, Pt(IntB(instBaseX), IntB(instBaseY)))
	return k, CX(g), CY(g)
}

// specDigests: preimage bytes and challenges of the transcript, given the
// coordinates of the instance commitment.
func specTranscript(ix, iy *Node) (pre [][]*Node, dig, ch []*Node) {
	prev := IntB(vkDigest)
	for i, p := range phases {
		b := be32(prev)
		if i == 0 {
			b = append(b, be32(ix)...)
			b = append(b, be32(iy)...)
		}
		for k := p.lo; k < p.hi; k++ {
			b = append(b, be32(proofEl(k))...)
		}
		b = append(b, Int(0))
		d := FromBytes(hashBytes("sha256c", b))
		pre = append(pre, b)
		dig = append(dig, d)
		ch = append(ch, Canonize(d))
		prev = d
	}
	return
}

type halo2 struct {
	ch                              []*Node // theta beta gamma y x y' v u
	folded, hEval, xn               *Node
	gScalar                         *Node // scalar of the G1 generator
	terms                           []specTerm
	quot                            []specQuot
	lastP, prevP, xP, nextP, next2P *Node
	norm                            *Node
}
type specTerm struct {
	what   string
	x, y   *Node
	scalar *Node
}

// specQuot is the quotient an auxiliary value must stand for.
type specQuot struct {
	what     string
	num, den *Node
}

func fk(v *big.Int) *Node { return IntB(modR(v)) }
func omegaPow(i int64) *big.Int {
	if i < 0 {
		return new(big.Int).ModInverse(omegaPow(-i), fieldR)
	}
	return new(big.Int).Exp(omega, big.NewInt(i), fieldR)
}
func fsum(a ...*Node) *Node {
	r := a[0]
	for _, x := range a[1:] {
		r = FAdd(r, x)
	}
	return r
}
func fprod(a ...*Node) *Node {
	r := a[0]
	for _, x := range a[1:] {
		r = FMul(r, x)
	}
	return r
}
func fpowi(a *Node, k int) *Node {
	r := Int(1)
	for i := 0; i < k; i++ {
		r = FMul(r, a)
	}
	return r
}

// newHalo2 writes the verifier's algebra for given challenges and instance
// commitment coordinates.
func newHalo2(ch []*Node, ix, iy *Node) *halo2 {
	h := &halo2{ch: ch}
	th, be, ga, y, x, Y, v, u := ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7]
	P := proofEl
	a := func(i int) *Node { return P(i) }
	nBig := new(big.Int).Lsh(big1, logN)
	h.xn = fpow(x, nBig)
	xn1 := FSub(h.xn, Int(1))
	ninv := new(big.Int).ModInverse(nBig, fieldR)
	lag := func(i int64) *Node {
		w := omegaPow(i)
		c := modR(new(big.Int).Mul(w, ninv))
		return fprod(fk(c), xn1, FInv(FSub(x, fk(w))))
	}
	l0, lLast := lag(0), lag(-6)
	lBlind := fsum(lag(-1), lag(-2), lag(-3), lag(-4), lag(-5))
	active := FSub(Int(1), FAdd(lLast, lBlind))
	sh := func(k uint) *Node { return fk(new(big.Int).Lsh(big1, k)) }
	sel := func(i int64) *Node { return FSub(a(70), Int(i)) }

	var ex []*Node
	add := func(n *Node) { ex = append(ex, n) }
	// gates
	add(fsum(a(58), FMul(a(50), a(59)), FMul(a(45), a(60)), FMul(a(46), a(61)), FMul(a(47), a(62)), FMul(a(48), a(63)),
		FMul(a(49), a(64)), fprod(a(45), a(46), a(65)), fprod(a(47), a(48), a(66))))
	add(fprod(FSub(a(51), a(52)), a(70), sel(2), sel(3)))
	d := FSub(a(51), a(53))
	add(fprod(FSub(FSub(FSub(d, FMul(sh(18), a(54))), FMul(sh(36), a(52))), FMul(sh(54), a(55))), a(70), sel(1), sel(3)))
	add(fprod(FSub(FSub(FSub(FSub(FSub(d, FMul(sh(18), a(54))), FMul(sh(36), a(56))), FMul(sh(54), a(52))), FMul(sh(72), a(55))), FMul(sh(90), a(57))), a(70), sel(1), sel(2)))
	// permutation argument
	add(FMul(l0, FSub(Int(1), a(79))))
	add(FMul(lLast, FSub(FMul(a(88), a(88)), a(88))))
	add(FMul(l0, FSub(a(82), a(81))))
	add(FMul(l0, FSub(a(85), a(84))))
	add(FMul(l0, FSub(a(88), a(87))))
	type chunk struct {
		z, zn int
		cols  [][2]int
	}
	di := 0
	for _, c := range []chunk{{79, 80, [][2]int{{45, 72}, {46, 73}}}, {82, 83, [][2]int{{47, 74}, {48, 75}}},
		{85, 86, [][2]int{{49, 76}, {51, 77}}}, {88, 89, [][2]int{{44, 78}}}} {
		l, r := a(c.zn), a(c.z)
		for _, cs := range c.cols {
			l = FMul(l, fsum(a(cs[0]), FMul(be, a(cs[1])), ga))
			dl := fk(new(big.Int).Exp(deltaH, big.NewInt(int64(di)), fieldR))
			r = FMul(r, fsum(a(cs[0]), fprod(be, dl, x), ga))
			di++
		}
		add(FMul(active, FSub(l, r)))
	}
	// lookups
	for _, lk := range [][7]int{{90, 91, 92, 93, 94, 67, 52}, {95, 96, 97, 98, 99, 18, 53}} {
		z, zn, ap, apPrev, sp := a(lk[0]), a(lk[1]), a(lk[2]), a(lk[3]), a(lk[4])
		var tag *Node
		if lk[5] == 67 {
			tag = a(67)
		} else {
			tag = Int(18)
		}
		add(FMul(l0, FSub(Int(1), z)))
		add(FMul(lLast, FSub(FMul(z, z), z)))
		l := fprod(zn, FAdd(ap, be), FAdd(sp, ga))
		in := fsum(FMul(th, tag), a(lk[6]), be)
		tb := fsum(FMul(th, a(68)), a(69), ga)
		add(FMul(active, FSub(l, fprod(z, in, tb))))
		add(FMul(l0, FSub(ap, sp)))
		add(fprod(active, FSub(ap, sp), FSub(ap, apPrev)))
	}
	f := ex[0]
	for _, e := range ex[1:] {
		f = FAdd(FMul(f, y), e)
	}
	h.folded = f
	for _, i := range []int64{0, -6, -5, -4, -3, -2, -1} {
		w := omegaPow(i)
		h.quot = append(h.quot, specQuot{fmt.Sprintf("Lagrange basis value at rotation %d", i), FMul(fk(modR(new(big.Int).Mul(w, ninv))), xn1), FSub(x, fk(w))})
	}
	h.quot = append(h.quot, specQuot{"quotient evaluation", f, xn1})
	h.hEval = FMul(f, FInv(xn1))

	// opening points
	rot := func(i int64) *Node { return FMul(fk(omegaPow(i)), x) }
	last, prev, next, next2 := rot(-6), rot(-1), rot(1), rot(2)
	h.lastP, h.prevP, h.xP, h.nextP, h.next2P = last, prev, x, next, next2
	T := []*Node{last, prev, x, next, next2}
	norm := FInv(FMul(FSub(u, prev), FSub(u, next2)))
	h.norm = norm
	one := Int(1)
	for i, p := range T {
		for j, q := range T {
			if i != j {
				h.quot = append(h.quot, specQuot{fmt.Sprintf("inverse difference of opening points %d and %d", i, j), one, FSub(p, q)})
			}
		}
	}
	h.quot = append(h.quot, specQuot{"opening normalisation", one, FMul(FSub(u, prev), FSub(u, next2))})

	type poly struct {
		what  string
		px    *Node
		py    *Node
		evals []*Node
		split []specTerm // instead of a single commitment
	}
	pt := func(what string, i int, ev ...int) poly {
		p := poly{what: what, px: P(i), py: P(i + 1)}
		for _, e := range ev {
			p.evals = append(p.evals, a(e))
		}
		return p
	}
	vk := func(e int) poly {
		c := vkComXY[e]
		return poly{what: fmt.Sprintf("verifying-key commitment of evaluation %d", e), px: IntB(bigFrom(c[0])), py: IntB(bigFrom(c[1])), evals: []*Node{a(e)}}
	}
	type set struct {
		name string
		pts  []*Node
		ps   []poly
	}
	A := set{"A", []*Node{x, next, last}, []poly{pt("permutation product 0", 24, 79, 80, 81), pt("permutation product 1", 26, 82, 83, 84), pt("permutation product 2", 28, 85, 86, 87)}}
	B := set{"B", []*Node{x, prev}, []poly{pt("lookup permuted input 0", 16, 92, 93), pt("lookup permuted input 1", 20, 97, 98)}}
	var C set
	C.name, C.pts = "C", []*Node{x}
	C.ps = append(C.ps, poly{what: "instance commitment", px: ix, py: iy, evals: []*Node{a(44)}})
	for _, e := range [][2]int{{45, 0}, {46, 2}, {47, 4}, {48, 6}, {51, 10}, {94, 18}, {99, 22}} {
		C.ps = append(C.ps, pt(fmt.Sprintf("commitment of evaluation %d", e[0]), e[1], e[0]))
	}
	for e := 58; e <= 78; e++ {
		if e != 71 {
			C.ps = append(C.ps, vk(e))
		}
	}
	x2n := FMul(h.xn, h.xn)
	C.ps = append(C.ps, poly{what: "quotient", evals: []*Node{h.hEval}, split: []specTerm{
		{"quotient piece 2", P(42), P(43), x2n}, {"quotient piece 1", P(40), P(41), h.xn}, {"quotient piece 0", P(38), P(39), Int(1)}}})
	C.ps = append(C.ps, pt("random polynomial", 36, 71))
	D := set{"D", []*Node{x, next}, []poly{pt("advice 49/50", 8, 49, 50), pt("permutation product 3", 30, 88, 89), pt("lookup product 0", 32, 90, 91), pt("lookup product 1", 34, 95, 96)}}
	E := set{"E", []*Node{x, next, next2}, []poly{pt("advice 52/55/57", 12, 52, 55, 57), pt("advice 53/54/56", 14, 53, 54, 56)}}

	sets := []set{E, D, C, B, A} // powers of v: 0..4
	g := Int(0)
	for vi, s := range sets {
		scale := FMul(fpowi(v, vi), norm)
		for _, t := range T {
			in := false
			for _, p := range s.pts {
				if p.H == t.H {
					in = true
				}
			}
			if !in {
				scale = FMul(scale, FSub(u, t))
			}
		}
		for pi, p := range s.ps {
			w := FMul(scale, fpowi(Y, len(s.ps)-1-pi))
			// Lagrange interpolation at u
			r := Int(0)
			for i, e := range p.evals {
				t := e
				for j := range p.evals {
					if j != i {
						t = fprod(t, FSub(u, s.pts[j]), FInv(FSub(s.pts[i], s.pts[j])))
					}
				}
				r = FAdd(r, t)
			}
			g = FAdd(g, FMul(w, r))
			if p.split == nil {
				h.terms = append(h.terms, specTerm{p.what, p.px, p.py, w})
			}
			for _, t := range p.split {
				h.terms = append(h.terms, specTerm{t.what, t.x, t.y, FMul(w, t.scalar)})
			}
		}
	}
	h.gScalar = FNeg(g)
	h.terms = append(h.terms,
		specTerm{"first opening point", P(100), P(101), FNeg(fprod(FSub(u, last), FSub(u, x), FSub(u, next)))},
		specTerm{"last opening point", P(102), P(103), u})
	return h
}
