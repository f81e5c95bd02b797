//go:build !bignum_pure && !bignum_hol256

package polycommit

import (
	"strconv"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
)

func vdiv(a, b []bls.Fr) (r []bls.Fr) { return polyLongDiv(a, b) }

func g1s(x any) []bls.G1Point {
	r := []bls.G1Point{}
	for _, h := range vstrs(x) {
		var p bls.G1Point
		vsetg1(&p, h)
		r = append(r, p)
	}
	return r
}
func hg1s(x []bls.G1Point) []string {
	r := []string{}
	for i := range x {
		r = append(r, vg1(&x[i]))
	}
	return r
}
func hg2s(x []bls.G2Point) []string {
	r := []string{}
	for i := range x {
		r = append(r, vg2(&x[i]))
	}
	return r
}
func gp(h any) *bls.G1Point {
	var p bls.G1Point
	vsetg1(&p, h.(string))
	return &p
}

type kzgKey struct {
	w, n int
	tau  string
}

var vkzg = map[kzgKey]*KZGSettings{}

// the setup of n powers of tau (decimal), made by the code under test
func (c *call) kzg() *KZGSettings {
	k := kzgKey{c.num("w"), c.num("n"), c.in["taud"].(string)}
	if vkzg[k] == nil {
		a, b := GenerateTestingSetup(k.tau, uint64(k.n))
		vkzg[k] = NewKZGSettings(fset(k.w), a, b)
	}
	return vkzg[k]
}

func (c *call) doG(op string) bool {
	e := c.e
	switch op {
	case "fftg1":
		v := g1s(c.in["x"])
		r, err := fset(c.num("w")).FFTG1(v, c.flag("inv"))
		e["err"] = err != nil
		e["r"] = hg1s(r)
		e["xa"] = hg1s(v)
	case "revg1":
		v := g1s(c.in["x"])
		reverseBitOrderG1(v)
		e["r"] = hg1s(v)
	case "setup":
		a, b := GenerateTestingSetup(c.in["taud"].(string), uint64(c.num("n")))
		e["s1"] = hg1s(a)
		e["s2"] = hg2s(b)
	case "commit":
		ks := c.kzg()
		p := frs(c.in["x"])
		e["r"] = vg1(ks.CommitToPoly(p))
		e["r2"] = vg1(ks.CommitToPolyUnoptimized(p))
		e["xa"] = hfrs(p)
	case "commiteval":
		ks := c.kzg()
		p := frs(c.in["x"])
		l, err := ks.FFTG1(ks.SecretG1[:len(p)], true)
		if err != nil {
			panic("verif-harness: " + err.Error())
		}
		e["r"] = vg1(CommitToEvalPoly(l, p))
	case "prove":
		ks := c.kzg()
		p := frs(c.in["x"])
		e["r"] = vg1(ks.ComputeProofSingle(p, fr1(c.in["at"])))
		e["xa"] = hfrs(p)
	case "check":
		at, y := fr1(c.in["at"]), fr1(c.in["y"])
		ks := c.kzg()
		e["r"] = ks.CheckProofSingle(gp(c.in["c"]), gp(c.in["p"]), &at, &y)
	case "provecheck": // everything made by the code: poly -> commitment, value, proof -> verdict
		ks := c.kzg()
		p := frs(c.in["x"])
		at := fr1(c.in["at"])
		var y bls.Fr
		bls.EvalPolyAt(&y, p, &at)
		e["y"] = vget(&y)
		e["r"] = ks.CheckProofSingle(ks.CommitToPoly(p), ks.ComputeProofSingle(p, at), &at, &y)
	case "provemulti":
		ks := c.kzg()
		p := frs(c.in["x"])
		e["r"] = vg1(ks.ComputeProofMulti(p, vu64(c.in["at"]), uint64(c.num("m"))))
		e["xa"] = hfrs(p)
	case "checkmulti":
		ks := c.kzg()
		at := fr1(c.in["at"])
		ys := frs(c.in["ys"])
		e["r"] = ks.CheckProofMulti(gp(c.in["c"]), gp(c.in["p"]), &at, ys)
		e["xa"] = hfrs(ys)
	case "fk1", "fk1da", "fk1das":
		ks := c.kzg()
		p := frs(c.in["x"])
		n2 := c.num("n2")
		fk := NewFK20SingleSettings(ks, uint64(n2))
		for rep := 0; rep < 2; rep++ { // the settings are reused
			var r []bls.G1Point
			switch op {
			case "fk1":
				r = fk.FK20Single(p)
			case "fk1da":
				r = fk.FK20SingleDAOptimized(p)
			default:
				r = fk.DAUsingFK20(p)
			}
			e[[]string{"r", "r2"}[rep]] = hg1s(r)
		}
		e["xa"] = hfrs(p)
	case "fkm", "fkmda", "fkmdas":
		ks := c.kzg()
		p := frs(c.in["x"])
		fk := NewFK20MultiSettings(ks, uint64(c.num("n2")), uint64(c.num("l")))
		for rep := 0; rep < 2; rep++ {
			var r []bls.G1Point
			switch op {
			case "fkm":
				r = fk.FK20Multi(p)
			case "fkmda":
				r = fk.FK20MultiDAOptimized(p)
			default:
				r = fk.DAUsingFK20Multi(p)
			}
			e[[]string{"r", "r2"}[rep]] = hg1s(r)
		}
		e["xa"] = hfrs(p)
	default:
		return false
	}
	return true
}

func vu64(x any) uint64 {
	v, err := strconv.ParseUint(x.(string), 16, 64)
	if err != nil {
		panic("verif-harness: " + err.Error())
	}
	return v
}
