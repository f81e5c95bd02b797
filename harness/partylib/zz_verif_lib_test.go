package party

import (
	"bytes"
	"encoding/gob"
	"math/big"
	"os"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/drand/kyber/share"
)

func frs(x any) []bls.Fr {
	r := []bls.Fr{}
	for _, h := range vstrs(x) {
		var f bls.Fr
		vset(&f, h)
		r = append(r, f)
	}
	return r
}
func hfrs(x []bls.Fr) []string {
	r := []string{}
	for i := range x {
		r = append(r, vget(&x[i]))
	}
	return r
}
func g1s(x any) []bls.G1Point {
	r := []bls.G1Point{}
	for _, h := range vstrs(x) {
		var p bls.G1Point
		vsetg1(&p, h)
		r = append(r, p)
	}
	return r
}
func hg1s(x []bls.G1Point) []string {
	r := []string{}
	for i := range x {
		r = append(r, vg1(&x[i]))
	}
	return r
}

var vparties = map[int]*HonestParty{}

func vparty(F int) *HonestParty {
	if vparties[F] == nil {
		n := uint32(3*F + 1)
		d := make([]string, n)
		vparties[F] = NewHonestParty(0, n, uint32(F), 0, d, d, d, d, nil, nil)
	}
	return vparties[F]
}

func runInterp(s *vscen) {
	vemit(vev{"ev": "hdr", "backend": vbackend})
	for _, q := range s.P["calls"].([]any) {
		m := q.(map[string]any)
		num := func(k string) int { return int(m[k].(float64)) }
		e := vev{"ev": "call"}
		for k, v := range m {
			e[k] = v
		}
		msg := vtry(func() {
			switch m["op"].(string) {
			case "lambda":
				x := frs(m["x"])
				var at bls.Fr
				vset(&at, m["at"].(string))
				l := make([]bls.Fr, len(x))
				GetLagrangeCoefficients(uint32(len(x)-1), x, at, l)
				e["r"] = hfrs(l)
				e["xa"] = hfrs(x)
			case "table":
				p := vparty(num("f"))
				r := [][]string{}
				for i := range p.LagrangeCoefficients {
					r = append(r, hfrs(p.LagrangeCoefficients[i]))
				}
				e["r"] = r
			case "pad":
				c := frs(m["x"])
				e["r"] = hfrs(PadCoeff(c, uint64(num("n"))))
				e["xa"] = hfrs(c)
			case "samples":
				ix := []int{}
				for _, v := range m["ix"].([]any) {
					ix = append(ix, int(v.(float64)))
				}
				v := frs(m["x"])
				r := []string{}
				for _, y := range GetSamples(ix, v, uint64(num("n"))) {
					if y == nil {
						r = append(r, "")
					} else {
						r = append(r, vget(y))
					}
				}
				e["r"], e["xa"] = r, hfrs(v)
			case "scale":
				e["r"] = int(GetScaleByCommitteeSize(uint32(num("n"))))
			case "interpg":
				p := vparty(num("f"))
				l := g1s(m["y"])
				r := p.InterpolateComOrWit(uint32(num("deg")), uint32(num("at")), l)
				e["r"] = vg1(&r)
				e["ya"] = hg1s(l)
			case "interpgk":
				p := vparty(num("f"))
				l, x := g1s(m["y"]), frs(m["x"])
				r := p.InterpolateComOrWitByKnownIndexes(uint32(num("deg")), uint32(num("at")), x, l)
				e["r"] = vg1(&r)
				e["ya"] = hg1s(l)
				e["xa"] = hfrs(x)
			default:
				panic("verif-harness: op")
			}
		})
		if msg != "" {
			e["ev"] = "panic"
			e["msg"] = msg
		}
		vemit(e)
	}
}

// ---------------------------------------------------------------- threshold keys

func vkeys(e vev, sk []*share.PriShare, pk *share.PubPoly) {
	v, ix := []string{}, []int{}
	for _, s := range sk {
		b, _ := s.V.MarshalBinary()
		v = append(v, new(big.Int).SetBytes(b).Text(16))
		ix = append(ix, s.I)
	}
	_, cs := pk.Info()
	c := []string{}
	for _, p := range cs {
		b, _ := p.MarshalBinary()
		c = append(c, hx(b))
	}
	e["sk"], e["ix"], e["pk"] = v, ix, c
}

func vfile(name string) []string { // decoded independently of the code under test
	r := []string{}
	b, err := os.ReadFile(name)
	if err != nil {
		return r
	}
	var d [][]byte
	if gob.NewDecoder(bytes.NewReader(b)).Decode(&d) != nil {
		return []string{"undecodable"}
	}
	for _, x := range d {
		r = append(r, new(big.Int).SetBytes(x).Text(16))
	}
	return r
}

// a directory of the scenario's own: generation and loading use the working directory
func runKeys(s *vscen) {
	vemit(vev{"ev": "hdr"})
	old, _ := os.Getwd()
	dir, err := os.MkdirTemp(old, "keys")
	if err != nil {
		panic("verif-harness: " + err.Error())
	}
	if err := os.Chdir(dir); err != nil {
		panic("verif-harness: " + err.Error())
	}
	defer func() { os.Chdir(old); os.RemoveAll(dir) }()
	for _, q := range s.P["calls"].([]any) {
		m := q.(map[string]any)
		e := vev{"ev": "call"}
		for k, v := range m {
			e[k] = v
		}
		n, t := int(m["n"].(float64)), int(m["t"].(float64))
		msg := vtry(func() {
			switch m["op"].(string) {
			case "gen":
				sk, pk := SigKeyGen(uint32(n), uint32(t))
				vkeys(e, sk, pk)
			case "store":
				GenCoefficientsFile(n, t)
				e["f1"], e["f2"] = vfile("coefficients"), vfile("coefficients_new")
			case "load":
				sk, pk := SigKeyGenFix(uint32(n), uint32(t))
				vkeys(e, sk, pk)
			case "loadnew":
				sk, pk := SigKeyGenFix_New(uint32(n), uint32(t))
				vkeys(e, sk, pk)
			}
		})
		if msg != "" {
			e["ev"] = "panic"
			e["msg"] = msg
		}
		vemit(e)
	}
}

func init() { vkinds["interp"] = runInterp; vkinds["keys"] = runKeys }
