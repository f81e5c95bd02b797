package bls

import "math/big"

// A register machine over the package's operations: the specification (BlsTrace.tla)
// has the same registers and says what every operation does to them.

const nF, nG, nH, nV = 4, 3, 2, 2

type vregs struct {
	f [nF]Fr
	v [nV][]Fr
}

type vins struct {
	op      string
	d, a, b int
	x       string // immediate
	xs      []int
}

func vcopyFr(x *Fr) Fr { var r Fr; vset(&r, vget(x)); return r }

func (r *vregs) dump(e vev) {
	f := []string{}
	for i := range r.f {
		f = append(f, vget(&r.f[i]))
	}
	e["f"] = f
	v := [][]string{}
	for i := range r.v {
		w := []string{}
		for j := range r.v[i] {
			w = append(w, vget(&r.v[i][j]))
		}
		v = append(v, w)
	}
	e["v"] = v
}

func vglobals() vev {
	roots := []string{}
	for i := range Scale2RootOfUnity {
		roots = append(roots, vget(&Scale2RootOfUnity[i]))
	}
	e := vev{"ev": "globals", "zero": vget(&ZERO), "one": vget(&ONE), "two": vget(&TWO), "m1": vget(&MODULUS_MINUS1),
		"m1d2": vget(&MODULUS_MINUS1_DIV2), "m2": vget(&MODULUS_MINUS2), "itwo": vget(&INVERSE_TWO), "roots": roots, "modulus": ModulusStr}
	vglobalsG(e)
	return e
}

func le32(x string) (r [32]byte) {
	copy(r[:], vunhex(x))
	return
}

// fr executes a scalar operation; false if the name is not one.
func (r *vregs) fr(s *vscen, in *vins, e vev) bool {
	f := &r.f
	d, a, b := in.d, in.a, in.b
	switch in.op {
	case "AddModFr":
		AddModFr(&f[d], &f[a], &f[b])
	case "SubModFr":
		SubModFr(&f[d], &f[a], &f[b])
	case "MulModFr":
		MulModFr(&f[d], &f[a], &f[b])
	case "DivModFr":
		DivModFr(&f[d], &f[a], &f[b])
	case "InvModFr":
		InvModFr(&f[d], &f[a])
	case "CopyFr":
		CopyFr(&f[d], &f[a])
	case "AsFr":
		n, _ := new(big.Int).SetString(in.x, 16)
		AsFr(&f[d], n.Uint64())
	case "SetFr":
		SetFr(&f[d], in.x)
	case "ToFr":
		x := ToFr(in.x)
		e["r"] = vget(&x)
	case "ExpModFr":
		n, _ := new(big.Int).SetString(in.x, 16)
		ExpModFr(&f[d], &f[a], n)
		e["keep"] = n.Text(16) == in.x
	case "EqualFr":
		e["r"] = EqualFr(&f[a], &f[b])
	case "EqualZero":
		e["r"] = EqualZero(&f[a])
	case "EqualOne":
		e["r"] = EqualOne(&f[a])
	case "FrStr":
		e["r"] = FrStr(&f[a])
	case "String":
		e["r"] = (&f[a]).String()
	case "FrTo32":
		x := FrTo32(&f[a])
		e["r"] = hx(x[:])
	case "FrFrom32":
		e["r"] = FrFrom32(&f[d], le32(in.x))
	case "ValidFr":
		e["r"] = ValidFr(le32(in.x))
	case "RandomFr":
		x := RandomFr()
		vset(&f[d], vget(x))
		e["r"] = vget(x)
	case "BatchInvModFr":
		BatchInvModFr(r.v[a])
	case "EvalPolyAt":
		EvalPolyAt(&f[d], r.v[a], &f[b])
	case "EvalPolyAtUnoptimized":
		EvalPolyAtUnoptimized(&f[d], r.v[a], &f[b])
	case "LinCombFr":
		x := LinCombFr(r.v[a], r.v[b])
		e["r"] = vget(&x)
	case "PolyLinComb":
		vec := [][]Fr{}
		sc := []Fr{}
		for i, k := range in.xs {
			vec = append(vec, r.v[k%nV])
			sc = append(sc, vcopyFr(&f[i%nF]))
		}
		deg := in.d
		out, err := PolyLinComb(vec, sc, deg)
		e["err"] = err != nil
		o := []string{}
		for i := range out {
			o = append(o, vget(&out[i]))
		}
		e["r"] = o
		e["xs"] = in.xs
	case "EvaluatePolyInEvaluationForm":
		// v[a] holds evaluations on a domain of its own length, taken out of a table 2^scale times as long
		n := len(r.v[a])
		scale := in.xs[0]
		tot := n << uint(scale)
		lg := 0
		for 1<<uint(lg) < tot {
			lg++
		}
		roots := make([]Fr, tot)
		vset(&roots[0], "1")
		var w Fr
		vset(&w, vget(&Scale2RootOfUnity[lg]))
		wb, _ := new(big.Int).SetString(vget(&w), 16)
		m, _ := new(big.Int).SetString(ModulusStr, 10)
		x := big.NewInt(1)
		for i := range roots {
			vset(&roots[i], x.Text(16))
			x.Mul(x, wb).Mod(x, m)
		}
		EvaluatePolyInEvaluationForm(&f[d], r.v[a], &f[b], roots, uint8(scale))
		e["xs"] = in.xs
	case "IsPowerOfTwo":
		n, _ := new(big.Int).SetString(in.x, 16)
		e["r"] = IsPowerOfTwo(n.Uint64())
	default:
		return false
	}
	return true
}

func init() {
	vkinds["regs"] = func(s *vscen) {
		r := &vregs{}
		var g vgregs
		vemit(vev{"ev": "hdr", "backend": vbackend})
		vemit(vglobals())
		for _, raw := range s.P["prog"].([]any) {
			q := raw.(map[string]any)
			op := q["op"].(string)
			e := vev{"ev": "op", "op": op, "err": false}
			if op == "load" {
				e["ev"] = "load"
				for i, h := range vstrs(q["f"]) {
					vset(&r.f[i], h)
				}
				for i, w := range q["v"].([]any) {
					hs := vstrs(w)
					r.v[i] = make([]Fr, len(hs))
					for j, h := range hs {
						vset(&r.v[i][j], h)
					}
				}
				g.load(q, e)
				r.dump(e)
				g.dump(e)
				vemit(e)
				continue
			}
			in := &vins{op: op}
			if x, ok := q["d"].(float64); ok {
				in.d = int(x)
			}
			if x, ok := q["a"].(float64); ok {
				in.a = int(x)
			}
			if x, ok := q["b"].(float64); ok {
				in.b = int(x)
			}
			if x, ok := q["x"].(string); ok {
				in.x = x
			}
			in.xs = vints(q["xs"])
			e["d"], e["a"], e["b"] = in.d, in.a, in.b
			e["x"] = in.x
			isG := false
			m := vtry(func() {
				if !r.fr(s, in, e) {
					isG = true
					if !g.exec(r, in, e) {
						panic("verif-harness: unknown operation " + in.op)
					}
				}
			})
			if len(m) > 0 {
				if len(m) > 20 && m[:20] == "panic: verif-harness" {
					panic(m)
				}
				e["ev"] = "panic"
				e["msg"] = m
			}
			r.dump(e)
			if isG {
				g.dump(e)
			}
			vemit(e)
		}
		vemit(vglobals())
	}
}
