package polyring

import "github.com/DyCAPSTeam/DyCAPS/internal/bls"

func frs(x any) []bls.Fr {
	r := []bls.Fr{}
	for _, h := range vstrs(x) {
		var f bls.Fr
		vset(&f, h)
		r = append(r, f)
	}
	return r
}
func hfrs(x []bls.Fr) []string {
	r := []string{}
	for i := range x {
		r = append(r, vget(&x[i]))
	}
	return r
}

func runInterp(s *vscen) {
	vemit(vev{"ev": "hdr", "backend": vbackend})
	for _, q := range s.P["calls"].([]any) {
		m := q.(map[string]any)
		e := vev{"ev": "call"}
		for k, v := range m {
			e[k] = v
		}
		msg := vtry(func() {
			switch m["op"].(string) {
			case "interp":
				x, y := frs(m["x"]), frs(m["y"])
				e["r"] = hfrs(LagrangeInterpolate(int(m["deg"].(float64)), x, y))
				e["xa"] = hfrs(x)
				e["ya"] = hfrs(y)
			case "rand":
				r := [][]string{}
				for i := 0; i < 3; i++ {
					r = append(r, hfrs(NewRandPoly(int(m["deg"].(float64)))))
				}
				e["r"] = r
			default:
				panic("verif-harness: op")
			}
		})
		if msg != "" {
			e["ev"] = "panic"
			e["msg"] = msg
		}
		vemit(e)
	}
}

func init() { vkinds["interp"] = runInterp }
