package polycommit

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
)

// Executes single calls of the package on given inputs and records inputs and results.

func frs(x any) []bls.Fr {
	r := []bls.Fr{}
	for _, h := range vstrs(x) {
		var f bls.Fr
		vset(&f, h)
		r = append(r, f)
	}
	return r
}
func hfrs(x []bls.Fr) []string {
	r := []string{}
	for i := range x {
		r = append(r, vget(&x[i]))
	}
	return r
}
func fr1(h any) (f bls.Fr) { vset(&f, h.(string)); return }
func u64s(x any) []uint64 {
	r := []uint64{}
	for _, v := range vints(x) {
		r = append(r, uint64(v))
	}
	return r
}

// samples: "" stands for a missing one
func ptrs(x any) []*bls.Fr {
	r := []*bls.Fr{}
	for _, h := range vstrs(x) {
		if h == "" {
			r = append(r, nil)
			continue
		}
		f := fr1(h)
		r = append(r, &f)
	}
	return r
}
func hptrs(x []*bls.Fr) []string {
	r := []string{}
	for _, p := range x {
		if p == nil {
			r = append(r, "")
		} else {
			r = append(r, vget(p))
		}
	}
	return r
}

type call struct {
	in map[string]any
	e  vev
}

func (c *call) num(k string) int {
	if v, ok := c.in[k].(float64); ok {
		return int(v)
	}
	return 0
}
func (c *call) flag(k string) bool { v, _ := c.in[k].(bool); return v }

var vsettings = map[int]*FFTSettings{}

func fset(w int) *FFTSettings {
	if vsettings[w] == nil {
		vsettings[w] = NewFFTSettings(uint8(w))
	}
	return vsettings[w]
}

func (c *call) do(op string) bool {
	e := c.e
	fs := fset(c.num("w"))
	switch op {
	case "settings":
		e["width"] = fs.MaxWidth
		e["root"] = vget(fs.RootOfUnity)
		e["exp"] = hfrs(fs.ExpandedRootsOfUnity)
		e["rev"] = hfrs(fs.ReverseRootsOfUnity)
	case "fft":
		v := frs(c.in["x"])
		r, err := fs.FFT(v, c.flag("inv"))
		e["err"] = err != nil
		e["r"] = hfrs(r)
		e["xa"] = hfrs(v)
	case "fftip":
		v := frs(c.in["x"])
		out := make([]bls.Fr, len(v))
		for i := range out { // arbitrary contents
			bls.AsFr(&out[i], uint64(i+7))
		}
		err := fs.InplaceFFT(v, out, c.flag("inv"))
		e["err"] = err != nil
		e["r"] = hfrs(out)
		e["xa"] = hfrs(v)
	case "das":
		v := frs(c.in["x"])
		fs.DASFFTExtension(v)
		e["r"] = hfrs(v)
	case "rev":
		v := frs(c.in["x"])
		reverseBitOrderFr(v)
		e["r"] = hfrs(v)
	case "revptr":
		v := ptrs(c.in["x"])
		reverseBitOrderFrPtr(v)
		e["r"] = hptrs(v)
	case "bits":
		bi, rb := []int{}, [][]int{}
		for _, p := range c.in["x"].([]any) {
			q := vints(p)
			x := uint32(q[0])<<16 | uint32(q[1])
			bi = append(bi, int(bitIndex(x)))
			rb = append(rb, []int{int(reverseBits(x) >> 16), int(reverseBits(x) & 0xffff)})
		}
		e["bi"] = bi
		e["rb"] = rb
	case "revlim":
		n := uint32(c.num("n"))
		r := []int{}
		for i := uint32(0); i < n; i++ {
			r = append(r, int(reverseBitsLimited(n, i)))
		}
		e["r"] = r
	case "shift":
		v := frs(c.in["x"])
		fs.ShiftPoly(v)
		e["r"] = hfrs(v)
		fs.UnshiftPoly(v)
		e["back"] = hfrs(v)
	case "zero":
		ix := u64s(c.in["ix"])
		ev, po := fs.ZeroPolyViaMultiplication(ix, uint64(c.num("n")))
		e["eval"] = hfrs(ev)
		e["poly"] = hfrs(po)
	case "zpoly":
		po := fs._zPoly(u64s(c.in["ix"]), fs.MaxWidth/uint64(c.num("n")))
		e["poly"] = hfrs(po)
	case "rec":
		s := ptrs(c.in["x"])
		r, err := fs.RecoverPolyFromSamples(s, fs.ZeroPolyViaMultiplication)
		e["err"] = err != nil
		e["r"] = hfrs(r)
		e["xa"] = hptrs(s)
	case "erec":
		s := ptrs(c.in["x"])
		r, err := fs.ErasureCodeRecover(s)
		e["err"] = err != nil
		e["r"] = hfrs(r)
		e["xa"] = hptrs(s)
	case "div":
		a, b := frs(c.in["x"]), frs(c.in["y"])
		q := vdiv(a, b)
		e["r"] = hfrs(q)
		e["xa"] = hfrs(a)
	default:
		return false
	}
	return true
}

func runPoly(s *vscen) {
	vemit(vev{"ev": "hdr", "backend": vbackend})
	for _, x := range s.P["calls"].([]any) {
		m := x.(map[string]any)
		c := &call{in: m, e: vev{"ev": "call", "err": false}}
		for k, v := range m {
			c.e[k] = v
		}
		op := m["op"].(string)
		msg := vtry(func() {
			if !c.do(op) && !c.doG(op) {
				panic("verif-harness: unknown op " + op)
			}
		})
		if len(msg) > 20 && msg[7:20] == "verif-harness" {
			panic(msg)
		}
		if msg != "" {
			e := vev{"ev": "panic", "msg": msg}
			for k, v := range m {
				e[k] = v
			}
			vemit(e)
			continue
		}
		vemit(c.e)
	}
}

func init() { vkinds["poly"] = runPoly }
