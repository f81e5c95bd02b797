//go:build !bignum_pure && !bignum_hol256

package bls

import (
	"bytes"
	"math/big"
	"math/rand"
	"strings"
)

type vgregs struct {
	g  [nG]G1Point
	h  [nH]G2Point
	gv []G1Point
}

func vglobalsG(e vev) {
	e["hasg"] = true
	e["g1"], e["z1"], e["z1b"] = vg1(&GenG1), vg1(&ZeroG1), vg1(&ZERO_G1)
	e["g2"], e["z2"] = vg2(&GenG2), vg2(&ZeroG2)
}

func (g *vgregs) load(q map[string]any, e vev) {
	e["ge"], e["he"], e["gve"] = vstrs(q["g"]), vstrs(q["h"]), vstrs(q["gv"])
	for i, h := range vstrs(q["g"]) {
		vsetg1(&g.g[i], h)
	}
	for i, h := range vstrs(q["h"]) {
		vsetg2(&g.h[i], h)
	}
	hs := vstrs(q["gv"])
	g.gv = make([]G1Point, len(hs))
	for i, h := range hs {
		vsetg1(&g.gv[i], h)
	}
}

func (g *vgregs) dump(e vev) {
	x := []string{}
	for i := range g.g {
		x = append(x, vg1(&g.g[i]))
	}
	e["g"] = x
	y := []string{}
	for i := range g.h {
		y = append(y, vg2(&g.h[i]))
	}
	e["h"] = y
	z := []string{}
	for i := range g.gv {
		z = append(z, vg1(&g.gv[i]))
	}
	e["gv"] = z
}

var vq, _ = new(big.Int).SetString("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16)

// mutated gives the encoding of the register xs[0], altered in the way xs[1] with parameter xs[2].
func (g *vgregs) mutated(in *vins) string {
	var enc string
	if strings.HasSuffix(in.op, "G1") {
		enc = vg1(&g.g[in.xs[0]%nG])
	} else {
		enc = vg2(&g.h[in.xs[0]%nH])
	}
	b := vunhex(enc)
	k := in.xs[2]
	rng := rand.New(rand.NewSource(int64(k)))
	addq := func(part []byte) {
		x := new(big.Int).SetBytes(part)
		fl := part[0] & 0xe0
		x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 381), big.NewInt(1)))
		x.Add(x, vq)
		if x.BitLen() <= 381 {
			x.FillBytes(part)
			part[0] |= fl
		}
	}
	switch in.xs[1] {
	case 0: // unaltered
	case 1: // one bit
		b[(k/8)%len(b)] ^= 1 << uint(k%8)
	case 2: // a flag bit
		b[0] ^= []byte{0x80, 0x40, 0x20, 0xc0, 0xa0, 0x60, 0xe0}[k%7]
	case 3:
		b = b[:len(b)-1-k%len(b)]
	case 4:
		b = append(b, make([]byte, 1+k%50)...)
	case 5: // infinity, and nearly
		b = make([]byte, len(b))
		b[0] = []byte{0xc0, 0x40, 0xe0, 0x80, 0xa0, 0xd0, 0xc1, 0xc0}[k%8]
		if k%8 == 7 {
			if (k>>3)%2 == 0 {
				b[len(b)-1] = byte(1 << uint((k>>4)%8))
			} else {
				b[1+k%(len(b)-1)] = byte(1 << uint((k>>8)%8))
			}
		}
	case 6: // same x, not reduced
		addq(b[:48])
	case 7:
		addq(b[len(b)-48:])
		if len(b) == 48 {
			b[0] |= 0x80
		}
	case 8: // random x: off the curve, or on it but outside the group
		rng.Read(b)
		b[0] = 0x80 | b[0]&0x20 | b[0]%0x19
	case 9: // x close to the modulus
		x := new(big.Int).Sub(vq, big.NewInt(int64(k%8)-3))
		x.FillBytes(b[:48])
		b[0] |= 0x80
	case 10: // small x
		b = make([]byte, len(b))
		b[0] = 0x80
		b[len(b)-1] = byte(k % 32)
		if k%2 == 0 {
			b[0] |= 0x20
		}
	}
	t := hx(b)
	if strings.HasPrefix(in.op, "Unmarshal") {
		switch in.xs[1] {
		case 11:
			t = t[:len(t)-1]
		case 12:
			t = t[:k%len(t)] + "g" + t[k%len(t)+1:]
		case 13:
			t = "0x" + t
		case 14:
			t = ""
		}
	}
	return t
}

func (g *vgregs) exec(r *vregs, in *vins, e vev) bool {
	d, a, b := in.d, in.a, in.b
	G, H := &g.g, &g.h
	switch in.op {
	case "FromCompressedG1", "FromCompressedG2", "UnmarshalTextG1", "UnmarshalTextG2":
		if len(in.xs) > 0 {
			in.x = g.mutated(in)
			e["x"] = in.x
		}
	}
	switch in.op {
	case "AddG1":
		AddG1(&G[d], &G[a], &G[b])
	case "SubG1":
		SubG1(&G[d], &G[a], &G[b])
	case "MulG1":
		MulG1(&G[d], &G[a], &r.f[b])
	case "CopyG1":
		CopyG1(&G[d], &G[a])
	case "ClearG1":
		ClearG1(&G[d])
	case "NegG1":
		NegG1(&G[d])
	case "EqualG1":
		e["r"] = EqualG1(&G[a], &G[b])
	case "AddG2":
		AddG2(&H[d], &H[a], &H[b])
	case "SubG2":
		SubG2(&H[d], &H[a], &H[b])
	case "MulG2":
		MulG2(&H[d], &H[a], &r.f[b])
	case "CopyG2":
		CopyG2(&H[d], &H[a])
	case "ClearG2":
		ClearG2(&H[d])
	case "NegG2":
		NegG2(&H[d])
	case "EqualG2":
		e["r"] = EqualG2(&H[a], &H[b])
	case "LinCombG1":
		e["r"] = vg1(LinCombG1(g.gv[:d], r.v[a][:d]))
	case "PairingsVerify":
		e["xs"] = in.xs
		e["r"] = PairingsVerify(&G[in.xs[0]], &H[in.xs[1]], &G[in.xs[2]], &H[in.xs[3]])
	case "ToCompressedG1":
		e["r"] = hx(ToCompressedG1(&G[a]))
	case "ToCompressedG2":
		e["r"] = hx(ToCompressedG2(&H[a]))
	case "FromCompressedG1":
		in := vunhex(in.x)
		keep := append([]byte{}, in...)
		p, err := FromCompressedG1(in)
		e["err"] = err != nil
		e["keep"] = bytes.Equal(in, keep)
		if err == nil {
			G[d] = *p
		}
	case "FromCompressedG2":
		in := vunhex(in.x)
		keep := append([]byte{}, in...)
		p, err := FromCompressedG2(in)
		e["err"] = err != nil
		e["keep"] = bytes.Equal(in, keep)
		if err == nil {
			H[d] = *p
		}
	case "MarshalTextG1":
		t, err := G[a].MarshalText()
		e["err"] = err != nil
		e["r"] = string(t)
	case "MarshalTextG2":
		t, err := H[a].MarshalText()
		e["err"] = err != nil
		e["r"] = string(t)
	case "UnmarshalTextG1":
		e["err"] = G[d].UnmarshalText([]byte(in.x)) != nil
	case "UnmarshalTextG2":
		e["err"] = H[d].UnmarshalText([]byte(in.x)) != nil
	case "UnmarshalNil":
		var p *G1Point
		var q *G2Point
		e["err"] = p.UnmarshalText([]byte(in.x)) != nil && q.UnmarshalText([]byte(in.x)) != nil
	case "StrG1":
		e["r"] = StrG1(&G[a])
		e["same"] = StrG1(&G[a]) == (&G[a]).String()
		e["xs"] = strings.Fields(StrG1(&G[a]))
	case "StrG2":
		e["r"] = StrG2(&H[a])
		e["same"] = StrG2(&H[a]) == (&H[a]).String()
	default:
		return false
	}
	return true
}
