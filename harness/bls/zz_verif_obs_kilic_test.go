//go:build !bignum_pure && !bignum_hol256 && !bignum_hbls

package bls

import (
	"math/big"

	kbls "github.com/kilic/bls12-381"
)

const vbackend = "kilic"
const vhasG = true

// trusted observers and constructors: the arithmetic library itself, not the code under test
func vget(x *Fr) string { y := *(*kbls.Fr)(x); return new(big.Int).SetBytes(y.RedToBytes()).Text(16) }
func vset(x *Fr, h string) {
	b, _ := new(big.Int).SetString(h, 16)
	(*kbls.Fr)(x).RedFromBytes(b.Bytes())
}
func vg1(p *G1Point) string { q := *(*kbls.PointG1)(p); return hx(kbls.NewG1().ToCompressed(&q)) }
func vg2(p *G2Point) string { q := *(*kbls.PointG2)(p); return hx(kbls.NewG2().ToCompressed(&q)) }
func vsetg1(p *G1Point, h string) {
	b, _ := new(big.Int).SetString(h, 16)
	kbls.NewG1().MulScalarBig((*kbls.PointG1)(p), kbls.NewG1().One(), b)
}
func vsetg2(p *G2Point, h string) {
	b, _ := new(big.Int).SetString(h, 16)
	kbls.NewG2().MulScalarBig((*kbls.PointG2)(p), kbls.NewG2().One(), b)
}
