//go:build bignum_hbls

package bls

import (
	"math/big"

	hbls "github.com/herumi/bls-eth-go-binary/bls"
)

const vbackend = "hbls"
const vhasG = true

func vget(x *Fr) string { return new(big.Int).SetBytes((*hbls.Fr)(x).Serialize()).Text(16) }
func vset(x *Fr, h string) {
	if err := (*hbls.Fr)(x).SetString(h, 16); err != nil {
		panic("verif-harness: " + err.Error())
	}
}
func vg1(p *G1Point) string { return hx((*hbls.G1)(p).Serialize()) }
func vg2(p *G2Point) string { return hx((*hbls.G2)(p).Serialize()) }

var vgen1 hbls.G1
var vgen2 hbls.G2
var vgenok bool

func vgens() {
	if vgenok {
		return
	}
	vgenok = true
	if err := vgen1.Deserialize(vunhex("97f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb")); err != nil {
		panic("verif-harness: generator")
	}
	if err := vgen2.Deserialize(vunhex("93e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8")); err != nil {
		panic("verif-harness: generator")
	}
}
func vsetg1(p *G1Point, h string) {
	vgens()
	var f hbls.Fr
	f.SetString(h, 16)
	hbls.G1Mul((*hbls.G1)(p), &vgen1, &f)
}
func vsetg2(p *G2Point, h string) {
	vgens()
	var f hbls.Fr
	f.SetString(h, 16)
	hbls.G2Mul((*hbls.G2)(p), &vgen2, &f)
}
