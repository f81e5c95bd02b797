//go:build bignum_hol256

package bls

import (
	"math/big"

	u256 "github.com/holiman/uint256"
)

const vbackend = "hol256"
const vhasG = false

func vget(x *Fr) string { return (*u256.Int)(x).ToBig().Text(16) }
func vset(x *Fr, h string) {
	b, _ := new(big.Int).SetString(h, 16)
	(*u256.Int)(x).SetFromBig(b)
}
