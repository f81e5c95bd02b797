//go:build bignum_pure

package bls

import (
	"math/big"
)

const vbackend = "pure"
const vhasG = false

func vget(x *Fr) string    { return (*big.Int)(x).Text(16) }
func vset(x *Fr, h string) { (*big.Int)(x).SetString(h, 16) }
