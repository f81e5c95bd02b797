//go:build bignum_pure || bignum_hol256

package polycommit

import "github.com/DyCAPSTeam/DyCAPS/internal/bls"

func (c *call) doG(op string) bool     { return false }
func vdiv(a, b []bls.Fr) (r []bls.Fr) { return polyLongDiv(a, b) }
