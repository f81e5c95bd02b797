//go:build bignum_pure || bignum_hol256

package bls

type vgregs struct{}

func (g *vgregs) load(q map[string]any, e vev)               {}
func (g *vgregs) dump(e vev)                                 {}
func (g *vgregs) exec(r *vregs, in *vins, e vev) bool        { return false }
func vglobalsG(e vev)                                        { e["hasg"] = false }
