package utils

func w32(x any) uint32 { p := vints(x); return uint32(p[0])<<16 | uint32(p[1]) }
func hl(x uint32) []int { return []int{int(x >> 16), int(x & 0xffff)} }
func bs(x any) []byte {
	r := []byte{}
	for _, v := range vints(x) {
		r = append(r, byte(v))
	}
	return r
}
func sb(x []byte) []int {
	r := []int{}
	for _, v := range x {
		r = append(r, int(v))
	}
	return r
}

func runUtils(s *vscen) {
	vemit(vev{"ev": "hdr"})
	for _, q := range s.P["calls"].([]any) {
		m := q.(map[string]any)
		e := vev{"ev": "call"}
		for k, v := range m {
			e[k] = v
		}
		msg := vtry(func() {
			switch m["op"].(string) {
			case "u32enc":
				e["r"] = sb(Uint32ToBytes(w32(m["x"])))
			case "intenc":
				e["r"] = sb(IntToBytes(int(w32(m["x"]))))
			case "u32dec":
				b := bs(m["x"])
				e["r"] = hl(BytesToUint32(b))
				e["xa"] = sb(b)
			case "intdec":
				b := bs(m["x"])
				r := BytesToInt(b)
				e["r"] = hl(uint32(r))
				e["neg"] = r < 0 || int64(r) > 0xffffffff
				e["xa"] = sb(b)
			case "delzero":
				b := bs(m["x"])
				e["r"] = sb(DeleteZero(b))
				e["xa"] = sb(b)
			case "dellen":
				b := bs(m["x"])
				e["r"] = sb(DeleteZeroWithLen(b, int(m["n"].(float64))))
				e["xa"] = sb(b)
			default:
				panic("verif-harness: op")
			}
		})
		if msg != "" {
			e["ev"] = "panic"
			e["msg"] = msg
		}
		vemit(e)
	}
}

func init() { vkinds["utils"] = runUtils }
