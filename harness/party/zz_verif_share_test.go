package party

// Dealing (Client.Share / VSSShareReceive) and handing over (Prepare / ShareReduce)
// with the real code on both sides and faulty dealers and old members in between.
// Values travel in the traces as they are on the wire, points compressed, in hex.

import (
	"encoding/hex"
	"reflect"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/polyring"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

func init() {
	vkinds["vss"] = vrunVSS
	vkinds["reduce"] = vrunReduce
	vkinds["randpoly"] = vrunRandPoly
}

func vstrs(x any) []string {
	r := []string{}
	if l, ok := x.([]any); ok {
		for _, v := range l {
			r = append(r, v.(string))
		}
	}
	return r
}
func unhx(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("verif-harness: " + err.Error())
	}
	return b
}
func vfr(h string) bls.Fr {
	var f bls.Fr
	vset(&f, h)
	return f
}
func vpt(e string) bls.G1Point {
	var p bls.G1Point
	vsetg1(&p, e)
	return p
}
func vptb(e string) []byte { p := vpt(e); return unhx(vg1(&p)) }

// vle is the wire form of a scalar.
func vle(h string) []byte {
	b := make([]byte, 32)
	s := h
	if len(s)%2 == 1 {
		s = "0" + s
	}
	v := unhx(s)
	for i := range v {
		b[len(v)-1-i] = v[i]
	}
	return b
}
func vhexs(x []bls.Fr) []string {
	r := []string{}
	for i := range x {
		r = append(r, vget(&x[i]))
	}
	return r
}
func vbhex(x [][]byte) []string {
	r := []string{}
	for _, b := range x {
		r = append(r, hx(b))
	}
	return r
}

// vval makes the bytes of a field from its description: {"e": exponent}, {"s": scalar} or {"raw": bytes}.
func vval(x any) []byte {
	m := x.(map[string]any)
	if e, ok := m["e"].(string); ok {
		return vptb(e)
	}
	if e, ok := m["s"].(string); ok {
		return vle(e)
	}
	return unhx(m["raw"].(string))
}

func vdescVSS(data []byte) vev {
	var m protobuf.VSSSend
	err := proto.Unmarshal(data, &m)
	r := vev{"ok": err == nil, "b": vbhex(m.BijList), "w": vbhex(m.WBijList), "gs": "", "haspi": m.Pi != nil, "pi": []any{}}
	if m.Pi != nil {
		r["gs"] = hx(m.Pi.Gs)
		pi := []any{}
		for _, c := range m.Pi.PiContents {
			pi = append(pi, vev{"j": c.GetJ(), "cb": hx(c.GetCBj()), "cz": hx(c.GetCZj()), "wz": hx(c.GetWZ0()), "gf": hx(c.GetGFj())})
		}
		r["pi"] = pi
	}
	return r
}

// vstate is what a member keeps of a sharing.
func vstate(p *HonestParty) vev {
	wit := []string{}
	for i := range p.witness {
		wit = append(wit, vg1(&p.witness[i]))
	}
	cb, cz, wz, gf := []string{}, []string{}, []string{}, []string{}
	for j := 1; j < len(p.Proof.PiContents); j++ {
		c := &p.Proof.PiContents[j]
		cb, cz, wz, gf = append(cb, vg1(&c.CBj)), append(cz, vg1(&c.CZj)), append(wz, vg1(&c.WZ0)), append(gf, vg1(&c.gFj))
	}
	return vev{"full": vhexs(p.fullShare), "red": vhexs(p.reducedShare), "idx": vhexs(p.witnessIndexes), "wit": wit,
		"gs": vg1(&p.Proof.Gs), "cb": cb, "cz": cz, "wz": wz, "gf": gf}
}

// vmutVSS applies one alteration to a dealing.
func vmutVSS(m *protobuf.VSSSend, op map[string]any, all [][]byte) {
	get := func(f string, j int) *[]byte {
		switch f {
		case "gs":
			return &m.Pi.Gs
		case "b":
			return &m.BijList[j]
		case "w":
			return &m.WBijList[j]
		case "cb":
			return &m.Pi.PiContents[j].CBj
		case "cz":
			return &m.Pi.PiContents[j].CZj
		case "wz":
			return &m.Pi.PiContents[j].WZ0
		case "gf":
			return &m.Pi.PiContents[j].GFj
		}
		panic("verif-harness: field " + f)
	}
	num := func(k string) int { return int(op[k].(float64)) }
	switch op["op"].(string) {
	case "set":
		*get(op["f"].(string), num("j")) = vval(op["v"])
	case "copy":
		*get(op["f"].(string), num("j")) = append([]byte{}, *get(op["g"].(string), num("k"))...)
	case "swap":
		a, b := get(op["f"].(string), num("j")), get(op["g"].(string), num("k"))
		*a, *b = *b, *a
	case "flip": // one bit of the encoding
		b := *get(op["f"].(string), num("j"))
		if len(b) > 0 {
			c := append([]byte{}, b...)
			c[num("k")%len(c)] ^= byte(1 << (num("bit") % 8))
			*get(op["f"].(string), num("j")) = c
		}
	case "private", "values", "witnesses", "public": // from the dealing of another member
		var o protobuf.VSSSend
		proto.Unmarshal(all[num("to")], &o)
		if op["op"] == "private" || op["op"] == "values" {
			m.BijList = o.BijList
		}
		if op["op"] == "private" || op["op"] == "witnesses" {
			m.WBijList = o.WBijList
		}
		if op["op"] == "public" {
			m.Pi = o.Pi
		}
	case "rot":
		r := func(l [][]byte) [][]byte { return append(append([][]byte{l[0]}, l[2:]...), l[1]) }
		switch op["f"] {
		case "b":
			m.BijList = r(m.BijList)
		case "w":
			m.WBijList = r(m.WBijList)
		default:
			l := m.Pi.PiContents
			m.Pi.PiContents = append(append([]*protobuf.PiContent{l[0]}, l[2:]...), l[1])
		}
	case "len":
		n := num("n")
		r := func(l [][]byte) [][]byte {
			for len(l) < n {
				l = append(l, l[len(l)-1])
			}
			return l[:n]
		}
		switch op["f"] {
		case "b":
			m.BijList = r(m.BijList)
		case "w":
			m.WBijList = r(m.WBijList)
		default:
			for len(m.Pi.PiContents) < n {
				m.Pi.PiContents = append(m.Pi.PiContents, &protobuf.PiContent{J: 99})
			}
			m.Pi.PiContents = m.Pi.PiContents[:n]
		}
	case "shift": // one position too early
		switch op["f"] {
		case "b":
			m.BijList = m.BijList[1:]
		case "w":
			m.WBijList = m.WBijList[1:]
		default:
			m.Pi.PiContents = m.Pi.PiContents[1:]
		}
	case "nopi":
		m.Pi = nil
	case "j":
		m.Pi.PiContents[num("j")].J = uint32(num("k"))
	default:
		panic("verif-harness: op")
	}
}

func vrunVSS(s *vscen) {
	net := newVnet(s.N, s.F, 1, s.Seed, nil)
	net.mode, net.policy = s.Mode, s.Policy
	vemit(vev{"ev": "hdr", "n": s.N, "f": s.F, "exps": s.P["exps"]})
	ct := &vtap{from: vnode{-1, 0x7fffffff}, com: 0, chans: vmkChans(s.N)}
	net.extra = append(net.extra, ct)
	var client Client
	client.HonestParty = net.mkParty(0, 0x7fffffff, ct.chans, vmkChans(s.N), nil)
	for i := uint32(0); i < s.N; i++ {
		vemit(vev{"ev": "init", "p": i, "st": vstate(net.coms[0].P[i])})
	}
	for di, dd := range s.P["deals"].([]any) {
		d := dd.(map[string]any)
		ID := []byte(d["vid"].(string))
		all := make([][]byte, s.N)
		net.onSend = func(pk *vpkt) []*vpkt {
			if pk.from.Com != -1 { // a member, not the dealer
				vemit(vev{"ev": "stray", "p": pk.from.Pid, "t": pk.m.Type})
				return nil
			}
			e := vdescVSS(pk.m.Data)
			e["ev"], e["d"], e["to"], e["t"], e["id"], e["from"] = "deal", di, pk.to.Pid, pk.m.Type, string(pk.m.Id), pk.m.Sender
			vemit(e)
			all[pk.to.Pid] = pk.m.Data
			return nil
		}
		client.SetSecret(vfr(d["secret"].(string)))
		early := d["early"] == true
		start := func() {
			for i := uint32(0); i < s.N; i++ {
				i := i
				go func() {
					net.coms[0].P[i].VSSShareReceive(ID)
					vemit(vev{"ev": "done", "p": i, "st": vstate(net.coms[0].P[i])})
				}()
			}
		}
		if early {
			start()
			net.wait()
		}
		if d["src"] == "client" {
			vemit(vev{"ev": "share", "d": di, "secret": d["secret"], "id": string(ID)})
			ret := false
			go func() { client.Share(ID); ret = true }()
			net.run()
			vemit(vev{"ev": "shared", "d": di, "ret": ret})
		} else {
			for i, x := range d["msgs"].([]any) {
				o := x.(map[string]any)
				m := &protobuf.VSSSend{Pi: &protobuf.Pi{Gs: vval(o["gs"])}}
				m.BijList, m.WBijList = [][]byte{{}}, [][]byte{{}}
				m.Pi.PiContents = []*protobuf.PiContent{{}}
				for j, y := range o["pi"].([]any) {
					c := y.(map[string]any)
					m.Pi.PiContents = append(m.Pi.PiContents, &protobuf.PiContent{J: vlabelJ(c, j), CBj: vval(c["cb"]), CZj: vval(c["cz"]), WZ0: vval(c["wz"]), GFj: vval(c["gf"])})
				}
				for _, y := range o["b"].([]any) {
					m.BijList = append(m.BijList, vval(y))
				}
				for _, y := range o["w"].([]any) {
					m.WBijList = append(m.WBijList, vval(y))
				}
				all[i] = vmar(m)
			}
		}
		muts, _ := d["muts"].(map[string]any)
		for i := uint32(0); i < s.N; i++ {
			data := all[i]
			if data == nil {
				continue
			}
			if ops, ok := muts[itoa(i)].([]any); ok {
				var m protobuf.VSSSend
				proto.Unmarshal(data, &m)
				raw := false
				for _, x := range ops {
					op := x.(map[string]any)
					switch op["op"] {
					case "data": // the whole payload
						data, raw = unhx(op["v"].(string)), true
					case "cut":
						if !raw {
							data = vmar(&m)
						}
						raw = true
						data = data[:int(op["n"].(float64))*len(data)/1000]
					case "tail":
						if !raw {
							data = vmar(&m)
						}
						raw = true
						data = append(append([]byte{}, data...), unhx(op["v"].(string))...)
					default:
						vmutVSS(&m, op, all)
					}
				}
				if !raw {
					data = vmar(&m)
				}
			}
			net.inject(vnode{-1, 0x7fffffff}, vnode{0, i}, &protobuf.Message{Type: "VSSSend", Id: ID, Sender: 0x7fffffff, Data: data})
		}
		// what other members send in the dealer's place
		fl, _ := d["foreign"].([]any)
		for _, x := range fl {
			o := x.(map[string]any)
			fn := func(k string) uint32 { return uint32(o[k].(float64)) }
			data := unhx(o["raw"].(string))
			if w, ok := o["copy"].(float64); ok && all[int(w)] != nil {
				data = all[int(w)]
			}
			net.inject(vnode{0, fn("from")}, vnode{0, fn("to")}, &protobuf.Message{Type: "VSSSend", Id: ID, Sender: fn("sender"), Data: data})
		}
		net.onDeliv = func(pk *vpkt) {
			if pk.from.Com != -1 {
				vemit(vev{"ev": "foreign", "p": pk.to.Pid})
				return
			}
			e := vdescVSS(pk.m.Data)
			e["ev"], e["p"] = "recv", pk.to.Pid
			vemit(e)
		}
		if !early {
			start()
		}
		net.run()
		vemit(vev{"ev": "quiet"})
	}
}

func itoa(i uint32) string {
	if i == 0 {
		return "0"
	}
	b := ""
	for ; i > 0; i /= 10 {
		b = string(rune('0'+i%10)) + b
	}
	return b
}

// vsetState gives an old member the sharing it would have after a completed dealing or handoff.
func vsetState(p *HonestParty, o map[string]any) {
	fr := func(x any) []bls.Fr {
		r := []bls.Fr{}
		for _, h := range vstrs(x) {
			r = append(r, vfr(h))
		}
		return r
	}
	vfield(p, "fullShare").Set(reflect.ValueOf(fr(o["full"])))
	vfield(p, "witnessIndexes").Set(reflect.ValueOf(fr(o["idx"])))
	w := []bls.G1Point{}
	for _, h := range vstrs(o["wit"]) {
		w = append(w, vpt(h))
	}
	vfield(p, "witness").Set(reflect.ValueOf(w))
	for j, h := range vstrs(o["cb"]) {
		p.Proof.PiContents[j+1].CBj = vpt(h)
	}
}

func vdescPrep(data []byte) vev {
	var m protobuf.Prepare
	err := proto.Unmarshal(data, &m)
	return vev{"ok": err == nil, "cb": vbhex(m.Commitments)}
}
func vdescRed(data []byte) vev {
	var m protobuf.ShareReduce
	err := proto.Unmarshal(data, &m)
	return vev{"ok": err == nil, "c": hx(m.C), "v": hx(m.V), "w": hx(m.W)}
}

func vrunReduce(s *vscen) {
	byz := map[vnode]bool{}
	for _, b := range s.Byz {
		byz[vnode{0, b}] = true
	}
	net := newVnet(s.N, s.F, 2, s.Seed, byz)
	net.mode, net.policy = s.Mode, s.Policy
	net.addNoise(s, nil)
	honest := []int{}
	for i := uint32(0); i < s.N; i++ {
		if !byz[vnode{0, i}] {
			honest = append(honest, int(i))
		}
	}
	vemit(vev{"ev": "hdr", "n": s.N, "f": s.F, "honest": honest, "coefs": s.P["coefs"]})
	olds := s.P["old"].([]any)
	for i := range net.coms[0].P {
		if p := net.coms[0].P[i]; p != nil {
			vsetState(p, olds[i].(map[string]any))
		}
	}
	pid, rid := []byte("prep"+s.str("id", "")), []byte("red"+s.str("id", ""))
	net.onSend = func(pk *vpkt) []*vpkt {
		e := vev{"ev": "send", "p": pk.from.Pid, "com": pk.from.Com, "tocom": pk.to.Com, "to": pk.to.Pid, "t": pk.m.Type, "id": string(pk.m.Id), "from": pk.m.Sender}
		var d vev
		if pk.m.Type == "Prepare" {
			d = vdescPrep(pk.m.Data)
		} else {
			d = vdescRed(pk.m.Data)
		}
		for k, v := range d {
			e[k] = v
		}
		vemit(e)
		return []*vpkt{pk}
	}
	byzfirst, late := s.num("byzfirst", 0) == 1, s.nums("late")
	isLate := map[int]bool{}
	for _, l := range late {
		isLate[l] = true
	}
	net.prio = func(pk *vpkt) int {
		if pk.wt != 0 {
			return pk.wt
		}
		if pk.from.Com == 0 && isLate[int(pk.from.Pid)] {
			return 3
		}
		return 2
	}
	for _, x := range s.P["byzmsgs"].([]any) {
		o := x.(map[string]any)
		var data []byte
		id := pid
		switch o["t"] {
		case "Prepare":
			if r, ok := o["raw"].(string); ok {
				data = unhx(r)
			} else {
				m := &protobuf.Prepare{Commitments: [][]byte{{}}}
				for _, c := range o["cb"].([]any) {
					m.Commitments = append(m.Commitments, vval(c))
				}
				data = vmar(m)
			}
		case "ShareReduce":
			id = rid
			if r, ok := o["raw"].(string); ok {
				data = unhx(r)
			} else {
				data = vmar(&protobuf.ShareReduce{C: vval(o["c"]), V: vval(o["v"]), W: vval(o["w"])})
			}
		}
		pk := net.inject(vnode{0, uint32(o["from"].(float64))}, vnode{1, uint32(o["to"].(float64))}, &protobuf.Message{Type: o["t"].(string), Id: id, Sender: uint32(o["sender"].(float64)), Data: data})
		pk.wt = 2
		if byzfirst {
			pk.wt = 1
		}
	}
	net.onDeliv = func(pk *vpkt) { vbump() }
	st := func(i uint32, what string) {
		p := net.coms[1].P[i]
		vemit(vev{"ev": "done", "p": i, "what": what, "st": vstate(p)})
	}
	early := s.num("early", 0) == 1
	startNew := func() {
		for i := uint32(0); i < s.N; i++ {
			i := i
			go func() {
				p := net.coms[1].P[i]
				p.PrepareReceive(pid)
				st(i, "prepare")
				p.ShareReduceReceive(rid)
				st(i, "reduce")
			}()
		}
	}
	if early {
		startNew()
		net.wait()
	}
	for i := uint32(0); i < s.N; i++ {
		if p := net.coms[0].P[i]; p != nil {
			i := i
			go func() {
				p.PrepareSend(pid)
				p.ShareReduceSend(rid)
				vemit(vev{"ev": "sent", "p": i})
			}()
		}
	}
	if !early {
		net.wait()
		startNew()
	}
	net.run()
	vemit(vev{"ev": "quiet"})
}

func vrunRandPoly(s *vscen) {
	vemit(vev{"ev": "hdr", "n": 0})
	for _, d := range s.nums("degrees") {
		vemit(vev{"ev": "poly", "d": d, "c": vhexs(polyring.NewRandPoly(d))})
	}
}

// vlabelJ is the index a row is labelled with, its position unless the scenario says otherwise.
func vlabelJ(c map[string]any, pos int) uint32 {
	if v, ok := c["j"].(float64); ok {
		return uint32(v)
	}
	return uint32(pos + 1)
}
