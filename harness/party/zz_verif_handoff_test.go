package party

// A dealing followed by any number of handoffs, all by the real code.  A faulty member runs
// the real code, too, but what it sends passes through rules that drop, repeat, exchange, alter
// or replace it.

import (
	"strconv"
	"strings"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

func init() { vkinds["handoff"] = vrunHandoff }

type vrule struct {
	T      string // message type; "Commit" and "NewCommit" stand for the proposals of the broadcasts
	To     map[uint32]bool
	Act    string
	F      string // field
	J      int
	V      any
	N      int
	Cols   any
	P      float64
	Handof int
}

type vhand struct {
	net   *vnet
	s     *vscen
	rules map[vnode][]*vrule
	faul  map[vnode]bool
	last  map[string]*protobuf.Message           // node+type -> last message of that type
	hist  map[string]map[int][]*protobuf.Message // node+type -> handoff -> messages
	cur   int
	mvba  map[vnode]map[int]*vrule   // handoffs in which the member only takes part in the agreement
	ins   map[vnode]map[int][][]byte // values proposed by others, by handoff
	begun map[vnode]map[int]bool
	count map[vnode]int
}

func vpiDesc(l []*protobuf.PiContent) []any {
	pi := []any{}
	for _, c := range l {
		pi = append(pi, vev{"j": c.GetJ(), "cb": hx(c.GetCBj()), "cz": hx(c.GetCZj()), "wz": hx(c.GetWZ0()), "gf": hx(c.GetGFj())})
	}
	return pi
}

// vhtype classifies a message of a handoff: its kind, the handoff and (broadcasts) the index.
func vhtype(m *protobuf.Message) (kind string, h int, idx int) {
	id := string(m.Id)
	h = -1
	cutnum := func(pre string) (string, bool) {
		if !strings.HasPrefix(id, pre) {
			return "", false
		}
		r := id[len(pre):]
		k := 0
		for k < len(r) && r[k] >= '0' && r[k] <= '9' {
			k++
		}
		if k == 0 {
			return "", false
		}
		h, _ = strconv.Atoi(r[:k])
		return r[k:], true
	}
	kind = m.Type
	for _, pre := range []string{"prep", "red", "pro"} {
		if rest, ok := cutnum(pre); ok {
			if strings.HasPrefix(rest, "_1,") || strings.HasPrefix(rest, "_2,") {
				idx, _ = strconv.Atoi(rest[3:])
				if m.Type == "RBCPropose" {
					if rest[1] == '1' {
						kind = "Commit"
					} else {
						kind = "NewCommit"
					}
				}
			}
			return
		}
	}
	return
}

func vinner(m *protobuf.Message) *protobuf.Message {
	var in protobuf.Message
	if proto.Unmarshal(m.Data, &in) != nil {
		return nil
	}
	return &in
}

func vMVBAJ(value []byte) ([]uint32, bool) {
	var in protobuf.MVBAIN
	if proto.Unmarshal(value, &in) != nil {
		return []uint32{}, false
	}
	r := append([]uint32{}, in.J...)
	return r, true
}

// vhdesc describes a message for the trace; nil when the specification does not look at it.
func vhdesc(m *protobuf.Message) vev {
	k, h, idx := vhtype(m)
	e := vev{"t": k, "h": h, "from": m.Sender}
	switch k {
	case "Prepare":
		for a, b := range vdescPrep(m.Data) {
			e[a] = b
		}
	case "ShareReduce":
		for a, b := range vdescRed(m.Data) {
			e[a] = b
		}
	case "Commit":
		e["idx"] = idx
		e["pi"], e["ok"] = []any{}, false
		if in := vinner(m); in != nil {
			var c protobuf.Commit
			if proto.Unmarshal(in.Data, &c) == nil {
				e["ok"] = true
			}
			e["pi"] = vpiDesc(c.Pi)
		}
	case "NewCommit":
		e["idx"] = idx
		e["cb"] = ""
		if in := vinner(m); in != nil {
			e["cb"] = hx(in.Data)
		}
	case "Reshare":
		var c protobuf.Reshare
		e["ok"] = proto.Unmarshal(m.Data, &c) == nil
		e["q"], e["w"] = vbhex(c.Qk), vbhex(c.WQk)
	case "Recover":
		var c protobuf.Recover
		e["ok"] = proto.Unmarshal(m.Data, &c) == nil
		e["idx"], e["v"], e["w"] = int(c.Index&0x7fffffff), hx(c.V), hx(c.W)
	case "ShareDist":
		var c protobuf.ShareDist
		e["ok"] = proto.Unmarshal(m.Data, &c) == nil
		e["b"], e["w"] = hx(c.B), hx(c.WB)
	case "Success":
	case "Halt":
		var c protobuf.Halt
		proto.Unmarshal(m.Data, &c)
		j, ok := vMVBAJ(c.Value)
		e["js"], e["ok"] = j, ok
	case "Value":
		var c protobuf.Value
		proto.Unmarshal(m.Data, &c)
		j, ok := vMVBAJ(c.Value)
		e["js"], e["ok"] = j, ok
	default:
		return nil
	}
	return e
}

func (hd *vhand) key(n vnode, k string) string {
	return itoa(uint32(n.Com)) + "/" + itoa(n.Pid) + "/" + k
}

// apply passes a message of a faulty member through its rules.
func (hd *vhand) apply(pk *vpkt) []*vpkt {
	k, h, _ := vhtype(pk.m)
	key := hd.key(pk.from, k)
	orig := proto.Clone(pk.m).(*protobuf.Message)
	prev := hd.last[key]
	hd.last[key] = orig
	if hd.hist[key] == nil {
		hd.hist[key] = map[int][]*protobuf.Message{}
	}
	hd.hist[key][h] = append(hd.hist[key][h], orig)
	out := []*vpkt{pk}
	hd.count[pk.from]++
	rng := hd.net.rng
	for _, r := range hd.rules[pk.from] {
		if r.T == "crash" {
			if hd.count[pk.from] > r.N {
				return nil
			}
			continue
		}
		if r.T != "*" && r.T != k && !(r.T == "MVBA" && strings.Contains("Value Echo Finish Done PreVote Vote Halt", k)) && !(r.T == "RBC" && (k == "RBCEcho" || k == "RBCReady")) {
			continue
		}
		if len(r.To) > 0 && !r.To[pk.to.Pid] {
			continue
		}
		if r.Handof >= 0 && r.Handof != hd.cur {
			continue
		}
		if r.P < 1 && rng.Float64() > r.P {
			continue
		}
		switch r.Act {
		case "drop":
			return nil
		case "dup":
			for i := 0; i < r.N; i++ {
				hd.net.seq++
				out = append(out, &vpkt{seq: hd.net.seq, from: pk.from, to: pk.to, m: proto.Clone(pk.m).(*protobuf.Message)})
			}
		case "raw":
			hd.setPayload(pk.m, k, unhx(r.V.(map[string]any)["raw"].(string)))
		case "rawwhole":
			pk.m.Data = unhx(r.V.(map[string]any)["raw"].(string))
		case "cut":
			pk.m.Data = pk.m.Data[:r.N*len(pk.m.Data)/1000]
		case "flip":
			if len(pk.m.Data) > 0 {
				d := append([]byte{}, pk.m.Data...)
				d[rng.Intn(len(d))] ^= byte(1 << rng.Intn(8))
				pk.m.Data = d
			}
		case "other": // what the previous recipient got
			if prev != nil {
				pk.m.Data = append([]byte{}, prev.Data...)
			}
		case "old": // the same message of the previous handoff this member was in
			for g := h - 1; g >= 0; g-- {
				if l := hd.hist[key][g]; len(l) > 0 {
					i := len(hd.hist[key][h]) - 1
					if i >= len(l) {
						i = len(l) - 1
					}
					pk.m.Data = append([]byte{}, l[i].Data...)
					break
				}
			}
		case "stranger":
			pk.m.Sender = uint32(r.N)
		case "early": // handled before everything else
			pk.wt = 1
		case "late":
			pk.wt = 9
		case "copyof": // the contribution (or share) of another member, as if it were its own
			for key2, l := range hd.hist {
				if strings.HasSuffix(key2, "/"+k) && key2 != key && len(l[h]) > 0 {
					pk.m.Data = append([]byte{}, l[h][len(l[h])-1].Data...)
					break
				}
			}
		case "set":
			hd.set(pk.m, k, r, pk.to.Pid)
		case "forge": // replace the contribution by the given one
			hd.forge(pk.m, k, r, pk.to.Pid)
		case "mvbain":
			hd.mvbain(pk.m, k, r)
		default:
			panic("verif-harness: act " + r.Act)
		}
	}
	return out
}

// setPayload replaces what a message carries (for a proposal: what the proposed message carries).
func (hd *vhand) setPayload(m *protobuf.Message, k string, data []byte) {
	if k == "Commit" || k == "NewCommit" {
		if in := vinner(m); in != nil {
			in.Data = data
			m.Data = vmar(in)
		}
		return
	}
	m.Data = data
}

func (hd *vhand) set(m *protobuf.Message, k string, r *vrule, to uint32) {
	val := func() []byte { return vval(r.V) }
	switch k {
	case "Commit":
		in := vinner(m)
		if in == nil {
			return
		}
		var c protobuf.Commit
		if proto.Unmarshal(in.Data, &c) != nil || r.J >= len(c.Pi) {
			return
		}
		switch r.F {
		case "cb":
			c.Pi[r.J].CBj = val()
		case "cz":
			c.Pi[r.J].CZj = val()
		case "wz":
			c.Pi[r.J].WZ0 = val()
		case "gf":
			c.Pi[r.J].GFj = val()
		case "len":
			c.Pi = c.Pi[:r.N%(len(c.Pi)+1)]
		case "rot":
			c.Pi = append(c.Pi[1:], c.Pi[0])
		case "nilpi":
			c.Pi[r.J] = &protobuf.PiContent{}
		case "inner": // another sender inside the proposal
			in.Sender = uint32(r.N)
		}
		in.Data = vmar(&c)
		m.Data = vmar(in)
	case "NewCommit":
		if in := vinner(m); in != nil {
			in.Data = val()
			m.Data = vmar(in)
		}
	case "Reshare":
		var c protobuf.Reshare
		if proto.Unmarshal(m.Data, &c) != nil || r.J >= len(c.Qk) || r.J >= len(c.WQk) {
			return
		}
		switch r.F {
		case "q":
			c.Qk[r.J] = val()
		case "w":
			c.WQk[r.J] = val()
		case "len":
			c.Qk = c.Qk[:r.N%(len(c.Qk)+1)]
		case "wlen":
			c.WQk = c.WQk[:r.N%(len(c.WQk)+1)]
		case "rot":
			c.Qk, c.WQk = append(c.Qk[1:], c.Qk[0]), append(c.WQk[1:], c.WQk[0])
		}
		m.Data = vmar(&c)
	case "Recover":
		var c protobuf.Recover
		if proto.Unmarshal(m.Data, &c) != nil {
			return
		}
		switch r.F {
		case "v":
			c.V = val()
		case "w":
			c.W = val()
		case "idx":
			c.Index = uint32(r.N)
		case "sig":
			c.SigShare = unhx(r.V.(map[string]any)["raw"].(string))
		case "sigcut":
			c.SigShare = c.SigShare[:r.N%(len(c.SigShare)+1)]
		case "sigidx": // claims another index for its signature share
			if len(c.SigShare) > 1 {
				c.SigShare = append([]byte{}, c.SigShare...)
				c.SigShare[1] = byte(r.N)
			}
		}
		m.Data = vmar(&c)
	case "ShareDist":
		var c protobuf.ShareDist
		if proto.Unmarshal(m.Data, &c) != nil {
			return
		}
		if r.F == "b" {
			c.B = val()
		} else {
			c.WB = val()
		}
		m.Data = vmar(&c)
	case "Prepare":
		var c protobuf.Prepare
		if proto.Unmarshal(m.Data, &c) != nil || r.J+1 >= len(c.Commitments) {
			return
		}
		if r.F == "len" {
			c.Commitments = c.Commitments[:r.N%(len(c.Commitments)+1)]
		} else {
			c.Commitments[r.J+1] = val()
		}
		m.Data = vmar(&c)
	case "ShareReduce":
		var c protobuf.ShareReduce
		if proto.Unmarshal(m.Data, &c) != nil {
			return
		}
		switch r.F {
		case "c":
			c.C = val()
		case "v":
			c.V = val()
		case "w":
			c.W = val()
		}
		m.Data = vmar(&c)
	}
}

func (hd *vhand) forge(m *protobuf.Message, k string, r *vrule, to uint32) {
	o := r.Cols.(map[string]any)
	switch k {
	case "Commit":
		in := vinner(m)
		if in == nil {
			return
		}
		c := &protobuf.Commit{}
		for j, y := range o["pi"].([]any) {
			x := y.(map[string]any)
			c.Pi = append(c.Pi, &protobuf.PiContent{J: vlabelJ(x, j), CBj: vval(x["cb"]), CZj: vval(x["cz"]), WZ0: vval(x["wz"]), GFj: vval(x["gf"])})
		}
		in.Data = vmar(c)
		m.Data = vmar(in)
	case "Reshare":
		x := o["to"].([]any)[to].(map[string]any)
		c := &protobuf.Reshare{}
		for _, v := range x["q"].([]any) {
			c.Qk = append(c.Qk, vval(v))
		}
		for _, v := range x["w"].([]any) {
			c.WQk = append(c.WQk, vval(v))
		}
		m.Data = vmar(c)
	}
}

// agreeOnly has a faulty member take part in the agreement of a handoff with a value of its own.
func (hd *vhand) agreeOnly(n vnode, h int) {
	r := hd.mvba[n][h]
	if r == nil || hd.begun[n][h] {
		return
	}
	var base []byte
	if r.F == "old" {
		for g := h - 1; g >= 0 && base == nil; g-- {
			if l := hd.ins[n][g]; len(l) > 0 {
				base = l[len(l)-1]
			}
		}
	} else if l := hd.ins[n][h]; len(l) > 0 {
		base = l[0]
	}
	if base == nil && r.F != "empty" && r.F != "raw" {
		return
	}
	hd.begun[n][h] = true
	var in protobuf.MVBAIN
	proto.Unmarshal(base, &in)
	valterMVBAIN(&in, r)
	v := vmar(&in)
	if r.F == "raw" {
		v = []byte{1, 2, 3}
	}
	go MainProcess(hd.net.coms[n.Com].P[n.Pid], []byte("pro"+strconv.Itoa(h)), v, []byte{})
}

// mvbain replaces the value a faulty member proposes to the agreement.
func (hd *vhand) mvbain(m *protobuf.Message, k string, r *vrule) {
	if k != "Value" {
		return
	}
	var c protobuf.Value
	if proto.Unmarshal(m.Data, &c) != nil {
		return
	}
	var in protobuf.MVBAIN
	if proto.Unmarshal(c.Value, &in) != nil {
		return
	}
	valterMVBAIN(&in, r)
	c.Value = vmar(&in)
	m.Data = vmar(&c)
}

func valterMVBAIN(in *protobuf.MVBAIN, r *vrule) {
	if len(in.J) == 0 || len(in.Sig) == 0 {
		return
	}
	switch r.F {
	case "few":
		if len(in.J) > 0 {
			in.J, in.Sig = in.J[:len(in.J)-1], in.Sig[:len(in.Sig)-1]
		}
	case "dup":
		for i := range in.J {
			in.J[i], in.Sig[i] = in.J[0], in.Sig[0]
		}
	case "relabel":
		if len(in.J) > 0 {
			in.J[0] = uint32(r.N)
		}
	case "sig":
		if len(in.Sig) > 0 {
			in.Sig[0] = append([]byte{}, in.Sig[len(in.Sig)-1]...)
		}
	case "empty":
		in.J, in.Sig = nil, nil
	case "extra":
		in.J = append(in.J, uint32(r.N))
		in.Sig = append(in.Sig, append([]byte{}, in.Sig[0]...))
	case "longj":
		in.J = append(in.J, uint32(r.N))
	case "rev":
		for i, j := 0, len(in.J)-1; i < j; i, j = i+1, j-1 {
			in.J[i], in.J[j], in.Sig[i], in.Sig[j] = in.J[j], in.J[i], in.Sig[j], in.Sig[i]
		}
	}
}

func vrunHandoff(s *vscen) {
	steps := s.P["steps"].([]any)
	ncom := s.num("coms", 2)
	net := newVnet(s.N, s.F, ncom, s.Seed, nil)
	net.mode, net.policy = s.Mode, s.Policy
	net.maxSteps = 2000000
	net.nextOf = map[int]int{}
	hd := &vhand{net: net, s: s, rules: map[vnode][]*vrule{}, faul: map[vnode]bool{}, last: map[string]*protobuf.Message{}, hist: map[string]map[int][]*protobuf.Message{}, cur: -1, count: map[vnode]int{}, mvba: map[vnode]map[int]*vrule{}, ins: map[vnode]map[int][][]byte{}, begun: map[vnode]map[int]bool{}}
	for _, x := range s.P["faulty"].([]any) {
		o := x.(map[string]any)
		n := vnode{int(o["com"].(float64)), uint32(o["pid"].(float64))}
		hd.faul[n] = true
		for _, y := range o["rules"].([]any) {
			q := y.(map[string]any)
			r := &vrule{T: q["t"].(string), Act: q["act"].(string), To: map[uint32]bool{}, V: q["v"], Cols: q["cols"], P: 1, Handof: -1}
			if f, ok := q["f"].(string); ok {
				r.F = f
			}
			if j, ok := q["j"].(float64); ok {
				r.J = int(j)
			}
			if j, ok := q["n"].(float64); ok {
				r.N = int(j)
			}
			if j, ok := q["p"].(float64); ok {
				r.P = j
			}
			if j, ok := q["h"].(float64); ok {
				r.Handof = int(j)
			}
			if l, ok := q["to"].([]any); ok {
				for _, v := range l {
					r.To[uint32(v.(float64))] = true
				}
			}
			hd.rules[n] = append(hd.rules[n], r)
		}
	}
	for _, x := range s.P["faulty"].([]any) {
		o := x.(map[string]any)
		n := vnode{int(o["com"].(float64)), uint32(o["pid"].(float64))}
		hd.ins[n], hd.mvba[n], hd.begun[n] = map[int][][]byte{}, map[int]*vrule{}, map[int]bool{}
		if l, ok := o["mvba"].([]any); ok {
			for _, y := range l {
				q := y.(map[string]any)
				r := &vrule{F: q["f"].(string)}
				if j, ok := q["n"].(float64); ok {
					r.N = int(j)
				}
				hd.mvba[n][int(q["h"].(float64))] = r
			}
		}
	}
	net.addNoise(s, func(q vnode) bool { return hd.faul[q] })
	faulty := []any{}
	for c := 0; c < ncom; c++ {
		l := []int{}
		for i := uint32(0); i < s.N; i++ {
			if hd.faul[vnode{c, i}] {
				l = append(l, int(i))
			}
		}
		faulty = append(faulty, l)
	}
	vemit(vev{"ev": "hdr", "n": s.N, "f": s.F, "faulty": faulty, "coefs": s.P["coefs"], "forged": s.P["forged"]})
	honest := func(n vnode) bool { return !hd.faul[n] }

	net.onSend = func(pk *vpkt) []*vpkt {
		e := vhdesc(pk.m)
		if e != nil {
			e["ev"], e["p"], e["com"], e["tocom"], e["to"], e["good"] = "send", pk.from.Pid, pk.from.Com, pk.to.Com, pk.to.Pid, honest(pk.from)
			k, _, _ := vhtype(pk.m)
			// of a faulty member only its contribution before the alteration is of interest
			if honest(pk.from) || k == "Reshare" {
				vemit(e)
			}
		}
		if honest(pk.from) {
			return []*vpkt{pk}
		}
		return hd.apply(pk)
	}
	classes := map[string]int{}
	if m, ok := s.P["prio"].(map[string]any); ok {
		for k, v := range m {
			classes[k] = int(v.(float64))
		}
	}
	// messages of one kind, about some contributions, between some members travel slowly
	type vslow struct {
		t             string
		idx, from, to map[int]bool
		lvl           int
	}
	slow := []*vslow{}
	if l, ok := s.P["slow"].([]any); ok {
		for _, x := range l {
			o := x.(map[string]any)
			set := func(k string) map[int]bool {
				r := map[int]bool{}
				if l, ok := o[k].([]any); ok {
					for _, v := range l {
						r[int(v.(float64))] = true
					}
				}
				return r
			}
			slow = append(slow, &vslow{t: o["t"].(string), idx: set("idx"), from: set("from"), to: set("to"), lvl: int(o["lvl"].(float64))})
		}
	}
	slowness := func(pk *vpkt) int {
		if pk.slow > 0 {
			return pk.slow - 1
		}
		r := 0
		for _, z := range slow {
			k, _, idx := vhtype(pk.m)
			if k == "Recover" {
				var c protobuf.Recover
				if proto.Unmarshal(pk.m.Data, &c) == nil {
					idx = int(c.Index & 0x7fffffff)
				}
			}
			in := func(m map[int]bool, v int) bool { return len(m) == 0 || m[v] }
			if (z.t == "*" || z.t == k) && in(z.idx, idx) && in(z.from, int(pk.from.Pid)) && in(z.to, int(pk.to.Pid)) && z.lvl > r {
				r = z.lvl
			}
		}
		pk.slow = r + 1
		return r
	}
	late := map[int]bool{}
	for _, l := range s.nums("late") {
		late[l] = true
	}
	net.prio = func(pk *vpkt) int {
		if pk.wt != 0 {
			return pk.wt
		}
		k, _, _ := vhtype(pk.m)
		c := 5
		if v, ok := classes[k]; ok {
			c = v
		}
		if late[int(pk.from.Pid)] || late[100+int(pk.to.Pid)] {
			c += 10
		}
		return c + 20*slowness(pk)
	}
	net.onDeliv = func(pk *vpkt) {
		vbump()
		k, h, _ := vhtype(pk.m)
		if !honest(pk.to) {
			if k == "Value" && h >= 0 {
				var c protobuf.Value
				if proto.Unmarshal(pk.m.Data, &c) == nil {
					hd.ins[pk.to][h] = append(hd.ins[pk.to][h], c.Value)
					hd.agreeOnly(pk.to, h)
				}
			}
			return
		}
		if k == "Reshare" || k == "Commit" {
			if e := vhdesc(pk.m); e != nil && h >= 0 {
				e["ev"], e["p"], e["com"] = "recv", pk.to.Pid, pk.to.Com
				vemit(e)
			}
		}
	}
	st := func(com int, i uint32, what string, h int) {
		if honest(vnode{com, i}) {
			vemit(vev{"ev": "done", "com": com, "p": i, "what": what, "h": h, "st": vstate(net.coms[com].P[i])})
		}
	}
	for h, x := range steps {
		o := x.(map[string]any)
		hd.cur = h
		switch o["k"] {
		case "given": // committee 0 starts with a sharing
			olds := s.P["old"].([]any)
			for i := range net.coms[0].P {
				vsetState(net.coms[0].P[i], olds[i].(map[string]any))
			}
		case "deal":
			ct := &vtap{from: vnode{-1, 0x7fffffff}, com: 0, chans: vmkChans(s.N)}
			net.extra = append(net.extra, ct)
			var client Client
			client.HonestParty = net.mkParty(0, 0x7fffffff, ct.chans, vmkChans(s.N), nil)
			client.SetSecret(vfr(o["secret"].(string)))
			os := net.onSend
			net.onSend = func(pk *vpkt) []*vpkt {
				if pk.from.Com == -1 {
					e := vdescVSS(pk.m.Data)
					e["ev"], e["to"] = "deal", pk.to.Pid
					vemit(e)
					return []*vpkt{pk}
				}
				return os(pk)
			}
			vemit(vev{"ev": "share", "secret": o["secret"]})
			ID := []byte("vss")
			for i := uint32(0); i < s.N; i++ {
				i := i
				go func() {
					net.coms[0].P[i].VSSShareReceive(ID)
					st(0, i, "vss", h)
				}()
			}
			go client.Share(ID)
			net.run()
			net.onSend = os
			vemit(vev{"ev": "dealt"})
		case "handoff":
			a, b := int(o["from"].(float64)), int(o["to"].(float64))
			net.nextOf[a] = b
			sfx := strconv.Itoa(h)
			prep, red, pro := []byte("prep"+sfx), []byte("red"+sfx), []byte("pro"+sfx)
			vemit(vev{"ev": "handoff", "h": h, "a": a, "b": b})
			for i := uint32(0); i < s.N; i++ {
				i := i
				recvNew := func() {
					p := net.coms[b].P[i]
					if hd.mvba[vnode{b, i}][h] != nil {
						hd.agreeOnly(vnode{b, i}, h)
						return
					}
					p.PrepareReceive(prep)
					p.ShareReduceReceive(red)
					st(b, i, "reduce", h)
					p.ProactivizeAndShareDist(pro)
					st(b, i, "handoff", h)
				}
				sendOld := func() {
					p := net.coms[a].P[i]
					p.PrepareSend(prep)
					p.ShareReduceSend(red)
				}
				go sendOld()
				go recvNew()
			}
			// messages of nobody: unknown senders, unknown instances
			if l, ok := o["stray"].([]any); ok {
				for _, y := range l {
					q := y.(map[string]any)
					id := strings.Replace(q["id"].(string), "#", sfx, 1)
					to := uint32(q["to"].(float64))
					net.inject(vnode{b, uint32(q["from"].(float64))}, vnode{b, to}, &protobuf.Message{Type: q["t"].(string), Id: []byte(id), Sender: uint32(q["sender"].(float64)), Data: unhx(q["raw"].(string))})
				}
			}
			net.run()
			for i := uint32(0); i < s.N; i++ {
				if honest(vnode{b, i}) {
					vemit(vev{"ev": "final", "com": b, "p": i, "st": vstate(net.coms[b].P[i])})
				}
			}
			vemit(vev{"ev": "quiet", "h": h})
		}
	}
}
