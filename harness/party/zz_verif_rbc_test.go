package party

// Reliable broadcast: honest members run the real RBCReceive (and RBCSend), corrupted
// members send whatever the scenario says.  Byte strings are interned as tokens; the
// erasure code and the hash are recomputed here, independently of the code under test.

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/klauspost/reedsolomon"
	"google.golang.org/protobuf/proto"
)

func init() { vkinds["rbc"] = vrunRBC }

type vtoks struct {
	ids map[string]string
	n   int
}

func (t *vtoks) of(b []byte) string {
	if v, ok := t.ids[string(b)]; ok {
		return v
	}
	t.n++
	v := fmt.Sprintf("x%d", t.n)
	t.ids[string(b)] = v
	return v
}

type vrbcVal struct {
	name   string
	data   []byte // what is proposed (marshalled message)
	hash   []byte
	shards [][]byte
	msg    *protobuf.Message
}

func vrbcMake(name string, data []byte, n, f uint32) *vrbcVal {
	v := &vrbcVal{name: name, data: data, msg: &protobuf.Message{}}
	proto.Unmarshal(data, v.msg)
	h := sha256.Sum256(data)
	l := make([]byte, 4)
	binary.BigEndian.PutUint32(l, uint32(len(data)))
	v.hash = append(h[:], l...)
	if len(data) > 0 {
		enc, _ := reedsolomon.New(int(n-(f+1)), int(f+1))
		sh, err := enc.Split(append([]byte{}, data...))
		if err != nil {
			panic(err)
		}
		enc.Encode(sh)
		v.shards = sh
	}
	return v
}

func vmar(m proto.Message) []byte {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

func vrunRBC(s *vscen) {
	byz := map[vnode]bool{}
	for _, b := range s.Byz {
		byz[vnode{0, b}] = true
	}
	net := newVnet(s.N, s.F, 1, s.Seed, byz)
	net.mode, net.policy = s.Mode, s.Policy
	net.addNoise(s, nil)
	rng := net.rng
	n, f := s.N, s.F
	proposer := uint32(s.num("proposer", 0))
	size := s.num("size", 40)
	tagged := s.num("tagged", 1) == 1 // the instance knows its proposer
	ID := []byte("rbc_1," + fmt.Sprint(proposer+1))
	me := vnode{0, proposer}

	rb := func(k int) []byte {
		b := make([]byte, k)
		rng.Read(b)
		return b
	}
	var vals []*vrbcVal
	for i := 0; i < 3; i++ {
		m := &protobuf.Message{Type: fmt.Sprint("T", i), Sender: proposer, Id: ID, Data: rb(size + i*s.num("dsize", 0))}
		d := vmar(m)
		if i == 2 && rng.Intn(2) == 0 {
			d = rb(size + 1)
		}
		vals = append(vals, vrbcMake(fmt.Sprintf("v%d", i), d, n, f))
	}
	tok := &vtoks{ids: map[string]string{}}
	htok := map[string]string{}
	for _, v := range vals {
		htok[string(v.hash)] = v.name
	}
	hof := func(b []byte) string {
		if v, ok := htok[string(b)]; ok {
			return v
		}
		return "h" + tok.of(b)
	}
	enc := map[string]any{}
	for _, v := range vals {
		e := []string{}
		for j := range v.shards {
			e = append(e, tok.of(v.shards[j]))
		}
		enc[v.name] = e
	}
	propTok := func(d []byte) string { // token of a proposal
		for _, v := range vals {
			if bytes.Equal(v.data, d) {
				return v.name
			}
		}
		if len(d) == 0 {
			return "empty"
		}
		h := string(vrbcMake("u", d, n, f).hash)
		if _, ok := htok[h]; !ok {
			htok[h] = fmt.Sprint("u", len(htok))
		}
		return htok[h]
	}
	honest := []int{}
	for i := uint32(0); i < n; i++ {
		if !byz[vnode{0, i}] {
			honest = append(honest, int(i))
		}
	}
	vemit(vev{"ev": "hdr", "n": n, "f": f, "proposer": proposer, "tagged": tagged, "honest": honest,
		"phon": !byz[me] && (tagged || s.str("strat", "") != "anyprop"), "enc": enc, "val": "v0"})

	desc := func(m *protobuf.Message) (string, string, string) {
		switch m.Type {
		case "RBCPropose":
			return "P", propTok(m.Data), ""
		case "RBCEcho":
			var e protobuf.RBCEcho
			proto.Unmarshal(m.Data, &e)
			return "E", hof(e.Hash), tok.of(e.M)
		case "RBCReady":
			var e protobuf.RBCReady
			proto.Unmarshal(m.Data, &e)
			return "R", hof(e.Hash), tok.of(e.M)
		}
		return "?", m.Type, ""
	}
	net.onSend = func(pk *vpkt) []*vpkt {
		if net.isByz(pk.from) {
			return nil
		}
		t, h, m := desc(pk.m)
		vemit(vev{"ev": "send", "p": pk.from.Pid, "q": pk.to.Pid, "t": t, "h": h, "m": m,
			"own": pk.m.Sender == pk.from.Pid && bytes.Equal(pk.m.Id, ID)})
		return []*vpkt{pk}
	}
	net.onDeliv = func(pk *vpkt) {
		t, h, m := desc(pk.m)
		snd := int(pk.m.Sender)
		if pk.m.Sender >= n {
			snd = -1
		}
		vemit(vev{"ev": "recv", "p": pk.to.Pid, "s": snd, "t": t, "h": h, "m": m})
	}

	got := make([]*protobuf.Message, n)
	fin := make([]bool, n)
	seen := make([]bool, n)
	for _, hi := range honest {
		i := hi
		go func() {
			if tagged {
				got[i] = net.coms[0].P[i].RBCReceive(ID, proposer)
			} else {
				got[i] = net.coms[0].P[i].RBCReceive(ID)
			}
			fin[i] = true
		}()
	}
	report := func() {
		for _, i := range honest {
			if fin[i] && !seen[i] {
				seen[i] = true
				d := "nil"
				if got[i] != nil {
					d = "unknown"
					for _, v := range vals {
						if proto.Equal(got[i], v.msg) {
							d = v.name
							break
						}
					}
				}
				vemit(vev{"ev": "del", "p": i, "h": d})
			}
		}
	}
	net.onIdle = report

	// corrupted members
	shardFor := func(v *vrbcVal, j uint32) []byte {
		switch rng.Intn(8) {
		case 0:
			return v.shards[rng.Intn(int(n))] // someone else's
		case 1:
			b := append([]byte{}, v.shards[j]...)
			b[rng.Intn(len(b))] ^= byte(1 + rng.Intn(255))
			return b
		case 2:
			return rb(rng.Intn(2 * (len(v.shards[j]) + 1)))
		}
		return v.shards[j]
	}
	pickVal := func() *vrbcVal {
		if rng.Intn(4) == 0 {
			return vals[2]
		}
		return vals[rng.Intn(2)]
	}
	fakeHash := func(v *vrbcVal) []byte {
		switch rng.Intn(12) {
		case 0:
			b := append([]byte{}, v.hash...)
			b[rng.Intn(len(b))] ^= 1
			return b
		case 1:
			return rb(rng.Intn(40))
		}
		return v.hash
	}
	strat := s.str("strat", "random")
	plan, planned := s.P["plan"].([]any)
	for _, b := range s.Byz {
		b := b
		from := vnode{0, b}
		if planned || strat == "flood" && b != proposer {
			continue
		}
		mode := rng.Intn(5) // per corrupted member: 0 silent, 1 supports v0, 2 supports v1, else random
		for _, hj := range honest {
			j := uint32(hj)
			to := vnode{0, j}
			if b == proposer || (!tagged && strat == "anyprop") {
				k := 1
				if rng.Intn(4) == 0 {
					k = 2
				}
				for ; k > 0; k-- {
					v := vals[rng.Intn(2)]
					switch strat {
					case "partial": // correct proposal to some only
						v = vals[0]
						if rng.Intn(2) == 0 {
							continue
						}
					case "empty":
						if rng.Intn(3) == 0 {
							net.inject(from, to, &protobuf.Message{Type: "RBCPropose", Sender: b, Id: ID})
							continue
						}
					default:
						if rng.Intn(5) == 0 {
							continue
						}
					}
					net.inject(from, to, &protobuf.Message{Type: "RBCPropose", Sender: b, Id: ID, Data: v.data})
				}
			} else if tagged && rng.Intn(3) == 0 { // a proposal by someone who is not the proposer
				net.inject(from, to, &protobuf.Message{Type: "RBCPropose", Sender: b, Id: ID, Data: vals[1+rng.Intn(2)].data})
			}
			if mode == 0 {
				continue
			}
			for rep := 0; rep < 1+rng.Intn(2); rep++ {
				for _, t := range []string{"RBCEcho", "RBCReady"} {
					v := pickVal()
					if mode == 1 || strat == "partial" {
						v = vals[0]
					} else if mode == 2 {
						v = vals[1]
					}
					own := j
					if t == "RBCReady" {
						own = b
					}
					sh := shardFor(v, own)
					if mode <= 2 && rng.Intn(3) > 0 {
						sh = v.shards[own]
					}
					h := v.hash
					if mode > 2 {
						h = fakeHash(v)
					}
					snd := b
					if rng.Intn(6) == 0 {
						snd = n + uint32(rng.Intn(5)) // unknown sender
						if rng.Intn(3) == 0 {
							snd = 0xffffffff
						}
					}
					var data []byte
					if t == "RBCEcho" {
						data = vmar(&protobuf.RBCEcho{Hash: h, M: sh})
					} else {
						data = vmar(&protobuf.RBCReady{Hash: h, M: sh})
					}
					if rng.Intn(14) == 0 {
						data = rb(rng.Intn(20))
					}
					for d := 0; d < 1+rng.Intn(2); d++ {
						net.inject(from, to, &protobuf.Message{Type: t, Sender: snd, Id: ID, Data: data})
					}
				}
			}
		}
	}
	if strat == "flood" { // several Echos and Readys for one hash, with all kinds of shards
		for _, b := range s.Byz {
			v := vals[rng.Intn(4)%3]
			if !byz[me] {
				v = vals[0]
			}
			for _, hj := range honest {
				j := uint32(hj)
				for k := 2 + rng.Intn(5); k > 0; k-- {
					t, own := "RBCReady", b
					if rng.Intn(3) == 0 {
						t, own = "RBCEcho", j
					}
					var sh []byte
					switch rng.Intn(5) {
					case 0:
						sh = v.shards[own]
					case 1:
						sh = v.shards[rng.Intn(int(n))]
					case 2:
						sh = rb(len(v.shards[own]))
					}
					if k > 1 && len(sh) == 0 && rng.Intn(2) == 0 {
						sh = nil
					}
					data := vmar(&protobuf.RBCReady{Hash: v.hash, M: sh})
					if t == "RBCEcho" {
						data = vmar(&protobuf.RBCEcho{Hash: v.hash, M: sh})
					}
					net.inject(vnode{0, b}, vnode{0, j}, &protobuf.Message{Type: t, Sender: b, Id: ID, Data: data})
				}
			}
		}
	}
	if !byz[me] {
		var m0 protobuf.Message
		proto.Unmarshal(vals[0].data, &m0)
		go net.coms[0].P[proposer].RBCSend(&m0, ID)
	}
	if planned { // a behaviour of the specification, delivery by delivery
		settle := func() {
			net.wait()
			net.drain()
			report()
		}
		settle()
		types := map[string]string{"P": "RBCPropose", "E": "RBCEcho", "R": "RBCReady"}
		for _, x := range plan {
			o := x.(map[string]any)
			from, to := vnode{0, uint32(o["s"].(float64))}, vnode{0, uint32(o["p"].(float64))}
			t := types[o["t"].(string)]
			var pk *vpkt
			if net.isByz(from) {
				v := vals[0]
				if o["h"] == "v1" {
					v = vals[1]
				}
				own := to.Pid
				if t == "RBCReady" {
					own = from.Pid
				}
				sh := v.shards[own]
				if o["ok"] != true {
					switch rng.Intn(4) {
					case 0:
						sh = v.shards[(own+1)%n]
					case 1:
						sh = nil
					default:
						sh = rb(len(sh))
					}
				}
				data := v.data
				if t == "RBCEcho" {
					data = vmar(&protobuf.RBCEcho{Hash: v.hash, M: sh})
				} else if t == "RBCReady" {
					data = vmar(&protobuf.RBCReady{Hash: v.hash, M: sh})
				}
				pk = &vpkt{from: from, to: to, m: &protobuf.Message{Type: t, Sender: from.Pid, Id: ID, Data: data}}
			} else {
				for i, q := range net.pending {
					if q.from == from && q.to == to && q.m.Type == t {
						pk = q
						net.pending = append(net.pending[:i:i], net.pending[i+1:]...)
						break
					}
				}
			}
			if pk != nil {
				net.deliver(pk)
				settle()
			}
		}
	}
	if s.str("hold", "") == "echo" { // one member sees the Echo messages last
		v := uint32(rng.Intn(int(n)))
		net.prio = func(pk *vpkt) int {
			if pk.to.Pid == v && pk.m.Type == "RBCEcho" {
				return 1
			}
			return 0
		}
	} else if s.str("hold", "") == "victim" { // everything for one member comes last
		v := uint32(rng.Intn(int(n)))
		net.prio = func(pk *vpkt) int {
			if pk.to.Pid == v {
				return 1
			}
			return 0
		}
	} else if s.str("hold", "") == "ready" {
		v := uint32(rng.Intn(int(n)))
		net.prio = func(pk *vpkt) int {
			if pk.to.Pid == v && pk.m.Type == "RBCReady" || pk.to.Pid != v && pk.m.Type == "RBCEcho" {
				return 1
			}
			return 0
		}
	}
	if s.num("byzfirst", 0) == 1 { // what the corrupted members sent arrives first
		old := net.prio
		net.prio = func(pk *vpkt) int {
			c := 0
			if old != nil {
				c = old(pk)
			}
			if !net.isByz(pk.from) {
				c += 2
			}
			return c
		}
	}
	net.run()
	report()
	vemit(vev{"ev": "quiet"})
}
