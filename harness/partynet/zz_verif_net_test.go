package party

// Dispatching, addressing and payload encoding: the real dispatcher and GetMessage, the real sending functions
// on in-memory channels and on real loopback connections, and the payload encoding.

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

func init() {
	vkinds["dispatch"] = vrunDispatch
	vkinds["addr"] = vrunAddr
	vkinds["mesh"] = vrunMesh
	vkinds["ips"] = vrunIps
	vkinds["enc"] = vrunEnc
}

func vmlabel(m *protobuf.Message) string {
	h := sha256.New()
	for _, b := range [][]byte{[]byte(m.Type), m.Id, m.Data} {
		var l [8]byte
		binary.BigEndian.PutUint64(l[:], uint64(len(b)))
		h.Write(l[:])
		h.Write(b)
	}
	fmt.Fprint(h, m.Sender)
	return hex.EncodeToString(h.Sum(nil)[:8])
}

var vportNext = 10000 + os.Getpid()*37%20000

func vport() string {
	for i := 0; i < 5000; i++ {
		vportNext++
		if vportNext > 32000 {
			vportNext = 10000
		}
		l, err := net.Listen("tcp4", fmt.Sprintf(":%d", vportNext))
		if err == nil {
			l.Close()
			return fmt.Sprint(vportNext)
		}
	}
	panic("verif-harness: no free port")
}

type vkey struct {
	t  string
	id []byte
}

func vkeysOf(s *vscen) []vkey {
	r := []vkey{}
	for _, x := range s.P["keys"].([]any) {
		y := x.([]any)
		k := vkey{t: y[0].(string)}
		if y[1] != nil {
			k.id = vunhex(y[1].(string))
		}
		r = append(r, k)
	}
	return r
}

// vpending counts what is under way: handed minus received; vlate: something already failed to arrive in this process.
var vpending int64
var vlate bool

func vhand(n int) { atomic.AddInt64(&vpending, int64(n)) }

// vsettle waits until everything due has been received, or nothing has been for long.
func vsettle() {
	last, idle := int64(-1), 0
	defer func() { vlate = vlate || atomic.LoadInt64(&vpending) > 0 }()
	for idle < 400 && !(vlate && idle > 25) {
		voutMu.Lock()
		p := vprogress
		voutMu.Unlock()
		if atomic.LoadInt64(&vpending) <= 0 {
			break
		}
		if p == last {
			idle++
		} else {
			idle = 0
		}
		last = p
		time.Sleep(20 * time.Millisecond)
	}
	time.Sleep(20 * time.Millisecond)
}

// vread takes messages for key k (of member c, j) until told to stop; again: looks the channel up each time
func vread(p *HonestParty, key vkey, c, j, k int, again bool, max int, gap int, stop chan bool, wg *sync.WaitGroup) {
	defer wg.Done()
	ch := p.GetMessage(key.t, key.id)
	for n := 0; max == 0 || n < max; n++ {
		if again {
			ch = p.GetMessage(key.t, append([]byte{}, key.id...))
		}
		select {
		case m := <-ch:
			by := int(m.Sender)
			vemit(vev{"ev": "got", "s": by, "c": c, "j": j, "k": k, "m": vmlabel(m)})
			vhand(-1)
			if gap > 0 {
				time.Sleep(time.Duration(gap) * time.Microsecond)
			}
		case <-stop:
			if max > 0 {
				atomic.AddInt64(&vgone, 1)
			}
			return
		}
	}
}

// vrunDispatch: one dispatcher; ops [["a", k, n] n messages of key k arrive | ["r", k, again, max, gap] a reader
// of key k starts | ["f", k0, n] keys k0.. each get one message while their reader starts | ["w", ms]]
func vrunDispatch(s *vscen) {
	n := s.num("n", 4)
	keys := vkeysOf(s)
	vemit(vev{"ev": "hdr", "n": n})
	in := make(chan *protobuf.Message, s.num("cap", 0))
	p := &HonestParty{N: uint32(n), F: uint32((n - 1) / 3)}
	p.dispatchChannels = core.MakeDispatcheChannels(in, uint32(n))
	stop := make(chan bool)
	var wg sync.WaitGroup
	rng := rand.New(rand.NewSource(s.Seed))
	seq := 0
	read := map[int]bool{}
	unread := map[int]int{}
	hand := func(k int) *protobuf.Message {
		seq++
		m := &protobuf.Message{Type: keys[k].t, Id: keys[k].id, Sender: uint32(rng.Intn(n)), Data: []byte(fmt.Sprint(seq))}
		if s.num("bare", 0) == 1 { // alike messages
			m.Data = nil
		}
		vemit(vev{"ev": "arrive", "c": 0, "j": 0, "k": k, "m": vmlabel(m)})
		if read[k] {
			vhand(1)
		} else {
			unread[k]++
		}
		return m
	}
	push := func(m *protobuf.Message) bool {
		select {
		case in <- m:
			return true
		case <-time.After(20 * time.Second):
			vemit(vev{"ev": "stuck"})
			return false
		}
	}
	atomic.StoreInt64(&vpending, 0)
	ok := true
	for _, x := range s.P["ops"].([]any) {
		if !ok {
			break
		}
		o := x.([]any)
		a := []int{}
		for _, y := range o[1:] {
			a = append(a, int(y.(float64)))
		}
		switch o[0].(string) {
		case "a":
			for i := 0; i < a[1] && ok; i++ {
				ok = push(hand(a[0]))
			}
		case "r":
			k := a[0]
			if !read[k] {
				read[k] = true
				vhand(unread[k])
			}
			wg.Add(1)
			go vread(p, keys[k], 0, 0, k, a[1] == 1, 0, a[2], stop, &wg)
			if rng.Intn(2) == 0 {
				runtime.Gosched()
			}
		case "f":
			for i := 0; i < a[1] && ok; i++ {
				k := len(keys)
				id := make([]byte, 4)
				binary.BigEndian.PutUint32(id, uint32(rng.Uint32()))
				keys = append(keys, vkey{keys[a[0]].t, append(append([]byte{}, keys[a[0]].id...), id...)})
				read[k] = true
				m := hand(k)
				spin := rng.Intn(2500)
				wg.Add(1)
				if rng.Intn(2) == 0 {
					go func() { in <- m }()
					for j := 0; j < spin; j++ {
						runtime.KeepAlive(j)
					}
					vread(p, keys[k], 0, 0, k, false, 1, 0, vafter(), &wg)
				} else {
					ok = push(m)
					for j := 0; j < spin; j++ {
						runtime.KeepAlive(j)
					}
					vread(p, keys[k], 0, 0, k, false, 1, 0, vafter(), &wg)
				}
			}
		case "w":
			time.Sleep(time.Duration(a[0]) * time.Millisecond)
		}
	}
	if ok {
		vsettle()
	}
	ks := []int{}
	for k := range read {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	vemit(vev{"ev": "quiet", "ks": ks})
	close(stop)
	vwgwait(&wg)
}

// vgone counts readers that gave up
var vgone int64

func vafter() chan bool {
	c := make(chan bool)
	d := 8 * time.Second
	if atomic.LoadInt64(&vgone) > 0 {
		d = 300 * time.Millisecond
	}
	time.AfterFunc(d, func() { close(c) })
	return c
}

func vwgwait(wg *sync.WaitGroup) {
	d := make(chan bool)
	go func() { wg.Wait(); close(d) }()
	select {
	case <-d:
	case <-time.After(5 * time.Second):
	}
}

// vcall performs one sending call, between an op and a ret event.
func vcall(p *HonestParty, by, k int, call string, des int, m *protobuf.Message) {
	vemit(vev{"ev": "op", "by": by, "call": call, "des": des, "k": k, "m": vmlabel(m)})
	d := uint32(des)
	if des < 0 { // the largest ones
		d = uint32(0xffffffff + 1 + int64(des))
	}
	var err error
	switch call {
	case "Send":
		err = p.Send(m, d)
	case "SendToNextCommittee":
		err = p.SendToNextCommittee(m, d)
	case "Broadcast":
		err = p.Broadcast(m)
	case "BroadcastExclude":
		err = p.BroadcastExclude(m, d)
	case "BroadcastToNextCommittee":
		err = p.BroadcastToNextCommittee(m)
	default:
		panic("verif-harness: " + call)
	}
	vemit(vev{"ev": "ret", "by": by, "call": call, "des": des, "err": err != nil})
}

// vrunAddr: one member with in-memory channels; ops [call, des].
func vrunAddr(s *vscen) {
	n := s.num("n", 4)
	keys := vkeysOf(s)
	vemit(vev{"ev": "hdr", "n": n})
	ops := s.P["ops"].([]any)
	me := s.num("me", 0)
	p := &HonestParty{N: uint32(n), F: uint32((n - 1) / 3), PID: uint32(me)}
	chans := [2][]chan *protobuf.Message{}
	for c := 0; c < 2; c++ {
		for j := 0; j < n; j++ {
			chans[c] = append(chans[c], make(chan *protobuf.Message, 2*len(ops)+2))
		}
	}
	p.sendChannels, p.sendToNextChannels = chans[0], chans[1]
	for i, x := range ops {
		o := x.([]any)
		k := i % len(keys)
		m := &protobuf.Message{Type: keys[k].t, Id: keys[k].id, Sender: uint32(me), Data: []byte(fmt.Sprint(i))}
		vcall(p, me, k, o[0].(string), int(o[1].(float64)), m)
		for c := 0; c < 2; c++ {
			for j := 0; j < n; j++ {
				for len(chans[c][j]) > 0 {
					m := <-chans[c][j]
					vemit(vev{"ev": "got", "s": me, "c": c, "j": j, "k": k, "m": vmlabel(m)})
				}
			}
		}
	}
	vemit(vev{"ev": "quiet"})
}

func vparty(n, pid int, cur, next [2][]string) *HonestParty {
	return &HonestParty{N: uint32(n), F: uint32((n - 1) / 3), PID: uint32(pid),
		ipList: cur[0], portList: cur[1], ipListNext: next[0], portListNext: next[1],
		sendChannels: make([]chan *protobuf.Message, n), sendToNextChannels: make([]chan *protobuf.Message, n)}
}

// vgo runs f, reporting when it does not come back.
func vgo(f func()) bool {
	d := make(chan bool)
	go func() { f(); close(d) }()
	select {
	case <-d:
		return true
	case <-time.After(40 * time.Second):
		vemit(vev{"ev": "stuck"})
		return false
	}
}

// vrunMesh: two committees on real loopback connections; members send concurrently, each goroutine with its own
// keys; readers start before or after.
func vrunMesh(s *vscen) {
	n := s.num("n", 4)
	keys := vkeysOf(s)
	vemit(vev{"ev": "hdr", "n": n})
	rng := rand.New(rand.NewSource(s.Seed))
	ad := [2][2][]string{}
	for c := 0; c < 2; c++ {
		for j := 0; j < n; j++ {
			ad[c][0] = append(ad[c][0], fmt.Sprintf("127.0.0.%d", 1+rng.Intn(200)))
			ad[c][1] = append(ad[c][1], vport())
		}
	}
	ps := [2][]*HonestParty{}
	for c := 0; c < 2; c++ {
		for j := 0; j < n; j++ {
			var p *HonestParty
			if s.num("real", 1) == 1 {
				p = NewHonestParty(uint32(c), uint32(n), uint32((n-1)/3), uint32(j), ad[c][0], ad[c][1], ad[1][0], ad[1][1], nil, nil)
			} else {
				p = vparty(n, j, ad[c], ad[1])
			}
			ps[c] = append(ps[c], p)
			p.InitReceiveChannel()
		}
	}
	for c := 0; c < 2; c++ {
		for j := 0; j < n; j++ {
			ps[c][j].InitSendChannel()
			if c == 0 {
				ps[c][j].InitSendToNextChannel()
			}
		}
	}
	atomic.StoreInt64(&vpending, 0)
	stop := make(chan bool)
	var rg, sg sync.WaitGroup
	late := func(k int) bool { return rng.Intn(3) == 0 }
	lates := []func(){}
	for c := 0; c < 2; c++ {
		for j := 0; j < n; j++ {
			for k := range keys {
				f := func(c, j, k int) func() {
					again := rng.Intn(3) == 0
					return func() {
						rg.Add(1)
						go vread(ps[c][j], keys[k], c, j, k, again, 0, 0, stop, &rg)
					}
				}(c, j, k)
				if late(k) {
					lates = append(lates, f)
				} else {
					f()
				}
			}
		}
	}
	// senders: goroutine g of member (c, j) uses the keys k with k mod gs = g, under a sender number of its own
	gs := s.num("gs", 1)
	count := s.num("count", 20)
	done := vgo(func() {
		for c := 0; c < 2; c++ {
			for j := 0; j < n; j++ {
				for g := 0; g < gs; g++ {
					mine := []int{}
					for k := range keys {
						if k%gs == g {
							mine = append(mine, k)
						}
					}
					if len(mine) == 0 {
						continue
					}
					sg.Add(1)
					go func(c, j, g int, r *rand.Rand) {
						defer sg.Done()
						by := c*100 + j
						for i := 0; i < count; i++ {
							k := mine[r.Intn(len(mine))]
							d := make([]byte, []int{0, 1, 50, 5000, 70000}[r.Intn(5)]+4)
							r.Read(d)
							m := &protobuf.Message{Type: keys[k].t, Id: keys[k].id, Sender: uint32(by), Data: d}
							calls := []string{"Send", "Send", "Broadcast", "BroadcastExclude", "SendToNextCommittee", "BroadcastToNextCommittee"}
							if c == 1 {
								calls = calls[:4]
							}
							call := calls[r.Intn(len(calls))]
							des := r.Intn(n)
							if r.Intn(10) == 0 {
								des = n + r.Intn(2)
							}
							switch call {
							case "Send", "SendToNextCommittee":
								if des < n {
									vhand(1)
								}
							case "BroadcastExclude":
								vhand(n)
								if des < n {
									vhand(-1)
								}
							default:
								vhand(n)
							}
							vcall(ps[c][j], by, k, call, des, m)
						}
					}(c, j, g, rand.New(rand.NewSource(rng.Int63())))
				}
			}
		}
		sg.Wait()
	})
	for _, f := range lates {
		f()
	}
	if done {
		vsettle()
	}
	vemit(vev{"ev": "quiet"})
	close(stop)
	vwgwait(&rg)
}

// vrunIps: members of both committees are distinguished by their address only or by their port only.
func vrunIps(s *vscen) {
	n := s.num("n", 4)
	keys := vkeysOf(s)
	vemit(vev{"ev": "hdr", "n": n})
	rng := rand.New(rand.NewSource(s.Seed))
	ports := []string{vport(), vport(), vport()}
	ad := [2][2][]string{}
	used := map[string]bool{}
	lis := []net.Listener{}
	for c := 0; c < 2; c++ {
		for j := 0; j < n; j++ {
			var ip, port string
			var l net.Listener
			for try := 0; ; try++ {
				ip, port = fmt.Sprintf("127.0.0.%d", 2+rng.Intn(n+2)), ports[rng.Intn(3)]
				if used[ip+port] {
					continue
				}
				var err error
				if l, err = net.Listen("tcp4", ip+":"+port); err == nil {
					break
				}
				if try > 3000 {
					panic("verif-harness: no address")
				}
			}
			used[ip+port] = true
			ad[c][0], ad[c][1] = append(ad[c][0], ip), append(ad[c][1], port)
			lis = append(lis, l)
			go func(c, j int, l net.Listener) {
				for {
					conn, err := l.Accept()
					if err != nil {
						return
					}
					go func() {
						defer conn.Close()
						for {
							h := make([]byte, 4)
							if _, err := io.ReadFull(conn, h); err != nil {
								return
							}
							b := make([]byte, binary.BigEndian.Uint32(h))
							if _, err := io.ReadFull(conn, b); err != nil {
								return
							}
							var m protobuf.Message
							if proto.Unmarshal(b, &m) != nil || len(m.Id) == 0 {
								vemit(vev{"ev": "got", "s": 0, "c": c, "j": j, "k": 0, "m": "?"})
								return
							}
							vemit(vev{"ev": "got", "s": int(m.Sender), "c": c, "j": j, "k": int(m.Id[0]), "m": vmlabel(&m)})
							vhand(-1)
						}
					}()
				}
			}(c, j, l)
		}
	}
	_ = keys
	atomic.StoreInt64(&vpending, 0)
	p := NewHonestParty(0, uint32(n), uint32((n-1)/3), uint32(rng.Intn(n)), ad[0][0], ad[0][1], ad[1][0], ad[1][1], nil, nil)
	p.InitSendChannel()
	p.InitSendToNextChannel()
	q := NewHonestParty(1, uint32(n), uint32((n-1)/3), uint32(rng.Intn(n)), ad[1][0], ad[1][1], nil, nil, nil, nil)
	q.InitSendChannel()
	ok := vgo(func() {
		for i := 0; i < s.num("count", 40); i++ {
			m := &protobuf.Message{Type: "x", Id: []byte{byte(i % 3), 1}, Sender: uint32(0), Data: []byte(fmt.Sprint(i))}
			call := []string{"Send", "Send", "Broadcast", "BroadcastExclude", "SendToNextCommittee", "SendToNextCommittee", "BroadcastToNextCommittee"}[rng.Intn(7)]
			des := rng.Intn(n)
			switch call {
			case "Send", "SendToNextCommittee":
				vhand(1)
			case "BroadcastExclude":
				vhand(n - 1)
			default:
				vhand(n)
			}
			if rng.Intn(3) == 0 && (call == "Send" || call == "Broadcast" || call == "BroadcastExclude") {
				m.Sender = 100
				vcall(q, 100, i%3, call, des, m)
			} else {
				vcall(p, 0, i%3, call, des, m)
			}
		}
	})
	if ok {
		vsettle()
	}
	vemit(vev{"ev": "quiet"})
	for _, l := range lis {
		l.Close()
	}
}

// vfields lists the contents of a payload, unknown fields included.
func vfields(x any) []string {
	r := []string{}
	m, ok := x.(proto.Message)
	if !ok {
		return []string{"not a message"}
	}
	v := reflect.ValueOf(x)
	if v.IsNil() {
		return []string{"nil"}
	}
	v = v.Elem()
	r = append(r, string(m.ProtoReflect().Descriptor().Name()))
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.PkgPath != "" {
			continue
		}
		switch y := v.Field(i).Interface().(type) {
		case []byte:
			if len(y) > 64 {
				h := sha256.Sum256(y)
				r = append(r, fmt.Sprintf("%d:%s", len(y), hx(h[:])))
			} else {
				r = append(r, hx(y))
			}
		case bool:
			r = append(r, fmt.Sprint(y))
		case uint32:
			r = append(r, fmt.Sprint(y))
		default:
			panic("verif-harness: field " + f.Name)
		}
	}
	if u := m.ProtoReflect().GetUnknown(); len(u) > 0 {
		r = append(r, "unknown "+hx(u))
	}
	return r
}

// vrunEnc encodes payloads of every type, sends them through the wire form of a message, and decodes them.
func vrunEnc(s *vscen) {
	vemit(vev{"ev": "hdr", "n": 0})
	rng := s.rng
	bs := func() []byte {
		switch rng.Intn(8) {
		case 0:
			return nil
		case 1:
			return []byte{}
		case 2:
			return []byte{0}
		case 3:
			return make([]byte, 1+rng.Intn(64))
		case 4:
			b := make([]byte, rng.Intn(70000))
			rng.Read(b)
			return b
		}
		b := make([]byte, rng.Intn(120))
		rng.Read(b)
		return b
	}
	bo := func() bool { return rng.Intn(2) == 0 }
	type one struct {
		t    string
		want []string
		m    *protobuf.Message
	}
	var kept []one // decoded again later: encodings must not share memory
	for i := 0; i < s.num("count", 200); i++ {
		var t string
		var pl any
		switch rng.Intn(8) {
		case 0:
			t, pl = "Value", &protobuf.Value{Value: bs(), Validation: bs()}
		case 1:
			t, pl = "Echo", &protobuf.Echo{Sigshare: bs()}
		case 2:
			t, pl = "Lock", &protobuf.Lock{Value: bs(), Sig: bs()}
		case 3:
			t, pl = "Finish", &protobuf.Finish{Value: bs(), Sig: bs()}
		case 4:
			t, pl = "Done", &protobuf.Done{CoinShare: bs()}
		case 5:
			t, pl = "Halt", &protobuf.Halt{Value: bs(), Sig: bs()}
		case 6:
			t, pl = "PreVote", &protobuf.PreVote{Vote: bo(), Value: bs(), Sig: bs()}
		case 7:
			t, pl = "Vote", &protobuf.Vote{Vote: bo(), Value: bs(), Sig: bs(), Sigshare: bs()}
		}
		want := vfields(pl)
		id := bs()
		sender := []uint32{0, 1, 3, 127, 128, 255, 256, 65535, 0x7fffffff, 0x80000000, 0xffffffff}[rng.Intn(11)]
		env := core.Encapsulation(t, id, sender, pl)
		wire, err := proto.Marshal(env)
		var back protobuf.Message
		if err != nil || proto.Unmarshal(wire, &back) != nil {
			vemit(vev{"ev": "enc", "t": t, "want": want, "have": []string{"unreadable"}, "env": []string{t, hx(id), fmt.Sprint(sender)}, "envHave": []string{}, "after": want})
			continue
		}
		have := vfields(core.Decapsulation(t, &back))
		envHave := []string{back.Type, hx(back.Id), fmt.Sprint(back.Sender)}
		vemit(vev{"ev": "enc", "t": t, "want": want, "have": have, "after": vfields(pl), "env": []string{t, hx(id), fmt.Sprint(sender)}, "envHave": envHave})
		kept = append(kept, one{t, want, env})
	}
	for _, o := range kept {
		vemit(vev{"ev": "enc", "t": o.t, "want": o.want, "have": vfields(core.Decapsulation(o.t, o.m)), "after": o.want, "env": []string{}, "envHave": []string{}})
	}
	vemit(vev{"ev": "quiet"})
}
