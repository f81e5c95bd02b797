package party

// Deterministic in-memory network around the real party code.
//
// Every honest member is a real HonestParty whose outgoing channels and incoming
// channel are owned by the harness.  All goroutines run in one testing/synctest
// bubble, so that "nothing can happen any more until a message is delivered" is
// an observable fact (synctest.Wait) and not a timeout.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/share"
	"github.com/drand/kyber/xof/blake2xb"
	"google.golang.org/protobuf/proto"
)

// ---------------------------------------------------------------- field access

// vfield returns an addressable view of an (unexported) field of *HonestParty.
func vfield(p *HonestParty, name string) reflect.Value {
	v := reflect.ValueOf(p).Elem().FieldByName(name)
	if !v.IsValid() {
		panic("verif-harness: field " + name + " not found")
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func vsetSend(p *HonestParty, chans []chan *protobuf.Message) {
	vfield(p, "sendChannels").Set(reflect.ValueOf(chans))
}
func vsetSendNext(p *HonestParty, chans []chan *protobuf.Message) {
	vfield(p, "sendToNextChannels").Set(reflect.ValueOf(chans))
}
func vsetDispatch(p *HonestParty, m *sync.Map) {
	vfield(p, "dispatchChannels").Set(reflect.ValueOf(m))
}

// ---------------------------------------------------------------- trace output

type vev map[string]any

var voutFile *os.File
var voutMu sync.Mutex
var vprogress int64 // bumped on every event (watchdog)
var vprogMu sync.Mutex

func vbump() {
	vprogMu.Lock()
	vprogress++
	vprogMu.Unlock()
}

func vemit(e vev) {
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	voutMu.Lock()
	voutFile.Write(append(b, '\n'))
	voutMu.Unlock()
	vbump()
}

func hx(b []byte) string { return hex.EncodeToString(b) }

// ---------------------------------------------------------------- network

type vnode struct {
	Com int
	Pid uint32
}

type vpkt struct {
	seq  int
	from vnode
	to   vnode
	m    *protobuf.Message
	wt   int // scheduler weight class, lower first
	slow int // how much later than others, plus one; 0: not yet known
}

// vbyz is the adversary's hook for a corrupted member (or the dealer).
type vbyz interface {
	// onRecv is called when a message is delivered to the corrupted member.
	onRecv(net *vnet, pk *vpkt)
}

type vcom struct {
	idx  int
	P    []*HonestParty // nil for corrupted members without a real instance
	recv []chan *protobuf.Message
	sk   []*share.PriShare
	pk   *share.PubPoly
	out  [][]chan *protobuf.Message // out[i][j]: i -> j within committee
	next [][]chan *protobuf.Message // next[i][j]: i -> j of next committee
	byz  map[uint32]bool
}

type vnet struct {
	N, F     uint32
	coms     []*vcom
	extra    []*vtap // further taps (clients, twins)
	pending  []*vpkt
	seq      int
	rng      *rand.Rand
	handler  map[vnode]vbyz
	onSend   func(pk *vpkt) []*vpkt // filter applied to every drained packet
	onDeliv  func(pk *vpkt)         // called just before a delivery to an honest member
	prio     func(pk *vpkt) int     // scheduling class, lower first; -1 = hold back
	onIdle   func()                 // called whenever the system is quiescent
	mode     string                 // "step" | "burst"
	policy   string                 // "random" | "fifo" | "lifo"
	steps    int
	maxSteps int
	quiet    bool
	nextOf   map[int]int // committee that follows (default: the next one)
	noise    []*vnoise
	nrng     *rand.Rand
	faulty   func(vnode) bool // whose messages get noise (default: isByz)
}

// vnoise adds messages next to those of a faulty member.
type vnoise struct {
	prob   float64
	what   string // "same" (duplicates), "data", "sender", "id", "type"
	data   string // what becomes of the payload: "", "empty", "rand", "cut", "flip", "tail", "ff"
	n      int    // how many
	left   int    // how often
	before bool
}

// addNoise reads the noise of a scenario.
func (net *vnet) addNoise(s *vscen, faulty func(vnode) bool) {
	l, _ := s.P["noise"].([]any)
	net.nrng = rand.New(rand.NewSource(s.Seed + 77))
	net.faulty = faulty
	if faulty == nil {
		net.faulty = net.isByz
	}
	for _, x := range l {
		q := x.(map[string]any)
		str := func(k string) string { v, _ := q[k].(string); return v }
		num := func(k string) float64 { v, _ := q[k].(float64); return v }
		net.noise = append(net.noise, &vnoise{prob: num("p"), what: str("what"), data: str("data"), n: int(num("n")), left: int(num("left")), before: num("before") == 1})
	}
}

// around delivers the noise that goes with a packet.
func (net *vnet) around(pk *vpkt, before bool) {
	for _, z := range net.noise {
		if z.before != before || z.left <= 0 || net.nrng.Float64() >= z.prob {
			continue
		}
		z.left--
		for k := 0; k < z.n; k++ {
			m := proto.Clone(pk.m).(*protobuf.Message)
			d := m.Data
			switch z.data {
			case "empty":
				d = nil
			case "rand":
				d = make([]byte, net.nrng.Intn(200))
				net.nrng.Read(d)
			case "cut":
				d = d[:net.nrng.Intn(len(d)+1)]
			case "flip":
				d = append([]byte{}, d...)
				for j := net.nrng.Intn(4); j >= 0 && len(d) > 0; j-- {
					d[net.nrng.Intn(len(d))] ^= 1 << net.nrng.Intn(8)
				}
			case "tail":
				t := make([]byte, 1+net.nrng.Intn(20))
				net.nrng.Read(t)
				d = append(append([]byte{}, d...), t...)
			case "ff":
				d = bytes.Repeat([]byte{0xff}, 1+net.nrng.Intn(100))
			}
			m.Data = d
			other := false
			switch z.what {
			case "sender":
				m.Sender = []uint32{net.N, net.N + 1, 255, 0x7fffffff, 0x80000000, 0xffffffff}[net.nrng.Intn(6)]
			case "id":
				t := make([]byte, 1+net.nrng.Intn(6))
				net.nrng.Read(t)
				m.Id = append(append([]byte{}, m.Id...), t...)
				m.Id = append(m.Id, "#?"...)
				other = true
			case "type":
				m.Type = []string{"Nonsense", "", m.Type + "x", "Stop"}[net.nrng.Intn(4)]
				other = true
			}
			if net.onDeliv != nil && !other {
				net.onDeliv(&vpkt{seq: pk.seq, from: pk.from, to: pk.to, m: m, wt: pk.wt})
			}
			net.coms[pk.to.Com].recv[pk.to.Pid] <- m
		}
		net.wait()
	}
}

// vtap is a set of outgoing channels that belongs to from and leads to committee com.
type vtap struct {
	from  vnode
	com   int
	chans []chan *protobuf.Message
}

const vchanCap = 1 << 14

func vmkChans(n uint32) []chan *protobuf.Message {
	r := make([]chan *protobuf.Message, n)
	for i := range r {
		r[i] = make(chan *protobuf.Message, vchanCap)
	}
	return r
}

// vkeyseed, when not 0, determines the signing keys of the committees.
var vkeyseed int64

func vkeygen(n, t uint32, seed int64) ([]*share.PriShare, *share.PubPoly) {
	suite := kyberbls.NewBLS12381Suite()
	st := blake2xb.New([]byte(fmt.Sprint("keys", seed)))
	pri := share.NewPriPoly(suite.G2(), int(t), suite.G1().Scalar().Pick(st), st)
	return pri.Shares(int(n)), pri.Commit(suite.G2().Point().Base())
}

func newVnet(N, F uint32, ncom int, seed int64, byz map[vnode]bool) *vnet {
	net := &vnet{N: N, F: F, rng: rand.New(rand.NewSource(seed)), handler: map[vnode]vbyz{}, mode: "step", policy: "random", maxSteps: 200000}
	for c := 0; c < ncom; c++ {
		cm := &vcom{idx: c, byz: map[uint32]bool{}}
		if vkeyseed != 0 {
			cm.sk, cm.pk = vkeygen(N, 2*F+1, vkeyseed+int64(c))
		} else {
			cm.sk, cm.pk = SigKeyGen(N, 2*F+1)
		}
		net.coms = append(net.coms, cm)
		for i := uint32(0); i < N; i++ {
			cm.out = append(cm.out, vmkChans(N))
			cm.next = append(cm.next, vmkChans(N))
			cm.recv = append(cm.recv, make(chan *protobuf.Message, vchanCap))
			if byz[vnode{c, i}] {
				cm.byz[i] = true
				cm.P = append(cm.P, nil)
				continue
			}
			cm.P = append(cm.P, net.mkParty(c, i, cm.out[i], cm.next[i], cm.recv[i]))
		}
	}
	return net
}

func vdummy(n uint32) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = "x"
	}
	return r
}

func (net *vnet) mkParty(c int, i uint32, out, next []chan *protobuf.Message, recv chan *protobuf.Message) *HonestParty {
	cm := net.coms[c]
	d := vdummy(net.N)
	var sk *share.PriShare
	if i < net.N {
		sk = cm.sk[i]
	}
	p := NewHonestParty(uint32(c), net.N, net.F, i, d, d, d, d, cm.pk, sk)
	vsetSend(p, out)
	vsetSendNext(p, next)
	if recv != nil {
		vsetDispatch(p, core.MakeDispatcheChannels(recv, net.N))
	}
	return p
}

func (net *vnet) isByz(n vnode) bool {
	return n.Com >= 0 && n.Com < len(net.coms) && net.coms[n.Com].byz[n.Pid]
}

// inject puts a message from a corrupted member (or a replay) in flight.
func (net *vnet) inject(from, to vnode, m *protobuf.Message) *vpkt {
	net.seq++
	pk := &vpkt{seq: net.seq, from: from, to: to, m: m}
	net.pending = append(net.pending, pk)
	return pk
}

func (net *vnet) wait() {
	vbump()
	synctest.Wait()
}

// drain collects everything the real code put on its outgoing channels.
func (net *vnet) drain() {
	take := func(from vnode, com int, chans []chan *protobuf.Message) {
		for j := range chans {
			for {
				select {
				case m := <-chans[j]:
					if m == nil {
						continue
					}
					net.seq++
					pk := &vpkt{seq: net.seq, from: from, to: vnode{com, uint32(j)}, m: proto.Clone(m).(*protobuf.Message)}
					pks := []*vpkt{pk}
					if net.onSend != nil {
						pks = net.onSend(pk)
					}
					net.pending = append(net.pending, pks...)
					continue
				default:
				}
				break
			}
		}
	}
	for _, cm := range net.coms {
		for i := range cm.out {
			take(vnode{cm.idx, uint32(i)}, cm.idx, cm.out[i])
			nx, ok := net.nextOf[cm.idx]
			if !ok {
				nx = cm.idx + 1
			}
			take(vnode{cm.idx, uint32(i)}, nx, cm.next[i])
		}
	}
	for _, t := range net.extra {
		take(t.from, t.com, t.chans)
	}
}

func (net *vnet) pick() *vpkt {
	best := 1 << 30
	var cand []int
	for i, pk := range net.pending {
		c := 0
		if net.prio != nil {
			c = net.prio(pk)
		}
		if c < 0 {
			continue
		}
		if c < best {
			best = c
			cand = cand[:0]
		}
		if c == best {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	var k int
	switch net.policy {
	case "fifo":
		k = cand[0]
	case "lifo":
		k = cand[len(cand)-1]
	default:
		k = cand[net.rng.Intn(len(cand))]
	}
	pk := net.pending[k]
	net.pending = append(net.pending[:k:k], net.pending[k+1:]...)
	return pk
}

func (net *vnet) deliver(pk *vpkt) {
	if h, ok := net.handler[pk.to]; ok {
		h.onRecv(net, pk)
	}
	if pk.to.Com < 0 || pk.to.Com >= len(net.coms) || net.isByz(pk.to) {
		return
	}
	noisy := len(net.noise) > 0 && net.faulty(pk.from) && !net.faulty(pk.to)
	if noisy {
		net.around(pk, true)
	}
	if net.onDeliv != nil {
		net.onDeliv(pk)
	}
	net.coms[pk.to.Com].recv[pk.to.Pid] <- pk.m
	if noisy {
		net.around(pk, false)
	}
}

// run delivers until nothing is in flight; it returns when the system is quiescent.
func (net *vnet) run() {
	for {
		net.wait()
		net.drain()
		if net.onIdle != nil {
			net.onIdle()
		}
		n := 1
		if net.mode == "burst" {
			n = 1 + net.rng.Intn(1+len(net.pending))
		}
		did, first := 0, 0
		for k := 0; k < n; k++ {
			pk := net.pick()
			if pk == nil {
				break
			}
			if k == 0 {
				first = pk.slow
			} else if pk.slow > first { // a slow one waits until nothing else can happen
				net.pending = append(net.pending, pk)
				break
			}
			did++
			net.steps++
			net.deliver(pk)
		}
		if did == 0 {
			return
		}
		if net.steps > net.maxSteps {
			// messages without end
			voutMu.Lock()
			voutFile.Write([]byte("{\"ev\":\"hang\"}\n"))
			os.Exit(97)
		}
	}
}

// run1 delivers one message of at most this scheduling class.
func (net *vnet) run1(max int) {
	net.wait()
	net.drain()
	if net.onIdle != nil {
		net.onIdle()
	}
	p := net.prio
	net.prio = func(pk *vpkt) int {
		c := p(pk)
		if c > max {
			return -1
		}
		return c
	}
	pk := net.pick()
	net.prio = p
	if pk != nil {
		net.deliver(pk)
		net.wait()
		net.drain()
	}
}

// ---------------------------------------------------------------- driver

type vscen struct {
	ID     int            `json:"id"`
	Kind   string         `json:"kind"`
	N      uint32         `json:"n"`
	F      uint32         `json:"f"`
	Seed   int64          `json:"seed"`
	Mode   string         `json:"mode"`
	Policy string         `json:"policy"`
	Byz    []uint32       `json:"byz"`
	P      map[string]any `json:"p"`
}

func (s *vscen) str(k, d string) string {
	if v, ok := s.P[k].(string); ok {
		return v
	}
	return d
}
func (s *vscen) num(k string, d int) int {
	if v, ok := s.P[k].(float64); ok {
		return int(v)
	}
	return d
}
func (s *vscen) nums(k string) []int {
	r := []int{}
	if v, ok := s.P[k].([]any); ok {
		for _, x := range v {
			r = append(r, int(x.(float64)))
		}
	}
	return r
}

var vkinds = map[string]func(s *vscen){}

func TestVerifDriver(t *testing.T) {
	scenFile, outFile := os.Getenv("VERIF_SCEN"), os.Getenv("VERIF_OUT")
	if scenFile == "" {
		t.Skip("no scenarios")
	}
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(io.Discard)
	}
	raw, err := os.ReadFile(scenFile)
	if err != nil {
		t.Fatal(err)
	}
	var scens []*vscen
	if err := json.Unmarshal(raw, &scens); err != nil {
		t.Fatal(err)
	}
	voutFile, err = os.OpenFile(outFile, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		t.Fatal(err)
	}
	limit := 20
	// wall-clock watchdog, outside the bubble
	go func() {
		var last int64 = -1
		idle := 0
		for {
			time.Sleep(500 * time.Millisecond)
			vprogMu.Lock()
			cur := vprogress
			vprogMu.Unlock()
			if cur == last {
				idle++
			} else {
				idle = 0
			}
			last = cur
			if idle > 2*limit {
				voutMu.Lock()
				voutFile.Write([]byte("{\"ev\":\"hang\"}\n"))
				os.Exit(97)
			}
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		for _, s := range scens {
			f, ok := vkinds[s.Kind]
			if !ok {
				panic("verif-harness: unknown kind " + s.Kind)
			}
			vemit(vev{"ev": "begin", "id": s.ID})
			f(s)
			vemit(vev{"ev": "end", "id": s.ID})
		}
		vemit(vev{"ev": "alldone"})
		os.Exit(0)
	})
}
