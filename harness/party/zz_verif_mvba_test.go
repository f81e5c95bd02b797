package party

// One agreement (MainProcess) by the real code of the honest members.  Faulty members run the
// real code behind rules, or are played by an adversary that holds all their keys and sees all
// they are sent.  Every message is described for the specification by what its certificates and
// shares really prove; signatures are unique, so that is a comparison with the signature made
// with the secret keys.

import (
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"math/rand"
	"sync"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/drand/kyber"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/share"
	"github.com/drand/kyber/sign/bls"
	"golang.org/x/crypto/sha3"
	"google.golang.org/protobuf/proto"
)

func init() {
	vkinds["mvba"] = vrunMVBA
	vkinds["spb"] = vrunSPB
}

func vbe(x uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, x); return b }
func vcat(x ...[]byte) []byte {
	r := []byte{}
	for _, b := range x {
		r = append(r, b...)
	}
	return r
}
func vlabel(v []byte) string {
	if len(v) <= 6 {
		return "v" + hex.EncodeToString(v)
	}
	h := sha256.Sum256(v)
	return "h" + hex.EncodeToString(h[:6])
}

// vsigner makes the unique signatures of a committee.
type vsigner struct {
	mu    sync.Mutex
	suite *kyberbls.Suite
	sk    []*share.PriShare
	x     kyber.Scalar
	memo  map[string][]byte
}

func newVsigner(sk []*share.PriShare, t, n int) *vsigner {
	s := &vsigner{suite: kyberbls.NewBLS12381Suite().(*kyberbls.Suite), sk: sk, memo: map[string][]byte{}}
	x, err := share.RecoverSecret(s.suite.G2(), sk, t, n)
	if err != nil {
		panic("verif-harness: " + err.Error())
	}
	s.x = x
	return s
}
func (s *vsigner) sign(k string, x kyber.Scalar, m []byte) []byte {
	key := k + "/" + string(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	if r, ok := s.memo[key]; ok {
		return r
	}
	r, err := bls.NewSchemeOnG1(s.suite).Sign(x, m)
	if err != nil {
		panic("verif-harness: " + err.Error())
	}
	s.memo[key] = r
	return r
}
func (s *vsigner) cert(m []byte) []byte { return s.sign("*", s.x, m) }
func (s *vsigner) part(i uint32, m []byte) []byte {
	return append([]byte{byte(i >> 8), byte(i)}, s.sign(itoa(i), s.sk[i].V, m)...)
}
func (s *vsigner) isPart(i uint32, m, b []byte) bool {
	return int(i) < len(s.sk) && string(s.part(i, m)) == string(b)
}

type vagree struct {
	*vsigner
	N, F  uint32
	ID    []byte
	pred  func([]byte) bool
	valmu sync.Mutex
	vals  map[string][]byte          // label -> value
	seen  map[string]map[string]bool // r/j/st -> labels seen
	memoM map[string]vev
	led   map[int]int
}

func (a *vagree) idr(r int) []byte     { return vcat(a.ID, vbe(uint32(r))) }
func (a *vagree) idrj(r, j int) []byte { return vcat(a.idr(r), vbe(uint32(j))) }
func (a *vagree) echo(r, j, st int, v []byte) []byte {
	h := sha3.Sum512(v)
	return vcat([]byte("Echo"), a.idrj(r, j), []byte{byte(st)}, h[:])
}
func (a *vagree) coin(r int) []byte   { return vcat([]byte("Done"), a.idr(r)) }
func (a *vagree) no(r int) []byte     { return vcat([]byte{0}, a.idr(r)) }
func (a *vagree) unlock(r int) []byte { return vcat([]byte("Unlock"), a.idr(r)) }

// leader predicts the leader of a round; only schedules depend on it.
func (a *vagree) leader(r int) int {
	if l, ok := a.led[r]; ok {
		return l
	}
	l := int(binary.BigEndian.Uint32(a.cert(a.coin(r))) % a.N)
	a.led[r] = l
	return l
}

// where parses the identifier of a message.
func (a *vagree) where(m *protobuf.Message) (r, j, st int, ok bool) {
	id := m.Id
	if len(id) < len(a.ID)+4 || string(id[:len(a.ID)]) != string(a.ID) {
		return -1, -1, 0, false
	}
	id = id[len(a.ID):]
	r = int(binary.BigEndian.Uint32(id))
	switch {
	case m.Type == "Value" || m.Type == "Echo":
		if len(id) != 9 {
			return -1, -1, 0, false
		}
		j, st = int(binary.BigEndian.Uint32(id[4:])), int(id[8])
		ok = j < int(a.N) && (st == 1 || st == 2)
	default:
		ok = len(id) == 4
	}
	if r > 1000 {
		ok = false
	}
	return
}

func (a *vagree) note(v []byte) string {
	l := vlabel(v)
	a.valmu.Lock() // results are noted by goroutines of their own
	a.vals[l] = append([]byte{}, v...)
	a.valmu.Unlock()
	return l
}

func (a *vagree) val(l string) []byte {
	a.valmu.Lock()
	defer a.valmu.Unlock()
	return a.vals[l]
}

// stagecert: the instances of the round a certificate of this stage for the value is valid for.
func (a *vagree) stagecert(r, st int, v, sig []byte) []int {
	js := []int{}
	for j := 0; j < int(a.N); j++ {
		if string(a.cert(a.echo(r, j, st, v))) == string(sig) {
			js = append(js, j)
		}
	}
	return js
}

// just describes the justification of a value proposed in round r: how many of the previous rounds
// are shown to be unlocked, and which lock, if any, follows.
func (a *vagree) just(r int, v, val []byte) (un, lr, lj int) {
	lr, lj = -1, -1
	for k := r - 1; k >= 0; k-- {
		u := a.cert(a.unlock(k))
		if cut := len(val) - len(u); cut >= 0 && string(val[cut:]) == string(u) {
			val = val[:cut]
			un++
			continue
		}
		if js := a.stagecert(k, 1, v, val); len(js) > 0 {
			lr, lj = k, js[0]
		}
		return
	}
	return
}

// describe says what a message proves.
func (a *vagree) describe(m *protobuf.Message) vev {
	key := m.Type + "|" + string(m.Id) + "|" + itoa(m.Sender) + "|" + string(m.Data)
	if e, ok := a.memoM[key]; ok {
		if m.Type != "Echo" || e["v"] != "?" {
			return e
		}
	}
	e := vev{"t": m.Type, "from": m.Sender, "r": -1, "j": -1, "s": 0, "v": "", "ok": false, "yes": false, "js": []int{}, "un": 0, "lr": -1, "lj": -1, "share": false, "pred": true}
	a.memoM[key] = e
	r, j, st, ok := a.where(m)
	if !ok {
		return e
	}
	e["r"], e["j"], e["s"] = r, j, st
	switch m.Type {
	case "Value":
		var c protobuf.Value
		proto.Unmarshal(m.Data, &c) // what can be decoded of a malformed payload may be taken for it
		l := a.note(c.Value)
		e["v"], e["pred"] = l, a.pred(c.Value)
		k := itoa(uint32(r)) + "/" + itoa(uint32(j)) + "/" + itoa(uint32(st))
		if a.seen[k] == nil {
			a.seen[k] = map[string]bool{}
		}
		a.seen[k][l] = true
		if st == 2 {
			e["ok"] = string(a.cert(a.echo(r, j, 1, c.Value))) == string(c.Validation)
		} else {
			e["un"], e["lr"], e["lj"] = a.just(r, c.Value, c.Validation)
		}
	case "Echo":
		var c protobuf.Echo
		proto.Unmarshal(m.Data, &c) // what can be decoded of a malformed payload may be taken for it
		e["v"] = "?"
		for l := range a.seen[itoa(uint32(r))+"/"+itoa(uint32(j))+"/"+itoa(uint32(st))] {
			if a.isPart(m.Sender, a.echo(r, j, st, a.val(l)), c.Sigshare) {
				e["v"], e["share"] = l, true
			}
		}
	case "Finish":
		var c protobuf.Finish
		proto.Unmarshal(m.Data, &c) // what can be decoded of a malformed payload may be taken for it
		e["v"] = a.note(c.Value)
		e["ok"] = m.Sender < a.N && string(a.cert(a.echo(r, int(m.Sender), 2, c.Value))) == string(c.Sig)
	case "Done":
		var c protobuf.Done
		proto.Unmarshal(m.Data, &c) // what can be decoded of a malformed payload may be taken for it
		e["share"] = a.isPart(m.Sender, a.coin(r), c.CoinShare)
	case "PreVote":
		var c protobuf.PreVote
		proto.Unmarshal(m.Data, &c) // what can be decoded of a malformed payload may be taken for it
		e["yes"] = c.Vote
		if c.Vote {
			e["v"] = a.note(c.Value)
			e["js"] = a.stagecert(r, 1, c.Value, c.Sig)
		} else {
			e["share"] = a.isPart(m.Sender, a.no(r), c.Sig)
		}
	case "Vote":
		var c protobuf.Vote
		proto.Unmarshal(m.Data, &c) // what can be decoded of a malformed payload may be taken for it
		e["yes"] = c.Vote
		if c.Vote {
			e["v"] = a.note(c.Value)
			js := a.stagecert(r, 1, c.Value, c.Sig)
			e["js"] = js
			e["share"] = len(js) > 0 && a.isPart(m.Sender, a.echo(r, js[0], 2, c.Value), c.Sigshare)
		} else {
			e["ok"] = string(a.cert(a.no(r))) == string(c.Sig)
			e["share"] = a.isPart(m.Sender, a.unlock(r), c.Sigshare)
		}
	case "Halt":
		var c protobuf.Halt
		proto.Unmarshal(m.Data, &c) // what can be decoded of a malformed payload may be taken for it
		e["v"] = a.note(c.Value)
		e["js"] = a.stagecert(r, 2, c.Value, c.Sig)
	}
	return e
}

// ---------------------------------------------------------------- the adversary

type vadv struct {
	*vagree
	net    *vnet
	rng    *rand.Rand
	bad    []uint32
	honest []uint32
	known  map[string]map[uint32]bool // statement -> honest members whose share it has
	got    map[string][]byte          // certificates seen
	msgs   []*protobuf.Message        // everything seen
	maxr   int
	left   int
	vals2  [][]byte
	lockOf map[int][]byte // round -> value it knows locked
	prefer map[string][]byte
	once   map[string]bool
	wild   float64
}

func (v *vadv) learn(m *protobuf.Message) {
	r, j, st, ok := v.where(m)
	if !ok {
		return
	}
	if r > v.maxr && r < 50 {
		v.maxr = r
	}
	v.msgs = append(v.msgs, m)
	e := v.describe(m)
	add := func(stmt []byte) {
		if v.known[string(stmt)] == nil {
			v.known[string(stmt)] = map[uint32]bool{}
		}
		v.known[string(stmt)][m.Sender] = true
	}
	val := v.val(e["v"].(string))
	switch m.Type {
	case "Echo":
		if e["share"].(bool) {
			add(v.echo(r, j, st, val))
		}
	case "Value":
		if st == 2 && e["ok"].(bool) {
			v.got[string(v.echo(r, j, 1, val))] = v.cert(v.echo(r, j, 1, val))
			if j == v.leader(r) {
				v.lockOf[r] = val
			}
		}
	case "Finish":
		if e["ok"].(bool) {
			v.got[string(v.echo(r, int(m.Sender), 2, val))] = v.cert(v.echo(r, int(m.Sender), 2, val))
		}
	case "Done":
		if e["share"].(bool) {
			add(v.coin(r))
		}
	case "PreVote":
		if e["share"].(bool) {
			add(v.no(r))
		}
		for _, j := range e["js"].([]int) {
			v.got[string(v.echo(r, j, 1, val))] = v.cert(v.echo(r, j, 1, val))
			v.lockOf[r] = val
		}
	case "Vote":
		for _, j := range e["js"].([]int) {
			v.got[string(v.echo(r, j, 1, val))] = v.cert(v.echo(r, j, 1, val))
			if e["share"].(bool) {
				add(v.echo(r, j, 2, val))
			}
			v.lockOf[r] = val
		}
		if e["ok"].(bool) {
			v.got[string(v.no(r))] = v.cert(v.no(r))
		}
		if !e["yes"].(bool) && e["share"].(bool) {
			add(v.unlock(r))
		}
	case "Halt":
		for _, j := range e["js"].([]int) {
			v.got[string(v.echo(r, j, 2, val))] = v.cert(v.echo(r, j, 2, val))
		}
	}
}

// can: the adversary can make the certificate of this statement.
func (v *vadv) can(stmt []byte) bool {
	if _, ok := v.got[string(stmt)]; ok {
		return true
	}
	return len(v.known[string(stmt)])+len(v.bad) >= int(2*v.F+1)
}

// certOr is the certificate of the statement when the adversary can make it, and something else otherwise.
func (v *vadv) certOr(stmt []byte) []byte {
	if v.can(stmt) {
		return v.cert(stmt)
	}
	switch v.rng.Intn(5) {
	case 0:
		return []byte{}
	case 1:
		return v.part(v.bad[0], stmt)[2:]
	case 2:
		for _, s := range v.got {
			return s
		}
		return v.part(v.bad[0], stmt)
	case 3:
		b := make([]byte, 48)
		v.rng.Read(b)
		return b
	}
	return append([]byte{0xc0}, make([]byte, 47)...)
}

// shareOr is mostly b's share of the statement.
func (v *vadv) shareOr(b uint32, stmt []byte) []byte {
	if v.rng.Float64() > v.wild {
		return v.part(b, stmt)
	}
	switch v.rng.Intn(5) {
	case 0:
		return v.part(v.bad[v.rng.Intn(len(v.bad))], stmt)
	case 1: // another's share, if it has one
		for i := range v.known[string(stmt)] {
			return v.part(i, stmt)
		}
		return []byte{0}
	case 2:
		x := append([]byte{}, v.part(b, stmt)...)
		x[1] = byte(v.rng.Intn(int(v.N) + 2))
		return x
	case 3:
		return []byte{}
	}
	x := make([]byte, 50)
	v.rng.Read(x)
	x[0], x[1] = 0, byte(b)
	return x
}

func (v *vadv) send(b uint32, to []uint32, typ string, id []byte, pl proto.Message) {
	for _, t := range to {
		pk := v.net.inject(vnode{0, b}, vnode{0, t}, &protobuf.Message{Type: typ, Id: id, Sender: b, Data: vmar(pl)})
		if v.rng.Intn(3) == 0 {
			pk.wt = 1
		}
	}
}

func (v *vadv) some() []uint32 {
	switch v.rng.Intn(4) {
	case 0:
		return v.honest
	}
	k := 1 + v.rng.Intn(len(v.honest))
	r := []uint32{}
	for _, i := range v.rng.Perm(len(v.honest))[:k] {
		r = append(r, v.honest[i])
	}
	return r
}

// unlocked: how the value could be justified in round r; the adversary uses what it has.
func (v *vadv) validation(r int, val []byte) []byte {
	if r == 0 {
		if v.rng.Intn(4) == 0 {
			return []byte("x")
		}
		return nil
	}
	out := []byte{}
	// a lock of a round, then unlocks
	var base []byte
	k := r - 1
	tail := []byte{}
	for ; k >= 0; k-- {
		if v.can(v.unlock(k)) && v.rng.Intn(8) > 0 {
			tail = append(append([]byte{}, v.cert(v.unlock(k))...), tail...)
			continue
		}
		base = v.certOr(v.echo(k, v.leader(k), 1, val))
		break
	}
	out = append(append(out, base...), tail...)
	if v.rng.Float64() < v.wild {
		switch v.rng.Intn(3) {
		case 0:
			return base
		case 1:
			return nil
		default:
			return append(out, v.certOr(v.no(r-1))...)
		}
	}
	return out
}

func (v *vadv) act() {
	r := v.maxr
	if v.rng.Intn(6) == 0 {
		r = v.rng.Intn(v.maxr + 2)
	}
	b := v.bad[v.rng.Intn(len(v.bad))]
	to := v.some()
	key := func(x string) string { return x + "/" + itoa(uint32(r)) + "/" + itoa(b) }
	val := v.vals2[v.rng.Intn(len(v.vals2))]
	if x, ok := v.prefer[key("v")]; ok && v.rng.Intn(4) > 0 {
		val = x
	}
	if x, ok := v.lockOf[r-1]; ok && v.rng.Intn(3) > 0 {
		val = x
	}
	l := v.leader(r)
	switch v.rng.Intn(9) {
	case 0, 1: // propose, possibly different values to different members
		v.prefer[key("v")] = val
		rest := []uint32{}
		in := map[uint32]bool{}
		for _, t := range to {
			in[t] = true
		}
		for _, t := range v.honest {
			if !in[t] {
				rest = append(rest, t)
			}
		}
		v.send(b, to, "Value", vcat(v.idrj(r, int(b)), []byte{1}), &protobuf.Value{Value: val, Validation: v.validation(r, val)})
		if v.rng.Intn(2) == 0 {
			v2 := v.vals2[v.rng.Intn(len(v.vals2))]
			v.send(b, rest, "Value", vcat(v.idrj(r, int(b)), []byte{1}), &protobuf.Value{Value: v2, Validation: v.validation(r, v2)})
		} else {
			v.send(b, rest, "Value", vcat(v.idrj(r, int(b)), []byte{1}), &protobuf.Value{Value: val, Validation: v.validation(r, val)})
		}
	case 2: // second stage
		for _, x := range v.vals2 {
			if v.can(v.echo(r, int(b), 1, x)) {
				val = x
			}
		}
		if v.can(v.echo(r, int(b), 1, val)) || v.rng.Float64() < v.wild {
			v.send(b, to, "Value", vcat(v.idrj(r, int(b)), []byte{2}), &protobuf.Value{Value: val, Validation: v.certOr(v.echo(r, int(b), 1, val))})
		}
	case 3: // finish
		for _, x := range v.vals2 {
			if v.can(v.echo(r, int(b), 2, x)) {
				val = x
			}
		}
		if v.can(v.echo(r, int(b), 2, val)) || v.rng.Float64() < v.wild {
			sg := v.certOr(v.echo(r, int(b), 2, val))
			if !v.can(v.echo(r, int(b), 2, val)) && v.can(v.echo(r, int(b), 1, val)) {
				sg = v.cert(v.echo(r, int(b), 1, val))
			}
			v.send(b, to, "Finish", v.idr(r), &protobuf.Finish{Value: val, Sig: sg})
		}
	case 4: // coin shares
		v.send(b, to, "Done", v.idr(r), &protobuf.Done{CoinShare: v.shareOr(b, v.coin(r))})
	case 5: // prevote
		if v.rng.Intn(2) == 0 {
			v.send(b, to, "PreVote", v.idr(r), &protobuf.PreVote{Vote: false, Sig: v.shareOr(b, v.no(r))})
		} else {
			v.yes(r, l, func(x []byte) {
				v.send(b, to, "PreVote", v.idr(r), &protobuf.PreVote{Vote: true, Value: x, Sig: v.certOr(v.echo(r, l, 1, x))})
			})
		}
	case 6: // vote
		if v.rng.Intn(2) == 0 {
			if v.can(v.no(r)) || v.rng.Float64() < v.wild {
				v.send(b, to, "Vote", v.idr(r), &protobuf.Vote{Vote: false, Sig: v.certOr(v.no(r)), Sigshare: v.shareOr(b, v.unlock(r))})
			}
		} else {
			v.yes(r, l, func(x []byte) {
				v.send(b, to, "Vote", v.idr(r), &protobuf.Vote{Vote: true, Value: x, Sig: v.certOr(v.echo(r, l, 1, x)), Sigshare: v.shareOr(b, v.echo(r, l, 2, x))})
			})
		}
	case 7: // halt
		j := l
		if v.rng.Intn(4) == 0 {
			j = v.rng.Intn(int(v.N))
		}
		x := val
		for _, w := range v.vals2 {
			if v.can(v.echo(r, j, 2, w)) {
				x = w
			}
		}
		if v.can(v.echo(r, j, 2, x)) || v.rng.Float64() < v.wild {
			sg := v.certOr(v.echo(r, j, 2, x))
			if !v.can(v.echo(r, j, 2, x)) && v.rng.Intn(2) == 0 {
				sg = v.certOr(v.echo(r, j, 1, x))
			}
			v.send(b, to, "Halt", v.idr(r), &protobuf.Halt{Value: x, Sig: sg})
		}
	case 8: // acknowledgements, replays, foreign instances
		switch v.rng.Intn(3) {
		case 0:
			t := to[0]
			st := 1 + v.rng.Intn(2)
			for lab := range v.seen[itoa(uint32(r))+"/"+itoa(t)+"/"+itoa(uint32(st))] {
				v.send(b, []uint32{t}, "Echo", vcat(v.idrj(r, int(t)), []byte{byte(st)}), &protobuf.Echo{Sigshare: v.shareOr(b, v.echo(r, int(t), st, v.val(lab)))})
				break
			}
		case 1: // a message seen, now from this member
			if len(v.msgs) > 0 {
				m := proto.Clone(v.msgs[v.rng.Intn(len(v.msgs))]).(*protobuf.Message)
				m.Sender = b
				for _, t := range to {
					v.net.inject(vnode{0, b}, vnode{0, t}, proto.Clone(m).(*protobuf.Message))
				}
			}
		case 2: // proposes in the place of another
			j := v.honest[v.rng.Intn(len(v.honest))]
			v.send(b, to, "Value", vcat(v.idrj(r, int(j)), []byte{byte(1 + v.rng.Intn(2))}), &protobuf.Value{Value: val, Validation: v.certOr(v.echo(r, int(j), 1, val))})
		}
	}
}

// yes calls f with a value that has a lock for the leader, if the adversary has the certificate, or sometimes without.
func (v *vadv) yes(r, l int, f func([]byte)) {
	for lab := range v.vals {
		x := v.val(lab)
		if v.can(v.echo(r, l, 1, x)) {
			f(x)
			return
		}
	}
	if v.rng.Float64() < v.wild {
		f(v.vals2[v.rng.Intn(len(v.vals2))])
	}
}

type vadvRecv struct{ v *vadv }

func (h *vadvRecv) onRecv(net *vnet, pk *vpkt) { h.v.learn(pk.m) }

// ---------------------------------------------------------------- scenario

type vmrule struct {
	T    string
	S    int
	R    int
	To   map[uint32]bool
	Act  string
	P    float64
	N    int
	Lead int // 1: only of the leader, 0: only of others, -1: any
	From map[uint32]bool
	Cls  int
	Rmax int
}

func vmrules(x any) []*vmrule {
	out := []*vmrule{}
	l, _ := x.([]any)
	for _, y := range l {
		q := y.(map[string]any)
		r := &vmrule{T: q["t"].(string), R: -1, P: 1, Lead: -1, Rmax: 1000, To: map[uint32]bool{}, From: map[uint32]bool{}}
		num := func(k string, d *int) {
			if f, ok := q[k].(float64); ok {
				*d = int(f)
			}
		}
		num("s", &r.S)
		num("r", &r.R)
		num("n", &r.N)
		num("lead", &r.Lead)
		num("cls", &r.Cls)
		num("rmax", &r.Rmax)
		if a, ok := q["act"].(string); ok {
			r.Act = a
		}
		if f, ok := q["p"].(float64); ok {
			r.P = f
		}
		if m, ok := q["to"].([]any); ok {
			for _, v := range m {
				r.To[uint32(v.(float64))] = true
			}
		}
		if m, ok := q["from"].([]any); ok {
			for _, v := range m {
				r.From[uint32(v.(float64))] = true
			}
		}
		out = append(out, r)
	}
	return out
}

func vrunMVBA(s *vscen) {
	vkeyseed = int64(s.num("keyseed", 0))
	net := newVnet(s.N, s.F, 1, s.Seed, nil)
	vkeyseed = 0
	net.mode, net.policy = s.Mode, s.Policy
	net.maxSteps = 1 << 30
	cm := net.coms[0]
	rng := rand.New(rand.NewSource(s.Seed ^ 0x5eed))
	sg := newVsigner(cm.sk, int(2*s.F+1), int(s.N))
	isbad := map[uint32]bool{}
	for _, b := range s.Byz {
		isbad[b] = true
	}
	net.addNoise(s, func(q vnode) bool { return isbad[q.Pid] })
	vals := [][]byte{}
	for _, h := range vstrs(s.P["values"]) {
		vals = append(vals, unhx(h))
	}
	badmark := s.num("badmark", -1)
	pred := func(v []byte) bool { return badmark < 0 || len(v) == 0 || int(v[0]) != badmark }
	mk := func(id []byte) *vagree {
		return &vagree{vsigner: sg, N: s.N, F: s.F, ID: id, pred: pred, vals: map[string][]byte{}, seen: map[string]map[string]bool{}, memoM: map[string]vev{}, led: map[int]int{}}
	}
	// an identifier whose first leaders are as wished
	want := vstrs(s.P["lead"])
	base := unhx(s.str("idhex", "61"))
	var a *vagree
	for k := 0; ; k++ {
		id := base
		if k > 0 {
			id = append(append([]byte{}, base...), byte(k))
		}
		a = mk(id)
		ok := true
		for r, w := range want {
			l := uint32(a.leader(r))
			switch w {
			case "bad":
				ok = ok && isbad[l]
			case "good":
				ok = ok && !isbad[l]
			}
		}
		if ok || k == 200 {
			break
		}
	}
	inputs := []string{}
	for _, v := range vals {
		inputs = append(inputs, a.note(v))
	}
	predInputs := []bool{}
	for _, v := range vals {
		predInputs = append(predInputs, pred(v))
	}
	vemit(vev{"ev": "hdr", "n": s.N, "f": s.F, "bad": append([]uint32{}, s.Byz...), "inputs": inputs, "key": hex.EncodeToString(sg.cert([]byte("key"))[:8]), "iid": hex.EncodeToString(a.ID), "free": len(want) == 0})
	script := s.str("adv", "real") == "script"
	rules := vmrules(s.P["rules"])
	holds := vmrules(s.P["hold"])
	last := map[string]*protobuf.Message{}
	hist := map[string][]*protobuf.Message{}
	var adv *vadv
	if script {
		adv = &vadv{vagree: a, net: net, rng: rng, bad: s.Byz, known: map[string]map[uint32]bool{}, got: map[string][]byte{}, left: s.num("acts", 60), lockOf: map[int][]byte{}, prefer: map[string][]byte{}, once: map[string]bool{}, wild: 0.15}
		for i := uint32(0); i < s.N; i++ {
			if !isbad[i] {
				adv.honest = append(adv.honest, i)
			}
		}
		adv.vals2 = append(adv.vals2, vals...)
		adv.vals2 = append(adv.vals2, []byte("zzA"))
		if badmark >= 0 {
			adv.vals2 = append(adv.vals2, []byte{byte(badmark), 1})
		}
		for _, b := range s.Byz {
			net.handler[vnode{0, b}] = &vadvRecv{adv}
			cm.byz[b] = true
		}
	}
	matches := func(r *vmrule, pk *vpkt) bool {
		m := pk.m
		rr, j, st, ok := a.where(m)
		if !ok {
			return false
		}
		if r.T != "*" && r.T != m.Type {
			return false
		}
		if r.S != 0 && r.S != st || r.R >= 0 && r.R != rr || rr > r.Rmax {
			return false
		}
		if len(r.To) > 0 && !r.To[pk.to.Pid] || len(r.From) > 0 && !r.From[pk.from.Pid] {
			return false
		}
		if r.Lead >= 0 {
			who := int(pk.from.Pid)
			if m.Type == "Echo" {
				who = j
			}
			if (who == a.leader(rr)) != (r.Lead == 1) {
				return false
			}
		}
		return true
	}
	apply := func(pk *vpkt) []*vpkt {
		out := []*vpkt{pk}
		key := itoa(pk.from.Pid) + pk.m.Type
		orig := proto.Clone(pk.m).(*protobuf.Message)
		prev := last[key]
		last[key] = orig
		hist[pk.m.Type] = append(hist[pk.m.Type], orig)
		for _, r := range rules {
			if !matches(r, pk) || r.P < 1 && rng.Float64() > r.P {
				continue
			}
			switch r.Act {
			case "drop":
				return nil
			case "dup":
				for i := 0; i < r.N; i++ {
					net.seq++
					out = append(out, &vpkt{seq: net.seq, from: pk.from, to: pk.to, m: proto.Clone(pk.m).(*protobuf.Message)})
				}
			case "flip":
				if d := append([]byte{}, pk.m.Data...); len(d) > 0 {
					d[rng.Intn(len(d))] ^= byte(1 << rng.Intn(8))
					pk.m.Data = d
				}
			case "cut":
				pk.m.Data = pk.m.Data[:r.N*len(pk.m.Data)/1000]
			case "raw":
				b := make([]byte, r.N)
				rng.Read(b)
				pk.m.Data = b
			case "stranger":
				pk.m.Sender = uint32(r.N)
			case "other":
				if prev != nil {
					pk.m.Data = append([]byte{}, prev.Data...)
				}
			case "copyof":
				l := hist[pk.m.Type]
				pk.m.Data = append([]byte{}, l[rng.Intn(len(l))].Data...)
			case "wrongid":
				l := hist[pk.m.Type]
				pk.m.Id = append([]byte{}, l[rng.Intn(len(l))].Id...)
			case "early":
				pk.wt = 1
			case "late":
				pk.wt = 9
			}
		}
		return out
	}
	maxr := 0
	net.onSend = func(pk *vpkt) []*vpkt {
		if isbad[pk.from.Pid] {
			return apply(pk)
		}
		e := vev{"ev": "send", "p": pk.from.Pid, "to": pk.to.Pid}
		for k, v := range a.describe(pk.m) {
			e[k] = v
		}
		if r, _, _, ok := a.where(pk.m); ok && r > maxr {
			maxr = r
		}
		vemit(e)
		return []*vpkt{pk}
	}
	net.prio = func(pk *vpkt) int {
		if pk.wt != 0 {
			return pk.wt
		}
		for _, r := range holds {
			if matches(r, pk) {
				return r.Cls
			}
		}
		return 5
	}
	net.onDeliv = func(pk *vpkt) {
		vbump()
		if isbad[pk.to.Pid] {
			return
		}
		e := vev{"ev": "recv", "p": pk.to.Pid}
		for k, v := range a.describe(pk.m) {
			e[k] = v
		}
		vemit(e)
	}
	giveup := false
	net.onIdle = func() {
		if maxr > s.num("maxr", 30) {
			giveup = true
			net.pending = nil
			return
		}
		if adv == nil || adv.left <= 0 {
			return
		}
		k := 0
		if len(net.pending) == 0 {
			k = 2
		} else if rng.Float64() < 0.25 {
			k = 1
		}
		for ; k > 0 && adv.left > 0; k-- {
			adv.left--
			adv.act()
		}
	}
	withPred := badmark >= 0
	for i := uint32(0); i < s.N; i++ {
		i := i
		if isbad[i] && script {
			continue
		}
		run := func() {
			var out []byte
			if withPred {
				out = MainProcess(cm.P[i], a.ID, vals[i], []byte{}, pred)
			} else {
				out = MainProcess(cm.P[i], a.ID, vals[i], []byte{})
			}
			if !isbad[i] {
				vemit(vev{"ev": "out", "p": i, "v": a.note(out), "pred": pred(out)})
			}
		}
		go run()
	}
	for {
		net.run()
		if adv == nil || adv.left <= 0 || giveup {
			break
		}
	}
	if giveup {
		vemit(vev{"ev": "endless"})
	}
	vemit(vev{"ev": "quiet", "led": []int{a.leader(0), a.leader(1)}})
}

// ---------------------------------------------------------------- one provable broadcast

func vrunSPB(s *vscen) {
	net := newVnet(s.N, s.F, 1, s.Seed, nil)
	net.mode, net.policy = s.Mode, s.Policy
	cm := net.coms[0]
	rng := rand.New(rand.NewSource(s.Seed ^ 0x5eed))
	sg := newVsigner(cm.sk, int(2*s.F+1), int(s.N))
	isbad := map[uint32]bool{}
	for _, b := range s.Byz {
		isbad[b] = true
	}
	net.addNoise(s, func(q vnode) bool { return isbad[q.Pid] })
	ID := append(unhx(s.str("idhex", "61")), append(vbe(uint32(s.num("round", 0))), vbe(uint32(s.num("sender", 0)))...)...)
	sender := uint32(s.num("sender", 0))
	a := &vagree{vsigner: sg, N: s.N, F: s.F, ID: unhx(s.str("idhex", "61")), pred: func([]byte) bool { return true }, vals: map[string][]byte{}, seen: map[string]map[string]bool{}, memoM: map[string]vev{}, led: map[int]int{}}
	val := unhx(s.str("value", ""))
	inputs := []string{}
	for i := uint32(0); i < s.N; i++ {
		inputs = append(inputs, a.note(val))
	}
	vemit(vev{"ev": "hdr", "n": s.N, "f": s.F, "bad": append([]uint32{}, s.Byz...), "inputs": inputs, "sender": sender, "round": s.num("round", 0)})
	rules := vmrules(s.P["rules"])
	hist := []*protobuf.Message{}
	net.onSend = func(pk *vpkt) []*vpkt {
		if !isbad[pk.from.Pid] {
			e := vev{"ev": "send", "p": pk.from.Pid, "to": pk.to.Pid}
			for k, v := range a.describe(pk.m) {
				e[k] = v
			}
			vemit(e)
			return []*vpkt{pk}
		}
		out := []*vpkt{pk}
		orig := proto.Clone(pk.m).(*protobuf.Message)
		hist = append(hist, orig)
		for _, r := range rules {
			if r.T != pk.m.Type || r.P < 1 && rng.Float64() > r.P {
				continue
			}
			switch r.Act {
			case "drop":
				return nil
			case "dup":
				for i := 0; i < r.N; i++ {
					net.seq++
					out = append(out, &vpkt{seq: net.seq, from: pk.from, to: pk.to, m: proto.Clone(pk.m).(*protobuf.Message)})
				}
			case "junk": // a wrong share first
				net.seq++
				m := proto.Clone(pk.m).(*protobuf.Message)
				b := make([]byte, 50)
				rng.Read(b)
				b[0], b[1] = 0, byte(pk.from.Pid)
				m.Data = vmar(&protobuf.Echo{Sigshare: b})
				out = append([]*vpkt{{seq: net.seq, from: pk.from, to: pk.to, m: m, wt: 1}}, out...)
			case "otheridx":
				net.seq++
				m := proto.Clone(pk.m).(*protobuf.Message)
				var c protobuf.Echo
				proto.Unmarshal(m.Data, &c)
				if len(c.Sigshare) > 1 {
					c.Sigshare[1] = byte(r.N)
				}
				m.Data = vmar(&c)
				out = append([]*vpkt{{seq: net.seq, from: pk.from, to: pk.to, m: m, wt: 1}}, out...)
			case "foreign": // another's correct share
				net.seq++
				m := proto.Clone(pk.m).(*protobuf.Message)
				_, _, st, ok := a.where(m)
				if ok {
					m.Data = vmar(&protobuf.Echo{Sigshare: a.part(uint32(r.N)%a.N, a.echo(s.num("round", 0), int(sender), st, val))})
				}
				out = append([]*vpkt{{seq: net.seq, from: pk.from, to: pk.to, m: m, wt: 1}}, out...)
			case "flip":
				if d := append([]byte{}, pk.m.Data...); len(d) > 0 {
					d[rng.Intn(len(d))] ^= byte(1 << rng.Intn(8))
					pk.m.Data = d
				}
			case "raw":
				b := make([]byte, r.N)
				rng.Read(b)
				pk.m.Data = b
			case "stranger":
				pk.m.Sender = uint32(r.N)
			case "old":
				pk.m.Data = append([]byte{}, hist[rng.Intn(len(hist))].Data...)
			}
		}
		return out
	}
	net.onDeliv = func(pk *vpkt) {
		vbump()
		if isbad[pk.to.Pid] {
			return
		}
		e := vev{"ev": "recv", "p": pk.to.Pid}
		for k, v := range a.describe(pk.m) {
			e[k] = v
		}
		vemit(e)
	}
	net.prio = func(pk *vpkt) int {
		if pk.wt != 0 {
			return pk.wt
		}
		return 5
	}
	ctx := context.Background()
	r := s.num("round", 0)
	for i := uint32(0); i < s.N; i++ {
		i := i
		go func() {
			v, sig, ok := SPBReceiver(ctx, cm.P[i], sender, ID, func(*HonestParty, []byte, uint32, []byte, []byte) error { return nil })
			if !isbad[i] {
				vemit(vev{"ev": "lock", "p": i, "ok": ok, "v": a.note(v), "valid": string(sig) == string(a.cert(a.echo(r, int(sender), 1, v)))})
			}
		}()
	}
	go func() {
		v, sig, ok := SPBSender(ctx, cm.P[sender], ID, val, nil)
		vemit(vev{"ev": "sent", "p": sender, "ok": ok, "v": a.note(v), "valid": string(sig) == string(a.cert(a.echo(r, int(sender), 2, v)))})
	}()
	// messages of others in the sender's instance
	for _, b := range s.Byz {
		if s.num("inject", 0) > 0 {
			for i := uint32(0); i < s.N; i++ {
				for st := 1; st <= 2; st++ {
					m := &protobuf.Message{Type: "Value", Id: vcat(ID, []byte{byte(st)}), Sender: b, Data: vmar(&protobuf.Value{Value: []byte("other"), Validation: []byte{}})}
					net.inject(vnode{0, b}, vnode{0, i}, m).wt = 1
				}
			}
		}
	}
	net.run()
	vemit(vev{"ev": "spbquiet"})
}

// ---------------------------------------------------------------- replaying behaviours of the specification

func init() { vkinds["mvbareplay"] = vrunMVBAReplay }

// vrunMVBAReplay drives the honest members through a given behaviour of round 0, whose leader is
// the faulty member, and then lets everything happen.  In later rounds that member runs the real code.
func vrunMVBAReplay(s *vscen) {
	net := newVnet(s.N, s.F, 1, s.Seed, nil)
	net.mode, net.policy = s.Mode, s.Policy
	net.maxSteps = 1 << 30
	cm := net.coms[0]
	rng := rand.New(rand.NewSource(s.Seed ^ 0x5eed))
	sg := newVsigner(cm.sk, int(2*s.F+1), int(s.N))
	isbad := map[uint32]bool{}
	for _, b := range s.Byz {
		isbad[b] = true
	}
	net.addNoise(s, func(q vnode) bool { return isbad[q.Pid] })
	ld := s.Byz[0]
	var a *vagree
	want1 := s.num("lead1", -1)
	for k := 0; ; k++ {
		a = &vagree{vsigner: sg, N: s.N, F: s.F, ID: []byte{'a', byte(k), byte(k >> 8)}, pred: func([]byte) bool { return true }, vals: map[string][]byte{}, seen: map[string]map[string]bool{}, memoM: map[string]vev{}, led: map[int]int{}}
		if a.leader(0) == int(ld) && (want1 < 0 || a.leader(1) == want1) {
			break
		}
		if k > 2000 {
			panic("verif-harness: no leader")
		}
	}
	vals := [][]byte{}
	for _, h := range vstrs(s.P["values"]) {
		vals = append(vals, unhx(h))
	}
	inputs := []string{}
	for _, v := range vals {
		inputs = append(inputs, a.note(v))
	}
	vemit(vev{"ev": "hdr", "n": s.N, "f": s.F, "bad": append([]uint32{}, s.Byz...), "inputs": inputs})
	adv := &vadv{vagree: a, net: net, rng: rng, bad: s.Byz, known: map[string]map[uint32]bool{}, got: map[string][]byte{}, lockOf: map[int][]byte{}, prefer: map[string][]byte{}}
	for _, b := range s.Byz {
		net.handler[vnode{0, b}] = &vadvRecv{adv}
	}
	late := map[uint32]bool{}
	for _, l := range s.nums("slow") {
		late[uint32(l)] = true
	}
	scripted := true
	maxr := 0
	net.onSend = func(pk *vpkt) []*vpkt {
		r, j, _, ok := a.where(pk.m)
		if isbad[pk.from.Pid] {
			if ok && r == 0 {
				switch pk.m.Type {
				case "PreVote", "Vote", "Halt":
					return nil
				case "Value":
					if uint32(j) == ld {
						return nil
					}
				case "Finish":
					if pk.from.Pid == ld {
						return nil
					}
				}
			}
			return []*vpkt{pk}
		}
		e := vev{"ev": "send", "p": pk.from.Pid, "to": pk.to.Pid}
		for k, v := range a.describe(pk.m) {
			e[k] = v
		}
		if ok && r > maxr {
			maxr = r
		}
		vemit(e)
		return []*vpkt{pk}
	}
	net.prio = func(pk *vpkt) int {
		if pk.wt != 0 {
			return pk.wt
		}
		r, _, _, ok := a.where(pk.m)
		if scripted && ok && !isbad[pk.to.Pid] && (r > 0 || pk.m.Type == "Done" || pk.m.Type == "PreVote" || pk.m.Type == "Vote" || pk.m.Type == "Halt") {
			return -1
		}
		if late[pk.to.Pid] || late[pk.from.Pid] {
			return 9
		}
		return 5
	}
	net.onDeliv = func(pk *vpkt) {
		vbump()
		if isbad[pk.to.Pid] {
			return
		}
		e := vev{"ev": "recv", "p": pk.to.Pid}
		for k, v := range a.describe(pk.m) {
			e[k] = v
		}
		vemit(e)
	}
	giveup := false
	net.onIdle = func() {
		if maxr > 30 {
			giveup = true
			net.pending = nil
		}
	}
	for i := uint32(0); i < s.N; i++ {
		i := i
		go func() {
			out := MainProcess(cm.P[i], a.ID, vals[i], []byte{})
			if !isbad[i] {
				vemit(vev{"ev": "out", "p": i, "v": a.note(out), "pred": true})
			}
		}()
	}
	// what the honest members send to the faulty one arrives at once; the coin shares and votes of
	// the others wait for their step
	release := func(p uint32, f func(m *protobuf.Message) bool, max int) int {
		n := 0
		for _, pk := range net.pending {
			if n < max && pk.to.Pid == p && pk.wt == 0 && f(pk.m) {
				pk.wt = 1
				n++
			}
		}
		return n
	}
	q := int(2*s.F + 1)
	isv := func(typ string, yes bool, val []byte) func(m *protobuf.Message) bool {
		return func(m *protobuf.Message) bool {
			r, _, _, ok := a.where(m)
			if !ok || r != 0 || m.Type != typ || isbad[m.Sender] {
				return false
			}
			e := a.describe(m)
			return e["yes"].(bool) == yes && (val == nil || e["v"].(string) == vlabel(val))
		}
	}
	id0 := a.idr(0)
	net.run()
	for _, x := range s.P["plan"].([]any) {
		o := x.(map[string]any)
		p := uint32(o["p"].(float64))
		var val []byte
		if h, ok := o["v"].(string); ok {
			val = unhx(h)
		}
		to := []uint32{p}
		one := func(f func(b uint32)) {
			for _, b := range s.Byz {
				n := len(net.pending)
				f(b)
				for _, pk := range net.pending[n:] {
					pk.wt = 1
				}
			}
		}
		switch o["a"] {
		case "ack1":
			n := len(net.pending)
			adv.send(ld, to, "Value", vcat(a.idrj(0, int(ld)), []byte{1}), &protobuf.Value{Value: val})
			net.pending[n].wt = 1
		case "ack2":
			if adv.can(a.echo(0, int(ld), 1, val)) {
				n := len(net.pending)
				adv.send(ld, to, "Value", vcat(a.idrj(0, int(ld)), []byte{2}), &protobuf.Value{Value: val, Validation: a.cert(a.echo(0, int(ld), 1, val))})
				net.pending[n].wt = 1
			}
		case "prevote":
			release(p, func(m *protobuf.Message) bool { r, _, _, ok := a.where(m); return ok && r == 0 && m.Type == "Done" }, 100)
		case "voteyes":
			if release(p, isv("PreVote", true, val), 1) == 0 && adv.can(a.echo(0, int(ld), 1, val)) {
				one(func(b uint32) {
					adv.send(b, to, "PreVote", id0, &protobuf.PreVote{Vote: true, Value: val, Sig: a.cert(a.echo(0, int(ld), 1, val))})
				})
			}
		case "voteno":
			release(p, isv("PreVote", false, nil), q)
			one(func(b uint32) {
				adv.send(b, to, "PreVote", id0, &protobuf.PreVote{Vote: false, Sig: a.part(b, a.no(0))})
			})
		case "unlock": // enters the next round with its own value
			release(p, isv("Vote", false, nil), q)
			if adv.can(a.no(0)) {
				one(func(b uint32) {
					adv.send(b, to, "Vote", id0, &protobuf.Vote{Vote: false, Sig: a.cert(a.no(0)), Sigshare: a.part(b, a.unlock(0))})
				})
			}
		case "adopt": // enters the next round with the locked value
			if release(p, isv("Vote", true, val), 1) == 0 || rng.Intn(2) == 0 {
				if adv.can(a.echo(0, int(ld), 1, val)) {
					one(func(b uint32) {
						adv.send(b, to, "Vote", id0, &protobuf.Vote{Vote: true, Value: val, Sig: a.cert(a.echo(0, int(ld), 1, val)), Sigshare: a.part(b, a.echo(0, int(ld), 2, val))})
					})
				}
			}
			net.run()
			release(p, isv("Vote", false, nil), q)
			net.run()
			if adv.can(a.no(0)) {
				one(func(b uint32) {
					adv.send(b, to, "Vote", id0, &protobuf.Vote{Vote: false, Sig: a.cert(a.no(0)), Sigshare: a.part(b, a.unlock(0))})
				})
			}
		case "decide":
			if adv.can(a.echo(0, int(ld), 2, val)) {
				one(func(b uint32) {
					adv.send(b, to, "Halt", id0, &protobuf.Halt{Value: val, Sig: a.cert(a.echo(0, int(ld), 2, val))})
				})
			}
		case "finish":
			if adv.can(a.echo(0, int(ld), 2, val)) {
				n := len(net.pending)
				adv.send(ld, to, "Finish", id0, &protobuf.Finish{Value: val, Sig: a.cert(a.echo(0, int(ld), 2, val))})
				net.pending[n].wt = 1
			}
		case "free": // the other members go on without this one
			scripted = false
			late[p] = true
			for i := 0; i < 100000 && !giveup; i++ {
				net.run1(5)
				busy := false
				for _, pk := range net.pending {
					if net.prio(pk) <= 5 {
						busy = true
					}
				}
				if !busy {
					break
				}
			}
			late[p] = false
			scripted = true
		}
		net.run()
	}
	// a decision of round 0 that can be made is made by those still undecided
	scripted = false
	if s.num("halt", 0) > 0 {
		for lab := range a.vals {
			v := a.vals[lab]
			if adv.can(a.echo(0, int(ld), 2, v)) {
				for i := uint32(0); i < s.N; i++ {
					if !isbad[i] {
						n := len(net.pending)
						adv.send(ld, []uint32{i}, "Halt", id0, &protobuf.Halt{Value: v, Sig: a.cert(a.echo(0, int(ld), 2, v))})
						net.pending[n].wt = 1
					}
				}
			}
		}
	}
	net.run()
	if giveup {
		vemit(vev{"ev": "endless"})
	}
	vemit(vev{"ev": "quiet", "led": []int{a.leader(0), a.leader(1)}})
}
