package party

// The program as it is deployed: a process per member and one for the client.  Every directed
// connection goes through a relay that records, delays, damages or swallows what is sent.

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/drand/kyber"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/share"
	"google.golang.org/protobuf/proto"
)

func init() { vkinds["deploy"] = vrunDeploy }

var vportNext = 10000 + os.Getpid()*53%20000

func vport() string {
	for i := 0; i < 20000; i++ {
		vportNext++
		if vportNext > 32000 {
			vportNext = 10000
		}
		l, err := net.Listen("tcp4", fmt.Sprintf(":%d", vportNext))
		if err == nil {
			l.Close()
			return fmt.Sprint(vportNext)
		}
	}
	panic("verif-harness: no free port")
}

func vbhex(x [][]byte) []string {
	r := []string{}
	for _, b := range x {
		r = append(r, hx(b))
	}
	return r
}

func vpiDesc(l []*protobuf.PiContent) []any {
	pi := []any{}
	for _, c := range l {
		pi = append(pi, vev{"j": c.GetJ(), "cb": hx(c.GetCBj()), "cz": hx(c.GetCZj()), "wz": hx(c.GetWZ0()), "gf": hx(c.GetGFj())})
	}
	return pi
}

var vidxRe = regexp.MustCompile(`_([12]),(\d+)$`)

// vdesc describes what the specification looks at; nil for the rest.
func vdesc(m *protobuf.Message) vev {
	e := vev{"t": m.Type, "h": 0, "from": m.Sender}
	inner := func() *protobuf.Message {
		var in protobuf.Message
		if proto.Unmarshal(m.Data, &in) != nil {
			return nil
		}
		return &in
	}
	switch m.Type {
	case "Prepare":
		var c protobuf.Prepare
		e["ok"] = proto.Unmarshal(m.Data, &c) == nil
		e["cb"] = vbhex(c.Commitments)
	case "ShareReduce":
		var c protobuf.ShareReduce
		e["ok"] = proto.Unmarshal(m.Data, &c) == nil
		e["c"], e["v"], e["w"] = hx(c.C), hx(c.V), hx(c.W)
	case "RBCPropose":
		g := vidxRe.FindStringSubmatch(string(m.Id))
		if g == nil {
			return nil
		}
		e["idx"], _ = strconv.Atoi(g[2])
		in := inner()
		if g[1] == "1" {
			e["t"], e["pi"], e["ok"] = "Commit", []any{}, false
			if in != nil {
				var c protobuf.Commit
				e["ok"] = proto.Unmarshal(in.Data, &c) == nil
				e["pi"] = vpiDesc(c.Pi)
			}
		} else {
			e["t"], e["cb"] = "NewCommit", ""
			if in != nil {
				e["cb"] = hx(in.Data)
			}
		}
	case "Reshare":
		var c protobuf.Reshare
		e["ok"] = proto.Unmarshal(m.Data, &c) == nil
		e["q"], e["w"] = vbhex(c.Qk), vbhex(c.WQk)
	case "Recover":
		var c protobuf.Recover
		e["ok"] = proto.Unmarshal(m.Data, &c) == nil
		e["idx"], e["v"], e["w"] = int(c.Index&0x7fffffff), hx(c.V), hx(c.W)
	case "ShareDist":
		var c protobuf.ShareDist
		e["ok"] = proto.Unmarshal(m.Data, &c) == nil
		e["b"], e["w"] = hx(c.B), hx(c.WB)
	case "Halt":
		var c protobuf.Halt
		var in protobuf.MVBAIN
		proto.Unmarshal(m.Data, &c)
		e["ok"] = proto.Unmarshal(c.Value, &in) == nil
		e["js"] = append([]uint32{}, in.J...)
	case "Done": // its part of the coin: a signature of the round by its share of the committee's key
		var c protobuf.Done
		e["ok"] = proto.Unmarshal(m.Data, &c) == nil
		e["inst"], e["share"] = hx(m.Id), hx(c.CoinShare)
	case "VSSSend":
		var c protobuf.VSSSend
		e["ok"] = proto.Unmarshal(m.Data, &c) == nil
		e["b"], e["w"] = vbhex(c.BijList), vbhex(c.WBijList)
	default:
		return nil
	}
	return e
}

type vproc struct {
	com, pid int // the client: com -1
	role     string
	dir      string
	cmd      *exec.Cmd
	exited   int32
	faulty   bool
	// what a faulty process does
	kill int // ends after that many of its messages
	mute int // is not heard any more after that many of its messages
	flip float64
	sent int
	mu   sync.Mutex
}

var vstalled int // scenarios of this run in which the processes got stuck

type vdeploy struct {
	n      int
	mu     sync.Mutex
	evs    []vev
	frames int64
	delay  int
	slow   map[string]bool
	seed   int64
	over   chan bool
	lis    []net.Listener
}

func (d *vdeploy) note(e vev) {
	d.mu.Lock()
	d.evs = append(d.evs, e)
	d.mu.Unlock()
}

// relay listens for the connections of one process to another one and returns the port.
func (d *vdeploy) relay(ip string, from *vproc, tocom, topid int, target string, to *vproc) string {
	l, err := net.Listen("tcp4", ip+":0")
	if err != nil {
		panic("verif-harness: " + err.Error())
	}
	d.lis = append(d.lis, l)
	k := int64(0)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			k++
			go d.pipe(c, from, tocom, topid, target, to, rand.New(rand.NewSource(d.seed+int64(from.com+1)*1000003+int64(from.pid)*10007+int64(tocom)*1009+int64(topid)*31+k)))
		}
	}()
	return fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
}

func (d *vdeploy) pipe(c net.Conn, from *vproc, tocom, topid int, target string, to *vproc, rng *rand.Rand) {
	defer c.Close()
	q := make(chan []byte, 100000)
	go func() { // the target may not be listening yet
		var o net.Conn
		defer func() {
			if o != nil {
				o.Close()
			}
		}()
		for b := range q {
			for o == nil {
				select {
				case <-d.over:
					return
				default:
				}
				var err error
				if o, err = net.Dial("tcp4", "127.0.0.1:"+target); err != nil {
					o = nil
					time.Sleep(5 * time.Millisecond)
				}
			}
			ms := d.delay
			if d.slow[fmt.Sprintf("%d.%d-%d.%d", from.com, from.pid, tocom, topid)] || d.slow[fmt.Sprintf("%d.%d-", from.com, from.pid)] || d.slow[fmt.Sprintf("-%d.%d", tocom, topid)] {
				ms = ms*10 + 30
			}
			if ms > 0 && rng.Intn(3) == 0 {
				time.Sleep(time.Duration(rng.Intn(ms*1000)) * time.Microsecond)
			}
			var m protobuf.Message
			if len(b) > 4 && proto.Unmarshal(b[4:], &m) == nil && m.Type == "RBCPropose" && (to == nil || !to.faulty) {
				if e := vdesc(&m); e != nil && e["t"] == "Commit" {
					e["ev"], e["p"], e["com"] = "recv", topid, tocom
					d.note(e)
				}
			}
			atomic.AddInt64(&d.frames, 1)
			if _, err := o.Write(b); err != nil {
				for range q { // a dead process, what is sent to it is lost
				}
				return
			}
		}
	}()
	defer close(q)
	for {
		h := make([]byte, 4)
		if _, err := io.ReadFull(c, h); err != nil {
			return
		}
		buf := new(bytes.Buffer)
		if _, err := io.CopyN(buf, c, int64(binary.BigEndian.Uint32(h))); err != nil {
			return
		}
		from.mu.Lock()
		from.sent++
		sent := from.sent
		if from.faulty && from.kill > 0 && sent == from.kill {
			syscall.Kill(from.cmd.Process.Pid, syscall.SIGKILL)
		}
		from.mu.Unlock()
		atomic.AddInt64(&d.frames, 1)
		if from.faulty && (from.mute >= 0 && sent > from.mute || from.kill > 0 && sent > from.kill) {
			continue
		}
		b := append(h, buf.Bytes()...)
		var m protobuf.Message
		if proto.Unmarshal(buf.Bytes(), &m) == nil {
			if e := vdesc(&m); e != nil && (!from.faulty || m.Type == "Reshare") {
				e["ev"], e["p"], e["com"], e["tocom"], e["to"], e["good"] = "send", from.pid, from.com, tocom, topid, !from.faulty
				if m.Type == "VSSSend" {
					e["ev"] = "deal"
				}
				d.note(e)
			}
			if from.faulty && rng.Float64() < from.flip && len(m.Data) > 0 {
				switch rng.Intn(4) {
				case 0:
					m.Data[rng.Intn(len(m.Data))] ^= byte(1 << rng.Intn(8))
				case 1:
					m.Data = m.Data[:rng.Intn(len(m.Data))]
				case 2:
					m.Data = nil
				case 3:
					m.Sender = rng.Uint32()
				}
				x, _ := proto.Marshal(&m)
				b = make([]byte, 4)
				binary.BigEndian.PutUint32(b, uint32(len(x)))
				b = append(b, x...)
			}
		}
		q <- b
	}
}

var vrepRe = map[string]*regexp.Regexp{
	"prepare":     regexp.MustCompile(`(?m)^Prepare\w*, *(-?\d+)$`),
	"reduce":      regexp.MustCompile(`(?m)^ShareReduce\w*, *(-?\d+)$`),
	"proactivize": regexp.MustCompile(`(?m)^Proactivize\w*, *(-?\d+)$`),
	"dist":        regexp.MustCompile(`(?m)^ShareDist\w*, *(-?\d+)$`),
}

// report reads the file a process leaves when it is through its part.
func (p *vproc) report() (r []string, neg bool) {
	r = []string{}
	l, _ := filepath.Glob(filepath.Join(p.dir, "mp", "log*"))
	for _, f := range l {
		if !strings.HasSuffix(f, strconv.Itoa(p.pid)) {
			continue
		}
		b, _ := os.ReadFile(f)
		for _, k := range []string{"prepare", "reduce", "proactivize", "dist"} {
			if g := vrepRe[k].FindStringSubmatch(string(b)); g != nil {
				r = append(r, k)
				neg = neg || strings.HasPrefix(g[1], "-")
			}
		}
	}
	return
}

func vcoefs(f string) []string {
	r := []string{}
	var c [][]byte
	b, err := os.ReadFile(f)
	if err != nil || gob.NewDecoder(bytes.NewReader(b)).Decode(&c) != nil {
		return r
	}
	for _, x := range c {
		r = append(r, hx(x))
	}
	return r
}

// vbase divides a signature share by the share of the key the file gives the member: the point of the message.
func vbase(sk []*share.PriShare, pid int, sig string) (idx int, h string) {
	suite := kyberbls.NewBLS12381Suite()
	b := vunhex(sig)
	if len(b) < 3 || pid >= len(sk) {
		return -1, ""
	}
	pt := suite.G1().Point()
	if pt.UnmarshalBinary(b[2:]) != nil {
		return -1, ""
	}
	x, _ := suite.G1().Point().Mul(suite.G1().Scalar().Inv(sk[pid].V), pt).MarshalBinary()
	return int(b[0])<<8 + int(b[1]), hx(x)
}

func vshares(coefs []string, n int) []*share.PriShare {
	suite := kyberbls.NewBLS12381Suite()
	c := []kyber.Scalar{}
	for _, h := range coefs {
		c = append(c, suite.G1().Scalar().SetBytes(vunhex(h)))
	}
	if len(c) == 0 {
		return nil
	}
	return share.CoefficientsToPriPoly(suite.G2(), c).Shares(n)
}

func vmust(err error) {
	if err != nil {
		panic("verif-harness: " + err.Error())
	}
}

func vrunDeploy(s *vscen) {
	runtime.LockOSThread() // the processes end with this thread
	n, f := s.num("n", 4), s.num("f", 1)
	two := s.str("mode", "two") == "two"
	roles := s.P["roles"].(map[string]any)
	root, err := os.MkdirTemp(".", "deploy")
	vmust(err)
	root, _ = filepath.Abs(root)
	defer os.RemoveAll(root)
	d := &vdeploy{n: n, delay: s.num("delay", 0), slow: map[string]bool{}, seed: s.Seed, over: make(chan bool)}
	for _, k := range s.strs("slow") {
		d.slow[k] = true
	}
	faulty := [][]int{{}, {}}
	// the members and the client
	procs := []*vproc{}
	at := map[[2]int]*vproc{}
	ncom := 1
	if two {
		ncom = 2
	}
	for c := 0; c < ncom; c++ {
		for i := 0; i < n; i++ {
			p := &vproc{com: c, pid: i, role: []string{"old", "new"}[c], mute: -1}
			if !two {
				p.role = "one"
			}
			procs = append(procs, p)
			at[[2]int{c, i}] = p
		}
	}
	client := &vproc{com: -1, role: "client", mute: -1}
	procs = append(procs, client)
	for _, x := range s.P["faulty"].([]any) {
		o := x.(map[string]any)
		get := func(k string, z int) int {
			if v, ok := o[k].(float64); ok {
				return int(v)
			}
			return z
		}
		p := at[[2]int{get("com", 0), get("pid", 0)}]
		p.faulty, p.kill, p.mute = true, get("kill", 0), get("mute", -1)
		if v, ok := o["flip"].(float64); ok {
			p.flip = v
		}
		faulty[p.com] = append(faulty[p.com], p.pid)
	}
	if !two {
		faulty[1] = faulty[0]
	}
	vemit(vev{"ev": "hdr", "n": n, "f": f, "faulty": faulty, "coefs": []any{}, "blind": true, "cut": s.num("cut", 0) == 1, "mode": s.str("mode", "two")})

	// one run generates the key material
	bin := s.str("bin", "")
	keyRole := roles["keys"].(string)
	g := exec.Command(bin, "-n", fmt.Sprint(n), "-f", fmt.Sprint(f), "-op1", keyRole)
	g.Dir = root
	if out, err := g.CombinedOutput(); err != nil {
		vemit(vev{"ev": "coefs", "a": []string{}, "b": []string{}, "text": string(out)})
		return
	}
	ca, cb := vcoefs(filepath.Join(root, "coefficients")), vcoefs(filepath.Join(root, "coefficients_new"))
	vemit(vev{"ev": "coefs", "a": ca, "b": cb})
	keys := [][]*share.PriShare{vshares(ca, n), vshares(cb, n)}

	real := map[[2]int]string{}
	for k := range at {
		real[k] = vport()
	}
	defer func() {
		close(d.over)
		for _, p := range procs {
			if p.cmd != nil && p.cmd.Process != nil && atomic.LoadInt32(&p.exited) == 0 {
				p.cmd.Process.Kill()
			}
		}
		for _, l := range d.lis {
			l.Close()
		}
		for _, p := range procs {
			for i := 0; p.cmd != nil && atomic.LoadInt32(&p.exited) == 0 && i < 500; i++ {
				time.Sleep(10 * time.Millisecond)
			}
		}
	}()
	for _, p := range procs {
		p.dir = filepath.Join(root, fmt.Sprintf("p%d.%d", p.com+1, p.pid))
		vmust(os.MkdirAll(filepath.Join(p.dir, "mp"), 0755))
		vmust(os.MkdirAll(filepath.Join(p.dir, "list"), 0755))
		for c := 0; c < 2; c++ {
			ips, ports := []string{}, []string{}
			com := c
			if !two {
				com = 0
			}
			for i := 0; i < n; i++ {
				k := [2]int{com, i}
				// its address is only the one of the lists
				ip := fmt.Sprintf("127.0.%d.%d", 1+com, 1+i)
				if p.com == com && p.pid == i && p != client {
					ip = "127.0.0.1"
					ports = append(ports, real[k])
				} else {
					ports = append(ports, d.relay(ip, p, com, i, real[k], at[k]))
				}
				ips = append(ips, ip)
			}
			// the lists may have more entries than members
			for i := 0; i < s.num("extra", 0); i++ {
				ips, ports = append(ips, "127.0.0.1"), append(ports, "1")
			}
			sfx := []string{"", "Next"}[c]
			vmust(os.WriteFile(filepath.Join(p.dir, "list", "ipList"+sfx), []byte(strings.Join(ips, "\n")), 0644))
			vmust(os.WriteFile(filepath.Join(p.dir, "list", "portList"+sfx), []byte(strings.Join(ports, "\n")), 0644))
		}
	}
	order := s.rng.Perm(len(procs))
	gap := s.num("gap", 0)
	secs := func() string { return fmt.Sprint(s.rng.Intn(s.num("secs", 0) + 1)) }
	for _, k := range order {
		p := procs[k]
		pid := p.pid
		if p == client {
			pid = 12345
		}
		p.cmd = exec.Command(bin, "-n", fmt.Sprint(n), "-f", fmt.Sprint(f), "-op1", "2", "-op2", roles[p.role].(string), "-id", fmt.Sprint(pid), "-mp", filepath.Join(p.dir, "mp"), "-lp", filepath.Join(p.dir, "list"), "-t1", secs(), "-t2", secs(), "-t3", secs())
		p.cmd.Dir = root
		ef, err := os.Create(filepath.Join(p.dir, "out"))
		vmust(err)
		p.cmd.Stdout, p.cmd.Stderr = ef, ef
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		p.mu.Lock()
		err = p.cmd.Start()
		p.mu.Unlock()
		vmust(err)
		go func() {
			p.cmd.Wait()
			ef.Close()
			atomic.StoreInt32(&p.exited, 1)
		}()
		if gap > 0 {
			time.Sleep(time.Duration(s.rng.Intn(gap)) * time.Millisecond)
		}
	}
	// until everybody is through, or nothing moves any more
	idle, last := 0, int64(-1)
	need := map[string]int{"old": 2, "new": 4, "one": 4}
	for t := 0; t < 2400; t++ {
		time.Sleep(50 * time.Millisecond)
		if fr := atomic.LoadInt64(&d.frames); fr != last {
			last, idle = fr, 0
			voutMu.Lock()
			vprogress++
			voutMu.Unlock()
		} else {
			idle++
		}
		all, gone := true, false
		for _, p := range procs {
			if p.faulty || p == client {
				continue
			}
			if atomic.LoadInt32(&p.exited) == 1 {
				gone = true
			}
			if r, _ := p.report(); len(r) < need[p.role] {
				all = false
			}
		}
		if all && idle >= 24 {
			break
		}
		if gone && idle >= 60 || idle >= 500 || idle >= 100 && vstalled > 2 {
			vstalled++
			break
		}
	}
	d.mu.Lock()
	evs := d.evs
	d.mu.Unlock()
	vemit(vev{"ev": "share", "secret": s.str("secret", "")})
	through := map[int]bool{}
	for _, e := range evs {
		if e["ev"] == "deal" {
			vemit(e)
		} else if e["t"] == "Prepare" && e["good"] == true {
			through[e["p"].(int)] = true
		}
	}
	for p := range through {
		vemit(vev{"ev": "done", "com": 0, "p": p, "what": "vss", "h": 0})
	}
	vemit(vev{"ev": "dealt"})
	vemit(vev{"ev": "handoff", "h": 0, "a": 0, "b": ncom - 1})
	reduced := map[int]bool{}
	for _, e := range evs {
		if e["ev"] != "deal" {
			if e["t"] == "Done" && e["ev"] == "send" {
				e["idx"], e["base"] = vbase(keys[e["com"].(int)], e["p"].(int), e["share"].(string))
			}
			vemit(e)
			if e["t"] == "Commit" && e["ev"] == "send" {
				reduced[e["p"].(int)] = true
			}
		}
	}
	for p := range reduced {
		vemit(vev{"ev": "done", "com": ncom - 1, "p": p, "what": "reduce", "h": 0})
	}
	for _, p := range procs {
		if p.faulty || p == client || p.role == "old" {
			continue
		}
		if r, _ := p.report(); len(r) >= need[p.role] {
			vemit(vev{"ev": "done", "com": p.com, "p": p.pid, "what": "handoff", "h": 0})
		}
	}
	vemit(vev{"ev": "quiet", "h": 0})
	for _, p := range procs {
		if p == client {
			continue
		}
		r, neg := p.report()
		e := vev{"ev": "proc", "com": p.com, "p": p.pid, "role": p.role, "exited": atomic.LoadInt32(&p.exited) == 1, "report": r, "negative": neg}
		if !p.faulty && len(r) < need[p.role] {
			b, _ := os.ReadFile(filepath.Join(p.dir, "out"))
			if len(b) > 1500 {
				b = b[len(b)-1500:]
			}
			e["text"] = string(b)
		}
		vemit(e)
	}
}
