package core

// The transport on real loopback connections: the real sender, the real receiver, between them (when a
// scenario wants it) a relay that fragments, merges or cuts the byte stream, and raw peers that write bytes
// of their own.

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

func init() { vkinds["transport"] = vrunTransport }

func vmlabel(m *protobuf.Message) string {
	h := sha256.New()
	for _, b := range [][]byte{[]byte(m.Type), m.Id, m.Data} {
		var l [8]byte
		binary.BigEndian.PutUint64(l[:], uint64(len(b)))
		h.Write(l[:])
		h.Write(b)
	}
	fmt.Fprint(h, m.Sender)
	return hex.EncodeToString(h.Sum(nil)[:8])
}

// vport finds a port nobody uses, below the range the kernel gives to clients.
var vportNext = 10000 + os.Getpid()*37%20000

func vport() string {
	for i := 0; i < 5000; i++ {
		vportNext++
		if vportNext > 32000 {
			vportNext = 10000
		}
		l, err := net.Listen("tcp4", fmt.Sprintf(":%d", vportNext))
		if err == nil {
			l.Close()
			return fmt.Sprint(vportNext)
		}
	}
	panic("verif-harness: no free port")
}

func vmsg(rng *rand.Rand, link, k, size int, plain bool) *protobuf.Message {
	if size == 0 && link == 0 { // empty messages are all alike: only one link sends them
		return &protobuf.Message{}
	}
	m := &protobuf.Message{Type: "T" + fmt.Sprint(link), Id: []byte{byte(k), byte(k >> 8), 0}, Sender: uint32(link)}
	over := proto.Size(m) + 4
	if size > over {
		d := make([]byte, size-over)
		rng.Read(d)
		if plain {
			for i := range d {
				d[i] = 0
			}
		}
		m.Data = d
	}
	return m
}

func vframe(m *protobuf.Message) []byte {
	b, _ := proto.Marshal(m)
	l := make([]byte, 4)
	binary.BigEndian.PutUint32(l, uint32(len(b)))
	return append(l, b...)
}

// vrelay forwards one connection in the given manner.
func vrelay(in net.Conn, outAddr, mode string, chunk, cut int, rst bool, rng *rand.Rand, tell func(int)) {
	out := vdial(outAddr)
	oc := out.(*net.TCPConn)
	oc.SetNoDelay(true)
	sent := 0
	// counts complete frames
	frames, need := 0, 0
	hdr := []byte{}
	count := func(b []byte) {
		for len(b) > 0 {
			if need == 0 {
				hdr = append(hdr, b[0])
				b = b[1:]
				if len(hdr) == 4 {
					need = int(binary.BigEndian.Uint32(hdr))
					hdr = hdr[:0]
					if need == 0 {
						frames++
					}
				}
				continue
			}
			k := len(b)
			if k > need {
				k = need
			}
			need -= k
			b = b[k:]
			if need == 0 {
				frames++
			}
		}
	}
	write := func(b []byte) bool {
		if cut >= 0 && sent+len(b) > cut {
			b = b[:cut-sent]
		}
		n, err := oc.Write(b)
		sent += n
		atomic.AddInt64(&vmoved, int64(n))
		count(b[:n])
		if err != nil || cut >= 0 && sent >= cut {
			return false
		}
		return true
	}
	stop := func() {
		tell(frames)
		if rst {
			oc.SetLinger(0)
		}
		oc.Close()
		in.Close()
	}
	buf := make([]byte, 1<<16)
	acc := []byte{}
	for {
		if mode == "merge" {
			in.SetReadDeadline(time.Now().Add(30 * time.Millisecond))
		}
		n, err := in.Read(buf)
		if n > 0 {
			switch mode {
			case "merge":
				acc = append(acc, buf[:n]...)
			case "slow": // small pieces with pauses between
				for b := buf[:n]; len(b) > 0; {
					k := 1 + rng.Intn(chunk)
					if k > len(b) {
						k = len(b)
					}
					if !write(b[:k]) {
						stop()
						return
					}
					b = b[k:]
					if sent < 3000 || rng.Intn(50) == 0 {
						time.Sleep(time.Duration(20+rng.Intn(150)) * time.Microsecond)
					}
				}
			default:
				for b := buf[:n]; len(b) > 0; {
					k := chunk
					if k > len(b) {
						k = len(b)
					}
					if !write(b[:k]) {
						stop()
						return
					}
					b = b[k:]
				}
			}
		}
		if mode == "merge" && len(acc) > 0 && (err != nil || len(acc) > 1<<20) {
			if !write(acc) {
				stop()
				return
			}
			acc = acc[:0]
		}
		if err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				continue
			}
			oc.Close()
			return
		}
	}
}

func vdial(addr string) net.Conn {
	for i := 0; ; i++ {
		c, err := net.Dial("tcp4", addr)
		if err == nil {
			return c
		}
		if i > 200 {
			panic("verif-harness: " + err.Error())
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func vaccept(l net.Listener) net.Conn {
	for i := 0; ; i++ {
		c, err := l.Accept()
		if err == nil {
			return c
		}
		if i > 200 {
			panic("verif-harness: " + err.Error())
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// vflood connects to the port while the process can open no further descriptors, as when peers open
// more connections than it may hold.
func vflood(port string, conns, ms int) {
	var sock []int
	for i := 0; i < conns; i++ {
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			panic("verif-harness: " + err.Error())
		}
		sock = append(sock, fd)
	}
	var old, lim syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
		panic("verif-harness: " + err.Error())
	}
	free, err := syscall.Dup(0)
	if err != nil {
		panic("verif-harness: " + err.Error())
	}
	lim = old
	lim.Cur = uint64(free)
	syscall.Close(free)
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
		panic("verif-harness: " + err.Error())
	}
	n, _ := strconv.Atoi(port)
	for _, fd := range sock {
		syscall.Connect(fd, &syscall.SockaddrInet4{Port: n, Addr: [4]byte{127, 0, 0, 1}})
	}
	time.Sleep(time.Duration(ms) * time.Millisecond)
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
	for _, fd := range sock {
		syscall.Close(fd)
	}
}

func vrunTransport(s *vscen) {
	rng := s.rng
	nd := s.num("dests", 1)
	ports := []string{}
	recvs := []chan *protobuf.Message{}
	for d := 0; d < nd; d++ {
		p := vport()
		ports = append(ports, p)
		recvs = append(recvs, MakeReceiveChannel(p))
	}
	links, _ := s.P["links"].([]any)
	dst := []int{}
	for _, x := range links {
		dst = append(dst, int(x.(map[string]any)["dst"].(float64)))
	}
	vemit(vev{"ev": "hdr", "dst": dst})
	var wg, hands sync.WaitGroup
	var got int64
	need, gotl := make([]int64, len(links)), make([]int64, len(links))
	var whose sync.Map // label -> link
	var over atomic.Bool
	for d := 0; d < nd; d++ {
		d := d
		slow := s.num("slow", 0)
		go func() {
			if slow > 0 {
				time.Sleep(time.Duration(slow) * time.Millisecond)
			}
			for m := range recvs[d] {
				if over.Load() { // belongs to a scenario that has been judged
					continue
				}
				vemit(vev{"ev": "got", "d": d, "m": vmlabel(m), "len": proto.Size(m)})
				atomic.AddInt64(&got, 1)
				if l, ok := whose.Load(vmlabel(m)); ok {
					atomic.AddInt64(&gotl[l.(int)], 1)
				}
			}
		}()
	}
	for li, x := range links {
		li := li
		o := x.(map[string]any)
		str := func(k, d string) string {
			if v, ok := o[k].(string); ok {
				return v
			}
			return d
		}
		num := func(k string, d int) int {
			if v, ok := o[k].(float64); ok {
				return int(v)
			}
			return d
		}
		r := rand.New(rand.NewSource(rng.Int63()))
		r2 := rand.New(rand.NewSource(rng.Int63()))
		sizes := vints(o["sizes"])
		d := num("dst", 0)
		kind := str("kind", "direct")
		if kind == "raw" {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(num("after", 0)) * time.Millisecond)
				c := vdial("127.0.0.1:" + ports[d])
				tc := c.(*net.TCPConn)
				tc.SetNoDelay(true)
				bad, mine := false, 0
				for k, y := range o["items"].([]any) {
					it := y.(map[string]any)
					n := 0
					if v, ok := it["n"].(float64); ok {
						n = int(v)
					}
					piece := func(b []byte) {
						for len(b) > 0 {
							q := len(b)
							if w := num("chunk", 0); w > 0 && w < q {
								q = w
							}
							tc.Write(b[:q])
							b = b[q:]
							if num("chunk", 0) > 0 {
								time.Sleep(100 * time.Microsecond)
							}
						}
					}
					switch it["a"] {
					case "msg":
						m := vmsg(r, li, k, n, false)
						whose.Store(vmlabel(m), li)
						vemit(vev{"ev": "hand", "l": li, "m": vmlabel(m), "len": proto.Size(m)})
						if !bad {
							atomic.AddInt64(&need[li], 1)
							mine++
						}
						piece(vframe(m))
					case "junk": // framed bytes that are no message
						bad = true
						vemit(vev{"ev": "bad", "l": li})
						b := make([]byte, n)
						r.Read(b)
						if n > 0 {
							b[0] = 0x07 // a field number 0 with an unknown wire type
						}
						l := make([]byte, 4)
						binary.BigEndian.PutUint32(l, uint32(n))
						piece(append(l, b...))
					case "announce": // less than announced
						bad = true
						vemit(vev{"ev": "bad", "l": li})
						l := make([]byte, 4)
						binary.BigEndian.PutUint32(l, uint32(it["len"].(float64)))
						b := make([]byte, n)
						r.Read(b)
						piece(append(l, b...))
					case "bytes":
						bad = true
						vemit(vev{"ev": "bad", "l": li})
						b := make([]byte, n)
						r.Read(b)
						b[0] |= 0x80
						piece(b)
					case "pause":
						time.Sleep(time.Duration(n) * time.Millisecond)
					case "rst":
						atomic.AddInt64(&need[li], -int64(mine))
						vemit(vev{"ev": "cut", "l": li, "n": 0})
						tc.SetLinger(0)
						tc.Close()
						return
					}
				}
				if num("stay", 0) == 0 {
					tc.Close()
				} else {
					vkeepMu.Lock()
					vkeep = append(vkeep, tc) // stays open, silently
					vkeepMu.Unlock()
				}
			}()
			continue
		}
		if kind == "flood" {
			vflood(ports[d], num("conns", 5), num("ms", 50))
			continue
		}
		target := "127.0.0.1:" + ports0(ports, d)
		host, port := "127.0.0.1", ports0(ports, d)
		cut := num("cut", -1)
		rst := num("rst", 0) == 1
		switch kind {
		case "relay":
			l, err := net.Listen("tcp4", "127.0.0.1:0")
			if err != nil {
				panic("verif-harness: " + err.Error())
			}
			port = fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
			if cut >= 0 {
				wg.Add(1)
			}
			go func() {
				c := vaccept(l)
				vrelay(c, target, str("mode", "rand"), num("chunk", 1), cut, rst, r2, func(frames int) {
					if rst {
						frames = 0
					}
					atomic.AddInt64(&need[li], int64(frames))
					vemit(vev{"ev": "cut", "l": li, "n": frames})
					wg.Done()
				})
			}()
		case "dead": // a destination that accepts and closes, after reading a little
			l, err := net.Listen("tcp4", "127.0.0.1:0")
			if err != nil {
				panic("verif-harness: " + err.Error())
			}
			port = fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
			go func() {
				c := vaccept(l)
				time.Sleep(50 * time.Millisecond) // the connection stands
				io.CopyN(io.Discard, c, int64(num("cut", 0)))
				if rst {
					c.(*net.TCPConn).SetLinger(0)
				}
				c.Close()
				l.Close()
			}()
			vemit(vev{"ev": "cut", "l": li, "n": 0})
		}
		ch := MakeSendChannel(host, port)
		if kind != "dead" && !(kind == "relay" && cut >= 0) {
			atomic.AddInt64(&need[li], int64(len(sizes)))
		}
		hands.Add(1)
		gap := num("gap", 0)
		twice := num("twice", 0) == 1
		go func() {
			var prev *protobuf.Message
			for k, n := range sizes {
				m := vmsg(r, li, k, n, num("plain", 0) == 1)
				if twice && prev != nil && k%2 == 1 {
					m = prev // the same message again
				}
				prev = m
				if kind != "dead" {
					whose.Store(vmlabel(m), li)
					vemit(vev{"ev": "hand", "l": li, "m": vmlabel(m), "len": proto.Size(m)})
				}
				ch <- m
				if gap > 0 {
					time.Sleep(time.Duration(r.Intn(gap)) * time.Microsecond)
				}
			}
			hands.Done()
		}()
	}
	fin := make(chan bool)
	go func() { hands.Wait(); close(fin) }()
	wait := func(c chan bool) bool {
		last, idle := int64(-1), 0
		for {
			select {
			case <-c:
				return true
			case <-time.After(100 * time.Millisecond):
			}
			g := atomic.LoadInt64(&got) + atomic.LoadInt64(&vmoved)
			if g == last {
				idle++
			} else {
				idle = 0
			}
			last = g
			if idle > 200 {
				return false
			}
		}
	}
	if !wait(fin) {
		vemit(vev{"ev": "stuck"})
	} else {
		fin2 := make(chan bool)
		go func() { wg.Wait(); close(fin2) }()
		if !wait(fin2) {
			vemit(vev{"ev": "stuck"})
		}
	}
	last, idle := int64(-1), 0
	for idle < 400 {
		all := true
		for l := range need {
			all = all && atomic.LoadInt64(&gotl[l]) >= atomic.LoadInt64(&need[l])
		}
		if all {
			break
		}
		g := atomic.LoadInt64(&got) + atomic.LoadInt64(&vmoved)
		if g == last {
			idle++
		} else {
			idle = 0
		}
		last = g
		time.Sleep(50 * time.Millisecond)
	}
	time.Sleep(30 * time.Millisecond) // anything more?
	over.Store(true)
	vemit(vev{"ev": "quiet"})
}

var vkeep []net.Conn
var vkeepMu sync.Mutex
var vmoved int64 // bytes moved by relays, a sign of progress

func ports0(p []string, d int) string { return p[d] }
