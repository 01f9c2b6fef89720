package zmq4_test

//vp:race

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
)

// vpScript is a socket that receives a script and records what it sends.
type vpScript struct {
	in   chan zmq4.Msg
	rerr error // what Recv returns after the script (nil: it blocks)
	stop chan struct{}

	mu    sync.Mutex
	sent  []zmq4.Msg
	nfail int // the send that fails; <0: none
	once  bool // later sends work again
	rat   int  // the receive that fails, once; <0: none
	nrecv int
	serr  error
	busy  int
	slow  time.Duration
}

func (s *vpScript) Close() error { return nil }
func (s *vpScript) send(m zmq4.Msg) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.slow > 0 {
		time.Sleep(s.slow)
	}
	if s.nfail >= 0 && len(s.sent) >= s.nfail {
		if s.once {
			s.nfail = -1
		}
		return s.serr
	}
	s.sent = append(s.sent, m.Clone())
	return nil
}
func (s *vpScript) Send(m zmq4.Msg) error      { return s.send(m) }
func (s *vpScript) SendMulti(m zmq4.Msg) error { return s.send(m) }
func (s *vpScript) Recv() (zmq4.Msg, error) {
	s.mu.Lock()
	s.nrecv++
	bad := s.rat >= 0 && s.nrecv == s.rat+1
	s.mu.Unlock()
	if bad {
		return zmq4.Msg{}, s.rerr
	}
	select {
	case m, ok := <-s.in:
		if ok {
			return m, nil
		}
	case <-s.stop:
		return zmq4.Msg{}, errors.New("stopped")
	}
	if s.rerr != nil {
		return zmq4.Msg{}, s.rerr
	}
	<-s.stop
	return zmq4.Msg{}, errors.New("stopped")
}
func (s *vpScript) Listen(string) error                    { return nil }
func (s *vpScript) Dial(string) error                      { return nil }
func (s *vpScript) Type() zmq4.SocketType                  { return zmq4.Dealer }
func (s *vpScript) Addr() net.Addr                         { return nil }
func (s *vpScript) GetOption(string) (interface{}, error)  { return nil, nil }
func (s *vpScript) SetOption(string, interface{}) error    { return nil }
func (s *vpScript) Topics() []string                       { return nil }
func (s *vpScript) count() int                             { s.mu.Lock(); defer s.mu.Unlock(); return len(s.sent) }

func vpProxyMsg(v *vpT, side string, i int) zmq4.Msg {
	var fs [][]byte
	for k := v.rng.Intn(5); k >= 0; k-- {
		fs = append(fs, vpBytes(v.rng, []int{0, 1, 5, 255, 256, 3000}[v.rng.Intn(6)]))
	}
	switch v.rng.Intn(12) {
	case 0:
		return zmq4.Msg{}
	case 1:
		fs = [][]byte{{}}
	case 2:
		fs = [][]byte{nil, []byte("after the delimiter")}
	default:
		fs = append(fs, []byte(fmt.Sprintf("%s%d", side, i)))
	}
	m := zmq4.NewMsgFrom(fs...)
	if v.rng.Intn(4) == 0 {
		m.Type = zmq4.UsrMsg
	}
	return m
}

func vpFrameCopy(m zmq4.Msg) [][]byte {
	var o [][]byte
	for _, f := range m.Frames {
		o = append(o, append([]byte{}, f...))
	}
	return o
}

// Scripted sockets: what one receives is what the other sends.
func TestVPProxyScripted(t *testing.T) {
	vpRun(t, "proxy-scripted", func(v *vpT) {
		for round := 0; round < vpN(120); round++ {
			stop := make(chan struct{})
			mk := func(side string) (*vpScript, [][][]byte) {
				n := v.rng.Intn(30)
				s := &vpScript{in: make(chan zmq4.Msg, n), stop: stop, nfail: -1, rat: -1}
				var want [][][]byte
				for i := 0; i < n; i++ {
					m := vpProxyMsg(v, side, i)
					want = append(want, vpFrameCopy(m))
					s.in <- m
				}
				close(s.in)
				if v.rng.Intn(4) == 0 {
					s.slow = 100 * time.Microsecond
				}
				return s, want
			}
			a, fromA := mk("a")
			b, fromB := mk("b")
			var possible []error
			what := fmt.Sprintf("%d messages from the frontend, %d from the backend", len(fromA), len(fromB))
			e := func(s string) error { x := errors.New(s); possible = append(possible, x); what += "; " + s; return x }
			if v.rng.Intn(3) == 0 {
				a.rerr = e("the frontend's Recv fails at its end")
			} else if v.rng.Intn(3) == 0 && len(fromA) > 0 {
				a.rat = v.rng.Intn(len(fromA))
				a.rerr = e(fmt.Sprintf("the frontend's Recv number %d fails once", a.rat))
			}
			if v.rng.Intn(3) == 0 {
				b.rerr = e("the backend's Recv fails at its end")
			} else if v.rng.Intn(3) == 0 && len(fromB) > 0 {
				b.rat = v.rng.Intn(len(fromB))
				b.rerr = e(fmt.Sprintf("the backend's Recv number %d fails once", b.rat))
			}
			ra, rb := len(fromA), len(fromB)
			if a.rat >= 0 {
				ra = a.rat
			}
			if b.rat >= 0 {
				rb = b.rat
			}
			if v.rng.Intn(4) == 0 && len(fromA) > 0 {
				b.nfail = v.rng.Intn(len(fromA))
				b.once = v.rng.Intn(2) == 0
				b.serr = e(fmt.Sprintf("the backend's Send number %d fails", b.nfail))
			}
			if v.rng.Intn(4) == 0 && len(fromB) > 0 {
				a.nfail = v.rng.Intn(len(fromB))
				a.once = v.rng.Intn(2) == 0
				a.serr = e(fmt.Sprintf("the frontend's Send number %d fails", a.nfail))
			}
			if len(possible) == 0 {
				a.rerr = e("the frontend's Recv fails at its end")
			}
			fa, fb := a.nfail, b.nfail
			var err error
			v.Within(10*time.Second, what, func() { err = zmq4.Proxy(a, b) })
			ok := false
			for _, p := range possible {
				ok = ok || err == p
			}
			if !ok {
				v.Fail("%s: Proxy returns %v", what, err)
			}
			check := func(dir string, s *vpScript, want [][][]byte) {
				s.mu.Lock()
				defer s.mu.Unlock()
				if len(s.sent) > len(want) {
					v.Fail("%s: %s: %d messages sent on, %d received", what, dir, len(s.sent), len(want))
				}
				for i, m := range s.sent {
					if !vpSame(m.Frames, want[i]) {
						v.Fail("%s: %s: message %d is sent on as %s, received as %s", what, dir, i, vpShow(m.Frames), vpShow(want[i]))
					}
				}
			}
			// the direction that failed forwarded everything before, and nothing after
			time.Sleep(time.Millisecond)
			for _, x := range []struct {
				err    error
				dst    *vpScript
				n, lim int
				dir    string
			}{{a.rerr, b, ra, fb, "backend"}, {b.rerr, a, rb, fa, "frontend"}, {b.serr, b, fb, -1, "backend"}, {a.serr, a, fa, -1, "frontend"}} {
				if x.err != nil && err == x.err && (x.lim < 0 || x.lim > x.n) && x.dst.count() != x.n {
					v.Fail("%s: Proxy ends with %q: %d messages reached the %s, want %d", what, err, x.dst.count(), x.dir, x.n)
				}
			}
			check("frontend to backend", b, fromA)
			check("backend to frontend", a, fromB)
			close(stop)
			v.Count(len(fromA) + len(fromB))
		}
	})
}

// One direction is blocked for as long as it likes: the other goes on.
func TestVPProxyIndependent(t *testing.T) {
	vpRun(t, "proxy-independent", func(v *vpT) {
		for round := 0; round < vpN(10); round++ {
			stop := make(chan struct{})
			a := &vpScript{in: make(chan zmq4.Msg), stop: stop, nfail: -1, rat: -1}
			b := &vpScript{in: make(chan zmq4.Msg), stop: stop, nfail: -1, rat: -1}
			if round%2 == 1 {
				a, b = b, a
			}
			done := make(chan error, 1)
			go func() { done <- zmq4.Proxy(a, b) }()
			src, dst := a, b
			if round%4 >= 2 {
				src, dst = b, a
			}
			for i := 0; i < 50; i++ {
				v.Within(5*time.Second, "a message while nothing comes from the other side", func() { src.in <- zmq4.NewMsgString(fmt.Sprint(i)) })
			}
			if !vpEventually(5*time.Second, func() bool { return dst.count() == 50 }) {
				v.Fail("%d of 50 messages are forwarded while the other direction is idle", dst.count())
			}
			select {
			case err := <-done:
				v.Fail("Proxy returned %v while both sockets work", err)
			default:
			}
			src.rerr = errors.New("the end")
			close(src.in)
			v.Within(5*time.Second, "the end of the proxy", func() {
				if err := <-done; err != src.rerr {
					v.Fail("Proxy returned %v", err)
				}
			})
			close(stop)
			v.Count(50)
		}
	})
}

func TestVPProxyMissing(t *testing.T) {
	vpRun(t, "proxy-missing", func(v *vpT) {
		s := &vpScript{in: make(chan zmq4.Msg), stop: make(chan struct{}), nfail: -1, rat: -1}
		for i, p := range [][2]zmq4.Socket{{nil, nil}, {s, nil}, {nil, s}} {
			v.Within(5*time.Second, fmt.Sprintf("a proxy with a missing socket (%d)", i), func() {
				if err := zmq4.Proxy(p[0], p[1]); err == nil {
					v.Fail("a proxy with a missing socket (%d) is not refused", i)
				}
			})
			v.Count(1)
		}
		close(s.stop)
	})
}

// Real sockets: requests and replies cross a ROUTER-DEALER proxy.
func TestVPProxySockets(t *testing.T) {
	vpRunFor(t, "proxy-sockets", 60*time.Second, func(v *vpT) {
		for round := 0; round < vpN(4); round++ {
			ctx := context.Background()
			front, back := zmq4.NewRouter(ctx), zmq4.NewDealer(ctx)
			fe, be := vpListen(v, front), vpListen(v, back)
			done := make(chan error, 1)
			worker := vpConnect(v, be, "ROUTER", "w")
			go func() { done <- zmq4.Proxy(front, back) }()
			var clients []*vpPeer
			for i := 0; i < 3; i++ {
				clients = append(clients, vpConnect(v, fe, "DEALER", fmt.Sprintf("c%d", i)))
			}
			for i := 0; i < 40; i++ {
				c := v.rng.Intn(3)
				var fs [][]byte
				for k := v.rng.Intn(4); k > 0; k-- {
					fs = append(fs, vpBytes(v.rng, []int{0, 1, 255, 256, 5000}[v.rng.Intn(5)]))
				}
				fs = append(fs, []byte(fmt.Sprint(i)))
				clients[c].send(fs...)
				got, _, err := worker.msg(5 * time.Second)
				want := append([][]byte{[]byte(fmt.Sprintf("c%d", c))}, fs...)
				if err != nil || !vpSame(got, want) {
					v.Fail("request %d of client %d: the worker gets %s (%v), want %s", i, c, vpShow(got), err, vpShow(want))
				}
				reply := append([][]byte{got[0], {}}, vpBytes(v.rng, 10))
				worker.send(reply...)
				got, _, err = clients[c].msg(5 * time.Second)
				if err != nil || !vpSame(got, reply[1:]) {
					v.Fail("reply %d for client %d: it gets %s (%v), want %s", i, c, vpShow(got), err, vpShow(reply[1:]))
				}
				v.Count(2)
			}
			front.Close()
			v.Within(8*time.Second, "the proxy after its frontend was closed", func() {
				if err := <-done; err == nil {
					v.Fail("Proxy returned nil after its frontend was closed")
				}
			})
			back.Close()
		}
	})
}
