package zmq4_test

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/transport"
)

// vpRec records what it is asked and refuses it.
type vpRec struct {
	id    int
	refue string // addresses it refuses start with it
	mu    sync.Mutex
	calls []string
}

func (r *vpRec) note(s string) {
	r.mu.Lock()
	r.calls = append(r.calls, s)
	r.mu.Unlock()
}
func (r *vpRec) take() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	c := r.calls
	r.calls = nil
	return c
}

var errVPRec = errors.New("recorded")

func (r *vpRec) Addr(ep string) (string, error) {
	if r.refue != "" && strings.HasPrefix(ep, r.refue) {
		return "", errVPRec
	}
	return "<" + ep + ">", nil
}
func (r *vpRec) Dial(ctx context.Context, d transport.Dialer, addr string) (net.Conn, error) {
	r.note("dial " + addr)
	return nil, errVPRec
}
func (r *vpRec) Listen(ctx context.Context, addr string) (net.Listener, error) {
	r.note("listen " + addr)
	return nil, errVPRec
}

var vpRecs = map[string]*vpRec{}

func vpReg(v *vpT, name string) *vpRec {
	if r := vpRecs[name]; r != nil {
		return r
	}
	r := &vpRec{id: len(vpRecs), refue: "bad"}
	if err := zmq4.RegisterTransport(name, r); err != nil {
		v.Fail("RegisterTransport(%q): %v", name, err)
	}
	vpRecs[name] = r
	return r
}

// Which endpoints are accepted, and what the transport is handed.
func TestVPEndpoints(t *testing.T) {
	vpRun(t, "endpoints", func(v *vpT) {
		names := []string{"vpr", "vprr", "VPR", "v p", ""}
		for _, n := range names {
			vpReg(v, n)
		}
		try := func(ep string) {
			parts := strings.Split(ep, "://")
			var rec *vpRec
			if len(parts) == 2 {
				rec = vpRecs[parts[0]]
			}
			for _, dial := range []bool{true, false} {
				s := zmq4.NewPair(context.Background(), zmq4.WithDialerMaxRetries(0), zmq4.WithDialerRetry(time.Millisecond))
				var err error
				what := fmt.Sprintf("Listen(%q)", ep)
				v.Within(3*time.Second, what, func() {
					if dial {
						what = fmt.Sprintf("Dial(%q)", ep)
						err = s.Dial(ep)
					} else {
						err = s.Listen(ep)
					}
				})
				if err == nil {
					v.Fail("%s succeeds", what)
				}
				for n, r := range vpRecs {
					got := r.take()
					var want []string
					if r == rec && !strings.HasPrefix(parts[1], "bad") {
						want = []string{"listen <" + parts[1] + ">"}
						if dial {
							want[0] = "dial <" + parts[1] + ">"
						}
					}
					if fmt.Sprint(got) != fmt.Sprint(want) {
						v.Fail("%s (error %v): transport %q is asked %q, want %q", what, err, n, got, want)
					}
				}
				if (rec != nil && !strings.HasPrefix(parts[1], "bad")) != errors.Is(err, errVPRec) && !(rec != nil && errors.Is(err, errVPRec)) {
					v.Fail("%s: error %v", what, err)
				}
				s.Close()
				v.Count(1)
			}
		}
		for _, ep := range []string{"", "vpr", "vpr:", "vpr:/", "vpr:/x", "vpr://", "://", "://x", "vpr://a://b", "vpr://://", "vpr:///a", "vpr:////a", "vpr://a:/", "vpr://a:/ /",
			"nope://x", "vpr ://x", " vpr://x", "Vpr://x", "VPR://x", "vprr://x", "v p://x y", "vp://", "vpr//x", "vpr://x#y?z", "vpr://bad", "vpr://badly", "vpr://not bad", "vpr:://x", ":vpr://x", "vpr://vpr", "tcp//x",
			"vpr://\x00", "vpr://é", "vpr://x://", "://://", "vpr://*:*", "vpr://:0"} {
			try(ep)
		}
		pieces := []string{"vpr", "VPR", "vprr", "://", ":", "/", "a", "*", "0", "bad", "x y", "", "//"}
		for i := 0; i < vpN(4000); i++ {
			ep := ""
			for n := v.rng.Intn(6); n >= 0; n-- {
				ep += pieces[v.rng.Intn(len(pieces))]
			}
			try(ep)
		}
	})
}

// A taken name is refused and the first registration stays; the list is sorted and complete.
func TestVPRegistry(t *testing.T) {
	vpRun(t, "registry", func(v *vpT) {
		known := map[string]bool{"ipc": true, "tcp": true, "udp": true, "inproc": true}
		for n := range vpRecs {
			known[n] = true
		}
		list := func(when string) {
			got := zmq4.Transports()
			seen := map[string]bool{}
			for _, n := range got {
				if seen[n] {
					v.Fail("%s: %q twice in %q", when, n, got)
				}
				seen[n] = true
			}
			if !sort.StringsAreSorted(got) {
				v.Fail("%s: the list is not sorted: %q", when, got)
			}
			for n := range known {
				if !seen[n] {
					v.Fail("%s: %q is missing from %q", when, n, got)
				}
			}
			if len(got) != len(known) && !(len(got) == len(known)+1 && seen["vp"]) {
				v.Fail("%s: %d names, want %d: %q", when, len(got), len(known), got)
			}
			for i := range got {
				got[i] = "scribbled"
			}
		}
		list("at first")
		for i := 0; i < vpN(200); i++ {
			name := fmt.Sprintf("%c%d-reg", 'z'-rune(v.rng.Intn(26)), i)
			const k = 6
			recs := make([]*vpRec, k)
			errs := make([]error, k)
			var wg sync.WaitGroup
			for j := range recs {
				j := j
				recs[j] = &vpRec{id: j}
				f := func() { errs[j] = zmq4.RegisterTransport(name, recs[j]) }
				if i%2 == 0 {
					f()
					continue
				}
				wg.Add(1)
				go func() { defer wg.Done(); f() }()
			}
			wg.Wait()
			win := -1
			for j, err := range errs {
				if err == nil {
					if win >= 0 {
						v.Fail("%q is registered twice (%d and %d of %d)", name, win, j, k)
					}
					win = j
				}
			}
			if win < 0 || i%2 == 0 && win != 0 {
				v.Fail("registering %q %d times: number %d wins", name, k, win)
			}
			known[name] = true
			s := zmq4.NewPair(context.Background(), zmq4.WithDialerMaxRetries(0))
			s.Dial(name + "://x")
			for j, r := range recs {
				if c := r.take(); (len(c) == 1) != (j == win) {
					v.Fail("%q was registered by number %d, but number %d is asked %q", name, win, j, c)
				}
			}
			s.Close()
			list("after " + name)
			v.Count(1)
		}
		for _, n := range []string{"ipc", "tcp", "udp", "inproc"} {
			if err := zmq4.RegisterTransport(n, &vpRec{}); err == nil {
				v.Fail("%q is registered again", n)
			}
		}
		list("after refused registrations")
	})
}

// The built-in transports listen and connect.
func TestVPBuiltin(t *testing.T) {
	vpRun(t, "built-in transports", func(v *vpT) {
		dir := t.TempDir()
		for _, ep := range []string{"tcp://127.0.0.1:0", "tcp://localhost:*", "tcp://*:0", "tcp://:", "ipc://" + dir + "/s", "inproc://vp-builtin"} {
			s := zmq4.NewPull(context.Background())
			if err := s.Listen(ep); err != nil {
				v.Fail("Listen(%q): %v", ep, err)
			}
			to := ep
			if strings.HasPrefix(ep, "tcp://") {
				a, ok := s.Addr().(*net.TCPAddr)
				if !ok || a.Port == 0 {
					v.Fail("Listen(%q): address %v", ep, s.Addr())
				}
				if strings.HasPrefix(ep, "tcp://*") || ep == "tcp://:" {
					if !a.IP.IsUnspecified() {
						v.Fail("Listen(%q) listens on %v", ep, a)
					}
				}
				to = fmt.Sprintf("tcp://127.0.0.1:%d", a.Port)
			}
			c := zmq4.NewPush(context.Background())
			v.Within(5*time.Second, "Dial "+to, func() {
				if err := c.Dial(to); err != nil {
					v.Fail("Dial(%q): %v", to, err)
				}
				if err := c.Send(zmq4.NewMsgString("hello")); err != nil {
					v.Fail("%q: Send: %v", to, err)
				}
			})
			if m, err := v.recv(s, ep); err != nil || string(m.Bytes()) != "hello" {
				v.Fail("%q: received %s", ep, vpShow(m.Frames))
			}
			c.Close()
			s.Close()
			v.Count(1)
		}
	})
}
