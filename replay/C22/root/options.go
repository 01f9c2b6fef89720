package zmq4_test

//vp:race

import (
	"context"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/transport"
)

type vpKind struct {
	typ string
	mk  func(context.Context, ...zmq4.Option) zmq4.Socket
}

var vpKinds = []vpKind{
	{"PAIR", zmq4.NewPair}, {"PUB", zmq4.NewPub}, {"SUB", zmq4.NewSub}, {"REQ", zmq4.NewReq}, {"REP", zmq4.NewRep}, {"DEALER", zmq4.NewDealer},
	{"ROUTER", zmq4.NewRouter}, {"PULL", zmq4.NewPull}, {"PUSH", zmq4.NewPush}, {"XPUB", zmq4.NewXPub}, {"XSUB", zmq4.NewXSub}, {"STREAM", zmq4.NewStream},
}

var vpNames = []string{"HWM", "IDENTITY", "SUBSCRIBE", "UNSUBSCRIBE", "", "hwm", "Hwm", "HWM ", "SUBSCRIB", "subscribe", "X", "LINGER", "\x00"}

// what a socket of the type does with an option
func vpAccepts(typ, name string, val any) bool {
	switch typ {
	case "PUB":
		n, ok := val.(int)
		return name == "HWM" && ok && n >= 0
	case "SUB":
		_, ok := val.(string)
		return ok && (name == "SUBSCRIBE" || name == "UNSUBSCRIBE")
	}
	return true
}

func vpValue(v *vpT) any {
	switch v.rng.Intn(12) {
	case 0:
		return nil
	case 1:
		return v.rng.Intn(2000)
	case 2:
		return -1 - v.rng.Intn(5)
	case 3:
		return string(vpBytes(v.rng, v.rng.Intn(4)))
	case 4:
		return int64(v.rng.Intn(100))
	case 5:
		return uint8(v.rng.Intn(100))
	case 6:
		return float64(v.rng.Intn(100))
	case 7:
		return "a"
	case 8:
		return ""
	case 9:
		return true
	case 10:
		return 0
	}
	return [2]int{v.rng.Intn(3), 1}
}

// What is set is what is read, per socket; what is refused leaves no trace.
func TestVPOptions(t *testing.T) {
	vpRun(t, "set-and-get", func(v *vpT) {
		for round := 0; round < vpN(12); round++ {
			for _, k := range vpKinds {
				s, o := k.mk(context.Background()), k.mk(context.Background())
				want := map[string]any{}
				var h strings.Builder
				var p *vpPeer
				if k.typ == "SUB" && v.rng.Intn(2) == 0 {
					p, _, _ = vpDialedBy(v, s, "PUB", "")
					h.WriteString("connected; ")
				}
				for i := 0; i < 25; i++ {
					name, val := vpNames[v.rng.Intn(len(vpNames))], vpValue(v)
					if v.rng.Intn(3) == 0 {
						name = map[string]string{"PUB": "HWM", "SUB": []string{"SUBSCRIBE", "UNSUBSCRIBE"}[v.rng.Intn(2)]}[k.typ]
					}
					fmt.Fprintf(&h, "SetOption(%q, %#v); ", name, val)
					var err error
					v.Within(5*time.Second, k.typ+": "+h.String(), func() { err = s.SetOption(name, val) })
					ok := vpAccepts(k.typ, name, val)
					if ok != (err == nil) {
						v.Fail("%s: %s: the last one returns %v", k.typ, h.String(), err)
					}
					if ok {
						want[name] = val
					}
					for _, n := range vpNames {
						got, err := s.GetOption(n)
						x, has := want[n]
						if has != (err == nil) || got != x {
							v.Fail("%s: %s: GetOption(%q) = %#v, %v; want %#v (set: %v)", k.typ, h.String(), n, got, err, x, has)
						}
						if got, err := o.GetOption(n); err == nil || got != nil {
							v.Fail("%s: %s: another socket's GetOption(%q) = %#v, %v", k.typ, h.String(), n, got, err)
						}
					}
					v.Count(1)
				}
				if p != nil {
					p.Close()
				}
				s.Close()
				o.Close()
			}
		}
	})
}

// Options are set and read from many goroutines at once.
func TestVPOptionsConcurrent(t *testing.T) {
	vpRun(t, "set-and-get-concurrently", func(v *vpT) {
		for round := 0; round < vpN(3); round++ {
			for _, k := range vpKinds {
				s := k.mk(context.Background())
				var wg sync.WaitGroup
				bad := make(chan string, 64)
				for g := 0; g < 4; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						name := fmt.Sprintf("o%d", g)
						if k.typ == "PUB" || k.typ == "SUB" {
							name = map[string]string{"PUB": "HWM", "SUB": "SUBSCRIBE"}[k.typ]
						}
						for i := 0; i < 40; i++ {
							var val any = i
							if k.typ == "SUB" {
								val = fmt.Sprint(i)
							}
							if err := s.SetOption(name, val); err != nil {
								bad <- fmt.Sprintf("SetOption(%q, %v): %v", name, val, err)
							}
							got, err := s.GetOption(name)
							if err != nil || k.typ != "PUB" && k.typ != "SUB" && got != val {
								bad <- fmt.Sprintf("GetOption(%q) = %v, %v after setting %v", name, got, err, val)
							}
						}
					}()
				}
				wg.Wait()
				select {
				case b := <-bad:
					v.Fail("%s: from four goroutines: %s", k.typ, b)
				default:
				}
				s.Close()
				v.Count(160)
			}
		}
	})
}

// The identity a socket announces.
func TestVPIdentity(t *testing.T) {
	vpRun(t, "identity", func(v *vpT) {
		seen := map[string]bool{}
		lens := []int{0, 1, 2, 16, 36, 127, 128, 254, 255, 256, 257, 300, 511, 1000}
		for round := 0; round < vpN(1); round++ {
			for _, k := range vpKinds {
				if k.typ == "STREAM" {
					continue
				}
				for _, n := range lens {
					id := vpBytes(v.rng, n)
					var opts []zmq4.Option
					what := fmt.Sprintf("%s with an identity of %d bytes", k.typ, n)
					if v.rng.Intn(3) == 0 {
						opts = append(opts, zmq4.WithID(zmq4.SocketIdentity("earlier")))
						what += ", after another identity"
					}
					if n == 0 && len(opts) == 0 && v.rng.Intn(2) == 0 {
						what += " (not set)"
					} else {
						opts = append(opts, zmq4.WithID(zmq4.SocketIdentity(id)))
					}
					if v.rng.Intn(2) == 0 {
						opts = append(opts, zmq4.WithTimeout(time.Minute), zmq4.WithAutomaticReconnect(false), zmq4.WithDialerRetry(time.Millisecond), zmq4.WithSecurity(null.Security()))
						what += ", other options"
					}
					if v.rng.Intn(4) == 0 {
						opts = append(opts, zmq4.WithSecurity(nil), zmq4.WithLogger(nil), zmq4.WithDialerMaxRetries(2))
						what += ", no security"
					}
					s := k.mk(context.Background(), opts...)
					first := ""
					for i := 0; i < 2; i++ {
						var p *vpPeer
						if i == 0 {
							p, _, _ = vpDialedBy(v, s, peerOf(k.typ), "q0")
						} else {
							p = vpConnect(v, vpListen(v, s), peerOf(k.typ), "q1")
						}
						m := map[string]string{}
						for _, x := range p.meta {
							m[strings.ToLower(x[0])] = x[1]
						}
						got := m["identity"]
						if m["socket-type"] != k.typ {
							v.Fail("%s: announces the type %q", what, m["socket-type"])
						}
						want := string(id)
						if len(want) > 255 {
							want = want[:255]
						}
						if n == 0 {
							if got == "" || len(got) > 255 || i == 0 && seen[got] {
								v.Fail("%s: announces %q, which is not a fresh identity", what, got)
							}
							seen[got] = true
							if i > 0 {
								want = first
							} else {
								want, first = got, got
							}
						}
						if got != want {
							v.Fail("%s, connection %d: announces %s, want %s", what, i, vpShort([]byte(got)), vpShort([]byte(want)))
						}
						p.Close()
					}
					s.Close()
					v.Count(2)
				}
			}
		}
	})
}

// Where the high-water mark in force when a subscriber joins bounds its queue.
func TestVPHighWater(t *testing.T) {
	vpRunFor(t, "high-water", 60*time.Second, func(v *vpT) {
		for round := 0; round < vpN(10); round++ {
			s := zmq4.NewPub(context.Background())
			ep := vpListen(v, s)
			type sub struct {
				p   *vpPeer
				hwm int
			}
			var subs []sub
			hwm := 1000 // the default
			what := ""
			for i := 0; i < 3; i++ {
				for _, x := range []any{-1, "10", 3.0, int64(7), nil} {
					if v.rng.Intn(2) == 0 {
						if err := s.SetOption(zmq4.OptionHWM, x); err == nil {
							v.Fail("a high-water mark of %#v is accepted", x)
						}
					}
				}
				if i > 0 || v.rng.Intn(3) > 0 {
					n := []int{0, 1, 2, 3, 10, 64, 500}[v.rng.Intn(7)]
					if err := s.SetOption(zmq4.OptionHWM, n); err != nil {
						v.Fail("a high-water mark of %d is refused: %v", n, err)
					}
					hwm = n
				}
				what += fmt.Sprintf("high-water mark %d, a subscriber joins; ", hwm)
				p := vpConnect(v, ep, "SUB", fmt.Sprint(i))
				subs = append(subs, sub{p, hwm})
				p.send([]byte("\x01"))
				// the subscription is in force when a message arrives
				for {
					s.Send(zmq4.NewMsg([]byte("?")))
					if _, _, err := p.msg(50 * time.Millisecond); err == nil {
						break
					}
				}
			}
			for _, x := range subs {
				for {
					if _, _, err := x.p.msg(100 * time.Millisecond); err != nil {
						break
					}
				}
				x.p.r.setGate(true)
			}
			total := 40
			for _, x := range subs {
				total = max(total, x.hwm+40)
			}
			t0 := time.Now()
			v.Within(20*time.Second, what+fmt.Sprintf("publishing %d messages while no subscriber reads", total), func() {
				for i := 0; i < total; i++ {
					s.Send(zmq4.NewMsgFrom([]byte(fmt.Sprint(i)), []byte("x")))
					if i == 0 {
						time.Sleep(10 * time.Millisecond) // the senders take it
					}
				}
			})
			if d := time.Since(t0); d > 10*time.Second {
				v.Fail("%spublishing takes %v while no subscriber reads", what, d)
			}
			for i, x := range subs {
				x.p.r.setGate(false)
				n, last := 0, -1
				for {
					fs, _, err := x.p.msg(200 * time.Millisecond)
					if err != nil {
						break
					}
					k := -1
					fmt.Sscan(string(fs[0]), &k)
					if k <= last || len(fs) != 2 {
						v.Fail("%ssubscriber %d gets %s after message %d", what, i, vpShow(fs), last)
					}
					if n < x.hwm && k != n {
						v.Fail("%ssubscriber %d (bound %d) gets message %d as number %d", what, i, x.hwm, k, n)
					}
					last = k
					n++
				}
				if n > x.hwm+1 || n < x.hwm {
					v.Fail("%ssubscriber %d did not read while %d messages were published: %d were kept, the bound is %d", what, i, total, n, x.hwm)
				}
			}
			s.Close()
			v.Count(3 * total)
		}
	})
}

// vpFails refuses the first n attempts to connect.
type vpFails struct {
	mu   sync.Mutex
	n    int
	made []time.Time
}

func (f *vpFails) Addr(ep string) (string, error) { return ep, nil }
func (f *vpFails) Listen(ctx context.Context, addr string) (net.Listener, error) {
	return nil, errors.New("no")
}
func (f *vpFails) Dial(ctx context.Context, d transport.Dialer, addr string) (net.Conn, error) {
	f.mu.Lock()
	f.made = append(f.made, time.Now())
	k := len(f.made)
	f.mu.Unlock()
	if k <= f.n {
		return nil, errors.New("refused")
	}
	a, b := vpPair()
	go (&vpPeer{vpConn: b}).shake("PULL", "x", 1)
	return a, nil
}

// How often a socket tries to connect, and how long it waits in between.
func TestVPRetries(t *testing.T) {
	vpRun(t, "retries", func(v *vpT) {
		for i := 0; i < vpN(60); i++ {
			f := &vpFails{n: v.rng.Intn(8)}
			name := fmt.Sprintf("vpfails%d", i)
			if err := zmq4.RegisterTransport(name, f); err != nil {
				v.Fail("%v", err)
			}
			most := v.rng.Intn(6)
			wait := time.Duration(1+v.rng.Intn(3)) * time.Millisecond
			s := zmq4.NewPush(context.Background(), zmq4.WithDialerRetry(wait), zmq4.WithDialerMaxRetries(most))
			var err error
			v.Within(10*time.Second, fmt.Sprintf("dialling what refuses %d times with at most %d retries", f.n, most), func() { err = s.Dial(name + "://x") })
			want := min(f.n, most) + 1
			if len(f.made) != want || (err == nil) != (f.n <= most) {
				v.Fail("dialling what refuses %d times with at most %d retries: %d attempts (want %d), error %v", f.n, most, len(f.made), want, err)
			}
			for j := 1; j < len(f.made); j++ {
				if d := f.made[j].Sub(f.made[j-1]); d < wait {
					v.Fail("the wait between attempts is %v, %v was asked for", d, wait)
				}
			}
			s.Close()
			v.Count(1)
		}
	})
}

// A socket without connections gives up sending after its timeout.
func TestVPTimeout(t *testing.T) {
	vpRun(t, "timeout", func(v *vpT) {
		for _, d := range []time.Duration{20 * time.Millisecond, 150 * time.Millisecond, 400 * time.Millisecond} {
			for _, mk := range []vpKind{{"PUSH", zmq4.NewPush}, {"DEALER", zmq4.NewDealer}, {"PAIR", zmq4.NewPair}} {
				s := mk.mk(context.Background(), zmq4.WithTimeout(d))
				t0 := time.Now()
				v.Within(8*time.Second, fmt.Sprintf("%s: Send with a timeout of %v and no peer", mk.typ, d), func() { s.Send(zmq4.NewMsgString("x")) })
				if e := time.Since(t0); e < d/2 {
					v.Fail("%s: Send with a timeout of %v and no peer gives up after %v", mk.typ, d, e)
				}
				s.Close()
				v.Count(1)
			}
		}
	})
}

// Whether a socket connects again when a connection it dialled fails.
func TestVPReconnect(t *testing.T) {
	vpRun(t, "reconnect", func(v *vpT) {
		for round := 0; round < vpN(4); round++ {
			auto := round%2 == 0
			s := zmq4.NewPull(context.Background(), zmq4.WithAutomaticReconnect(auto))
			p, l, _ := vpDialedBy(v, s, "PUSH", "")
			p.Close()
			if auto {
				q := vpAcceptFrom(v, l, "PUSH", "")
				q.send([]byte("again"))
				if m, err := v.recv(s, "a message after reconnecting"); err == nil && string(m.Bytes()) != "again" {
					v.Fail("after reconnecting, Recv gives %s", vpShow(m.Frames))
				}
			} else {
				select {
				case <-l.ch:
					v.Fail("a socket that must not reconnect does")
				case <-time.After(300 * time.Millisecond):
				}
			}
			s.Close()
			v.Count(1)
		}
	})
}
