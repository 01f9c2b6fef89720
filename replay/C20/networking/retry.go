package networking

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
)

// vpSock fails the first n sends and records every attempt.
type vpSock struct {
	mu     sync.Mutex
	fails  int
	tries  [][]byte
	closed int
	in     chan zmq4.Msg
}

var vpRefused = errors.New("refused")

func (s *vpSock) Close() error { s.mu.Lock(); s.closed++; s.mu.Unlock(); return nil }
func (s *vpSock) Send(m zmq4.Msg) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(m.Frames) != 1 {
		return fmt.Errorf("%d frames", len(m.Frames))
	}
	s.tries = append(s.tries, append([]byte(nil), m.Frames[0]...))
	if len(s.tries) <= s.fails {
		return fmt.Errorf("attempt %d: %w", len(s.tries), vpRefused)
	}
	return nil
}
func (s *vpSock) SendMulti(m zmq4.Msg) error { return s.Send(m) }
func (s *vpSock) Recv() (zmq4.Msg, error) {
	m, ok := <-s.in
	if !ok {
		return zmq4.Msg{}, context.Canceled
	}
	if m.Frames == nil {
		return zmq4.Msg{}, vpRefused
	}
	return m, nil
}
func (s *vpSock) Listen(string) error                   { return nil }
func (s *vpSock) Dial(string) error                     { return nil }
func (s *vpSock) Type() zmq4.SocketType                 { return zmq4.Dealer }
func (s *vpSock) Addr() net.Addr                        { return nil }
func (s *vpSock) GetOption(string) (interface{}, error) { return nil, nil }
func (s *vpSock) SetOption(string, interface{}) error   { return nil }

func vpNode(id string, retries int) *Transport {
	return New(context.Background(), Config{NodeID: id, MaxRetries: retries, RetryDelay: 100 * time.Microsecond})
}

// TestVPRetries: retries stop at the first success or after the configured
// number of attempts, every attempt carries the message, and nobody else gets it.
func TestVPRetries(t *testing.T) {
	vpRun(t, "retries", func(v *vpT) {
		for n := 1; n <= 6; n++ {
			for fails := 0; fails <= n+2; fails++ {
				for _, bcast := range []bool{false, true} {
					tr := vpNode("me", n)
					p, q, o := &vpSock{fails: fails}, &vpSock{}, &vpSock{fails: fails}
					tr.dealers["p"], tr.dealers["q"], tr.pub = p, q, o
					m := &Message{Type: fmt.Sprintf("t%d", fails), Data: json.RawMessage(`{"a":1}`), SessionID: []byte{1, 2}, Height: 1 << 60, Round: 7, From: "x", To: "y"}
					var err error
					to := p
					if bcast {
						to, p = o, to
						err = tr.BroadcastWithRetry(m)
					} else {
						p = o
						err = tr.SendWithRetry("p", m)
					}
					want := fails + 1
					if want > n {
						want = n
					}
					what := fmt.Sprintf("%d attempts configured, %d failures, broadcast=%v", n, fails, bcast)
					if len(to.tries) != want {
						v.Fail("%s: %d attempts, want %d", what, len(to.tries), want)
					}
					if (err == nil) != (fails < n) {
						v.Fail("%s: error %v", what, err)
					}
					if err != nil && !errors.Is(err, vpRefused) {
						v.Fail("%s: the error %q does not wrap the cause", what, err)
					}
					if len(q.tries)+len(p.tries) != 0 {
						v.Fail("%s: another socket was sent the message", what)
					}
					for i, b := range to.tries {
						var g Message
						if err := json.Unmarshal(b, &g); err != nil {
							v.Fail("%s: attempt %d sent %q", what, i, b)
						}
						if g.Type != m.Type || g.From != "me" || !bcast && g.To != "p" || !bytes.Equal(g.Data, m.Data) || !bytes.Equal(g.SessionID, m.SessionID) || g.Height != m.Height || g.Round != m.Round {
							v.Fail("%s: attempt %d sent %s", what, i, b)
						}
					}
					v.Count(1)
				}
			}
		}
		tr := vpNode("me", 3)
		p := &vpSock{}
		tr.dealers["p"] = p
		for _, id := range []string{"", "q", "P", "p "} {
			if err := tr.SendWithRetry(id, &Message{Type: "t"}); err == nil || len(p.tries) != 0 {
				v.Fail("sending to the unknown peer %q: error %v, %d messages sent to another peer", id, err, len(p.tries))
			}
		}
	})
}

// TestVPDispatch: what the loops receive reaches the handlers exactly once.
func TestVPDispatch(t *testing.T) {
	vpRun(t, "dispatch", func(v *vpT) {
		for _, router := range []bool{false, true} {
			tr := vpNode("me", 1)
			in := &vpSock{in: make(chan zmq4.Msg)}
			tr.sub, tr.router, tr.pub = in, in, &vpSock{}
			var mu sync.Mutex
			got := map[string][]*Message{}
			for _, ty := range []string{"a", "b", ""} {
				ty := ty
				tr.RegisterHandler(ty, func(m *Message) { mu.Lock(); got[ty] = append(got[ty], m); mu.Unlock() })
			}
			tr.RegisterHandler("nil", nil)
			tr.wg.Add(1)
			if router {
				go tr.routerLoop()
			} else {
				go tr.subLoop()
			}
			want := map[string][]string{}
			var drop, rec uint64
			for i := 0; i < 400; i++ {
				m := Message{Type: []string{"a", "b", "", "c", "nil"}[v.rng.Intn(5)], From: []string{"me", "you", ""}[v.rng.Intn(3)], To: []string{"", "me", "you"}[v.rng.Intn(3)], Height: uint64(i + 1), Round: uint32(v.rng.Intn(3)), Timestamp: int64(v.rng.Intn(3) - 1)}
				if v.rng.Intn(2) == 0 {
					m.SessionID = vpBytes(v.rng, 1+v.rng.Intn(9))
				}
				if v.rng.Intn(2) == 0 {
					m.Data = json.RawMessage(fmt.Sprintf(`{"k":[%d,"x"]}`, i))
				}
				b, err := json.Marshal(&m)
				if err != nil {
					v.Fail("marshal: %v", err)
				}
				bad := v.rng.Intn(5) == 0
				if bad {
					switch v.rng.Intn(4) {
					case 0:
						b = b[:v.rng.Intn(len(b))]
					case 1:
						b = []byte("[1]")
					case 2:
						b = append(b, '}')
					default:
						b = []byte(`{"type":"a","from":"you","height":-1}`)
					}
					drop++
				} else if m.From != "me" || m.To != "" {
					rec++
					if m.Type == "a" || m.Type == "b" || m.Type == "" {
						want[m.Type] = append(want[m.Type], string(b))
					}
				}
				switch {
				case router:
					in.in <- zmq4.NewMsgFrom([]byte("someone"), b)
				case v.rng.Intn(2) == 0 && len(b) > 1:
					in.in <- zmq4.NewMsgFrom(b[:1], b[1:])
				default:
					in.in <- zmq4.NewMsg(b)
				}
				if v.rng.Intn(6) == 0 {
					in.in <- zmq4.Msg{} // the receive fails
				}
				v.Count(1)
			}
			close(in.in)
			tr.wg.Wait()
			n := 0
			for _, w := range want {
				n += len(w)
			}
			vpEventually(2*time.Second, func() bool {
				mu.Lock()
				defer mu.Unlock()
				k := 0
				for _, g := range got {
					k += len(g)
				}
				return k >= n
			})
			time.Sleep(20 * time.Millisecond)
			mu.Lock()
			for ty, w := range want {
				seen := map[string]int{}
				for _, m := range got[ty] {
					b, _ := json.Marshal(m)
					seen[string(b)]++
				}
				for _, b := range w {
					if seen[b] != 1 {
						v.Fail("the handler of %q got the message %s %d times", ty, b, seen[b])
					}
				}
				if len(got[ty]) != len(w) {
					v.Fail("the handler of %q got %d messages, want %d", ty, len(got[ty]), len(w))
				}
			}
			mu.Unlock()
			if _, r, d := tr.GetMetrics(); r != rec || d != drop {
				v.Fail("counted %d received and %d dropped, want %d and %d", r, d, rec, drop)
			}
		}
	})
}
