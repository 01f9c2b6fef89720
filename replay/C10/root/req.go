package zmq4_test

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
)

func vpReqFrames(r *rand.Rand, min int) [][]byte {
	var e [][]byte
	for i := min + r.Intn(4); i > 0; i-- {
		if r.Intn(4) == 0 {
			e = append(e, []byte{})
		} else {
			e = append(e, vpBytes(r, vpSizes[r.Intn(20)]))
		}
	}
	return e
}

func vpWithDelim(fs [][]byte) [][]byte { return append([][]byte{{}}, fs...) }

// vpReqPeers makes a REQ socket with n connected peers.
func vpReqPeers(v *vpT, n int) (zmq4.Socket, []*vpPeer) {
	req := zmq4.NewReq(vpCtx)
	ep := vpListen(v, req)
	var ps []*vpPeer
	for i := 0; i < n; i++ {
		ps = append(ps, vpConnect(v, ep, []string{"REP", "ROUTER"}[i%2], fmt.Sprintf("p%d", i)))
		time.Sleep(15 * time.Millisecond)
	}
	return req, ps
}

// vpAsk sends one request and returns the index of the one peer it went to.
func vpAsk(v *vpT, req zmq4.Socket, ps []*vpPeer, dead map[int]bool, fs [][]byte, multi bool, what string) int {
	send := req.Send
	if multi {
		send = req.SendMulti
	}
	var err error
	keep := append([][]byte{}, fs...)
	v.Within(8*time.Second, what, func() { err = send(zmq4.NewMsgFrom(fs...)) })
	if err != nil {
		v.Fail("%s: Send: %v", what, err)
	}
	if !vpSame(fs, keep) {
		v.Fail("%s: Send changed the caller's frames to %s", what, vpShow(fs))
	}
	got := -1
	for i, p := range ps {
		if dead[i] {
			continue
		}
		b := p.take()
		if len(b) == 0 {
			continue
		}
		if got >= 0 {
			v.Fail("%s: went to peers %d and %d", what, got, i)
		}
		got = i
		if !bytes.Equal(b, vpWire(vpWithDelim(fs)...)) {
			v.Fail("%s: peer %d of %d got %s, want a delimiter and %s", what, i, len(ps), vpShort(b), vpShow(fs))
		}
	}
	if got < 0 {
		v.Fail("%s: Send succeeded but none of the live peers got the request", what)
	}
	return got
}

func vpAnswer(v *vpT, req zmq4.Socket, p *vpPeer, out [][]byte, what string) {
	p.send(vpWithDelim(out)...)
	m, err := v.recv(req, what)
	if err != nil || !vpSame(m.Frames, out) {
		v.Fail("%s: Recv gave %s (error %v), the peer that was asked answered %s", what, vpShow(m.Frames), err, vpShow(out))
	}
}

// Peers take turns; each request goes to one of them and its reply is the one delivered.
func TestVPReqTurns(t *testing.T) {
	vpRun(t, "req-turns", func(v *vpT) {
		for n := 1; n <= 5; n++ {
			req, ps := vpReqPeers(v, n)
			last := make([]int, n)
			for i := range last {
				last[i] = -1
			}
			for k := 0; k < vpN(12*n); k++ {
				what := fmt.Sprintf("request %d with %d peers", k, n)
				got := vpAsk(v, req, ps, nil, vpReqFrames(v.rng, 0), k%2 == 1, what)
				if k >= n && k-last[got] != n {
					v.Fail("%s: went to peer %d, which had request %d: the %d peers do not take turns", what, got, last[got], n)
				}
				if k < n && last[got] >= 0 {
					v.Fail("%s: went to peer %d, which had request %d: the %d peers do not take turns", what, got, last[got], n)
				}
				last[got] = k
				if v.rng.Intn(3) != 0 {
					vpAnswer(v, req, ps[got], vpReqFrames(v.rng, 1), what)
				}
				v.Count(1)
			}
			req.Close()
		}
	})
}

// The reply comes from the peer asked last, whatever the others send.
func TestVPReqAffinity(t *testing.T) {
	vpRun(t, "req-affinity", func(v *vpT) {
		for round := 0; round < vpN(20); round++ {
			n := 2 + v.rng.Intn(3)
			req, ps := vpReqPeers(v, n)
			k := 1 + v.rng.Intn(2*n)
			var got int
			for i := 0; i < k; i++ {
				got = vpAsk(v, req, ps, nil, vpReqFrames(v.rng, 1), false, fmt.Sprintf("request %d with %d peers", i, n))
			}
			for i, p := range ps {
				if i != got {
					p.send(vpWithDelim([][]byte{[]byte("unasked"), []byte(fmt.Sprint(i))})...)
				}
			}
			what := fmt.Sprintf("reply of peer %d of %d after %d requests", got, n, k)
			for i := 0; i < 3; i++ {
				vpAnswer(v, req, ps[got], vpReqFrames(v.rng, 1), what)
			}
			v.Count(1)
			req.Close()
		}
	})
}

// Connections whose writes fail are skipped, in every position of the turn.
func TestVPReqFailOver(t *testing.T) {
	vpRun(t, "req-failover", func(v *vpT) {
		for n := 1; n <= 4; n++ {
			for adv := 0; adv < n; adv++ {
				for mask := 0; mask < 1<<n; mask++ {
					for kind := 0; kind < 2; kind++ {
						vpReqFail(v, n, adv, mask, kind)
						v.Count(1)
					}
				}
			}
		}
	})
}

func vpReqFail(v *vpT, n, adv, mask, kind int) {
	req := zmq4.NewReq(vpCtx)
	defer req.Close()
	ep := vpListen(v, req)
	var ps []*vpPeer
	for i := 0; i < n; i++ {
		ps = append(ps, vpConnect(v, ep, "REP", fmt.Sprintf("p%d", i)))
	}
	time.Sleep(8 * time.Millisecond)
	for i := 0; i < adv; i++ {
		vpAsk(v, req, ps, nil, [][]byte{[]byte("warm up")}, false, "warm up")
	}
	dead := map[int]bool{}
	for i, p := range ps {
		if mask>>i&1 == 0 {
			continue
		}
		dead[i] = true
		p.r.mu.Lock()
		if kind == 0 { // a transient write failure: the connection stays
			p.r.budget, p.r.werr = v.rng.Intn(3), errors.New("vp: write failed")
		} else { // the peer is gone
			p.r.dead = true
		}
		p.r.mu.Unlock()
	}
	what := fmt.Sprintf("request after %d, with the connections %0*b of %d failing (kind %d)", adv, n, mask, n, kind)
	if mask == 1<<n-1 {
		v.Within(8*time.Second, what, func() {
			if err := req.Send(zmq4.NewMsgString("nobody")); err == nil {
				v.Fail("%s: Send succeeded", what)
			}
		})
		return
	}
	live := n - len(dead)
	seen := map[int]int{}
	for i := 0; i < 2*live+2; i++ {
		got := vpAsk(v, req, ps, dead, [][]byte{[]byte("question"), {}, []byte(fmt.Sprint(i))}, i%2 == 1, what)
		seen[got]++
		if i == 0 {
			vpAnswer(v, req, ps[got], [][]byte{[]byte("a"), {}}, what)
		}
		if i%2 == 0 {
			time.Sleep(time.Millisecond) // lets the lost connections leave
		}
	}
	if len(seen) != live {
		v.Fail("%s: only peers %v of the %d live ones were asked in %d requests", what, seen, live, 2*live+2)
	}
}

// The peer that was asked leaves before it answers; others come and go.
func TestVPReqChurn(t *testing.T) {
	vpRun(t, "req-churn", func(v *vpT) {
		for round := 0; round < vpN(6); round++ {
			req := zmq4.NewReq(vpCtx)
			ep := vpListen(v, req)
			var ps []*vpPeer
			dead := map[int]bool{}
			join := func() {
				ps = append(ps, vpConnect(v, ep, "REP", fmt.Sprintf("p%d", len(ps))))
				time.Sleep(8 * time.Millisecond)
			}
			join()
			join()
			join()
			for step := 0; step < 25; step++ {
				what := fmt.Sprintf("round %d step %d, %d peers joined, %d left", round, step, len(ps), len(dead))
				live := len(ps) - len(dead)
				switch v.rng.Intn(4) {
				case 0:
					if live < 5 {
						join()
					}
				case 1:
					if live < 2 {
						continue
					}
					got := vpAsk(v, req, ps, dead, vpReqFrames(v.rng, 0), false, what)
					ps[got].Close()
					dead[got] = true
					v.Within(8*time.Second, what, func() {
						if m, err := req.Recv(); err == nil {
							v.Fail("%s: Recv gave %s although the peer that was asked left without an answer", what, vpShow(m.Frames))
						}
					})
					time.Sleep(15 * time.Millisecond)
					v.Within(8*time.Second, what, func() {
						if m, err := req.Recv(); err == nil {
							v.Fail("%s: a second Recv gave %s", what, vpShow(m.Frames))
						}
					})
				default:
					got := vpAsk(v, req, ps, dead, vpReqFrames(v.rng, 0), step%2 == 0, what)
					vpAnswer(v, req, ps[got], vpReqFrames(v.rng, 1), what)
				}
				v.Count(1)
			}
			req.Close()
		}
	})
}

// A peer that was not asked leaves, or sends, while an answer is awaited.
func TestVPOthersLeave(t *testing.T) {
	vpRun(t, "others-leave", func(v *vpT) {
		for i := 0; i < vpN(40); i++ {
			n := 2 + v.rng.Intn(3)
			req, ps := vpReqPeers(v, n)
			what := fmt.Sprintf("REQ with %d peers", n)
			dead := map[int]bool{}
			for len(dead) < n-1 {
				fs := vpReqFrames(v.rng, 1)
				at := vpAsk(v, req, ps, dead, fs, v.rng.Intn(2) == 0, what)
				out := vpReqFrames(v.rng, 1)
				gone := -1
				for j := range ps {
					if j != at && !dead[j] {
						gone = j
					}
				}
				what += fmt.Sprintf("; asked %d, %d leaves", at, gone)
				ps[gone].w.closeWrite() // seen by the reader of that connection
				dead[gone] = true
				time.Sleep(time.Duration(5+v.rng.Intn(20)) * time.Millisecond)
				vpAnswer(v, req, ps[at], out, what)
				v.Count(1)
				// the leaver stops being asked once a write to it fails
				ps[gone].Close()
			}
			req.Close()
		}
	})
}
