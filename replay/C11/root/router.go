package zmq4_test

import (
	"bytes"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
)

// identities that are easy to confuse: prefixes of each other, zero bytes, case, lengths around 255
func vpIDs(v *vpT, n int) []string {
	pool := []string{"a", "ab", "abc", "b", "A", "\x00", "\x00\x00", "a\x00", "\x01", " ", "a ", " a", "abcd", "\xff", "\xff\xfe",
		string(vpBytes(v.rng, 36)), string(vpBytes(v.rng, 255)), string(vpBytes(v.rng, 256)), "id-1", "id-10", "id-100"}
	v.rng.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	return pool[:n]
}

func vpPayload(v *vpT) [][]byte {
	var fs [][]byte
	for i := 1 + v.rng.Intn(4); i > 0; i-- {
		switch v.rng.Intn(4) {
		case 0:
			fs = append(fs, []byte{})
		case 1:
			fs = append(fs, []byte("ab"))
		default:
			fs = append(fs, vpBytes(v.rng, vpSizes[v.rng.Intn(20)]))
		}
	}
	return fs
}

func vpRouterPeers(v *vpT, ids []string) (zmq4.Socket, string, []*vpPeer) {
	rt := zmq4.NewRouter(vpCtx)
	ep := vpListen(v, rt)
	var ps []*vpPeer
	for i, id := range ids {
		ps = append(ps, vpConnect(v, ep, []string{"DEALER", "REQ", "ROUTER"}[i%3], id))
	}
	time.Sleep(20 * time.Millisecond)
	return rt, ep, ps
}

// Every message delivered is the identity of its sender followed by its frames, in the sender's order.
func TestVPRouterLabels(t *testing.T) {
	vpRun(t, "router-labels", func(v *vpT) {
		for round := 0; round < vpN(12); round++ {
			n := 1 + round%6
			ids := vpIDs(v, n)
			rt, _, ps := vpRouterPeers(v, ids)
			k := vpN(20)
			sent := map[string][][][]byte{}
			for i := range ps {
				for j := 0; j < k; j++ {
					sent[ids[i]] = append(sent[ids[i]], vpPayload(v))
				}
			}
			var wg sync.WaitGroup
			for i := range ps {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, m := range sent[ids[i]] {
						ps[i].send(m...)
					}
				}()
			}
			next := map[string]int{}
			for j := 0; j < n*k; j++ {
				what := fmt.Sprintf("message %d of %d peers", j, n)
				m, err := v.recv(rt, what)
				if err != nil {
					v.Fail("%s: Recv: %v", what, err)
				}
				if len(m.Frames) == 0 {
					v.Fail("%s: no frames", what)
				}
				id := string(m.Frames[0])
				want, ok := sent[id]
				if !ok {
					v.Fail("%s: labelled %q, no peer has that identity", what, id)
				}
				if next[id] >= len(want) {
					v.Fail("%s: peer %q sent only %d messages", what, id, len(want))
				}
				if !vpSame(m.Frames[1:], want[next[id]]) {
					v.Fail("%s: message %d of peer %q was %s, delivered as %s", what, next[id], id, vpShow(want[next[id]]), vpShow(m.Frames[1:]))
				}
				next[id]++
				// the frames are the receiver's: what it does to them must not show in later messages
				for _, f := range m.Frames {
					for x := range f {
						f[x] ^= 0x5a
					}
				}
				v.Count(1)
			}
			wg.Wait()
			rt.Close()
		}
	})
}

// A message goes to exactly the peer named by its first frame, without that frame.
func TestVPRouterRoutes(t *testing.T) {
	vpRun(t, "router-routes", func(v *vpT) {
		for round := 0; round < vpN(12); round++ {
			n := 1 + round%7
			ids := vpIDs(v, 15)
			known, unknown := ids[:n], ids[n:]
			rt, _, ps := vpRouterPeers(v, known)
			var expect = make([][]byte, n)
			for j := 0; j < vpN(40); j++ {
				body := vpPayload(v)
				id := known[v.rng.Intn(n)]
				if v.rng.Intn(3) == 0 {
					id = unknown[v.rng.Intn(len(unknown))]
				}
				if v.rng.Intn(9) == 0 {
					id = ""
				}
				fs := append([][]byte{[]byte(id)}, body...)
				keep := vpCopy(fs)
				msg := zmq4.NewMsgFrom(fs...)
				send := rt.Send
				if v.rng.Intn(2) == 0 {
					send = rt.SendMulti
				}
				what := fmt.Sprintf("message for %q (peers %q)", id, known)
				var err error
				v.Within(8*time.Second, what, func() { err = send(msg) })
				if !vpSame(fs, keep) || !vpSame(msg.Frames, keep) {
					v.Fail("%s: sending changed the caller's message to %s", what, vpShow(msg.Frames))
				}
				hit := false
				for i, p := range ps {
					got := p.take()
					expect[i] = nil
					if known[i] == id {
						hit = true
						expect[i] = vpWire(body...)
					}
					if !bytes.Equal(got, expect[i]) {
						v.Fail("%s: peer %q got %s, want %s", what, known[i], vpShort(got), vpShort(expect[i]))
					}
				}
				if hit && err != nil {
					v.Fail("%s: %v", what, err)
				}
				v.Count(1)
			}
			rt.Close()
		}
	})
}

func vpCopy(fs [][]byte) (c [][]byte) {
	for _, f := range fs {
		c = append(c, append([]byte{}, f...))
	}
	return
}

// Peers that announce no identity are given one of their own.
func TestVPRouterAnonymous(t *testing.T) {
	vpRun(t, "router-anonymous", func(v *vpT) {
		for round := 0; round < vpN(8); round++ {
			n := 2 + v.rng.Intn(6)
			ids := make([]string, n)
			if n > 3 {
				ids[1] = "named"
			}
			rt, ep, ps := vpRouterPeers(v, ids)
			label := map[string]int{}
			learn := func(i int, want string) string {
				body := [][]byte{[]byte(fmt.Sprintf("from %d", i))}
				ps[i].send(body...)
				what := fmt.Sprintf("peer %d with identity %q", i, want)
				m, err := v.recv(rt, what)
				if err != nil || len(m.Frames) != 2 || !vpSame(m.Frames[1:], body) {
					v.Fail("%s: delivered as %s (error %v)", what, vpShow(m.Frames), err)
				}
				id := string(m.Frames[0])
				if id == "" {
					v.Fail("%s: labelled with an empty identity", what)
				}
				if want != "" && id != want {
					v.Fail("%s: labelled %q", what, id)
				}
				return id
			}
			mine := make([]string, n)
			for i := range ps {
				mine[i] = learn(i, ids[i])
				if j, dup := label[mine[i]]; dup {
					v.Fail("peers %d and %d, neither with that identity, are both called %q", j, i, mine[i])
				}
				label[mine[i]] = i
			}
			for i := range ps { // stable
				learn(i, mine[i])
			}
			for i := range ps { // and usable for replies
				what := fmt.Sprintf("reply to anonymous peer %d", i)
				v.Within(8*time.Second, what, func() {
					if err := rt.Send(zmq4.NewMsgFrom([]byte(mine[i]), []byte("hi"), []byte{byte(i)})); err != nil {
						v.Fail("%s: %v", what, err)
					}
				})
				for j, p := range ps {
					got := p.take()
					if (j == i) != (len(got) > 0) {
						v.Fail("%s: peer %d got %s", what, j, vpShort(got))
					}
					if j == i && !bytes.Equal(got, vpWire([]byte("hi"), []byte{byte(i)})) {
						v.Fail("%s: got %s", what, vpShort(got))
					}
				}
			}
			// a peer that leaves and returns is a new peer
			ps[0].Close()
			time.Sleep(30 * time.Millisecond)
			ps[0] = vpConnect(v, ep, "DEALER", "")
			time.Sleep(20 * time.Millisecond)
			if id := learn(0, ""); id == mine[0] {
				v.Fail("a new anonymous connection was given the identity of an old one")
			} else if j, dup := label[id]; dup {
				v.Fail("a new anonymous connection was given the identity of live peer %d", j)
			}
			v.Count(n)
			rt.Close()
		}
	})
}

// However many peers without an identity there are, each has a name of its own.
func TestVPRouterManyAnonymous(t *testing.T) {
	vpRun(t, "router-many-anonymous", func(v *vpT) {
		n := 150 * vpN(1)
		rt, _, ps := vpRouterPeers(v, make([]string, n))
		defer rt.Close()
		label := map[string]int{}
		for i, p := range ps {
			p.send([]byte(fmt.Sprintf("from %d", i)))
			m, err := v.recv(rt, fmt.Sprintf("anonymous peer %d", i))
			if err != nil || len(m.Frames) != 2 || string(m.Frames[1]) != fmt.Sprintf("from %d", i) {
				v.Fail("message of anonymous peer %d: delivered as %s (error %v)", i, vpShow(m.Frames), err)
			}
			id := string(m.Frames[0])
			if j, dup := label[id]; dup {
				v.Fail("anonymous peers %d and %d of %d are both called %q", j, i, n, id)
			}
			label[id] = i
		}
		v.Count(n)
	})
}

// Peers come and go; an identity always means the connection that now has it.
func TestVPRouterChurn(t *testing.T) {
	vpRun(t, "router-churn", func(v *vpT) {
		for round := 0; round < vpN(4); round++ {
			rt := zmq4.NewRouter(vpCtx)
			ep := vpListen(v, rt)
			live := map[string]*vpPeer{}
			names := []string{"a", "ab", "abc", "b"}
			for step := 0; step < vpN(30); step++ {
				id := names[v.rng.Intn(len(names))]
				if p := live[id]; p == nil {
					live[id] = vpConnect(v, ep, "DEALER", id)
					time.Sleep(15 * time.Millisecond)
				} else if v.rng.Intn(3) == 0 {
					p.Close()
					delete(live, id)
					time.Sleep(30 * time.Millisecond)
				}
				to := names[v.rng.Intn(len(names))]
				body := vpPayload(v)
				var err error
				what := fmt.Sprintf("step %d: message for %q", step, to)
				v.Within(8*time.Second, what, func() { err = rt.Send(zmq4.NewMsgFrom(append([][]byte{[]byte(to)}, body...)...)) })
				for id, p := range live {
					got := p.take()
					if id != to && len(got) != 0 {
						v.Fail("%s: peer %q got %s", what, id, vpShort(got))
					}
					if id == to && !bytes.Equal(got, vpWire(body...)) {
						v.Fail("%s: it got %s (Send error %v), want %s", what, vpShort(got), err, vpShow(body))
					}
				}
				if p := live[to]; p != nil {
					p.send(body...)
					m, err := v.recv(rt, what)
					if err != nil || len(m.Frames) == 0 || string(m.Frames[0]) != to || !vpSame(m.Frames[1:], body) {
						v.Fail("%s: what %q sent was delivered as %s (error %v)", what, to, vpShow(m.Frames), err)
					}
				}
				v.Count(1)
			}
			rt.Close()
		}
	})
}

// Concurrent senders to different peers do not disturb each other.
//
//vp:race
func TestVPRouterConcurrent(t *testing.T) {
	vpRun(t, "router-concurrent", func(v *vpT) {
		for round := 0; round < vpN(4); round++ {
			ids := vpIDs(v, 4)
			rt, _, ps := vpRouterPeers(v, ids)
			k := vpN(30)
			var wg sync.WaitGroup
			for i := range ids {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < k; j++ {
						rt.Send(zmq4.NewMsgFrom([]byte(ids[i]), []byte(fmt.Sprint(i, "/", j)), bytes.Repeat([]byte{byte(i)}, 300), []byte{}))
					}
				}()
			}
			v.Within(20*time.Second, "concurrent sends", wg.Wait)
			for i, p := range ps {
				for j := 0; j < k; j++ {
					fs, _, err := p.msg(3 * time.Second)
					if err != nil || !vpSame(fs, [][]byte{[]byte(fmt.Sprint(i, "/", j)), bytes.Repeat([]byte{byte(i)}, 300), {}}) {
						v.Fail("peer %q: message %d arrived as %s (error %v)", ids[i], j, vpShow(fs), err)
					}
				}
				if b := p.take(); len(b) != 0 {
					v.Fail("peer %q: %d bytes too many", ids[i], len(b))
				}
			}
			v.Count(4 * k)
			rt.Close()
		}
	})
}
