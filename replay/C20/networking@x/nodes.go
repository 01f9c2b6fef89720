package networking_test

//vp:race

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/networking"
)

type vpNode struct {
	*networking.Transport
	id   string
	port int

	mu  sync.Mutex
	got []networking.Message
}

func vpFree(p int) bool {
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
	if err != nil {
		return false
	}
	l.Close()
	return true
}

func vpStart(v *vpT, id string, types ...string) *vpNode {
	for try := 0; try < 50; try++ {
		p := 11000 + v.rng.Intn(18000)
		if !vpFree(p) || !vpFree(p+1000) {
			continue
		}
		n := &vpNode{Transport: networking.New(context.Background(), networking.Config{NodeID: id, BasePort: p, MaxRetries: 2, RetryDelay: time.Millisecond}), id: id, port: p}
		if err := n.Start(); err != nil {
			continue
		}
		for _, ty := range types {
			n.handle(ty)
		}
		return n
	}
	v.Fail("no node could be started")
	return nil
}

func (n *vpNode) handle(ty string) {
	n.RegisterHandler(ty, func(m *networking.Message) {
		n.mu.Lock()
		n.got = append(n.got, *m)
		n.mu.Unlock()
	})
}

func (n *vpNode) take() []networking.Message {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]networking.Message(nil), n.got...)
}

func (n *vpNode) forget() { n.mu.Lock(); n.got = nil; n.mu.Unlock() }

// keys of the messages, sorted
func vpKeys(ms []networking.Message) string {
	var ks []string
	for _, m := range ms {
		m.Timestamp = 0
		b, _ := json.Marshal(m)
		ks = append(ks, string(b))
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

func vpMessage(v *vpT, ty string, i int) *networking.Message {
	m := &networking.Message{Type: ty, Height: uint64(i), Round: uint32(v.rng.Uint32())}
	if v.rng.Intn(2) == 0 {
		m.SessionID = vpBytes(v.rng, 1+v.rng.Intn(40))
	}
	switch v.rng.Intn(4) {
	case 0:
		m.Data = json.RawMessage(fmt.Sprintf(`{"n":%d,"s":"\u00e9\"x"}`, i))
	case 1:
		m.Data = json.RawMessage(`"` + strings.Repeat("z", v.rng.Intn(3000)) + `"`)
	case 2:
		m.Data = json.RawMessage(`[1,2,[3,{}],null]`)
	}
	if v.rng.Intn(2) == 0 {
		m.From, m.To = "forged", "somebody"
	}
	return m
}

func vpSettle(n *vpNode, want int) {
	vpEventually(5*time.Second, func() bool { return len(n.take()) >= want })
	time.Sleep(15 * time.Millisecond)
}

// TestVPNodes: direct messages and broadcasts among connected nodes.
func TestVPNodes(t *testing.T) {
	vpRunFor(t, "nodes", 100*time.Second, func(v *vpT) {
		for round := 0; round < vpN(2); round++ {
			var ns []*vpNode
			for i := 0; i < 3; i++ {
				n := vpStart(v, fmt.Sprintf("node%d", i), "x", "y", "", "probe")
				defer n.Stop()
				ns = append(ns, n)
			}
			for _, n := range ns {
				for _, m := range ns { // itself included
					if err := n.ConnectPeer(m.id, m.port); err != nil {
						v.Fail("%s could not connect to %s: %v", n.id, m.id, err)
					}
				}
			}
			// broadcasts: wait until everybody hears everybody
			for _, n := range ns {
				others := 0
				ok := vpEventually(8*time.Second, func() bool {
					n.Broadcast(&networking.Message{Type: "probe", Height: 1 << 40})
					time.Sleep(10 * time.Millisecond)
					others = 0
					for _, o := range ns {
						for _, g := range o.take() {
							if g.From == n.id && o != n {
								others++
								break
							}
						}
					}
					return others == len(ns)-1
				})
				if !ok {
					v.Fail("%s's broadcasts reach %d of %d connected nodes", n.id, others, len(ns)-1)
				}
			}
			time.Sleep(50 * time.Millisecond)
			for _, n := range ns {
				n.forget()
			}
			want := map[string][]networking.Message{}
			for i := 0; i < 60; i++ {
				n := ns[v.rng.Intn(len(ns))]
				ty := []string{"x", "y", "", "unregistered"}[v.rng.Intn(4)]
				m := vpMessage(v, ty, i)
				o := ns[v.rng.Intn(len(ns))]
				bcast := v.rng.Intn(3) == 0
				if bcast {
					m.To = ""
				}
				before := time.Now().UnixNano()
				exp := *m
				exp.From = n.id
				var err error
				if bcast {
					err = n.Broadcast(m)
				} else {
					exp.To = o.id
					if v.rng.Intn(2) == 0 {
						err = n.Send(o.id, m)
					} else {
						err = n.SendWithRetry(o.id, m)
					}
				}
				if err != nil {
					v.Fail("%s sending message %d to %s (broadcast %v): %v", n.id, i, o.id, bcast, err)
				}
				if m.From != n.id || !bcast && m.To != o.id || m.Timestamp < before || m.Timestamp > time.Now().UnixNano() {
					v.Fail("message %d from %s to %s was stamped from=%q to=%q at=%d", i, n.id, o.id, m.From, m.To, m.Timestamp)
				}
				if ty == "unregistered" {
					continue
				}
				for _, k := range ns {
					if bcast && k != n || !bcast && k == o {
						want[k.id] = append(want[k.id], exp)
					}
				}
				v.Count(1)
			}
			for _, n := range ns {
				vpSettle(n, len(want[n.id]))
				if g, w := vpKeys(n.take()), vpKeys(want[n.id]); g != w {
					v.Fail("%s was given the messages\n%s\nwant\n%s", n.id, g, w)
				}
			}
		}
	})
}

// TestVPPeerList: the peer list follows connects and disconnects.
func TestVPPeerList(t *testing.T) {
	vpRunFor(t, "peer list", 100*time.Second, func(v *vpT) {
		a, b, c := vpStart(v, "a"), vpStart(v, "b", "x"), vpStart(v, "c", "x")
		defer a.Stop()
		defer b.Stop()
		defer c.Stop()
		to := map[string]*vpNode{}
		var model []string
		check := func(what string) {
			got := a.GetPeers()
			if fmt.Sprint(got) != fmt.Sprint(model) {
				v.Fail("after %s: peers %q, want %q", what, got, model)
			}
			for i := range got {
				got[i] = "overwritten"
			}
			if g := a.GetPeers(); fmt.Sprint(g) != fmt.Sprint(model) {
				v.Fail("after %s and overwriting the returned list: peers %q, want %q", what, g, model)
			}
		}
		check("the start")
		if err := a.Send("p0", &networking.Message{Type: "x"}); err == nil {
			v.Fail("a message to an unknown peer was accepted")
		}
		names := []string{"p0", "p1", "p2", "p3", ""}
		h := uint64(0)
		for i := 0; i < vpN(120); i++ {
			p := names[v.rng.Intn(len(names))]
			n := []*vpNode{b, c}[v.rng.Intn(2)]
			at := -1
			for k, q := range model {
				if q == p {
					at = k
				}
			}
			switch v.rng.Intn(4) {
			case 0:
				var err error
				if v.rng.Intn(2) == 0 {
					err = a.ConnectPeer(p, n.port)
				} else {
					err = a.ConnectPeerWithAddress(p, "localhost", n.port)
				}
				if err != nil {
					v.Fail("connecting to %q: %v", p, err)
				}
				if at < 0 {
					model = append(model, p)
					to[p] = n
				}
				check(fmt.Sprintf("connecting to %q (known: %v)", p, at >= 0))
			case 1:
				a.DisconnectPeer(p)
				if at >= 0 {
					model = append(model[:at:at], model[at+1:]...)
				}
				check(fmt.Sprintf("disconnecting %q (known: %v)", p, at >= 0))
			default:
				b.forget()
				c.forget()
				h++
				err := a.Send(p, &networking.Message{Type: "x", Height: h})
				if (err == nil) != (at >= 0) {
					v.Fail("sending to %q (known: %v): error %v", p, at >= 0, err)
				}
				if err == nil {
					vpSettle(to[p], 1)
					g := to[p].take()
					if len(g) != 1 || g[0].Height != h || g[0].To != p || g[0].From != "a" {
						v.Fail("message %d to %q arrived as %+v", h, p, g)
					}
				} else {
					time.Sleep(2 * time.Millisecond)
				}
				for _, o := range []*vpNode{b, c} {
					if (err != nil || o != to[p]) && len(o.take()) != 0 {
						v.Fail("message %d to %q arrived at another peer: %+v", h, p, o.take())
					}
				}
			}
			v.Count(1)
		}
		// a peer that cannot be reached does not become one
		dead := 0
		for dead == 0 {
			if p := 31000 + v.rng.Intn(1000); vpFree(p) && vpFree(p+1000) {
				dead = p
			}
		}
		v.Within(60*time.Second, "connecting to a dead peer", func() {
			if err := a.ConnectPeer("dead", dead); err == nil {
				v.Fail("connecting to a peer that does not listen succeeded")
			}
		})
		check("a failed connect")
		if err := a.Send("dead", &networking.Message{Type: "x"}); err == nil {
			v.Fail("a message to a peer that could not be connected was accepted")
		}
	})
}

// TestVPConcurrentPeers: concurrent calls leave each peer in the list once.
func TestVPConcurrentPeers(t *testing.T) {
	vpRunFor(t, "concurrent peers", 60*time.Second, func(v *vpT) {
		a, b := vpStart(v, "a"), vpStart(v, "b", "x")
		defer a.Stop()
		defer b.Stop()
		for r := 0; r < vpN(6); r++ {
			var wg sync.WaitGroup
			var mu sync.Mutex
			odd := ""
			for k := 0; k < 4; k++ {
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 4; i++ {
						a.ConnectPeer(fmt.Sprintf("p%d", (i+k)%3), b.port)
						a.Send("p1", &networking.Message{Type: "x"})
						for _, p := range a.GetPeers() {
							if p != "p0" && p != "p1" && p != "p2" {
								mu.Lock()
								odd = p
								mu.Unlock()
							}
						}
						if k == 0 {
							a.DisconnectPeer("p1")
						}
						a.RegisterHandler(fmt.Sprint(k), func(*networking.Message) {})
						a.UnregisterHandler(fmt.Sprint(k))
					}
				}()
			}
			wg.Wait()
			if odd != "" {
				v.Fail("the peer list contained %q", odd)
			}
			a.ConnectPeer("p1", b.port)
			g := a.GetPeers()
			sort.Strings(g)
			if fmt.Sprint(g) != "[p0 p1 p2]" {
				v.Fail("peers after concurrent connects: %q", g)
			}
			v.Count(16)
		}
	})
}

// TestVPForeign: what other programs send to a node.
func TestVPForeign(t *testing.T) {
	vpRunFor(t, "foreign", 60*time.Second, func(v *vpT) {
		n := vpStart(v, "n", "x")
		defer n.Stop()
		d := zmq4.NewDealer(context.Background())
		defer d.Close()
		if err := d.Dial(fmt.Sprintf("tcp://127.0.0.1:%d", n.port+1000)); err != nil {
			v.Fail("dial: %v", err)
		}
		var want []networking.Message
		var rec, drop uint64
		for i := 0; i < vpN(150); i++ {
			m := vpMessage(v, "x", i)
			m.From, m.To = []string{"n", "me", ""}[v.rng.Intn(3)], []string{"n", "", "q"}[v.rng.Intn(3)]
			b, _ := json.Marshal(m)
			switch v.rng.Intn(4) {
			case 0:
				b = b[:v.rng.Intn(len(b))]
				drop++
			case 1:
				b = append([]byte{'{'}, b...)
				drop++
			default:
				if m.From == "n" && m.To == "" {
					break
				}
				rec++
				want = append(want, *m)
			}
			msg := zmq4.NewMsg(b)
			if v.rng.Intn(2) == 0 {
				msg = zmq4.NewMsgFrom([]byte{}, b)
			}
			if err := d.SendMulti(msg); err != nil {
				v.Fail("send: %v", err)
			}
			if v.rng.Intn(8) == 0 {
				n.UnregisterHandler("other")
				n.RegisterHandler("other", nil)
			}
			v.Count(1)
		}
		vpSettle(n, len(want))
		vpEventually(3*time.Second, func() bool { _, r, d := n.GetMetrics(); return r+d >= rec+drop })
		if _, r, dr := n.GetMetrics(); r != rec || dr != drop {
			v.Fail("counted %d received and %d dropped messages, want %d and %d", r, dr, rec, drop)
		}
		if g, w := vpKeys(n.take()), vpKeys(want); g != w {
			v.Fail("the handler was given\n%s\nwant\n%s", g, w)
		}
		// handlers replaced and removed
		n.forget()
		var first, second int
		var mu sync.Mutex
		n.RegisterHandler("r", func(*networking.Message) { mu.Lock(); first++; mu.Unlock() })
		n.RegisterHandler("r", func(*networking.Message) { mu.Lock(); second++; mu.Unlock() })
		r := &networking.Message{Type: "r", From: "me"}
		b, _ := json.Marshal(r)
		d.Send(zmq4.NewMsg(b))
		vpEventually(2*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return second > 0 })
		mu.Lock()
		if first != 0 || second != 1 {
			v.Fail("one message for a replaced handler: the first got it %d times, the second %d times", first, second)
		}
		mu.Unlock()
		n.UnregisterHandler("r")
		d.Send(zmq4.NewMsg(b))
		x := &networking.Message{Type: "x", From: "me", Height: 99}
		xb, _ := json.Marshal(x)
		d.Send(zmq4.NewMsg(xb))
		vpSettle(n, 1)
		mu.Lock()
		if first != 0 || second != 1 {
			v.Fail("a removed handler got a message")
		}
		mu.Unlock()
		if g := n.take(); len(g) != 1 || g[0].Height != 99 || !bytes.Equal(g[0].Data, nil) {
			v.Fail("after removing another handler: %+v", g)
		}
	})
}

// TestVPStop: a stopped node's loops end, and its sends fail as errors.
func TestVPStop(t *testing.T) {
	vpRunFor(t, "stop", 60*time.Second, func(v *vpT) {
		for i := 0; i < vpN(4); i++ {
			a, b := vpStart(v, "a", "x"), vpStart(v, "b", "x")
			if err := a.ConnectPeer("b", b.port); err != nil {
				v.Fail("connect: %v", err)
			}
			a.Send("b", &networking.Message{Type: "x"})
			vpSettle(b, 1)
			v.Within(10*time.Second, "Stop", func() { a.Stop() })
			v.Within(10*time.Second, "Stop", func() { b.Stop() })
			if err := a.SendWithRetry("b", &networking.Message{Type: "x"}); err == nil {
				v.Fail("a stopped node sent a message")
			}
			v.Count(1)
		}
	})
}
