package zmq4_test

import (
	"bytes"
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
)

var vpWriters = []struct {
	typ, peer string
	mk        func(context.Context, ...zmq4.Option) zmq4.Socket
}{
	{"PAIR", "PAIR", zmq4.NewPair}, {"PUSH", "PULL", zmq4.NewPush}, {"DEALER", "ROUTER", zmq4.NewDealer}, {"SUB", "PUB", zmq4.NewSub}, {"XSUB", "XPUB", zmq4.NewXSub},
}

var vpReaders = []struct {
	typ, peer string
	mk        func(context.Context, ...zmq4.Option) zmq4.Socket
}{
	{"PAIR", "PAIR", zmq4.NewPair}, {"PULL", "PUSH", zmq4.NewPull}, {"DEALER", "ROUTER", zmq4.NewDealer}, {"SUB", "PUB", zmq4.NewSub}, {"XSUB", "XPUB", zmq4.NewXSub},
}

func vpBody(v *vpT) [][]byte {
	var fs [][]byte
	for i := 1 + v.rng.Intn(4); i > 0; i-- {
		if v.rng.Intn(4) == 0 {
			fs = append(fs, []byte{})
		} else {
			fs = append(fs, vpBytes(v.rng, vpSizes[v.rng.Intn(len(vpSizes)-2)]))
		}
	}
	return fs
}

// A message sent is written exactly once to every connection.
func TestVPBroadcast(t *testing.T) {
	vpRun(t, "broadcast", func(v *vpT) {
		for _, k := range vpWriters {
			for n := 1; n <= 4; n++ {
				s := k.mk(vpCtx)
				ep := vpListen(v, s)
				var ps []*vpPeer
				for i := 0; i < n; i++ {
					if i%2 == 0 {
						ps = append(ps, vpConnect(v, ep, k.peer, ""))
					} else {
						p, _, _ := vpDialedBy(v, s, k.peer, "")
						ps = append(ps, p)
					}
				}
				time.Sleep(15 * time.Millisecond)
				for j := 0; j < vpN(12); j++ {
					fs := vpBody(v)
					keep := vpWire(fs...)
					send := s.Send
					if j%2 == 1 {
						send = s.SendMulti
					}
					what := fmt.Sprintf("%s with %d connections: %s", k.typ, n, vpShow(fs))
					v.Within(8*time.Second, what, func() {
						if err := send(zmq4.NewMsgFrom(fs...)); err != nil {
							v.Fail("%s: %v", what, err)
						}
					})
					if !bytes.Equal(keep, vpWire(fs...)) {
						v.Fail("%s: sending changed the caller's frames", what)
					}
					for i, p := range ps {
						if b := p.take(); !bytes.Equal(b, keep) {
							v.Fail("%s: connection %d got %s, want %s", what, i, vpShort(b), vpShort(keep))
						}
					}
					v.Count(1)
				}
				s.Close()
			}
		}
	})
}

// Connections join and leave between messages.
func TestVPMembership(t *testing.T) {
	vpRun(t, "membership", func(v *vpT) {
		for _, k := range vpWriters {
			s := k.mk(vpCtx)
			ep := vpListen(v, s)
			var ps, gone []*vpPeer
			lost := false
			for step := 0; step < vpN(25); step++ {
				switch x := v.rng.Intn(6); {
				case (x == 0 || len(ps) == 0) && len(ps) < 5:
					if v.rng.Intn(3) == 0 {
						vpBadPeer(v, ep)
					}
					ps = append(ps, vpConnect(v, ep, k.peer, ""))
					time.Sleep(15 * time.Millisecond)
				case x == 1 && len(ps) > 1:
					i := v.rng.Intn(len(ps))
					if k.typ == "PUSH" { // notices when it writes
						ps[i].Close()
						lost = true
					} else {
						ps[i].w.closeWrite() // the peer goes away; it could still be written to
					}
					gone = append(gone, ps[i])
					ps = append(ps[:i:i], ps[i+1:]...)
					time.Sleep(40 * time.Millisecond)
					gone[len(gone)-1].take()
				}
				fs := vpBody(v)
				what := fmt.Sprintf("%s, step %d, %d connections, %d left", k.typ, step, len(ps), len(gone))
				var err error
				v.Within(8*time.Second, what, func() { err = s.Send(zmq4.NewMsgFrom(fs...)) })
				for i, p := range ps {
					if b := p.take(); !bytes.Equal(b, vpWire(fs...)) {
						v.Fail("%s: connection %d got %s, want %s (Send error %v)", what, i, vpShort(b), vpShow(fs), err)
					}
				}
				for i, p := range gone {
					if b := p.take(); len(b) != 0 {
						v.Fail("%s: connection %d that left got %s", what, i, vpShort(b))
					}
				}
				if err != nil && !lost {
					v.Fail("%s: Send to live connections: %v", what, err)
				}
				lost = false
				v.Count(1)
			}
			s.Close()
		}
	})
}

func vpTagged(g, i, size int) [][]byte {
	fs := [][]byte{[]byte(fmt.Sprintf("%d/%d", g, i))}
	for k := 0; k <= i%3; k++ {
		fs = append(fs, bytes.Repeat([]byte{byte(g), byte(i), byte(k)}, size))
	}
	return append(fs, []byte{})
}

// Messages sent at the same time are not mixed within a connection.
//
//vp:race
func TestVPNoInterleaving(t *testing.T) {
	vpRun(t, "no-interleaving", func(v *vpT) {
		for round := 0; round < vpN(2); round++ {
			for ki, k := range vpWriters {
				s := k.mk(vpCtx)
				ep := vpListen(v, s)
				n, senders, each := 1+ki%3, 4, 12
				var ps []*vpPeer
				for i := 0; i < n; i++ {
					ps = append(ps, vpConnect(v, ep, k.peer, ""))
				}
				time.Sleep(15 * time.Millisecond)
				var wg sync.WaitGroup
				for g := 0; g < senders; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < each; i++ {
							if err := s.SendMulti(zmq4.NewMsgFrom(vpTagged(g, i, 100)...)); err != nil {
								v.Fail("%s: %v", k.typ, err)
							}
						}
					}()
				}
				v.Within(20*time.Second, "concurrent sends", wg.Wait)
				for pi, p := range ps {
					next := make([]int, senders)
					for j := 0; j < senders*each; j++ {
						fs, _, err := p.msg(3 * time.Second)
						var g, i int
						if err == nil && len(fs) > 0 {
							_, err = fmt.Sscanf(string(fs[0]), "%d/%d", &g, &i)
						}
						if err != nil || g < 0 || g >= senders || !vpSame(fs, vpTagged(g, i, 100)) {
							v.Fail("%s: %d senders at once: connection %d: message %d arrived as %s (%v)", k.typ, senders, pi, j, vpShow(fs), err)
						}
						if i != next[g] {
							v.Fail("%s: connection %d: sender %d's message %d arrived after its message %d", k.typ, pi, g, i, next[g]-1)
						}
						next[g]++
					}
					if b := p.take(); len(b) != 0 {
						v.Fail("%s: connection %d got %s too many", k.typ, pi, vpShort(b))
					}
				}
				v.Count(senders * each)
				s.Close()
			}
		}
	})
}

// A command and messages of one connection are not mixed either.
func TestVPCommandBetweenMessages(t *testing.T) {
	vpRun(t, "command-between-messages", func(v *vpT) {
		for round := 0; round < vpN(20); round++ {
			c, p, _ := vpOpenConn(v, null.Security(), zmq4.Pair)
			var wg sync.WaitGroup
			for g := 0; g < 3; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 6; i++ {
						if g == 0 {
							c.SendCmd("PING", bytes.Repeat([]byte{1}, 300))
						} else {
							c.SendMsg(zmq4.NewMsgFrom(vpTagged(g, i, 50)...))
						}
					}
				}()
			}
			v.Within(8*time.Second, "sends on one connection", wg.Wait)
			cmds, msgs, inside := 0, 0, 0
			var cur [][]byte
			p.SetReadDeadline(time.Now().Add(3 * time.Second))
			for cmds < 6 || msgs < 12 {
				f, err := p.frame()
				if err != nil {
					v.Fail("the stream ended after %d commands and %d messages: %v", cmds, msgs, err)
				}
				if f.flags&4 != 0 {
					if inside > 0 {
						v.Fail("a command was written inside a message")
					}
					if !bytes.Equal(f.body, vpCmdBody("PING", bytes.Repeat([]byte{1}, 300))) {
						v.Fail("command arrived as %s", vpShort(f.body))
					}
					cmds++
					continue
				}
				cur = append(cur, f.body)
				inside++
				if f.flags&1 == 0 {
					var g, i int
					if _, err := fmt.Sscanf(string(cur[0]), "%d/%d", &g, &i); err != nil || !vpSame(cur, vpTagged(g, i, 50)) {
						v.Fail("concurrent SendMsg: arrived as %s", vpShow(cur))
					}
					msgs++
					inside, cur = 0, nil
				}
			}
			v.Count(18)
			c.Close()
		}
	})
}

// Every message a peer sent is delivered once, whole, in that peer's order.
func TestVPFanIn(t *testing.T) {
	vpRun(t, "fan-in", func(v *vpT) {
		for round := 0; round < vpN(3); round++ {
			for _, k := range vpReaders {
				s := k.mk(vpCtx)
				ep := vpListen(v, s)
				n, each := 1+v.rng.Intn(5), vpN(25)
				var ps []*vpPeer
				for i := 0; i < n; i++ {
					if i%2 == 0 {
						ps = append(ps, vpConnect(v, ep, k.peer, ""))
					} else {
						p, _, _ := vpDialedBy(v, s, k.peer, "")
						ps = append(ps, p)
					}
				}
				for g, p := range ps {
					go func() {
						for i := 0; i < each; i++ {
							p.send(vpTagged(g, i, 3)...)
						}
					}()
				}
				next := make([]int, n)
				for j := 0; j < n*each; j++ {
					m, err := v.recv(s, fmt.Sprintf("%s: message %d of %d from %d peers", k.typ, j, n*each, n))
					var g, i int
					if err == nil && len(m.Frames) > 0 {
						_, err = fmt.Sscanf(string(m.Frames[0]), "%d/%d", &g, &i)
					}
					if err != nil || g < 0 || g >= n || !vpSame(m.Frames, vpTagged(g, i, 3)) {
						v.Fail("%s: message %d of %d peers was delivered as %s (%v)", k.typ, j, n, vpShow(m.Frames), err)
					}
					if i != next[g] {
						v.Fail("%s: peer %d's message %d was delivered when %d was due", k.typ, g, i, next[g])
					}
					next[g]++
				}
				if len(vpReaders) > 0 {
					done := make(chan zmq4.Msg, 1)
					go func() {
						if m, err := s.Recv(); err == nil {
							done <- m
						}
					}()
					select {
					case m := <-done:
						v.Fail("%s: %s was delivered although every message had been", k.typ, vpShow(m.Frames))
					case <-time.After(20 * time.Millisecond):
					}
				}
				v.Count(n * each)
				s.Close()
			}
		}
	})
}

// Many peers leave at the same moment: those that stay get everything, those that left nothing.
func TestVPLeavingTogether(t *testing.T) {
	vpRun(t, "leaving-together", func(v *vpT) {
		for round := 0; round < vpN(3); round++ {
			for _, k := range vpWriters {
				s := k.mk(vpCtx)
				ep := vpListen(v, s)
				n := 8 + v.rng.Intn(17)
				stay := v.rng.Intn(3)
				ps := make([]*vpPeer, n)
				for i := range ps {
					ps[i] = vpConnect(v, ep, k.peer, "")
				}
				time.Sleep(20 * time.Millisecond)
				for _, i := range v.rng.Perm(n) {
					if i < stay {
						continue
					}
					if k.typ == "PUSH" { // notices when it writes
						ps[i].Close()
					} else {
						ps[i].w.closeWrite() // the peer goes away; it could still be written to
					}
				}
				time.Sleep(60 * time.Millisecond)
				fs := vpBody(v)
				what := fmt.Sprintf("%s, %d of %d connections left together", k.typ, n-stay, n)
				var err error
				for m := 0; m < 3 && (stay > 0 || k.typ == "PUSH" && m == 0); m++ { // nobody to write to: Send waits
					time.Sleep(60 * time.Millisecond)
					for _, p := range ps {
						p.take()
					}
					v.Within(8*time.Second, what, func() { err = s.Send(zmq4.NewMsgFrom(fs...)) })
				}
				for i, p := range ps {
					if b := p.take(); i < stay && !bytes.Equal(b, vpWire(fs...)) {
						v.Fail("%s: connection %d stayed and got %s, want %s (Send error %v)", what, i, vpShort(b), vpShow(fs), err)
					} else if i >= stay && len(b) != 0 {
						v.Fail("%s: connection %d left and got %s", what, i, vpShort(b))
					}
				}
				if err != nil && stay > 0 {
					v.Fail("%s: Send to the live connections: %v", what, err)
				}
				p := vpConnect(v, ep, k.peer, "")
				for try := 0; ; try++ {
					time.Sleep(30 * time.Millisecond)
					v.Within(8*time.Second, what, func() { err = s.Send(zmq4.NewMsgFrom(fs...)) })
					b := p.take()
					if bytes.Equal(b, vpWire(fs...)) && err == nil {
						break
					}
					if try == 100 || len(b) != 0 && !bytes.Equal(b, vpWire(fs...)) {
						v.Fail("%s, then one joined and got %s, want %s (Send error %v)", what, vpShort(b), vpShow(fs), err)
					}
				}
				v.Count(1)
				s.Close()
			}
		}
	})
}

// A peer that leaves after its last message: everything it sent is still delivered.
func TestVPFanInLeaving(t *testing.T) {
	vpRun(t, "fan-in-leaving", func(v *vpT) {
		for round := 0; round < vpN(4); round++ {
			for _, k := range vpReaders {
				s := k.mk(vpCtx)
				ep := vpListen(v, s)
				n := 1 + v.rng.Intn(3)
				want := 0
				for g := 0; g < n; g++ {
					if v.rng.Intn(3) == 0 {
						vpBadPeer(v, ep)
					}
					p := vpConnect(v, ep, k.peer, "")
					c := 1 + v.rng.Intn(30)
					for i := 0; i < c; i++ {
						p.send(vpTagged(g, i, 2)...)
					}
					p.w.closeWrite()
					want += c
				}
				next := make([]int, n)
				for got, errs := 0, 0; got < want; {
					m, err := v.recv(s, fmt.Sprintf("%s: %d peers sent %d messages and left", k.typ, n, want))
					if err != nil {
						if errs++; errs > n {
							v.Fail("%s: %d peers left, Recv failed %d times: %v", k.typ, n, errs, err)
						}
						continue
					}
					var g, i int
					if len(m.Frames) > 0 {
						_, err = fmt.Sscanf(string(m.Frames[0]), "%d/%d", &g, &i)
					}
					if err != nil || g < 0 || g >= n || i != next[g] || !vpSame(m.Frames, vpTagged(g, i, 2)) {
						v.Fail("%s: %d peers sent and left: delivered %s (%v)", k.typ, n, vpShow(m.Frames), err)
					}
					next[g]++
					got++
				}
				v.Count(want)
				s.Close()
			}
		}
	})
}

// A receiver that takes its time still gets everything.
func TestVPFanInSlow(t *testing.T) {
	vpRun(t, "fan-in-slow", func(v *vpT) {
		type run struct {
			typ  string
			s    zmq4.Socket
			next []int
			n    int
		}
		const each = 40
		var rs []*run
		for ki, k := range vpReaders {
			r := &run{typ: k.typ, s: k.mk(vpCtx), n: 1 + ki%3}
			r.next = make([]int, r.n)
			ep := vpListen(v, r.s)
			for g := 0; g < r.n; g++ {
				p := vpConnect(v, ep, k.peer, "")
				go func() {
					for i := 0; i < each; i++ {
						p.send(vpTagged(g, i, 3)...)
					}
				}()
			}
			rs = append(rs, r)
		}
		for j := 0; j < 3*each; j++ {
			if j == 0 || j == each/2 || j == each-1 {
				time.Sleep(700 * time.Millisecond) // nobody receives
			}
			for _, r := range rs {
				if j >= r.n*each {
					continue
				}
				m, err := v.recv(r.s, fmt.Sprintf("%s: slow receiver, message %d of %d from %d peers", r.typ, j, r.n*each, r.n))
				var g, i int
				if err == nil && len(m.Frames) > 0 {
					_, err = fmt.Sscanf(string(m.Frames[0]), "%d/%d", &g, &i)
				}
				if err != nil || g < 0 || g >= r.n || !vpSame(m.Frames, vpTagged(g, i, 3)) {
					v.Fail("%s: slow receiver: message %d of %d peers was delivered as %s (%v)", r.typ, j, r.n, vpShow(m.Frames), err)
				}
				if i != r.next[g] {
					v.Fail("%s: slow receiver: peer %d's message %d was delivered when %d was due", r.typ, g, i, r.next[g])
				}
				r.next[g]++
				v.Count(1)
			}
		}
		for _, r := range rs {
			r.s.Close()
		}
	})
}
