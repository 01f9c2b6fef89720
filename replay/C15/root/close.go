package zmq4_test

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
)

type vpKind struct {
	typ        string
	mk         func(context.Context, ...zmq4.Option) zmq4.Socket
	send, recv bool
}

var vpKinds = []vpKind{
	{"PAIR", zmq4.NewPair, true, true}, {"PUB", zmq4.NewPub, true, false}, {"SUB", zmq4.NewSub, true, true},
	{"REQ", zmq4.NewReq, true, true}, {"REP", zmq4.NewRep, true, true}, {"DEALER", zmq4.NewDealer, true, true},
	{"ROUTER", zmq4.NewRouter, true, true}, {"PULL", zmq4.NewPull, false, true}, {"PUSH", zmq4.NewPush, true, false},
	{"XPUB", zmq4.NewXPub, true, true}, {"XSUB", zmq4.NewXSub, true, true}, {"STREAM", zmq4.NewStream, true, true},
}

func vpListening(name string) bool {
	vpMu.Lock()
	defer vpMu.Unlock()
	return vpListeners[name] != nil
}

// vpUsed brings a socket into a state by a random history and returns the peers it is connected to.
func vpUsed(v *vpT, k vpKind, s zmq4.Socket, h *strings.Builder) (ps []*vpPeer, name string) {
	if k.typ == "STREAM" {
		if v.rng.Intn(2) == 0 {
			h.WriteString("listen; ")
			name = strings.TrimPrefix(vpListen(v, s), "vp://")
		}
		return
	}
	for i := v.rng.Intn(5); i > 0; i-- {
		switch x := v.rng.Intn(5); {
		case x == 0 && name == "":
			h.WriteString("listen; ")
			name = strings.TrimPrefix(vpListen(v, s), "vp://")
		case x == 1 && name != "":
			h.WriteString("a peer connects; ")
			ps = append(ps, vpConnect(v, "vp://"+name, peerOf(k.typ), fmt.Sprintf("p%d", len(ps))))
			time.Sleep(15 * time.Millisecond)
		case x == 2:
			h.WriteString("dial; ")
			p, _, _ := vpDialedBy(v, s, peerOf(k.typ), fmt.Sprintf("p%d", len(ps)))
			ps = append(ps, p)
			time.Sleep(5 * time.Millisecond)
		case x == 3 && len(ps) > 0 && k.recv && k.typ != "REQ":
			h.WriteString("a peer sends; ")
			ps[v.rng.Intn(len(ps))].send([]byte{}, []byte("x"))
		case x == 4 && len(ps) > 0 && k.send && k.typ != "REP":
			h.WriteString("send; ")
			v.Within(8*time.Second, "Send", func() { s.Send(zmq4.NewMsgFrom([]byte("p0"), []byte("m"))) })
		}
	}
	return
}

// Every operation on a closed socket fails at once and writes nothing.
func TestVPAfterClose(t *testing.T) {
	vpRunFor(t, "after-close", 100*time.Second, func(v *vpT) {
		for _, k := range vpKinds {
			for i := 0; i < vpN(20); i++ {
				s := k.mk(vpCtx)
				var h strings.Builder
				ps, name := vpUsed(v, k, s, &h)
				what := fmt.Sprintf("%s after %sClose", k.typ, h.String())
				var bad error
				for j, p := range ps { // some fail to close
					if v.rng.Intn(3) == 0 {
						bad = fmt.Errorf("close of connection %d fails", j)
						p.other.cerr = bad
						what = fmt.Sprintf("%s (%v)", what, bad)
					}
				}
				var err error
				v.Within(8*time.Second, what, func() { err = s.Close() })
				if (err != nil) != (bad != nil) {
					v.Fail("%s: %v", what, err)
				}
				if name != "" && !vpEventually(time.Second, func() bool { return !vpListening(name) }) {
					v.Fail("%s: the listener is still open", what)
				}
				for j, p := range ps {
					p.take()
					p.SetReadDeadline(time.Now().Add(2 * time.Second))
					if b, err := p.readN(1); err != io.EOF {
						v.Fail("%s: connection %d is still open: read %x, %v", what, j, b, err)
					}
				}
				l, err := vpListenName(vpName())
				if err != nil {
					v.Fail("%v", err)
				}
				for n := 0; n < 10; n++ {
					op := v.rng.Intn(7)
					if n < 7 {
						op = (n + i) % 7
					}
					var err error
					var m zmq4.Msg
					opn := []string{"Send", "SendMulti", "Recv", "Listen", "Dial", "Close", "Send (empty)"}[op]
					v.Within(2*time.Second, what+"; "+opn, func() {
						switch op {
						case 0:
							err = s.Send(zmq4.NewMsgFrom([]byte("p0"), []byte("late")))
						case 1:
							err = s.SendMulti(zmq4.NewMsgFrom([]byte("p0"), []byte("late"), []byte{}))
						case 2:
							m, err = s.Recv()
						case 3:
							err = s.Listen("vp://" + vpName())
						case 4:
							err = s.Dial("vp://" + l.name)
						case 5:
							err = s.Close()
						case 6:
							err = s.Send(zmq4.Msg{})
						}
					})
					if err == nil {
						v.Fail("%s; %s: no error", what, opn)
					}
					if len(m.Frames) != 0 {
						v.Fail("%s; %s: returned %s", what, opn, vpShow(m.Frames))
					}
					h.WriteString(opn + "; ")
					v.Count(1)
				}
				select {
				case <-l.ch:
					v.Fail("%s; %s: a connection was made", what, h.String())
				default:
				}
				for j, p := range ps {
					if b := p.take(); len(b) != 0 {
						v.Fail("%s: %x was written on connection %d", what, b, j)
					}
				}
			}
		}
	})
}

// Receives blocked at Close return with an error.
func TestVPBlockedRecv(t *testing.T) {
	vpRun(t, "blocked-recv", func(v *vpT) {
		for _, k := range vpKinds {
			if !k.recv {
				continue
			}
			for i := 0; i < vpN(6); i++ {
				s := k.mk(vpCtx)
				what := fmt.Sprintf("%s with %d receives blocked", k.typ, 1+i%3)
				var ps []*vpPeer
				if k.typ != "STREAM" && i%2 == 1 {
					ep := vpListen(v, s)
					for j := 0; j <= i%3; j++ {
						ps = append(ps, vpConnect(v, ep, peerOf(k.typ), fmt.Sprintf("p%d", j)))
					}
					time.Sleep(15 * time.Millisecond)
					what += fmt.Sprintf(" and %d connections", len(ps))
					if k.typ == "REQ" {
						v.Within(8*time.Second, what, func() { s.Send(zmq4.NewMsg([]byte("ask"))) })
					}
				}
				errs := make(chan error, 3)
				for j := 0; j <= i%3; j++ {
					go func() { _, err := s.Recv(); errs <- err }()
				}
				time.Sleep(time.Duration(v.rng.Intn(4)*3) * time.Millisecond)
				v.Within(8*time.Second, what+", Close", func() { s.Close() })
				for j := 0; j <= i%3; j++ {
					select {
					case err := <-errs:
						if err == nil {
							v.Fail("%s: Recv returned a message at Close", what)
						}
					case <-time.After(3 * time.Second):
						v.Fail("%s: a Recv blocked at Close does not return", what)
					}
				}
				v.Count(1)
			}
		}
	})
}

// A socket listens at most once.
func TestVPListenOnce(t *testing.T) {
	vpRun(t, "listen-once", func(v *vpT) {
		for i := 0; i < vpN(30); i++ {
			k := vpKinds[i%len(vpKinds)]
			s := k.mk(vpCtx)
			var h strings.Builder
			if v.rng.Intn(2) == 0 { // attempts that fail do not count
				for _, bad := range []string{"vp", "nosuch://x", "tcp://999.999.999.999:1", ""} {
					if err := s.Listen(bad); err == nil {
						v.Fail("%s: Listen(%q) succeeded", k.typ, bad)
					}
				}
				h.WriteString("failed attempts; ")
			}
			n := 1 + v.rng.Intn(4)
			names := make([]string, n)
			errs := make([]error, n)
			var wg sync.WaitGroup
			for j := range names {
				names[j] = vpName()
				wg.Add(1)
				go func() { defer wg.Done(); errs[j] = s.Listen("vp://" + names[j]) }()
			}
			wg.Wait()
			what := fmt.Sprintf("%s: %s%d Listen calls at once", k.typ, h.String(), n)
			ok := -1
			for j := range names {
				if errs[j] == nil {
					if ok >= 0 {
						v.Fail("%s: two of them succeeded", what)
					}
					ok = j
				} else if !vpEventually(time.Second, func() bool { return !vpListening(names[j]) }) {
					v.Fail("%s: a refused call left its listener open", what)
				}
			}
			if ok < 0 {
				v.Fail("%s: none succeeded (%v)", what, errs[0])
			}
			late := vpName()
			if err := s.Listen("vp://" + late); err == nil || vpListening(late) {
				v.Fail("%s, then another: %v, listening=%v", what, err, vpListening(late))
			}
			if !vpListening(names[ok]) || s.Addr() == nil || s.Addr().String() != names[ok] {
				v.Fail("%s: not listening on the endpoint of the successful call: address %v", what, s.Addr())
			}
			if k.typ != "STREAM" {
				vpConnect(v, "vp://"+names[ok], peerOf(k.typ), "")
			}
			s.Close()
			if vpListening(names[ok]) {
				v.Fail("%s, then Close: still listening", what)
			}
			v.Count(1)
		}
	})
}

// Listen against Close: afterwards nothing listens.
func TestVPListenClose(t *testing.T) {
	vpRun(t, "listen-close", func(v *vpT) {
		for i := 0; i < vpN(150); i++ {
			k := vpKinds[i%len(vpKinds)]
			s := k.mk(vpCtx)
			name := vpName()
			var lerr error
			var wg sync.WaitGroup
			wg.Add(2)
			d := time.Duration(rand.Intn(40)) * time.Microsecond
			go func() { defer wg.Done(); lerr = s.Listen("vp://" + name) }()
			go func() { defer wg.Done(); time.Sleep(d); s.Close() }()
			v.Within(8*time.Second, k.typ+": Listen and Close at once", wg.Wait)
			if !vpEventually(time.Second, func() bool { return !vpListening(name) }) {
				v.Fail("%s: after Listen (%v) and Close at once the listener is still open", k.typ, lerr)
			}
			v.Count(1)
		}
	})
}

// Several Close calls at once: one succeeds.
func TestVPCloseOnce(t *testing.T) {
	vpRun(t, "close-once", func(v *vpT) {
		for i := 0; i < vpN(40); i++ {
			k := vpKinds[i%len(vpKinds)]
			s := k.mk(vpCtx)
			if i%2 == 0 {
				vpListen(v, s)
			}
			errs := make(chan error, 4)
			for j := 0; j < 4; j++ {
				go func() { errs <- s.Close() }()
			}
			ok := 0
			for j := 0; j < 4; j++ {
				select {
				case err := <-errs:
					if err == nil {
						ok++
					}
				case <-time.After(5 * time.Second):
					v.Fail("%s: Close does not return", k.typ)
				}
			}
			if ok != 1 {
				v.Fail("%s: %d of 4 Close calls at once succeeded", k.typ, ok)
			}
			v.Count(1)
		}
	})
}

// One-directional sockets refuse the other direction.
func TestVPOneWay(t *testing.T) {
	vpRun(t, "one-way", func(v *vpT) {
		for _, k := range vpKinds {
			if k.send && k.recv {
				continue
			}
			for i := 0; i < vpN(6); i++ {
				s := k.mk(vpCtx)
				what := k.typ
				var ps []*vpPeer
				if i > 0 {
					ep := vpListen(v, s)
					for j := 1; j < i; j++ {
						ps = append(ps, vpConnect(v, ep, peerOf(k.typ), ""))
						time.Sleep(15 * time.Millisecond)
					}
				}
				what += fmt.Sprintf(" with %d connections", len(ps))
				for _, p := range ps {
					p.take()
					p.send([]byte("hello"))
				}
				for j := 0; j < 3; j++ {
					v.Within(2*time.Second, what, func() {
						if !k.recv {
							if m, err := s.Recv(); err == nil || len(m.Frames) != 0 {
								v.Fail("%s: Recv returned %s, %v", what, vpShow(m.Frames), err)
							}
						}
						if !k.send {
							if err := s.Send(zmq4.NewMsgString("x")); err == nil {
								v.Fail("%s: Send succeeded", what)
							}
							if err := s.SendMulti(zmq4.NewMsgFromString([]string{"x", "y"})); err == nil {
								v.Fail("%s: SendMulti succeeded", what)
							}
						}
					})
					v.Count(1)
				}
				for _, p := range ps {
					v.silent(p, time.Millisecond, what)
				}
				s.Close()
			}
		}
	})
}

// Reads and writes on a connection marked closed fail and touch nothing.
func TestVPConnClosed(t *testing.T) {
	vpRun(t, "conn-closed", func(v *vpT) {
		for i := 0; i < vpN(60); i++ {
			typ := []string{"PAIR", "PUSH", "PULL", "ROUTER", "PUB", "SUB"}[i%6]
			c, p, raw := vpOpenConn(v, null.Security(), zmq4.SocketType(typ))
			what := typ + " connection"
			switch i % 4 {
			case 0:
				c.SetClosed()
				what += " after SetClosed"
			case 1:
				p.w.closeWrite()
				c.RecvMsg()
				what += " after its peer's end of stream"
			case 2:
				raw.w.mu.Lock()
				raw.w.budget, raw.w.werr = 1, &net.OpError{Op: "write", Err: net.ErrClosed}
				raw.w.mu.Unlock()
				c.SendMsg(zmq4.NewMsgString("hello"))
				what += " after a failed write"
			case 3:
				p.Write([]byte{0, 5, 'a'})
				p.w.closeWrite()
				c.RecvMsg()
				what += " after a truncated frame"
			}
			if !c.Closed() {
				v.Fail("%s: not marked closed", what)
			}
			raw.w.mu.Lock()
			raw.w.budget = -1
			raw.w.mu.Unlock()
			p.take()
			for j := 0; j < 3; j++ {
				if n, err := c.Write([]byte("x")); err == nil || n != 0 {
					v.Fail("%s: Write: %d, %v", what, n, err)
				}
				if err := c.SendMsg(zmq4.NewMsgFromString([]string{"x", "y"})); err == nil {
					v.Fail("%s: SendMsg succeeded", what)
				}
				if err := c.SendCmd(zmq4.CmdPing, []byte("x")); err == nil {
					v.Fail("%s: SendCmd succeeded", what)
				}
				raw.r.mu.Lock()
				raw.r.buf = append(raw.r.buf, 0, 1, 'z')
				left := len(raw.r.buf)
				raw.r.mu.Unlock()
				b := make([]byte, 2)
				v.Within(2*time.Second, what, func() {
					if n, err := c.Read(b); err == nil || n != 0 {
						v.Fail("%s: Read: %d, %v", what, n, err)
					}
					if m, err := c.RecvMsg(); err == nil || m.Err() == nil && len(m.Frames) != 0 {
						v.Fail("%s: RecvMsg: %s, %v", what, vpShow(m.Frames), err)
					}
					if _, err := c.RecvCmd(); err == nil {
						v.Fail("%s: RecvCmd succeeded", what)
					}
				})
				raw.r.mu.Lock()
				if len(raw.r.buf) != left {
					raw.r.mu.Unlock()
					v.Fail("%s: bytes were consumed", what)
				}
				raw.r.mu.Unlock()
				if !c.Closed() {
					v.Fail("%s: no longer closed", what)
				}
				v.Count(1)
			}
			if b := p.take(); len(b) != 0 {
				v.Fail("%s: %x was written", what, b)
			}
		}
	})
}
