package zmq4_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"math/rand"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
)

type vpWrap struct{ zmq4.Security }

func (s vpWrap) Handshake(c *zmq4.Conn, server bool) error {
	c.Peer.Meta["Socket-Type"] = peerOf(c.Meta["Socket-Type"])
	return nil
}

func vpSecs(name string) zmq4.Security {
	switch name {
	case "null":
		return null.Security()
	case "plain":
		return vpWrap{plain.Security("u", "p")}
	}
	return vpIdentity{"XOTHER"}
}

// longForm encodes a frame in the nine-byte header form whatever its size.
func longForm(body []byte, fl byte) []byte {
	h := make([]byte, 9)
	h[0] = fl | 2
	binary.BigEndian.PutUint64(h[1:], uint64(len(body)))
	return append(h, body...)
}

func vpEnc(r *rand.Rand, fs [][]byte) []byte {
	var w []byte
	for i, f := range fs {
		var fl byte
		if i < len(fs)-1 {
			fl = 1
		}
		if r.Intn(4) == 0 {
			w = append(w, longForm(f, fl)...)
		} else {
			w = append(w, vpFrame(f, fl == 1, false)...)
		}
	}
	return w
}

func TestVPDecode(t *testing.T) {
	for _, name := range []string{"null", "plain", "other"} {
		vpRun(t, "decode-"+name, func(v *vpT) {
			for _, typ := range []zmq4.SocketType{zmq4.Dealer, zmq4.Sub, zmq4.Pull, zmq4.Pair, zmq4.Rep, zmq4.Req, zmq4.Router} {
				c, p, a := vpOpenConn(v, vpSecs(name), typ)
				check := func(msgs [][][]byte, chunked bool) {
					var w []byte
					for _, m := range msgs {
						w = append(w, vpEnc(v.rng, m)...)
					}
					a.r.mu.Lock()
					a.r.chunk = nil
					if chunked {
						a.r.chunk = rand.New(rand.NewSource(v.rng.Int63()))
					}
					a.r.mu.Unlock()
					p.Write(w)
					for i, m := range msgs {
						var got zmq4.Msg
						var err error
						v.Within(8*time.Second, "RecvMsg", func() { got, err = c.RecvMsg() })
						if err != nil {
							v.Fail("message %d of %d, %s sent as %s: error %v", i, len(msgs), vpShow(m), vpShort(w), err)
						}
						if !vpSame(got.Frames, m) || got.Type == zmq4.CmdMsg {
							v.Fail("message %d of %d: received %s (type %d), the peer wrote %s", i, len(msgs), vpShow(got.Frames), got.Type, vpShow(m))
						}
						v.Count(1)
					}
				}
				for _, n := range vpSizes {
					check([][][]byte{{vpBytes(v.rng, n)}, {nil, vpBytes(v.rng, n), {9}}}, n < 5000)
				}
				if typ == zmq4.Dealer {
					for n := 0; n < 800; n++ {
						check([][][]byte{{vpBytes(v.rng, n)}}, n%2 == 0)
					}
					for n := 1; n < 80; n++ {
						fs := make([][]byte, n)
						for i := range fs {
							fs[i] = vpBytes(v.rng, v.rng.Intn(4))
						}
						check([][][]byte{fs, {{7}}}, true)
					}
					check([][][]byte{{vpBytes(v.rng, 1<<20+5), {}, vpBytes(v.rng, 1<<17)}, {{1}}}, false)
					check([][][]byte{{vpBytes(v.rng, 5<<20)}, {{1}}}, false)
				}
				for i := 0; i < vpN(200); i++ {
					var ms [][][]byte
					for k := v.rng.Intn(6); k >= 0; k-- {
						ms = append(ms, vpFrames(v.rng, 8))
					}
					check(ms, i%2 == 0)
				}
			}
		})
	}
}

// What one connection sends, another one receives.
func TestVPRoundTrip(t *testing.T) {
	vpRun(t, "round-trip", func(v *vpT) {
		c, p, _ := vpOpenConn(v, null.Security(), zmq4.Dealer)
		d, q, a := vpOpenConn(v, null.Security(), zmq4.Dealer)
		a.r.chunk = rand.New(rand.NewSource(5))
		var sent [][][]byte
		for i := 0; i < vpN(1000); i++ {
			fs := vpFrames(v.rng, 6)
			sent = append(sent, fs)
			if err := c.SendMsg(zmq4.NewMsgFrom(fs...)); err != nil {
				v.Fail("SendMsg: %v", err)
			}
			q.Write(p.take())
		}
		for i, fs := range sent {
			var got zmq4.Msg
			var err error
			v.Within(8*time.Second, "RecvMsg", func() { got, err = d.RecvMsg() })
			if err != nil || !vpSame(got.Frames, fs) {
				v.Fail("message %d: received %s, %v, sent %s", i, vpShow(got.Frames), err, vpShow(fs))
			}
			v.Count(1)
		}
	})
}

// A stream that ends or fails inside a message yields an error.
func TestVPTruncated(t *testing.T) {
	for _, name := range []string{"null", "plain"} {
		vpRun(t, "truncated-"+name, func(v *vpT) {
			try := func(fs [][]byte, w []byte, cut int) {
				c, p, _ := vpOpenConn(v, vpSecs(name), zmq4.Dealer)
				first := [][]byte{{1, 2, 3}}
				p.Write(vpWire(first...))
				p.Write(w[:cut])
				p.w.closeWrite()
				var got zmq4.Msg
				var err error
				v.Within(8*time.Second, "RecvMsg", func() { got, err = c.RecvMsg() })
				if err != nil || !vpSame(got.Frames, first) {
					v.Fail("whole message before a truncated one: got %s, %v", vpShow(got.Frames), err)
				}
				v.Within(8*time.Second, "RecvMsg at the end of the stream", func() { got, err = c.RecvMsg() })
				if cut == len(w) {
					if err != nil || !vpSame(got.Frames, fs) {
						v.Fail("complete message %s: got %s, %v", vpShow(fs), vpShow(got.Frames), err)
					}
				} else if err == nil {
					v.Fail("the stream ended after %d of the %d bytes of %s (wire %s), yet RecvMsg returned %s without error", cut, len(w), vpShow(fs), vpShort(w), vpShow(got.Frames))
				}
				v.Count(1)
			}
			for _, fs := range [][][]byte{{{1}}, {{}}, {{}, {}}, {{1, 2}, {3}, {}}, {bytes.Repeat([]byte{5}, 300)}, {bytes.Repeat([]byte{5}, 255), nil}, {{1}, bytes.Repeat([]byte{5}, 260), {2}}} {
				w := vpWire(fs...)
				for cut := 0; cut <= len(w); cut++ {
					try(fs, w, cut)
				}
				w = nil
				for i, f := range fs {
					fl := byte(1)
					if i == len(fs)-1 {
						fl = 0
					}
					w = append(w, longForm(f, fl)...)
				}
				for cut := 0; cut <= len(w); cut += 1 + cut/20 {
					try(fs, w, cut)
				}
			}
			big := [][]byte{vpBytes(v.rng, 200000), {1}}
			w := vpWire(big...)
			for _, cut := range []int{8, 9, 10, 4096, 65536, 65545, 100000, 131072, 200000, 200008, 200009, 200010, 200011, 200012} {
				try(big, w, cut)
			}
		})
	}
}

// Reported as a command iff one of its frames carries the flag.
func TestVPCommandFlag(t *testing.T) {
	vpRun(t, "command-flag", func(v *vpT) {
		for i := 0; i < vpN(1500); i++ {
			c, p, _ := vpOpenConn(v, null.Security(), zmq4.Dealer)
			fs := vpFrames(v.rng, 4)
			cmdAt := v.rng.Intn(len(fs))
			if i%3 == 0 {
				fs = fs[:1]
				cmdAt = 0
			}
			if i%2 == 0 && len(fs) == 1 {
				fs[0] = vpCmdBody("XCMD"[:v.rng.Intn(5)], vpBytes(v.rng, v.rng.Intn(400)))
			}
			for k, f := range fs {
				p.Write(vpFrame(f, k < len(fs)-1, k == cmdAt))
			}
			after := [][]byte{{42}}
			p.Write(vpWire(after...))
			var got zmq4.Msg
			var err error
			v.Within(8*time.Second, "RecvMsg", func() { got, err = c.RecvMsg() })
			if err == nil && got.Type != zmq4.CmdMsg {
				v.Fail("a message whose frame %d of %d carries the COMMAND flag was delivered as ordinary: %s", cmdAt, len(fs), vpShow(got.Frames))
			}
			v.Within(8*time.Second, "RecvMsg", func() { got, err = c.RecvMsg() })
			if err != nil || !vpSame(got.Frames, after) || got.Type == zmq4.CmdMsg {
				v.Fail("after a command of %d frames (%s) the next message was received as %s, type %d, error %v: want %s", len(fs), vpShow(fs), vpShow(got.Frames), got.Type, err, vpShow(after))
			}
			v.Count(1)
		}
	})
}

// An I/O failure inside a message is an error too, and nothing of it is delivered by a socket.
func TestVPSocketTruncated(t *testing.T) {
	_ = errors.New
	vpRun(t, "socket-truncated", func(v *vpT) {
		for i := 0; i < vpN(15); i++ {
			s := zmq4.NewPull(vpCtx)
			ep := vpListen(v, s)
			p := vpConnect(v, ep, "PUSH", "a")
			fs := vpFrames(v.rng, 4)
			w := vpWire(fs...)
			p.send([]byte("one"))
			p.Write(w[:v.rng.Intn(len(w))])
			p.w.closeWrite()
			q := vpConnect(v, ep, "PUSH", "b")
			q.send([]byte("two"))
			var got []zmq4.Msg
			v.Within(8*time.Second, "Recv", func() {
				for n := 0; len(got) < 2 && n < 10; n++ {
					if m, err := s.Recv(); err == nil {
						got = append(got, m)
					}
				}
			})
			if len(got) == 2 && string(got[0].Bytes()) == "two" {
				got[0], got[1] = got[1], got[0]
			}
			if len(got) != 2 || string(got[0].Bytes()) != "one" || string(got[1].Bytes()) != "two" {
				v.Fail("one whole message, a truncated %s, then another peer's message: received %d messages, %v", vpShow(fs), len(got), got)
			}
			s.Close()
			v.Count(1)
		}
	})
}
