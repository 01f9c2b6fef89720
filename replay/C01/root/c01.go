package zmq4_test

import (
	"bytes"
	"errors"
	"testing"

	"github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
)

func TestVPFraming(t *testing.T) {
	secs := map[string]zmq4.Security{"null": null.Security(), "plain": vpIdentity{"PLAIN"}, "realplain": vpWrap{plain.Security("u", "p")}, "other": vpIdentity{"XCUSTOM"}}
	for _, name := range []string{"null", "plain", "realplain", "other"} {
		sec := secs[name]
		vpRun(t, "framing-"+name, func(v *vpT) {
			c, p, _ := vpOpenConn(v, sec, zmq4.Dealer)
			check := func(fs [][]byte) {
				if err := c.SendMsg(zmq4.NewMsgFrom(fs...)); err != nil {
					v.Fail("SendMsg(%s): %v", vpShow(fs), err)
				}
				if got, want := p.take(), vpWire(fs...); !bytes.Equal(got, want) {
					v.Fail("SendMsg(%s) put %s on the wire, want %s", vpShow(fs), vpShort(got), vpShort(want))
				}
				v.Count(1)
			}
			for _, n := range vpSizes {
				check([][]byte{vpBytes(v.rng, n)})
				check([][]byte{vpBytes(v.rng, n), nil})
				check([][]byte{{}, vpBytes(v.rng, n), {1}})
			}
			for n := 0; n < 1100; n++ {
				check([][]byte{vpBytes(v.rng, n), vpBytes(v.rng, n%300)})
			}
			for n := 0; n < 70; n++ {
				fs := make([][]byte, n)
				for i := range fs {
					fs[i] = vpBytes(v.rng, v.rng.Intn(5))
				}
				check(fs)
			}
			for i := 0; i < vpN(2000); i++ {
				check(vpFrames(v.rng, 12))
			}
			check([][]byte{vpBytes(v.rng, 1<<20+3), vpBytes(v.rng, 1<<17)})
		})
	}
}

// A multipart send through a socket writes the same bytes.
func TestVPSockets(t *testing.T) {
	for _, mk := range []struct {
		name, peer string
		mk         func() zmq4.Socket
	}{
		{"push", "PULL", func() zmq4.Socket { return zmq4.NewPush(vpCtx) }},
		{"pair", "PAIR", func() zmq4.Socket { return zmq4.NewPair(vpCtx) }},
		{"dealer", "ROUTER", func() zmq4.Socket { return zmq4.NewDealer(vpCtx) }},
		{"dealerplain", "ROUTER", func() zmq4.Socket { return zmq4.NewDealer(vpCtx) }},
	} {
		vpRun(t, "socket-"+mk.name, func(v *vpT) {
			s := mk.mk()
			p, _, _ := vpDialedBy(v, s, mk.peer, "x")
			for i := 0; i < vpN(1000); i++ {
				fs := vpFrames(v.rng, 9)
				var err error
				how := "Send"
				if i%2 == 0 {
					err = s.Send(zmq4.NewMsgFrom(fs...))
				} else {
					how = "SendMulti"
					err = s.SendMulti(zmq4.NewMsgFrom(fs...))
				}
				if err != nil {
					v.Fail("%s(%s): %v", how, vpShow(fs), err)
				}
				if got, want := p.take(), vpWire(fs...); !bytes.Equal(got, want) {
					v.Fail("%s(%s) put %s on the wire, want %s", how, vpShow(fs), vpShort(got), vpShort(want))
				}
				v.Count(1)
			}
			s.Close()
		})
	}
}

// SendMulti under a mechanism other than NULL.
func TestVPMultiPlain(t *testing.T) {
	vpRun(t, "sendmulti-plain", func(v *vpT) {
		s := zmq4.NewDealer(vpCtx, zmq4.WithSecurity(vpIdentity{"PLAIN"}))
		name := vpName()
		l, _ := vpListenName(name)
		errc := make(chan error, 1)
		go func() { errc <- s.Dial("vp://" + name) }()
		c := (<-l.ch).(*vpConn)
		p := &vpPeer{vpConn: c}
		p.Write(vpGreet("PLAIN", 1))
		p.readN(64)
		if err := <-errc; err != nil {
			v.Fail("dial: %v", err)
		}
		for i := 0; i < vpN(1000); i++ {
			fs := vpFrames(v.rng, 9)
			if err := s.SendMulti(zmq4.NewMsgFrom(fs...)); err != nil {
				v.Fail("SendMulti(%s): %v", vpShow(fs), err)
			}
			if got, want := p.take(), vpWire(fs...); !bytes.Equal(got, want) {
				v.Fail("SendMulti(%s) put %s on the wire, want %s", vpShow(fs), vpShort(got), vpShort(want))
			}
			v.Count(1)
		}
		s.Close()
	})
}

// A failed write is reported, whatever byte it fails at, and what was written is a prefix.
func TestVPWriteErrors(t *testing.T) {
	boom := errors.New("boom")
	for _, name := range []string{"null", "plain"} {
		vpRun(t, "write-error-"+name, func(v *vpT) {
			for i := 0; i < vpN(600); i++ {
				var sec zmq4.Security = null.Security()
				if name == "plain" {
					sec = vpIdentity{"PLAIN"}
				}
				c, p, a := vpOpenConn(v, sec, zmq4.Dealer)
				fs := vpFrames(v.rng, 4)
				w := vpWire(fs...)
				cut := v.rng.Intn(len(w))
				a.w.budget, a.w.werr = cut, boom
				err := c.SendMsg(zmq4.NewMsgFrom(fs...))
				if err == nil {
					v.Fail("SendMsg(%s) returned nil though the connection failed after %d of %d bytes", vpShow(fs), cut, len(w))
				}
				if got := p.take(); !bytes.Equal(got, w[:len(got)]) || len(got) > cut {
					v.Fail("SendMsg(%s) wrote %s before the failure at %d", vpShow(fs), vpShort(got), cut)
				}
				v.Count(1)
			}
		})
	}
}

// vpWrap replaces the handshake of a mechanism and keeps its payload transformation.
type vpWrap struct{ zmq4.Security }

func (s vpWrap) Handshake(c *zmq4.Conn, server bool) error {
	c.Peer.Meta["Socket-Type"] = peerOf(c.Meta["Socket-Type"])
	return nil
}
