package zmq4_test

import (
	"bytes"
	"strings"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
)

var vpNames = []string{"", "P", "PING", "PONG", "ping", "PINGS", "PIN", "SUBSCRIBE", "CANCEL", "READY", "ERROR", "HELLO", "WELCOME", "INITIATE", "MESSAGE", "X-Y\x00Z", strings.Repeat("n", 254), strings.Repeat("n", 255)}

func TestVPSendCmd(t *testing.T) {
	vpRun(t, "send-cmd", func(v *vpT) {
		for _, sec := range []zmq4.Security{null.Security(), vpIdentity{"PLAIN"}} {
			c, p, _ := vpOpenConn(v, sec, zmq4.Dealer)
			check := func(name string, body []byte) {
				err := c.SendCmd(name, body)
				got := p.take()
				if len(name) > 255 {
					if err == nil || len(got) != 0 {
						v.Fail("SendCmd with a name of %d bytes: error %v, wrote %s; want an error and nothing written", len(name), err, vpShort(got))
					}
					return
				}
				if want := vpCmd(name, body); err != nil || !bytes.Equal(got, want) {
					v.Fail("SendCmd(%q, %s): error %v, wrote %s, want %s", name, vpShort(body), err, vpShort(got), vpShort(want))
				}
				v.Count(1)
			}
			for _, name := range vpNames {
				for _, n := range vpSizes {
					check(name, vpBytes(v.rng, n))
				}
				check(name, nil)
			}
			for n := 0; n < 600; n++ {
				check(strings.Repeat("a", n), vpBytes(v.rng, v.rng.Intn(3)))
				check("NAME", vpBytes(v.rng, n))
			}
			for _, n := range []int{256, 257, 300, 511, 512, 65536} {
				check(strings.Repeat("a", n), nil)
				check(strings.Repeat("a", n), []byte("body"))
			}
		}
	})
}

func TestVPRecvCmd(t *testing.T) {
	vpRun(t, "recv-cmd", func(v *vpT) {
		c, p, _ := vpOpenConn(v, null.Security(), zmq4.Dealer)
		recv := func(w []byte) (cmd zmq4.Cmd, err error) {
			p.Write(w)
			v.Within(8*time.Second, "RecvCmd", func() { cmd, err = c.RecvCmd() })
			return
		}
		check := func(name string, body []byte) {
			cmd, err := recv(vpCmd(name, body))
			if err != nil || cmd.Name != name || !bytes.Equal(cmd.Body, body) {
				v.Fail("RecvCmd of %q with body %s: got %q, %s, %v", name, vpShort(body), cmd.Name, vpShort(cmd.Body), err)
			}
			if got := p.take(); len(got) != 0 {
				v.Fail("RecvCmd of %q wrote %s", name, vpShort(got))
			}
			v.Count(1)
		}
		for _, name := range vpNames {
			for _, n := range vpSizes {
				check(name, vpBytes(v.rng, n))
			}
		}
		for n := 0; n < 256; n++ {
			check(strings.Repeat("a", n), vpBytes(v.rng, n%4))
		}
		// malformed frames are refused, and the stream stays in step
		for i := 0; i < vpN(3000); i++ {
			n := v.rng.Intn(300)
			if i%3 == 0 {
				n = v.rng.Intn(4)
			}
			b := vpBytes(v.rng, n)
			if n > 0 && i%2 == 0 {
				b[0] = byte(n - 1 + v.rng.Intn(3))
			}
			ok := n > 0 && int(b[0]) <= n-1
			cmd, err := recv(vpFrame(b, false, true))
			if ok != (err == nil) || (ok && (cmd.Name != string(b[1:1+int(b[0])]) || !bytes.Equal(cmd.Body, b[1+int(b[0]):]))) {
				v.Fail("RecvCmd of a command frame with body %s: got name %q, body %s, error %v", vpShort(b), cmd.Name, vpShort(cmd.Body), err)
			}
			v.Count(1)
		}
		if _, err := recv(vpFrame([]byte("\x04PING"), false, false)); err == nil {
			v.Fail("RecvCmd accepted a frame without the COMMAND flag")
		}
		if _, err := recv(append(vpFrame([]byte("\x04PING"), true, true), vpFrame([]byte("x"), false, true)...)); err == nil {
			v.Fail("RecvCmd accepted a command of two frames")
		}
		check("AFTER", []byte("x"))
	})
}

func TestVPPing(t *testing.T) {
	vpRun(t, "ping", func(v *vpT) {
		for _, sec := range []zmq4.Security{null.Security(), vpIdentity{"PLAIN"}} {
			c, p, _ := vpOpenConn(v, sec, zmq4.Dealer)
			check := func(name string, body []byte) {
				p.Write(vpCmd(name, body))
				var m zmq4.Msg
				var err error
				v.Within(8*time.Second, "RecvMsg", func() { m, err = c.RecvMsg() })
				if err != nil || m.Type != zmq4.CmdMsg {
					v.Fail("RecvMsg of command %q with %s: type %d, error %v", name, vpShort(body), m.Type, err)
				}
				if !bytes.Equal(m.Bytes(), body) || len(m.Frames) > 1 {
					v.Fail("RecvMsg of command %q with body %s returned %s", name, vpShort(body), vpShow(m.Frames))
				}
				var want []byte
				if name == "PING" {
					want = vpCmd("PONG", nil)
				}
				if got := p.take(); !bytes.Equal(got, want) {
					v.Fail("RecvMsg of command %q with body %s wrote %s, want %s", name, vpShort(body), vpShort(got), vpShort(want))
				}
				v.Count(1)
			}
			for _, name := range vpNames {
				for _, n := range vpSizes {
					check(name, vpBytes(v.rng, n))
				}
				check(name, nil)
			}
			for i := 0; i < 256; i++ {
				check(string([]byte{'P', 'I', 'N', byte(i)}), nil)
				check("PING", []byte{0, byte(i)})
			}
			// malformed: refused, answered by nothing
			for _, b := range [][]byte{{}, {1}, {5, 'P', 'I', 'N', 'G'}, {255, 'P', 'I', 'N', 'G'}} {
				p.Write(vpFrame(b, false, true))
				var err error
				v.Within(8*time.Second, "RecvMsg", func() { _, err = c.RecvMsg() })
				if err == nil || len(p.take()) != 0 {
					v.Fail("RecvMsg of a malformed command %x: error %v", b, err)
				}
			}
			p.Write(vpFrame([]byte("\x04PING"), false, false))
			var m zmq4.Msg
			var err error
			v.Within(8*time.Second, "RecvMsg", func() { m, err = c.RecvMsg() })
			if err != nil || m.Type == zmq4.CmdMsg || len(p.take()) != 0 || string(m.Bytes()) != "\x04PING" {
				v.Fail("an ordinary message that reads like PING: %v, %v", m, err)
			}
		}
	})
}
