package zmq4_test

import (
	"bytes"
	"context"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
)

var vpCmdNames = []string{"READY", "HELLO", "WELCOME", "INITIATE", "ERROR", "PING", "PONG", "SUBSCRIBE", "CANCEL", "", "ready", "READYX", "READ", "Hello", "WELCOM", "INITIATED", "\x00", "READY\x00"}

// vpOpen8 opens a connection against a scripted peer and returns what was sent after the greeting.
func vpOpen8(v *vpT, sec zmq4.Security, mech string, server bool, typ zmq4.SocketType, id []byte, script ...[]byte) (*zmq4.Conn, *vpPeer, []byte, error) {
	a, b := vpPair()
	if v.rng.Intn(2) == 0 {
		a.r.chunk = v.rng
	}
	other := byte(0)
	if !server {
		other = 1
	}
	b.Write(vpGreet(mech, other))
	for _, s := range script {
		b.Write(s)
	}
	b.w.closeWrite()
	var c *zmq4.Conn
	var err error
	v.Within(10*time.Second, "the handshake", func() {
		c, err = zmq4.Open(a, sec, typ, zmq4.SocketIdentity(id), server, nil)
	})
	p := &vpPeer{vpConn: b}
	out := p.take()
	if len(out) < 64 {
		v.Fail("%s: only %d bytes sent", mech, len(out))
	}
	return c, p, out[64:], err
}

func vpReadyProps(v *vpT, typ string) ([]byte, map[string]string) {
	want := map[string]string{"socket-type": peerOf(typ)}
	var b []byte
	names := []string{"Socket-Type", "socket-type", "Socket-type"}
	b = append(b, vpProp(names[v.rng.Intn(3)], peerOf(typ))...)
	if v.rng.Intn(3) > 0 {
		id := string(vpBytes(v.rng, v.rng.Intn(256)))
		b = append(b, vpProp([]string{"Identity", "identity"}[v.rng.Intn(2)], id)...)
		want["identity"] = id
	}
	for i := v.rng.Intn(4); i > 0; i-- {
		k := fmt.Sprintf("X-k%c%c", 'a'+rune(v.rng.Intn(26)), 'a'+rune(v.rng.Intn(26)))
		x := string(vpBytes(v.rng, v.rng.Intn(600)))
		b = append(b, vpProp(k, x)...)
		want[strings.ToLower(k)] = x
	}
	return b, want
}

func vpCheckMeta(v *vpT, what string, c *zmq4.Conn, want map[string]string) {
	got := map[string]string{}
	for k, x := range c.Peer.Meta {
		got[strings.ToLower(k)] = x
	}
	if len(got) != len(want) {
		v.Fail("%s: the peer sent %d properties, %d are held: %q", what, len(want), len(got), got)
	}
	for k, x := range want {
		if y, ok := got[k]; !ok || x != y {
			v.Fail("%s: the peer's property %q=%s is held as %s (%v)", what, k, vpShort([]byte(x)), vpShort([]byte(y)), ok)
		}
	}
}

func vpCheckOurProps(v *vpT, what string, body []byte, typ string, id []byte) {
	ps, err := vpParseProps(body)
	if err != nil {
		v.Fail("%s: metadata %x is malformed: %v", what, body, err)
	}
	m := map[string]string{}
	for _, p := range ps {
		m[strings.ToLower(p[0])] = p[1]
	}
	if len(ps) != 2 || m["socket-type"] != typ || m["identity"] != string(id) {
		v.Fail("%s: metadata sent is %q, want Socket-Type=%s and Identity=%s", what, ps, typ, vpShort(id))
	}
}

// vpCmds splits bytes into commands.
func vpSplitCmds(v *vpT, what string, b []byte) (names []string, bodies [][]byte) {
	h := newVPHalf()
	h.write(b)
	h.closeWrite()
	p := &vpPeer{vpConn: &vpConn{r: h, w: newVPHalf()}}
	for {
		n, body, err := p.cmd(2 * time.Second)
		if err != nil {
			return
		}
		names = append(names, n)
		bodies = append(bodies, body)
		if len(names) > 8 {
			v.Fail("%s: too many commands %q", what, names)
		}
	}
}

func vpCheckSeq(v *vpT, what string, out []byte, want ...string) [][]byte {
	names, bodies := vpSplitCmds(v, what, out)
	if fmt.Sprintf("%q", names) != fmt.Sprintf("%q", want) {
		v.Fail("%s: commands sent are %q, want %q (%s)", what, names, want, vpShort(out))
	}
	var re []byte
	for i, n := range names {
		re = append(re, vpCmd(n, bodies[i])...)
	}
	if !bytes.Equal(re, out) {
		v.Fail("%s: besides the commands other bytes were sent: %s", what, vpShort(out))
	}
	return bodies
}

func vpPayload(v *vpT, what string, c *zmq4.Conn, p *vpPeer, sec zmq4.Security) {
	for _, n := range []int{0, 1, 2, 255, 256, 300, 5000, 70000} {
		data := vpBytes(v.rng, n)
		keep := append([]byte(nil), data...)
		var w bytes.Buffer
		k, err := sec.Encrypt(&w, data)
		if err != nil || k != n || !bytes.Equal(w.Bytes(), keep) || !bytes.Equal(data, keep) {
			v.Fail("%s: encrypting %d bytes gives %d, %v, unchanged=%v", what, n, k, err, bytes.Equal(w.Bytes(), keep))
		}
		w.Reset()
		k, err = sec.Decrypt(&w, data)
		if err != nil || k != n || !bytes.Equal(w.Bytes(), keep) {
			v.Fail("%s: decrypting %d bytes gives %d, %v, unchanged=%v", what, n, k, err, bytes.Equal(w.Bytes(), keep))
		}
		p.take()
		if err := c.SendMsg(zmq4.NewMsgFrom(data)); err != nil {
			v.Fail("%s: sending after the handshake: %v", what, err)
		}
		if out := p.take(); !bytes.Equal(out, vpWire(keep)) {
			v.Fail("%s: payload of %d bytes is sent as %s", what, n, vpShort(out))
		}
		v.Count(1)
	}
}

func TestVPHandshakeNull(t *testing.T) {
	vpRun(t, "NULL", func(v *vpT) {
		for i := 0; i < vpN(1500); i++ {
			for _, server := range []bool{false, true} {
				typ := zmq4.Dealer
				id := vpBytes(v.rng, v.rng.Intn(256))
				props, want := vpReadyProps(v, string(typ))
				c, p, out, err := vpOpen8(v, null.Security(), "NULL", server, typ, id, vpCmd("READY", props))
				what := fmt.Sprintf("NULL server=%v", server)
				if err != nil {
					v.Fail("%s: a well-formed handshake is refused: %v", what, err)
				}
				bodies := vpCheckSeq(v, what, out, "READY")
				vpCheckOurProps(v, what, bodies[0], string(typ), id)
				vpCheckMeta(v, what, c, want)
				if i == 0 {
					vpPayload(v, what, c, p, null.Security())
				}
				v.Count(1)
			}
		}
		for _, name := range vpCmdNames {
			props, _ := vpReadyProps(v, "DEALER")
			_, _, _, err := vpOpen8(v, null.Security(), "NULL", v.rng.Intn(2) == 0, zmq4.Dealer, nil, vpCmd(name, props), vpCmd("READY", props))
			if (err == nil) != (name == "READY") {
				v.Fail("NULL: command %q instead of READY: error %v", name, err)
			}
			v.Count(1)
		}
		props, _ := vpReadyProps(v, "DEALER")
		for _, bad := range [][]byte{
			vpFrame(vpCmdBody("READY", props), false, false),
			vpCmd("READY", props[:len(props)-1]),
			vpCmd("READY", append(props[:len(props):len(props)], 3)),
			{}, vpCmd("READY", props)[:20],
		} {
			if _, _, _, err := vpOpen8(v, null.Security(), "NULL", false, zmq4.Dealer, nil, bad); err == nil {
				v.Fail("NULL: %s passes for a READY command", vpShort(bad))
			}
			v.Count(1)
		}
	})
	vpRun(t, "default mechanism of sockets", func(v *vpT) {
		for _, name := range []string{"HELLO", "WELCOME", "ERROR", "PING", "ready", "READYX", "", "INITIATE"} {
			ctx, cancel := context.WithCancel(context.Background())
			s := zmq4.NewPull(ctx)
			ep := vpListen(v, s)
			raw, err := vpDialName(strings.TrimPrefix(ep, "vp://"))
			if err != nil {
				v.Fail("%v", err)
			}
			props := vpProp("Socket-Type", "PUSH")
			raw.Write(vpGreet("NULL", 0))
			raw.Write(vpCmd(name, props))
			raw.Write(vpWire([]byte("from the refused peer")))
			good := vpConnect(v, ep, "PUSH", "")
			time.Sleep(2 * time.Millisecond)
			good.send([]byte("good"))
			var m zmq4.Msg
			v.Within(10*time.Second, "a receive", func() { m, err = s.Recv() })
			if err != nil || string(m.Bytes()) != "good" {
				v.Fail("a peer that sent %q instead of READY is connected: received %q, %v", name, m.Bytes(), err)
			}
			cancel()
			s.Close()
			v.Count(1)
		}
	})
}

func TestVPHandshakePlain(t *testing.T) {
	hello := func(u, p []byte) []byte {
		b := append([]byte{byte(len(u))}, u...)
		return append(append(b, byte(len(p))), p...)
	}
	vpRun(t, "PLAIN client", func(v *vpT) {
		lens := []int{0, 1, 2, 31, 127, 128, 200, 254, 255}
		run := func(u, p []byte) {
			sec := plain.Security(string(u), string(p))
			typ := zmq4.Req
			id := vpBytes(v.rng, v.rng.Intn(256))
			props, want := vpReadyProps(v, string(typ))
			c, peer, out, err := vpOpen8(v, sec, "PLAIN", false, typ, id, vpCmd("WELCOME", nil), vpCmd("READY", props))
			what := fmt.Sprintf("PLAIN client, user of %d and password of %d bytes", len(u), len(p))
			if len(u) > 255 || len(p) > 255 {
				if err == nil {
					v.Fail("%s: accepted", what)
				}
				if names, _ := vpSplitCmds(v, what, out); len(names) > 0 && names[0] == "HELLO" {
					v.Fail("%s: a HELLO is sent all the same", what)
				}
				return
			}
			if err != nil {
				v.Fail("%s: a well-formed handshake is refused: %v", what, err)
			}
			bodies := vpCheckSeq(v, what, out, "HELLO", "INITIATE")
			if !bytes.Equal(bodies[0], hello(u, p)) {
				v.Fail("%s: HELLO carries %s, want %s", what, vpShort(bodies[0]), vpShort(hello(u, p)))
			}
			vpCheckOurProps(v, what, bodies[1], string(typ), id)
			vpCheckMeta(v, what, c, want)
			if len(u) == 2 && len(p) == 2 {
				vpPayload(v, what, c, peer, sec)
			}
			// the mechanism object is used for every connection of a socket
			_, _, out, err = vpOpen8(v, sec, "PLAIN", false, typ, id, vpCmd("WELCOME", nil), vpCmd("READY", props))
			if err != nil {
				v.Fail("%s: a second handshake fails: %v", what, err)
			}
			if b := vpCheckSeq(v, what, out, "HELLO", "INITIATE"); !bytes.Equal(b[0], hello(u, p)) {
				v.Fail("%s: the second HELLO carries %s", what, vpShort(b[0]))
			}
			v.Count(1)
		}
		for _, n := range lens {
			for _, m := range lens {
				run(vpBytes(v.rng, n), vpBytes(v.rng, m))
			}
		}
		for _, n := range []int{256, 257, 300, 512, 600} {
			run(vpBytes(v.rng, n), []byte("p"))
			run([]byte("u"), vpBytes(v.rng, n))
		}
		for _, name := range vpCmdNames {
			props, _ := vpReadyProps(v, "REQ")
			sec := plain.Security("u", "p")
			_, _, out, err := vpOpen8(v, sec, "PLAIN", false, zmq4.Req, nil, vpCmd(name, nil), vpCmd("READY", props), vpCmd("READY", props))
			if (err == nil) != (name == "WELCOME") {
				v.Fail("PLAIN client: command %q where WELCOME is due: error %v", name, err)
			}
			if name != "WELCOME" {
				if names, _ := vpSplitCmds(v, "client", out); len(names) > 1 && names[1] == "INITIATE" {
					v.Fail("PLAIN client: INITIATE is sent after %q", name)
				}
			}
			_, _, _, err = vpOpen8(v, sec, "PLAIN", false, zmq4.Req, nil, vpCmd("WELCOME", nil), vpCmd(name, props), vpCmd("READY", props))
			if (err == nil) != (name == "READY") {
				v.Fail("PLAIN client: command %q where READY is due: error %v", name, err)
			}
			v.Count(2)
		}
		props, _ := vpReadyProps(v, "REQ")
		for _, bad := range [][][]byte{
			{vpCmd("WELCOME", nil), vpFrame(vpCmdBody("READY", props), false, false)},
			{vpFrame(vpCmdBody("WELCOME", nil), false, false), vpCmd("READY", props)},
			{vpCmd("WELCOME", nil), vpCmd("READY", props[:len(props)-1])},
			{vpCmd("WELCOME", nil)}, {},
		} {
			if _, _, _, err := vpOpen8(v, plain.Security("a", "b"), "PLAIN", false, zmq4.Req, nil, bad...); err == nil {
				v.Fail("PLAIN client: accepts %x", bad)
			}
			v.Count(1)
		}
	})
	vpRun(t, "PLAIN server", func(v *vpT) {
		for i := 0; i < vpN(1500); i++ {
			sec := plain.Security("u", "p")
			typ := zmq4.Rep
			id := vpBytes(v.rng, v.rng.Intn(256))
			props, want := vpReadyProps(v, string(typ))
			h := hello([]byte("u"), []byte("p"))
			c, peer, out, err := vpOpen8(v, sec, "PLAIN", true, typ, id, vpCmd("HELLO", h), vpCmd("INITIATE", props))
			if err != nil {
				v.Fail("PLAIN server: a well-formed handshake is refused: %v", err)
			}
			bodies := vpCheckSeq(v, "PLAIN server", out, "WELCOME", "READY")
			if len(bodies[0]) != 0 {
				v.Fail("PLAIN server: WELCOME carries %x", bodies[0])
			}
			vpCheckOurProps(v, "PLAIN server", bodies[1], string(typ), id)
			vpCheckMeta(v, "PLAIN server", c, want)
			if i == 0 {
				vpPayload(v, "PLAIN server", c, peer, sec)
			}
			v.Count(1)
		}
		for _, name := range vpCmdNames {
			props, _ := vpReadyProps(v, "REP")
			h := hello([]byte("u"), []byte("p"))
			sec := plain.Security("u", "p")
			_, _, out, err := vpOpen8(v, sec, "PLAIN", true, zmq4.Rep, nil, vpCmd(name, h), vpCmd("INITIATE", props), vpCmd("INITIATE", props))
			if (err == nil) != (name == "HELLO") {
				v.Fail("PLAIN server: command %q where HELLO is due: error %v", name, err)
			}
			if name != "HELLO" {
				if names, _ := vpSplitCmds(v, "server", out); len(names) > 0 && names[0] == "WELCOME" {
					v.Fail("PLAIN server: %q is answered with WELCOME", name)
				}
			}
			_, _, out, err = vpOpen8(v, sec, "PLAIN", true, zmq4.Rep, nil, vpCmd("HELLO", h), vpCmd(name, props), vpCmd("INITIATE", props))
			if (err == nil) != (name == "INITIATE") {
				v.Fail("PLAIN server: command %q where INITIATE is due: error %v", name, err)
			}
			if name != "INITIATE" {
				if names, _ := vpSplitCmds(v, "server", out); len(names) > 1 && names[1] == "READY" {
					v.Fail("PLAIN server: %q is answered with READY", name)
				}
			}
			v.Count(2)
		}
	})
	// both ends are real
	vpRun(t, "both ends", func(v *vpT) {
		for i := 0; i < vpN(300); i++ {
			for _, mech := range []string{"NULL", "PLAIN"} {
				mk := func() zmq4.Security {
					if mech == "NULL" {
						return null.Security()
					}
					return plain.Security("user", "secret")
				}
				a, b := vpPair()
				ida, idb := vpBytes(v.rng, v.rng.Intn(256)), vpBytes(v.rng, v.rng.Intn(256))
				var ca, cb *zmq4.Conn
				var ea, eb error
				v.Within(10*time.Second, mech+" handshake", func() {
					done := make(chan int)
					go func() { cb, eb = zmq4.Open(b, mk(), zmq4.Router, zmq4.SocketIdentity(idb), true, nil); close(done) }()
					ca, ea = zmq4.Open(a, mk(), zmq4.Dealer, zmq4.SocketIdentity(ida), false, nil)
					<-done
				})
				if ea != nil || eb != nil {
					v.Fail("%s: the handshake fails: %v, %v", mech, ea, eb)
				}
				vpCheckMeta(v, mech, ca, map[string]string{"socket-type": "ROUTER", "identity": string(idb)})
				vpCheckMeta(v, mech, cb, map[string]string{"socket-type": "DEALER", "identity": string(ida)})
				v.Count(1)
			}
		}
	})
}
