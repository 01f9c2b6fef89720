package zmq4_test

import (
	"bytes"
	"errors"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
)

func TestVPGreeting(t *testing.T) {
	// what we send
	vpRun(t, "sent greeting", func(v *vpT) {
		for _, mech := range []string{"NULL", "PLAIN", "CURVE", "A", "", "GSSAPI", "NINETEEN-CHARACTERS", "TWENTY-CHARACTERS-XY"} {
			for _, server := range []bool{false, true} {
				for _, typ := range []zmq4.SocketType{zmq4.Pair, zmq4.Pub, zmq4.Sub, zmq4.Req, zmq4.Rep, zmq4.Dealer, zmq4.Router, zmq4.Push, zmq4.Pull, zmq4.XPub, zmq4.XSub} {
					a, b := vpPair()
					b.Write(vpGreet(mech, 0))
					conn, err := zmq4.Open(a, vpIdentity{mech}, typ, []byte("id"), server, nil)
					if err != nil {
						v.Fail("mechanism %q, %s: opening a connection fails: %v", mech, typ, err)
					}
					p := &vpPeer{vpConn: b}
					p.SetReadDeadline(time.Now().Add(3 * time.Second))
					g, err := p.readN(64)
					if err != nil {
						v.Fail("mechanism %q: greeting sent is %x, then %v", mech, g, err)
					}
					want := vpGreet(mech, 0)
					copy(want[1:9], g[1:9]) // padding
					want[32] = g[32]
					if !bytes.Equal(g, want) || g[32] > 1 {
						v.Fail("mechanism %q, server=%v: greeting sent is\n%x, want\n%x", mech, server, g, want)
					}
					p.SetReadDeadline(time.Now().Add(time.Millisecond))
					if x, _ := p.readN(1); len(x) != 0 {
						v.Fail("mechanism %q: more than 64 bytes sent: %x", mech, x)
					}
					conn.Close()
					v.Count(1)
				}
			}
		}
		for _, mech := range []string{"TWENTY-ONE-CHARACTERS", "A-VERY-LONG-MECHANISM-NAME-INDEED-IT-IS"} {
			a, b := vpPair()
			b.Write(vpGreet(mech[:20], 0))
			if _, err := zmq4.Open(a, vpIdentity{mech}, zmq4.Pair, nil, false, nil); err == nil {
				v.Fail("mechanism %q does not fit the greeting but the connection opens", mech)
			}
			v.Count(1)
		}
	})
	// what we accept
	vpRun(t, "accepted greeting", func(v *vpT) {
		try := func(mech string, g []byte) (*zmq4.Conn, error) {
			a, b := vpPair()
			if v.rng.Intn(2) == 0 {
				a.r.chunk = v.rng
			}
			b.Write(g)
			b.w.closeWrite()
			return zmq4.Open(a, vpIdentity{mech}, zmq4.Pair, nil, v.rng.Intn(2) == 0, nil)
		}
		check := func(what, mech string, g []byte, ok bool) {
			c, err := try(mech, g)
			v.Count(1)
			if ok != (err == nil) {
				v.Fail("%s: own mechanism %q, peer greeting %x: accepted=%v (%v), want %v", what, mech, g, err == nil, err, ok)
			}
			if err == nil {
				if c.Peer.Server != (g[32] == 1) {
					v.Fail("%s: as-server octet %d read as %v", what, g[32], c.Peer.Server)
				}
			}
		}
		mechs := []string{"NULL", "PLAIN", "CURVE", "X", "TWENTY-CHARACTERS-XY"}
		for _, m := range mechs {
			check("good", m, vpGreet(m, 0), true)
			for b := 0; b < 256; b++ {
				g := vpGreet(m, 0)
				g[0] = byte(b)
				check("first octet", m, g, b == 0xff)
				g = vpGreet(m, 1)
				g[9] = byte(b)
				check("tenth octet", m, g, b == 0x7f)
				g = vpGreet(m, 0)
				g[32] = byte(b)
				check("as-server", m, g, b <= 1)
				g = vpGreet(m, 0)
				g[10] = byte(b)
				check("major version", m, g, b >= 3)
				g[11] = byte(v.rng.Intn(256))
				check("version", m, g, b >= 3)
				g = vpGreet(m, 0)
				g[11] = byte(b)
				check("minor version", m, g, true)
				// padding is ignored
				g = vpGreet(m, 0)
				g[1+b%8] = byte(v.rng.Intn(256))
				g[33+b%31] = byte(v.rng.Intn(256))
				check("padding", m, g, true)
				// one mechanism octet changed
				for i := 0; i < 20; i++ {
					g = vpGreet(m, 0)
					old := g[12+i]
					g[12+i] = byte(b)
					if i > len(m) { // behind the first NUL
						continue
					}
					check("mechanism octet", m, g, byte(b) == old)
				}
			}
			for _, o := range []string{"NULL", "PLAIN", "CURVE", "X", "TWENTY-CHARACTERS-XY", "", "NUL", "NULLX", "null", "PLAI", "PLAINS", " NULL", "NULL ", "Null"} {
				check("other mechanism", m, vpGreet(o, 0), o == m)
			}
			// cut short
			for n := 0; n < 64; n++ {
				check("truncated", m, vpGreet(m, 0)[:n], false)
			}
		}
		// an error of the stream is reported
		for budget := 0; budget < 64; budget++ {
			a, b := vpPair()
			b.Write(vpGreet("NULL", 0))
			a.w.budget = budget
			a.w.werr = errors.New("no space")
			if _, err := zmq4.Open(a, vpIdentity{"NULL"}, zmq4.Pair, nil, false, nil); err == nil {
				v.Fail("the greeting write fails after %d bytes but the connection opens", budget)
			}
			v.Count(1)
		}
	})
}
