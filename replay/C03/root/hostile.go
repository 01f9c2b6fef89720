package zmq4_test

import (
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"runtime/metrics"
	"sync"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
)

var vpTypes3 = []string{"PAIR", "PUB", "SUB", "REQ", "REP", "DEALER", "ROUTER", "PULL", "PUSH", "XPUB", "XSUB"}

func vpAllocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// vpFeed is a connection that plays given bytes and swallows what is written.
type vpFeed struct {
	vpConn
	b   []byte
	got int
}

func (f *vpFeed) Read(p []byte) (int, error) {
	if len(f.b) == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	n := copy(p, f.b)
	f.b = f.b[n:]
	f.got += n
	return n, nil
}
func (f *vpFeed) Write(p []byte) (int, error) { return len(p), nil }
func (f *vpFeed) Close() error                { return nil }

var vpHugeSizes = []uint64{0, 1, 2, 255, 256, 257, 65535, 65536, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1 << 24, 1 << 26, 1 << 28, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 33, 1 << 34, 1 << 40, 1 << 47, 1 << 48, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1}

func vpLongHeader(flags byte, n uint64) []byte {
	return binary.BigEndian.AppendUint64([]byte{flags | 2}, n)
}

// vpHostileProps makes a metadata block that need not be one.
func vpHostileProps(v *vpT, typ string) []byte {
	var b []byte
	if v.rng.Intn(4) > 0 {
		b = vpProp("Socket-Type", typ)
	}
	for i := v.rng.Intn(4); i > 0; i-- {
		switch v.rng.Intn(9) {
		case 0:
			b = append(b, vpProp("Identity", string(vpBytes(v.rng, v.rng.Intn(400))))...)
		case 1:
			b = append(b, vpProp("", "x")...)
		case 2:
			b = append(b, vpProp(string(vpBytes(v.rng, v.rng.Intn(256))), string(vpBytes(v.rng, v.rng.Intn(9))))...)
		case 3: // a value longer than the block
			p := vpProp("Resource", "abc")
			n := []uint32{4, 255, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 5}[v.rng.Intn(7)]
			binary.BigEndian.PutUint32(p[9:], n)
			b = append(b, p...)
		case 4: // a name longer than the block
			b = append(b, byte(200+v.rng.Intn(56)), 'a')
		case 5:
			b = append(b, vpProp("Socket-Type", string(vpBytes(v.rng, v.rng.Intn(5))))...)
		case 6:
			b = append(b, vpProp("Identity", "")...)
		case 7: // a name and no room for the length
			p := vpProp("Identity", "")
			b = append(b, p[:len(p)-1-v.rng.Intn(4)]...)
		default:
			b = append(b, byte(v.rng.Intn(256)))
		}
	}
	return b
}

// vpHostileFrame makes one frame of a kind some part of the library handles.
func vpHostileFrame(v *vpT) []byte {
	body := [][]byte{nil, {}, {0}, {1}, {2}, {255}, []byte("\x00a"), []byte("\x01a"), {1, 0}, []byte("\x04PING"), []byte("\x05PING"), []byte("\x09SUBSCRIBEa"), []byte("\x06CANCEL"), {0, 0}, vpBytes(v.rng, v.rng.Intn(300))}[v.rng.Intn(15)]
	switch v.rng.Intn(8) {
	case 0: // arbitrary flags
		f := vpFrame(body, false, false)
		f[0] = byte(v.rng.Intn(256))
		return f
	case 1: // short body in a long frame
		return append(vpLongHeader(byte(v.rng.Intn(2)), uint64(len(body))), body...)
	case 2: // a size nobody sends that much for
		return append(vpLongHeader(byte(v.rng.Intn(8)), vpHugeSizes[v.rng.Intn(len(vpHugeSizes))]), body...)
	case 3:
		return vpCmd(vpCmdNames3[v.rng.Intn(len(vpCmdNames3))], body)
	case 4:
		return vpFrame(body, v.rng.Intn(2) == 0, true)
	}
	return vpFrame(body, v.rng.Intn(3) == 0, false)
}

var vpCmdNames3 = []string{"READY", "HELLO", "WELCOME", "INITIATE", "ERROR", "PING", "PONG", "SUBSCRIBE", "CANCEL", "", "ping"}

func vpHostileFrames(v *vpT, max int) []byte {
	var b []byte
	for i := v.rng.Intn(max) + 1; i > 0; i-- {
		b = append(b, vpHostileFrame(v)...)
	}
	return b
}

// vpMutate damages a few bytes.
func vpMutate(v *vpT, b []byte) []byte {
	b = append([]byte(nil), b...)
	for i := v.rng.Intn(4); i > 0 && len(b) > 0; i-- {
		k := v.rng.Intn(len(b))
		switch v.rng.Intn(5) {
		case 0:
			b[k] = byte(v.rng.Intn(256))
		case 1:
			b[k] ^= 1 << v.rng.Intn(8)
		case 2:
			b = b[:k]
		case 3:
			b = append(b[:k:k], append(vpBytes(v.rng, 1+v.rng.Intn(3)), b[k:]...)...)
		default:
			b = append(b[:k], b[k+1:]...)
		}
	}
	return b
}

// vpHostileHandshake makes what a peer may send instead of a handshake.
func vpHostileHandshake(v *vpT, mech, typ string, server bool) []byte {
	g := vpGreet(mech, byte(v.rng.Intn(2)))
	switch v.rng.Intn(8) {
	case 0:
		return vpBytes(v.rng, v.rng.Intn(200))
	case 1:
		copy(g[12:], vpBytes(v.rng, 20))
	case 2:
		for i := 12; i < 32; i++ {
			g[i] = 'N'
		}
	case 3:
		g = vpMutate(v, g)
	}
	b := g
	props := vpHostileProps(v, peerOf(typ))
	cmd := func(name string, body []byte) []byte {
		c := vpCmdBody(name, body)
		switch v.rng.Intn(12) {
		case 0:
			c[0] = byte(v.rng.Intn(256))
		case 1:
			c = c[:v.rng.Intn(len(c)+1)]
		case 2:
			return vpFrame(c, true, true)
		case 3:
			return vpFrame(c, false, false)
		case 4:
			return append(vpLongHeader(4, vpHugeSizes[v.rng.Intn(len(vpHugeSizes))]), c...)
		}
		return vpFrame(c, false, true)
	}
	if mech == "PLAIN" {
		if server {
			creds := append([]byte{3}, "usr\x04pass"...)
			creds[0], creds[4] = byte(v.rng.Intn(5)), byte(v.rng.Intn(6))
			b = append(b, cmd("HELLO", creds[:v.rng.Intn(len(creds)+1)])...)
			b = append(b, cmd("INITIATE", props)...)
		} else {
			b = append(b, cmd("WELCOME", nil)...)
			b = append(b, cmd("READY", props)...)
		}
	} else {
		b = append(b, cmd("READY", props)...)
	}
	if v.rng.Intn(3) == 0 {
		b = vpMutate(v, b)
	}
	return b
}

// TestVPHostileConn: whatever bytes arrive, a Conn returns, does not panic
// and allocates in proportion to them.
func TestVPHostileConn(t *testing.T) {
	vpRunFor(t, "hostile bytes to a Conn", 150*time.Second, func(v *vpT) {
		for i := 0; i < vpN(12000); i++ {
			typ, server := vpTypes3[v.rng.Intn(len(vpTypes3))], v.rng.Intn(2) == 0
			if v.rng.Intn(30) == 0 {
				typ = "STREAM"
			}
			var sec zmq4.Security = null.Security()
			mech := "NULL"
			if v.rng.Intn(3) == 0 {
				sec, mech = plain.Security("usr", "pass"), "PLAIN"
			}
			b := vpHostileHandshake(v, mech, typ, server)
			b = append(b, vpHostileFrames(v, 6)...)
			in := append([]byte(nil), b...)
			what := fmt.Sprintf("%s %s server=%v, input %x", typ, mech, server, in)
			f := &vpFeed{b: b}
			before := vpAllocated()
			func() {
				defer func() {
					if r := recover(); r != nil {
						v.Fail("panic %q: %s", fmt.Sprint(r), what)
					}
				}()
				c, err := zmq4.Open(f, sec, zmq4.SocketType(typ), zmq4.SocketIdentity("id"), server, nil)
				if err != nil {
					return
				}
				for k := 0; k < 40; k++ {
					var err error
					if v.rng.Intn(4) == 0 {
						_, err = c.RecvCmd()
					} else {
						_, err = c.RecvMsg()
					}
					if err != nil && (len(f.b) == 0 || c.Closed()) {
						return
					}
				}
			}()
			if d := vpAllocated() - before; d > 6<<20+uint64(64*len(in)) {
				v.Fail("%d bytes received made it allocate %d bytes: %s", f.got, d, what)
			}
			v.Count(1)
		}
	})
}

// TestVPHostileSizes: the size in a header does not make it allocate that much.
func TestVPHostileSizes(t *testing.T) {
	vpRunFor(t, "hostile sizes", 100*time.Second, func(v *vpT) {
		for _, n := range vpHugeSizes {
			for _, part := range []uint64{0, 1, 100, 5000, 1 << 20, 3<<20 + 7} {
				if part > n {
					continue
				}
				for _, first := range []int{0, 1, 3} { // frames before it
					for _, flags := range []byte{0, 1, 4} {
						for _, mech := range []string{"NULL", "PLAIN"} {
							if mech == "PLAIN" && part > 5000 {
								continue
							}
							var sec zmq4.Security = null.Security()
							b := vpGreet(mech, 0)
							if mech == "NULL" {
								b = append(b, vpCmd("READY", vpProp("Socket-Type", "PAIR"))...)
							} else {
								sec = plain.Security("u", "p")
								b = append(b, vpCmd("WELCOME", nil)...)
								b = append(b, vpCmd("READY", vpProp("Socket-Type", "PAIR"))...)
							}
							for k := 0; k < first; k++ {
								b = append(b, vpFrame([]byte("x"), true, false)...)
							}
							b = append(b, vpLongHeader(flags, n)...)
							b = append(b, make([]byte, part)...)
							f := &vpFeed{b: b}
							what := fmt.Sprintf("a header of %d bytes (flags %d) after %d frames of %s, followed by %d", n, flags, first, mech, part)
							c, err := zmq4.Open(f, sec, zmq4.Pair, nil, false, nil)
							if err != nil {
								v.Fail("%s: handshake: %v", what, err)
							}
							before := vpAllocated()
							var m zmq4.Msg
							func() {
								defer func() {
									if r := recover(); r != nil {
										v.Fail("panic %q: %s", fmt.Sprint(r), what)
									}
								}()
								m, err = c.RecvMsg()
							}()
							if d := vpAllocated() - before; d > 4<<20+10*part {
								v.Fail("%s: allocated %d bytes", what, d)
							}
							if n > part && err == nil {
								v.Fail("%s: accepted as a message of %d frames", what, len(m.Frames))
							}
							v.Count(1)
						}
					}
				}
			}
		}
	})
}

// TestVPHostileSockets: peers of a socket of every type, connecting and
// connected to, send what they like.
func TestVPHostileSockets(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	mk := map[string]func() zmq4.Socket{
		"PAIR": func() zmq4.Socket { return zmq4.NewPair(ctx) }, "PUB": func() zmq4.Socket { return zmq4.NewPub(ctx) },
		"SUB": func() zmq4.Socket { return zmq4.NewSub(ctx) }, "REQ": func() zmq4.Socket { return zmq4.NewReq(ctx) },
		"REP": func() zmq4.Socket { return zmq4.NewRep(ctx) }, "DEALER": func() zmq4.Socket { return zmq4.NewDealer(ctx) },
		"ROUTER": func() zmq4.Socket { return zmq4.NewRouter(ctx) }, "PULL": func() zmq4.Socket { return zmq4.NewPull(ctx) },
		"PUSH": func() zmq4.Socket { return zmq4.NewPush(ctx) }, "XPUB": func() zmq4.Socket { return zmq4.NewXPub(ctx) },
		"XSUB": func() zmq4.Socket { return zmq4.NewXSub(ctx) },
	}
	for _, typ := range vpTypes3 {
		typ := typ
		vpRunFor(t, typ+"-socket", 60*time.Second, func(v *vpT) {
			for round := 0; round < vpN(8); round++ {
				s := mk[typ]()
				name := vpName()
				if err := s.Listen("vp://" + name); err != nil {
					v.Fail("listen: %v", err)
				}
				if typ == "SUB" {
					s.SetOption(zmq4.OptionSubscribe, "")
				}
				stop := make(chan struct{})
				var wg sync.WaitGroup
				use := func(f func()) {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for {
							select {
							case <-stop:
								return
							default:
								f()
							}
						}
					}()
				}
				recv := func() {
					m, err := s.Recv()
					if err != nil {
						time.Sleep(time.Millisecond)
						return
					}
					if typ == "REP" || typ == "ROUTER" || typ == "XPUB" {
						s.Send(m)
					}
				}
				send := func() {
					s.SendMulti(zmq4.NewMsgFrom([]byte("id"), []byte("x")))
					time.Sleep(200 * time.Microsecond)
				}
				switch typ {
				case "PUB", "PUSH":
					use(send)
				case "REQ":
					use(func() { send(); recv() })
				case "SUB", "PULL", "REP", "ROUTER":
					use(recv)
				default:
					use(recv)
					use(send)
				}
				var ps []*vpConn
				for i := 0; i < 30; i++ {
					c, err := vpDialName(name)
					if err != nil {
						v.Fail("dial: %v", err)
					}
					if v.rng.Intn(2) == 0 {
						c.w.chunk = v.rng
						c.w.chunk = nil
					}
					ps = append(ps, c)
					if v.rng.Intn(3) == 0 {
						c.Write(vpHostileHandshake(v, "NULL", typ, true))
					} else {
						id := [][]byte{nil, []byte("id"), {0, 1, 2, 3, 4}, vpBytes(v.rng, v.rng.Intn(256))}[v.rng.Intn(4)]
						c.Write(vpGreet("NULL", 0))
						c.Write(vpCmd("READY", append(vpProp("Socket-Type", peerOf(typ)), vpProp("Identity", string(id))...)))
						if v.rng.Intn(2) == 0 {
							time.Sleep(time.Duration(v.rng.Intn(1500)) * time.Microsecond)
						}
					}
					for k := v.rng.Intn(4); k >= 0; k-- {
						c.Write(vpHostileFrames(v, 5))
					}
					if v.rng.Intn(3) == 0 {
						c.Close()
					}
					v.Count(1)
				}
				// a listener that answers a dialling socket with garbage
				l, err := vpListenName(vpName())
				if err != nil {
					v.Fail("listen: %v", err)
				}
				go func() {
					for {
						c, err := l.Accept()
						if err != nil {
							return
						}
						go io.Copy(io.Discard, c)
					}
				}()
				go func(in [][]byte) {
					for _, b := range in {
						select {
						case c := <-l.ch:
							c.Write(b)
							c.Close()
						case <-l.done:
							return
						}
					}
				}([][]byte{vpHostileHandshake(v, "NULL", typ, false), vpHostileHandshake(v, "NULL", typ, false)})
				done := make(chan struct{})
				d := mk[typ]()
				go func() { defer close(done); d.Dial("vp://" + l.name) }()
				time.Sleep(15 * time.Millisecond)
				for _, p := range ps {
					p.Close()
				}
				l.Close()
				close(stop)
				v.Within(20*time.Second, "Close", func() { s.Close(); d.Close() })
				_ = done
			}
		})
	}
}
