package zmq4_test

import (
	"context"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
)

// vpTable is RFC 23's table of socket combinations, with STREAM only to STREAM.
var vpTable = map[string]string{
	"PAIR": " PAIR ", "PUB": " SUB XSUB ", "SUB": " PUB XPUB ", "REQ": " REP ROUTER ", "REP": " REQ DEALER ",
	"DEALER": " REP DEALER ROUTER ", "ROUTER": " REQ DEALER ROUTER ", "PULL": " PUSH ", "PUSH": " PULL ",
	"XPUB": " SUB XSUB ", "XSUB": " PUB XPUB ", "STREAM": " STREAM ",
}

func vpCompatible(a, b string) bool {
	s, ok := vpTable[a]
	if !ok || b == "" {
		return false
	}
	for i := 0; i+len(b)+2 <= len(s); i++ {
		if s[i:i+len(b)+2] == " "+b+" " {
			return true
		}
	}
	return false
}

var vpTypes = []string{"PAIR", "PUB", "SUB", "REQ", "REP", "DEALER", "ROUTER", "PULL", "PUSH", "XPUB", "XSUB", "STREAM"}

func TestVPTypes(t *testing.T) {
	others := []string{"", "pair", "Pub", "SUBX", "X", "SUB ", "XXSUB", "SERVER", "RADIO", "\x00", "PAIR\x00", "REQREP", "P"}
	vpRun(t, "table", func(v *vpT) {
		all := append(append([]string{}, vpTypes...), others...)
		for _, a := range all {
			for _, b := range all {
				got := zmq4.SocketType(a).IsCompatible(zmq4.SocketType(b))
				if got != vpCompatible(a, b) {
					v.Fail("SocketType(%q).IsCompatible(%q) is %v, want %v", a, b, got, !got)
				}
				if got != zmq4.SocketType(b).IsCompatible(zmq4.SocketType(a)) {
					v.Fail("compatibility of %q and %q is not symmetric", a, b)
				}
				v.Count(1)
			}
		}
	})
	vpRun(t, "opening", func(v *vpT) {
		for _, mine := range vpTypes {
			if mine == "STREAM" {
				continue // no handshake
			}
			for _, server := range []bool{false, true} {
				for _, mech := range []string{"NULL", "PLAIN"} {
					all := append(append([]string{}, vpTypes...), others...)
					all = append(all, "(none)", "(identity only)", "(unknown name)")
					for _, peer := range all {
						props := append(vpProp("Socket-Type", peer), vpProp("Identity", "p")...)
						switch peer {
						case "(none)":
							props = nil
						case "(identity only)":
							props = vpProp("Identity", mine)
						case "(unknown name)":
							props = vpProp("X-Socket-Type", peerOf(mine))
						}
						if v.rng.Intn(2) == 0 {
							props = append(vpProp("X-App", "REQ"), props...)
						}
						a, b := vpPair()
						b.Write(vpGreet(mech, 0))
						var sec zmq4.Security = null.Security()
						switch {
						case mech == "NULL":
							b.Write(vpCmd("READY", props))
						case server:
							sec = plain.Security("u", "p")
							b.Write(vpCmd("HELLO", []byte("\x01u\x01p")))
							b.Write(vpCmd("INITIATE", props))
						default:
							sec = plain.Security("u", "p")
							b.Write(vpCmd("WELCOME", nil))
							b.Write(vpCmd("READY", props))
						}
						b.w.closeWrite()
						c, err := zmq4.Open(a, sec, zmq4.SocketType(mine), nil, server, nil)
						want := vpCompatible(mine, peer)
						v.Count(1)
						if want != (err == nil) {
							v.Fail("own type %s, peer announces type %q (%s, server=%v): opened=%v (%v), want %v", mine, peer, mech, server, err == nil, err, want)
						}
						if err == nil && c.Peer.Meta["Socket-Type"] != peer {
							v.Fail("peer type is kept as %q, it announced %q", c.Peer.Meta["Socket-Type"], peer)
						}
					}
				}
			}
		}
	})
	// socket to socket, over a listener and a dialler
	vpRun(t, "sockets", func(v *vpT) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		mk := map[string]func() zmq4.Socket{
			"PAIR": func() zmq4.Socket { return zmq4.NewPair(ctx, zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(time.Millisecond)) },
			"PUB":  func() zmq4.Socket { return zmq4.NewPub(ctx, zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(time.Millisecond)) },
			"SUB":  func() zmq4.Socket { return zmq4.NewSub(ctx, zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(time.Millisecond)) },
			"REQ":  func() zmq4.Socket { return zmq4.NewReq(ctx, zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(time.Millisecond)) },
			"REP":  func() zmq4.Socket { return zmq4.NewRep(ctx, zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(time.Millisecond)) },
			"DEALER": func() zmq4.Socket {
				return zmq4.NewDealer(ctx, zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(time.Millisecond))
			},
			"ROUTER": func() zmq4.Socket {
				return zmq4.NewRouter(ctx, zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(time.Millisecond))
			},
			"PULL": func() zmq4.Socket { return zmq4.NewPull(ctx, zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(time.Millisecond)) },
			"PUSH": func() zmq4.Socket { return zmq4.NewPush(ctx, zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(time.Millisecond)) },
			"XPUB": func() zmq4.Socket { return zmq4.NewXPub(ctx, zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(time.Millisecond)) },
			"XSUB": func() zmq4.Socket { return zmq4.NewXSub(ctx, zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(time.Millisecond)) },
		}
		for _, a := range vpTypes {
			for _, b := range vpTypes {
				if mk[a] == nil || mk[b] == nil {
					continue
				}
				sa, sb := mk[a](), mk[b]()
				ep := "vp://" + vpName()
				if err := sa.Listen(ep); err != nil {
					v.Fail("%s cannot listen: %v", a, err)
				}
				err := sb.Dial(ep)
				if want := vpCompatible(a, b); want != (err == nil) {
					v.Fail("a %s socket dials a %s socket: connected=%v (%v), want %v", b, a, err == nil, err, want)
				}
				sa.Close()
				sb.Close()
				v.Count(1)
			}
		}
	})
}
