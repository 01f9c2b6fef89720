package transport_test

import (
	"context"
	"net"
	"testing"

	"github.com/luxfi/zmq/v4/transport"
)

type vpDialer struct{ network, address string }

func (d *vpDialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	d.network, d.address = network, address
	a, _ := net.Pipe()
	return a, nil
}

// Canonical addresses, from the host and port they were built of.
func TestVPCanonical(t *testing.T) {
	vpRun(t, "canonical addresses", func(v *vpT) {
		hosts := []string{"", "*", "0.0.0.0", "127.0.0.1", "localhost", "example.com", "**", "*a", "a*", "::", "::1", "fe80::1%eth0", " ", "0", "tcp", "-"}
		ports := []string{"", "*", "0", "5555", "00", "**", "http", "65536", "-1", "*1", " ", "1*"}
		for _, network := range []string{"tcp", "udp"} {
			tr := transport.New(network)
			for _, h := range hosts {
				for _, p := range ports {
					ep := net.JoinHostPort(h, p)
					wh, wp := h, p
					if h == "" || h == "*" {
						wh = "0.0.0.0"
					}
					if p == "" || p == "*" {
						wp = "0"
					}
					want := net.JoinHostPort(wh, wp)
					got, err := tr.Addr(ep)
					if err != nil || got != want {
						v.Fail("%s: Addr(%q) = %q, %v, want %q", network, ep, got, err, want)
					}
					if again, err := tr.Addr(got); err != nil || again != got {
						v.Fail("%s: Addr(%q) = %q, %v: not canonical", network, got, again, err)
					}
					v.Count(1)
				}
			}
			for _, ep := range []string{"", "host", "*", "1234", "a:b:c", "::1", "[::1]", "[::1", "::1]:5", "[a]:b:c"} {
				if got, err := tr.Addr(ep); err == nil {
					v.Fail("%s: Addr(%q) = %q, there is no host and port in it", network, ep, got)
				}
				v.Count(1)
			}
		}
		tr := transport.New("unix")
		for _, ep := range []string{"", "*", "*:*", "/tmp/x", "a:0", ":", "@abstract", "a b", "[::1]:5", "./x/../y"} {
			if got, err := tr.Addr(ep); err != nil || got != ep {
				v.Fail("unix: Addr(%q) = %q, %v", ep, got, err)
			}
			v.Count(1)
		}
		for _, network := range []string{"", "sctp", "TCP", "tcp ", "ipc"} {
			if got, err := transport.New(network).Addr("h:1"); err == nil {
				v.Fail("network %q: Addr gives %q", network, got)
			}
			v.Count(1)
		}
		for _, network := range []string{"tcp", "udp", "unix"} {
			for _, a := range []string{"127.0.0.1:1", "*:*", "", "x"} {
				d := &vpDialer{}
				transport.New(network).Dial(context.Background(), d, a)
				if d.network != network || d.address != a {
					v.Fail("%s: Dial(%q) dials %q %q", network, a, d.network, d.address)
				}
				v.Count(1)
			}
		}
		l, err := transport.New("tcp").Listen(context.Background(), "127.0.0.1:0")
		if err != nil {
			v.Fail("Listen: %v", err)
		}
		if l.Addr().Network() != "tcp" {
			v.Fail("a tcp transport listens on %v", l.Addr().Network())
		}
		l.Close()
	})
}
