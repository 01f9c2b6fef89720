package inproc

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

var vpAddrN int64

func vpAddr() string { return fmt.Sprintf("inproc://vp-%d", atomic.AddInt64(&vpAddrN, 1)) }

// vpPair is the two ends of one connection.
func vpPair(v *vpT) (net.Conn, net.Conn) {
	addr := vpAddr()
	l, err := Listen(addr)
	if err != nil {
		v.Fail("Listen(%q): %v", addr, err)
	}
	var a, b net.Conn
	v.Within(5*time.Second, "Accept and Dial", func() {
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			b, err = Dial(addr)
		}()
		var e error
		a, e = l.Accept()
		wg.Wait()
		if e != nil || err != nil {
			v.Fail("Accept: %v, Dial: %v", e, err)
		}
	})
	if v.rng.Intn(2) == 0 {
		a, b = b, a
	}
	if err := l.Close(); err != nil {
		v.Fail("listener Close: %v", err)
	}
	return a, b
}

func vpSize(v *vpT) int {
	switch v.rng.Intn(5) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return vpSizes[v.rng.Intn(len(vpSizes))]
	}
	return v.rng.Intn(40)
}

// vpWriteAll writes chunks of the given sizes out of one reused buffer.
func vpWriteAll(w net.Conn, data []byte, sizes []int) string {
	buf := make([]byte, 1<<17)
	for i, n := range sizes {
		copy(buf, data[:n])
		m, err := w.Write(buf[:n])
		for j := range buf[:n] {
			buf[j] ^= 0xff
		}
		if err != nil || m != n {
			return fmt.Sprintf("write %d of %d bytes returned %d, %v", i, n, m, err)
		}
		data = data[n:]
	}
	return ""
}

// vpReadTo reads with the given buffer sizes until the error, checking each result.
func vpReadTo(r net.Conn, want []byte, sizes func() int) (string, error) {
	got := 0
	buf := make([]byte, 1<<17)
	for {
		n := sizes()
		for j := range buf[:n] {
			buf[j] = 0xa5
		}
		m, err := r.Read(buf[:n])
		if m < 0 || m > n {
			return fmt.Sprintf("read into %d bytes returned %d", n, m), err
		}
		if err == nil && m == 0 && n > 0 {
			return "a read of 0 bytes without an error", err
		}
		if got+m > len(want) || !bytes.Equal(buf[:m], want[got:got+m]) {
			return fmt.Sprintf("at offset %d of %d a read returned %s", got, len(want), vpShort(buf[:m])), err
		}
		got += m
		if err != nil {
			if got != len(want) {
				return fmt.Sprintf("%v after %d of %d bytes", err, got, len(want)), err
			}
			return "", err
		}
	}
}

// Both directions at once, any sizes; then end of file.
func TestVPStream(t *testing.T) {
	vpRun(t, "inproc stream", func(v *vpT) {
		for c := 0; c < vpN(300); c++ {
			a, b := vpPair(v)
			type dir struct {
				data  []byte
				sizes []int
				rd    []int
			}
			var ds [2]dir
			for i := range ds {
				total := 0
				for k := v.rng.Intn(40); k >= 0; k-- {
					n := vpSize(v)
					ds[i].sizes = append(ds[i].sizes, n)
					total += n
				}
				ds[i].data = vpBytes(v.rng, total)
				for k := 0; k < 16; k++ {
					n := vpSize(v)
					if k%2 == 0 && n < 1000 {
						n += 700
					}
					ds[i].rd = append(ds[i].rd, n)
				}
			}
			msgs := make(chan string, 4)
			read := func(r net.Conn, d dir) {
				k := 0
				s, err := vpReadTo(&vpUntil{r, len(d.data)}, d.data, func() int { k++; return d.rd[k%len(d.rd)] })
				if s == "" && err != io.EOF {
					s = fmt.Sprint("reading: ", err)
				}
				msgs <- s
			}
			go func() { msgs <- vpWriteAll(a, ds[0].data, ds[0].sizes) }()
			go func() { msgs <- vpWriteAll(b, ds[1].data, ds[1].sizes) }()
			go read(b, ds[0])
			go read(a, ds[1])
			v.Within(10*time.Second, fmt.Sprintf("exchanging writes of %v and %v with reads of %v and %v", ds[0].sizes, ds[1].sizes, ds[0].rd, ds[1].rd), func() {
				for i := 0; i < 4; i++ {
					if s := <-msgs; s != "" {
						v.Fail("case %d: writes of %v and %v, reads of %v and %v: %s", c, ds[0].sizes, ds[1].sizes, ds[0].rd, ds[1].rd, s)
					}
				}
			})
			if v.bad {
				return
			}
			a.Close()
			b.Close()
			v.Count(1)
		}
	})
}

// vpUntil ends the stream after n bytes.
type vpUntil struct {
	net.Conn
	n int
}

func (u *vpUntil) Read(p []byte) (int, error) {
	if u.n == 0 {
		return 0, io.EOF
	}
	n, err := u.Conn.Read(p)
	u.n -= n
	return n, err
}

// What was written before the close is read, then io.EOF, again and again; writes fail.
func TestVPCloseDrains(t *testing.T) {
	vpRun(t, "inproc close drains", func(v *vpT) {
		for c := 0; c < vpN(1500); c++ {
			a, b := vpPair(v)
			var sizes []int
			total := 0
			for k := v.rng.Intn(6); k > 0; k-- {
				n := 1 + v.rng.Intn(30)
				sizes = append(sizes, n)
				total += n
			}
			data := vpBytes(v.rng, total)
			started := v.rng.Intn(2) == 0
			rd := 1 + v.rng.Intn(20)
			res := make(chan string, 1)
			start := func() {
				s, err := vpReadTo(b, data, func() int { return rd })
				if s == "" && err != io.EOF {
					s = fmt.Sprintf("the stream ends with %v, want io.EOF", err)
				}
				res <- s
			}
			desc := fmt.Sprintf("writes of %v then Close, reads of %d, reader started first: %v", sizes, rd, started)
			v.Within(5*time.Second, desc, func() {
				if started {
					go start()
				}
				if s := vpWriteAll(a, data, sizes); s != "" {
					v.Fail("%s: %s", desc, s)
				}
				if err := a.Close(); err != nil {
					v.Fail("%s: Close: %v", desc, err)
				}
				if !started {
					go start()
				}
				if s := <-res; s != "" {
					v.Fail("%s: %s", desc, s)
				}
				for i := 0; i < 2; i++ {
					if n, err := b.Read(make([]byte, 4)); n != 0 || err != io.EOF {
						v.Fail("%s: a read after the end returned %d, %v", desc, n, err)
					}
				}
				if n, err := b.Write([]byte("x")); n != 0 || err == nil {
					v.Fail("%s: a write to the closed end returned %d, %v", desc, n, err)
				}
				if n, err := a.Write([]byte("x")); n != 0 || err == nil {
					v.Fail("%s: a write after Close returned %d, %v", desc, n, err)
				}
				if n, err := a.Read(make([]byte, 4)); n != 0 || err == nil || err == io.EOF && false {
					v.Fail("%s: a read after Close returned %d, %v", desc, n, err)
				}
				if err := a.Close(); err != nil {
					v.Fail("%s: second Close: %v", desc, err)
				}
			})
			if v.bad {
				return
			}
			b.Close()
			v.Count(1)
		}
	})
}

// Blocked reads and writes return when either end closes.
func TestVPBlocked(t *testing.T) {
	vpRun(t, "inproc blocked calls return", func(v *vpT) {
		for c := 0; c < vpN(24); c++ {
			a, b := vpPair(v)
			desc := fmt.Sprintf("case %d: ", c)
			res := make(chan error, 1)
			reading, local := c&1 == 0, c&2 == 0
			if reading {
				desc += "blocked Read, "
				go func() {
					_, err := a.Read(make([]byte, 8))
					res <- err
				}()
			} else {
				desc += "blocked Write, "
				go func() {
					for {
						if _, err := a.Write([]byte("some bytes")); err != nil {
							res <- err
							return
						}
					}
				}()
			}
			time.Sleep(10 * time.Millisecond)
			select {
			case err := <-res:
				v.Fail("%sreturned early: %v", desc, err)
			default:
			}
			if local {
				desc += "this end closed"
				a.Close()
			} else {
				desc += "the other end closed"
				b.Close()
			}
			v.Within(5*time.Second, desc, func() {
				if err := <-res; err == nil {
					v.Fail("%s: no error", desc)
				}
			})
			a.Close()
			b.Close()
			v.Count(1)
		}
	})
}

// Deadlines end a blocked call with a timeout and cost no byte.
func TestVPDeadline(t *testing.T) {
	vpRun(t, "inproc deadlines", func(v *vpT) {
		timeout := func(what string, err error) {
			ne, ok := err.(net.Error)
			if !ok || !ne.Timeout() {
				v.Fail("%s: %v, want a timeout", what, err)
			}
		}
		for c := 0; c < vpN(30); c++ {
			a, b := vpPair(v)
			how := c % 3
			set := func(x net.Conn, t time.Time, read bool) {
				var err error
				switch {
				case how == 0:
					err = x.SetDeadline(t)
				case read:
					err = x.SetReadDeadline(t)
				default:
					err = x.SetWriteDeadline(t)
				}
				if err != nil {
					v.Fail("setting a deadline: %v", err)
				}
			}
			buf := make([]byte, 16)
			v.Within(5*time.Second, "deadlines", func() {
				set(b, time.Now().Add(time.Duration(v.rng.Intn(15))*time.Millisecond), true)
				_, err := b.Read(buf)
				timeout("a read with nothing to read", err)
				set(b, time.Now().Add(-time.Second), true)
				_, err = b.Read(buf)
				timeout("a read after the deadline", err)
				set(b, time.Time{}, true)
				if s := vpWriteAll(a, []byte("abcdef"), []int{3, 3}); s != "" {
					v.Fail("after a read timed out: %s", s)
				}
				for _, w := range []string{"ab", "c", "de", "f"} {
					n, err := b.Read(buf[:2])
					if err != nil || string(buf[:n]) != w {
						v.Fail("after a read timed out, reading %q by 2: %q, %v", "abcdef", buf[:n], err)
					}
				}
				set(a, time.Now().Add(time.Duration(5+v.rng.Intn(15))*time.Millisecond), false)
				sent := 0
				for {
					n, err := a.Write([]byte{byte(sent)})
					if err != nil {
						if n != 0 {
							v.Fail("a write that timed out reports %d bytes", n)
						}
						timeout("a write with no reader", err)
						break
					}
					sent++
					if sent > 1000000 {
						v.Fail("1000000 unread writes and no deadline")
					}
				}
				set(a, time.Time{}, false)
				go func() { a.Write([]byte{byte(sent)}) }()
				for i := 0; i <= sent; i++ {
					n, err := b.Read(buf[:1])
					if n != 1 || err != nil || buf[0] != byte(i) {
						v.Fail("after a write timed out: byte %d of %d is %d (%d, %v)", i, sent+1, buf[0], n, err)
					}
				}
			})
			if v.bad {
				return
			}
			a.Close()
			b.Close()
			v.Count(1)
		}
	})
}

// An address is announced once, dials pair with accepts, closing frees both.
func TestVPListen(t *testing.T) {
	vpRun(t, "inproc listeners", func(v *vpT) {
		for c := 0; c < vpN(60); c++ {
			addr := vpAddr()
			if conn, err := Dial(addr); err == nil || conn != nil {
				v.Fail("Dial(%q) with no listener: %v, %v", addr, conn, err)
			}
			l, err := Listen(addr)
			if err != nil {
				v.Fail("Listen(%q): %v", addr, err)
			}
			if _, err := Listen(addr); err == nil {
				v.Fail("a second Listen(%q) is accepted", addr)
			}
			k := 1 + v.rng.Intn(6)
			res := make(chan string, 2*k)
			for i := 0; i < k; i++ {
				i := i
				go func() { // dialer: sends its number, expects it back doubled
					conn, err := Dial(addr)
					if err != nil {
						res <- fmt.Sprint("Dial: ", err)
						return
					}
					conn.Write([]byte{byte(i)})
					b := make([]byte, 2)
					n, err := io.ReadFull(conn, b)
					if err != nil || b[0] != byte(i) || b[1] != byte(2*i) {
						res <- fmt.Sprintf("dialer %d hears %v (%d, %v)", i, b, n, err)
						return
					}
					res <- ""
				}()
				go func() {
					conn, err := l.Accept()
					if err != nil {
						res <- fmt.Sprint("Accept: ", err)
						return
					}
					b := make([]byte, 1)
					if _, err := conn.Read(b); err != nil {
						res <- fmt.Sprint("accepted end: ", err)
						return
					}
					_, err = conn.Write([]byte{b[0], 2 * b[0]})
					if err != nil {
						res <- fmt.Sprint("accepted end: ", err)
						return
					}
					res <- ""
				}()
			}
			v.Within(5*time.Second, fmt.Sprintf("%d dials and %d accepts on one listener", k, k), func() {
				for i := 0; i < 2*k; i++ {
					if s := <-res; s != "" {
						v.Fail("%d dials and %d accepts: %s", k, k, s)
					}
				}
			})
			if v.bad {
				return
			}
			// a dial that waits for an accept returns when the listener closes
			waiting := make(chan error, 3)
			for i := 0; i < 3; i++ {
				go func() {
					_, err := Dial(addr)
					waiting <- err
				}()
			}
			time.Sleep(3 * time.Millisecond)
			other, err := Listen(addr + "-other")
			if err != nil {
				v.Fail("Listen on another address: %v", err)
			}
			v.Within(5*time.Second, "a blocked Dial after the listener's Close", func() {
				if err := l.Close(); err != nil {
					v.Fail("listener Close: %v", err)
				}
				for i := 0; i < 3; i++ {
					if err := <-waiting; err == nil {
						v.Fail("a Dial nobody accepted succeeds when the listener closes")
					}
				}
			})
			if _, err := l.Accept(); err == nil {
				v.Fail("Accept on a closed listener succeeds")
			}
			if _, err := Dial(addr); err == nil {
				v.Fail("Dial succeeds after the listener's Close")
			}
			if l2, err := Listen(addr); err != nil {
				v.Fail("Listen(%q) again after Close: %v", addr, err)
			} else {
				l.Close() // closing the old one again leaves the new one alone
				if _, err := Listen(addr); err == nil {
					v.Fail("closing the old listener again took %q from the new one", addr)
				}
				l2.Close()
			}
			if _, err := Listen(addr + "-other"); err == nil {
				v.Fail("closing a listener freed another's address")
			}
			other.Close()
			v.Count(1)
		}
	})
}

// Transport hands on to the same names.
func TestVPTransport(t *testing.T) {
	vpRun(t, "inproc transport", func(v *vpT) {
		var tr Transport
		for c := 0; c < vpN(20); c++ {
			addr := vpAddr()
			got, err := tr.Addr(addr)
			if err != nil || got != addr {
				v.Fail("Addr(%q) = %q, %v", addr, got, err)
			}
			if _, err := tr.Dial(context.Background(), nil, addr); err == nil {
				v.Fail("Dial with no listener succeeds")
			}
			l, err := tr.Listen(context.Background(), addr)
			if err != nil {
				v.Fail("Listen: %v", err)
			}
			if s := l.Addr().String(); "inproc://"+s != addr {
				v.Fail("the listener of %q says %q", addr, s)
			}
			go l.Accept()
			v.Within(5*time.Second, "Dial", func() {
				conn, err := tr.Dial(context.Background(), nil, addr)
				if err != nil {
					v.Fail("Dial: %v", err)
				}
				conn.Close()
			})
			l.Close()
			v.Count(1)
		}
	})
}
