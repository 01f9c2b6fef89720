package zmq4_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
)

// An envelope: frames before the first empty one, none of them empty.
func vpEnvelope(r *rand.Rand) [][]byte {
	var e [][]byte
	for i := r.Intn(4); i > 0; i-- {
		e = append(e, vpBytes(r, 1+vpSizes[r.Intn(20)]))
	}
	return append(e, []byte{})
}

func vpBody(r *rand.Rand, min int) [][]byte {
	var e [][]byte
	for i := min + r.Intn(5); i > 0; i-- {
		if r.Intn(3) == 0 {
			e = append(e, []byte{})
		} else {
			e = append(e, vpBytes(r, vpSizes[r.Intn(20)]))
		}
	}
	return e
}

func vpCat(a, b [][]byte) [][]byte { return append(append([][]byte{}, a...), b...) }

func vpReply(v *vpT, rep zmq4.Socket, p *vpPeer, env, out [][]byte, multi bool, what string) {
	send := rep.Send
	if multi {
		send = rep.SendMulti
	}
	v.Within(8*time.Second, what, func() {
		if err := send(zmq4.NewMsgFrom(out...)); err != nil {
			v.Fail("%s: Send: %v", what, err)
		}
	})
	got, raw, err := p.msg(8 * time.Second)
	want := vpCat(env, out)
	if err != nil || !vpSame(got, want) || !bytes.Equal(raw, vpWire(want...)) {
		v.Fail("%s: the requester got %s (error %v), want %s", what, vpShow(got), err, vpShow(want))
	}
}

func TestVPRepOne(t *testing.T) {
	vpRun(t, "rep-one", func(v *vpT) {
		rep := zmq4.NewRep(vpCtx)
		defer rep.Close()
		ep := vpListen(v, rep)
		p := vpConnect(v, ep, "REQ", "")
		q := vpConnect(v, ep, "DEALER", "other")
		for i := 0; i < vpN(60); i++ {
			env, body, out := vpEnvelope(v.rng), vpBody(v.rng, 0), vpBody(v.rng, 1)
			p.send(vpCat(env, body)...)
			what := fmt.Sprintf("request %s", vpShow(vpCat(env, body)))
			m, err := v.recv(rep, what)
			if err != nil || !vpSame(m.Frames, body) {
				v.Fail("%s: Recv gave %s (error %v), want %s", what, vpShow(m.Frames), err, vpShow(body))
			}
			vpReply(v, rep, p, env, out, i%2 == 1, what)
			if !vpSame(m.Frames, body) {
				v.Fail("%s: after the reply %s the request received reads %s", what, vpShow(out), vpShow(m.Frames))
			}
			v.Count(1)
		}
		// every position of the delimiter in a list whose other frames may be empty
		for n := 1; n < 6; n++ {
			for mask := 0; mask < 1<<n; mask++ {
				var fs [][]byte
				d := -1
				for i := 0; i < n; i++ {
					f := []byte(fmt.Sprintf("f%d", i))
					if mask>>i&1 != 0 {
						f = []byte{}
						if d < 0 {
							d = i
						}
					}
					fs = append(fs, f)
				}
				what := fmt.Sprintf("request %s", vpShow(fs))
				p.send(fs...)
				m, err := v.recv(rep, what)
				if d < 0 {
					if err == nil {
						v.Fail("%s without a delimiter was delivered as %s", what, vpShow(m.Frames))
					}
					continue
				}
				if err != nil || !vpSame(m.Frames, fs[d+1:]) {
					v.Fail("%s: Recv gave %s (error %v), want %s", what, vpShow(m.Frames), err, vpShow(fs[d+1:]))
				}
				vpReply(v, rep, p, fs[:d+1], [][]byte{[]byte("answer"), {}, []byte("x")}, mask%2 == 1, what)
				v.Count(1)
			}
		}
		v.silent(q, 50*time.Millisecond, "replies to another peer")
	})
}

func TestVPRepMany(t *testing.T) {
	vpRun(t, "rep-many", func(v *vpT) {
		rep := zmq4.NewRep(vpCtx)
		defer rep.Close()
		ep := vpListen(v, rep)
		type req struct{ env, body [][]byte }
		peers := map[int]*vpPeer{}
		queue := map[int][]req{}
		next, pending := 0, 0
		join := func() { peers[next] = vpConnect(v, ep, "DEALER", []string{"", "same", fmt.Sprintf("p%d", next)}[next%3]); next++ }
		pick := func() int {
			k := v.rng.Intn(len(peers))
			for i := 0; i < next; i++ {
				if peers[i] != nil {
					if k == 0 {
						return i
					}
					k--
				}
			}
			return -1
		}
		for i := 0; i < 3; i++ {
			join()
		}
		for step := 0; step < vpN(150); step++ {
			switch n := v.rng.Intn(10); {
			case n < 5 && pending < 8:
				i := pick()
				env := vpEnvelope(v.rng)
				body := append([][]byte{[]byte(fmt.Sprintf("%d", i))}, vpBody(v.rng, 0)...)
				peers[i].send(vpCat(env, body)...)
				queue[i] = append(queue[i], req{env, body})
				pending++
			case pending > 0:
				m, err := v.recv(rep, "one of several requests")
				if err != nil || len(m.Frames) == 0 {
					v.Fail("Recv gave %s, error %v", vpShow(m.Frames), err)
				}
				var i int
				if _, e := fmt.Sscanf(string(m.Frames[0]), "%d", &i); e != nil || len(queue[i]) == 0 {
					v.Fail("Recv gave %s, which nobody sent", vpShow(m.Frames))
				}
				r := queue[i][0]
				queue[i] = queue[i][1:]
				pending--
				if !vpSame(m.Frames, r.body) {
					v.Fail("Recv gave %s, but the oldest request of peer %d is %s", vpShow(m.Frames), i, vpShow(r.body))
				}
				vpReply(v, rep, peers[i], r.env, vpBody(v.rng, 1), false, fmt.Sprintf("reply to peer %d of %d", i, len(peers)))
				v.Count(1)
			case next < 8:
				join()
			case len(peers) > 1:
				// one without requests outstanding leaves
				i := pick()
				if len(queue[i]) == 0 {
					peers[i].Close()
					delete(peers, i)
					time.Sleep(20 * time.Millisecond)
				}
			}
		}
		for i, p := range peers {
			if b := p.take(); len(b) != 0 {
				v.Fail("peer %d got %s beyond the replies to its requests", i, vpShort(b))
			}
		}
	})
}

// A reply to a peer that has left goes nowhere, and the next request is served.
func TestVPRepGone(t *testing.T) {
	vpRun(t, "rep-gone", func(v *vpT) {
		for round := 0; round < vpN(4); round++ {
			for leaver := 0; leaver < 3; leaver++ {
				rep := zmq4.NewRep(vpCtx)
				ep := vpListen(v, rep)
				var ps []*vpPeer
				for i := 0; i < 3; i++ {
					ps = append(ps, vpConnect(v, ep, "DEALER", fmt.Sprintf("p%d", i)))
				}
				ps[leaver].send([]byte("hop"), nil, []byte("question"))
				m, err := v.recv(rep, "the request")
				if err != nil || !vpSame(m.Frames, [][]byte{[]byte("question")}) {
					v.Fail("Recv gave %s, error %v", vpShow(m.Frames), err)
				}
				ps[leaver].Close()
				time.Sleep(60 * time.Millisecond)
				v.Within(8*time.Second, "reply to a peer that left", func() { rep.Send(zmq4.NewMsgString("late")) })
				for i, p := range ps {
					if i != leaver {
						v.silent(p, 20*time.Millisecond, "reply to a peer that left")
					}
				}
				other := (leaver + 1) % 3
				ps[other].send([]byte("hop2"), []byte("hop1"), nil, []byte("again"))
				m, err = v.recv(rep, "a request after a peer left")
				if err != nil || !vpSame(m.Frames, [][]byte{[]byte("again")}) {
					v.Fail("Recv gave %s, error %v", vpShow(m.Frames), err)
				}
				vpReply(v, rep, ps[other], [][]byte{[]byte("hop2"), []byte("hop1"), {}}, [][]byte{[]byte("yes")}, false, "reply after a peer left")
				rep.Close()
				v.Count(1)
			}
		}
	})
}

// Requests are waiting while replies are written: each reply still carries its own envelope.
func TestVPRepPipelined(t *testing.T) {
	vpRun(t, "rep-pipelined", func(v *vpT) {
		rep := zmq4.NewRep(vpCtx)
		defer rep.Close()
		ep := vpListen(v, rep)
		const peers = 3
		n := vpN(500)
		var ps []*vpPeer
		for i := 0; i < peers; i++ {
			p := vpConnect(v, ep, "DEALER", fmt.Sprintf("p%d", i))
			for k := 0; k < n; k++ {
				s := []byte(fmt.Sprintf("%d.%d", i, k))
				p.send(append(append([][]byte{[]byte("hop")}, bytes.Repeat([]byte("h"), k%7+1), s), nil, s)...)
			}
			ps = append(ps, p)
		}
		for i := 0; i < peers*n; i++ {
			m, err := v.recv(rep, "a pipelined request")
			if err != nil {
				v.Fail("Recv: %v", err)
			}
			v.Within(8*time.Second, "Send", func() { err = rep.Send(m) })
			if err != nil {
				v.Fail("Send: %v", err)
			}
		}
		for i, p := range ps {
			for k := 0; k < n; k++ {
				s := []byte(fmt.Sprintf("%d.%d", i, k))
				want := [][]byte{[]byte("hop"), bytes.Repeat([]byte("h"), k%7+1), s, {}, s}
				if got, _, err := p.msg(8 * time.Second); err != nil || !vpSame(got, want) {
					v.Fail("peer %d, pipelined request %d of %d: the reply is %s (error %v), want %s", i, k, n, vpShow(got), err, vpShow(want))
				}
				v.Count(1)
			}
		}
	})
}
