package zmq4_test

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
)

const vpFence = "\xfe\xfe|fence|" // every subscriber holds it

type vpSub struct {
	*vpPeer
	name   string
	topics map[string]bool
	want   [][][]byte
}

type vpPubWorld struct {
	v    *vpT
	s    zmq4.Socket
	ep   string
	subs []*vpSub
	n    int
	log  []string
}

func vpNewPubWorld(v *vpT, xpub bool) *vpPubWorld {
	w := &vpPubWorld{v: v}
	if xpub {
		w.s = zmq4.NewXPub(vpCtx)
	} else {
		w.s = zmq4.NewPub(vpCtx)
	}
	w.ep = vpListen(v, w.s)
	return w
}

func (w *vpPubWorld) note(f string, a ...any) { w.log = append(w.log, fmt.Sprintf(f, a...)) }
func (w *vpPubWorld) history() string {
	l := w.log
	if len(l) > 25 {
		l = l[len(l)-25:]
	}
	return strings.Join(l, "; ")
}

func (w *vpPubWorld) union() []string {
	m := map[string]bool{}
	for _, s := range w.subs {
		for t := range s.topics {
			m[t] = true
		}
	}
	u := []string{}
	for t := range m {
		u = append(u, t)
	}
	sort.Strings(u)
	return u
}

// settle waits until the publisher's topic list is the model's.
func (w *vpPubWorld) settle() {
	var got []string
	want := w.union()
	if !vpEventually(5*time.Second, func() bool {
		got = w.s.(zmq4.Topics).Topics()
		if len(got) != len(want) {
			return false
		}
		for i := range got {
			if got[i] != want[i] {
				return false
			}
		}
		return true
	}) {
		w.v.Fail("after %s: Topics() is %q, the connected subscribers hold %q", w.history(), got, want)
	}
}

func (w *vpPubWorld) join() *vpSub {
	s := &vpSub{name: fmt.Sprintf("s%d", w.n), topics: map[string]bool{}}
	w.n++
	s.vpPeer = vpConnect(w.v, w.ep, []string{"SUB", "XSUB"}[w.n%2], "")
	w.subs = append(w.subs, s)
	w.note("%s joins", s.name)
	w.ctl(s, true, vpFence)
	return s
}

// ctl makes s subscribe or unsubscribe and waits until the publisher has seen it.
func (w *vpPubWorld) ctl(s *vpSub, on bool, topic string) {
	b := byte(0)
	if on {
		b = 1
		s.topics[topic] = true
		w.note("%s +%q", s.name, topic)
	} else {
		delete(s.topics, topic)
		w.note("%s -%q", s.name, topic)
	}
	s.send(append([]byte{b}, topic...))
	w.sync(s)
}

// sync waits until everything s has sent was seen.
func (w *vpPubWorld) sync(s *vpSub) {
	mark := "\xff" + s.name
	s.send([]byte("\x01" + mark))
	s.topics[mark] = true
	w.settle()
	s.send([]byte("\x00" + mark))
	delete(s.topics, mark)
	w.settle()
}

func (w *vpPubWorld) leave(i int) {
	w.note("%s leaves", w.subs[i].name)
	w.subs[i].Close()
	w.subs = append(w.subs[:i:i], w.subs[i+1:]...)
	w.settle()
}

func (w *vpPubWorld) publish(fs [][]byte, multi bool) {
	w.note("publish %s", vpShow(fs))
	send := w.s.Send
	if multi {
		send = w.s.SendMulti
	}
	keep := vpCopy12(fs)
	w.v.Within(5*time.Second, "publish", func() {
		if err := send(zmq4.NewMsgFrom(fs...)); err != nil {
			w.v.Fail("after %s: %v", w.history(), err)
		}
	})
	if !vpSame(fs, keep) {
		w.v.Fail("publishing changed the caller's frames")
	}
	for _, s := range w.subs {
		for t := range s.topics {
			if bytes.HasPrefix(fs[0], []byte(t)) {
				s.want = append(s.want, keep)
				break
			}
		}
	}
}

func vpCopy12(fs [][]byte) (c [][]byte) {
	for _, f := range fs {
		c = append(c, append([]byte{}, f...))
	}
	return
}

// collect compares what every subscriber got since the last time with the model.
func (w *vpPubWorld) collect() {
	w.publish([][]byte{[]byte(vpFence)}, false)
	for _, s := range w.subs {
		for i, m := range s.want {
			fs, raw, err := s.msg(5 * time.Second)
			if err != nil {
				w.v.Fail("after %s: subscriber %s with topics %q: message %s did not arrive (%v)", w.history(), s.name, vpKeys(s.topics), vpShow(m), err)
			}
			if !vpSame(fs, m) {
				w.v.Fail("after %s: subscriber %s with topics %q: message %d is %s, want %s", w.history(), s.name, vpKeys(s.topics), i, vpShow(fs), vpShow(m))
			}
			if !bytes.Equal(raw, vpWire(m...)) {
				w.v.Fail("after %s: subscriber %s: wire bytes %s of %s", w.history(), s.name, vpShort(raw), vpShow(m))
			}
		}
		s.want = nil
		if b := s.take(); len(b) != 0 {
			w.v.Fail("after %s: subscriber %s with topics %q got %s it must not get", w.history(), s.name, vpKeys(s.topics), vpShort(b))
		}
	}
	w.v.Count(1)
}

func vpKeys(m map[string]bool) (k []string) {
	for t := range m {
		k = append(k, t)
	}
	sort.Strings(k)
	return
}

var vpTopics = []string{"", "a", "ab", "abc", "abcd", "b", "ba", "A", "AB", "\x00", "\x01", "\x00a", "\x01a", "a\x00", "a\x00b", "\xff", "é", "weather.paris", "weather.", "weather"}

func (w *vpPubWorld) message() [][]byte {
	v := w.v
	var first []byte
	switch v.rng.Intn(6) {
	case 0:
		first = []byte{}
	case 1:
		first = vpBytes(v.rng, vpSizes[v.rng.Intn(20)])
	case 2:
		first = append([]byte(vpTopics[v.rng.Intn(len(vpTopics))]), vpBytes(v.rng, 300)...)
	default:
		first = []byte(vpTopics[v.rng.Intn(len(vpTopics))] + []string{"", "b", "bcd", "\x00", "!"}[v.rng.Intn(5)])
	}
	fs := [][]byte{first}
	for i := v.rng.Intn(4); i > 0; i-- {
		fs = append(fs, []byte(vpTopics[v.rng.Intn(len(vpTopics))]))
	}
	return fs
}

// Histories of subscriptions, publications, joins and leaves against a model.
func TestVPPubHistory(t *testing.T) {
	vpRun(t, "pub-history", func(v *vpT) {
		for round := 0; round < vpN(6); round++ {
			w := vpNewPubWorld(v, round%2 == 1)
			w.join()
			for step := 0; step < vpN(60); step++ {
				switch k := v.rng.Intn(12); {
				case k == 0 && len(w.subs) < 5:
					w.join()
				case k == 1 && len(w.subs) > 1:
					w.collect()
					w.leave(v.rng.Intn(len(w.subs)))
				case k < 5:
					w.collect() // a queued message is filtered when it is taken off the queue
					s := w.subs[v.rng.Intn(len(w.subs))]
					t := vpTopics[v.rng.Intn(len(vpTopics))]
					if k == 4 {
						for _, held := range vpKeys(s.topics) {
							if held != vpFence {
								t = held
								break
							}
						}
					}
					w.ctl(s, k < 4, t)
				default:
					w.publish(w.message(), k%2 == 0)
				}
			}
			w.collect()
			w.s.Close()
		}
	})
}

// Every pair of held topic and message over a small alphabet.
func TestVPPubPrefixes(t *testing.T) {
	vpRun(t, "pub-prefixes", func(v *vpT) {
		var words []string
		for _, a := range []string{"", "a", "b", "\x00"} {
			for _, b := range []string{"", "a", "b"} {
				for _, c := range []string{"", "a"} {
					words = append(words, a+b+c)
				}
			}
		}
		for xpub := 0; xpub < 2; xpub++ {
			w := vpNewPubWorld(v, xpub == 1)
			s := w.join()
			for _, topic := range words {
				w.ctl(s, true, topic)
				for _, m := range words {
					w.publish([][]byte{[]byte(m), []byte("body")}, true)
				}
				w.collect()
				w.ctl(s, false, topic)
			}
			w.s.Close()
		}
	})
}

// Only a frame that is alone and starts with 0 or 1 is a subscription, and
// what is not one does not disturb the publisher.
func TestVPPubNotSubscriptions(t *testing.T) {
	vpRun(t, "pub-not-subscriptions", func(v *vpT) {
		for xpub := 0; xpub < 2; xpub++ {
			w := vpNewPubWorld(v, xpub == 1)
			s, other := w.join(), w.join()
			w.ctl(s, true, "a")
			var sent [][][]byte
			for i := 0; i < 9; i++ {
				fs := [][][]byte{{{}}, {{2}}, {{2, 'b'}}, {[]byte("b")}, {{1, 'b'}, {}}, {{1, 'b'}, {1, 'c'}}, {{0, 'a'}, []byte("x")}, {{}, {1, 'b'}}, {{255}}}[i]
				s.send(fs...)
				sent = append(sent, fs)
				w.note("%s sends %s", s.name, vpShow(fs))
			}
			w.sync(s)
			for _, f := range []string{"a", "b", "c", "x", ""} {
				w.publish([][]byte{[]byte(f)}, false)
			}
			w.collect()
			if xpub == 1 {
				for i, fs := range sent {
					m, err := v.recv(w.s, "what a subscriber sent besides subscriptions")
					if err != nil || !vpSame(m.Frames, fs) {
						v.Fail("XPUB received %s (error %v) for message %d, the subscriber sent %s", vpShow(m.Frames), err, i, vpShow(fs))
					}
				}
			} else {
				for i := 0; i < 60; i++ {
					s.send([]byte("junk"))
					other.send([]byte{9}, []byte{1})
				}
			}
			w.note("%d messages that are not subscriptions", 60)
			w.sync(s)
			w.ctl(other, true, "zz")
			w.ctl(s, false, "a")
			w.publish([][]byte{[]byte("a")}, false)
			w.publish([][]byte{[]byte("zzz")}, false)
			w.collect()
			w.s.Close()
		}
	})
}

// The same when the publisher dials its subscribers.
func TestVPPubDials(t *testing.T) {
	vpRun(t, "pub-dials", func(v *vpT) {
		for round := 0; round < 4; round++ {
			w := vpNewPubWorld(v, round%2 == 1)
			for i := 0; i < 3; i++ {
				p, _, _ := vpDialedBy(v, w.s, []string{"SUB", "XSUB"}[i%2], "")
				s := &vpSub{vpPeer: p, name: fmt.Sprintf("d%d", i), topics: map[string]bool{}}
				w.subs = append(w.subs, s)
				w.ctl(s, true, vpFence)
				w.ctl(s, true, []string{"a", "ab", ""}[i])
			}
			for i := 0; i < vpN(30); i++ {
				w.publish(w.message(), false)
			}
			w.collect()
			w.s.Close()
		}
	})
}

// A slow subscriber loses messages beyond the high-water mark, never their
// order, and does not slow down the others.
func TestVPPubSlow(t *testing.T) {
	vpRun(t, "pub-slow", func(v *vpT) {
		for round := 0; round < 6; round++ {
			w := vpNewPubWorld(v, false)
			hwm := []int{1, 2, 5, 20, 100, 3}[round]
			if err := w.s.SetOption(zmq4.OptionHWM, hwm); err != nil {
				v.Fail("a high-water mark of %d was refused: %v", hwm, err)
			}
			slow := w.join()
			fast := w.join()
			w.collect()
			w.ctl(slow, true, "m")
			w.ctl(fast, true, "m")
			slow.r.setGate(true)
			total := hwm + 30
			for i := 0; i < total; i++ {
				v.Within(5*time.Second, "publishing while a subscriber does not read", func() {
					w.s.Send(zmq4.NewMsgFrom([]byte("m"), []byte(fmt.Sprint(i))))
				})
				fs, _, err := fast.msg(5 * time.Second)
				if err != nil || !vpSame(fs, [][]byte{[]byte("m"), []byte(fmt.Sprint(i))}) {
					v.Fail("high-water mark %d: the reading subscriber got %s (%v) for message %d", hwm, vpShow(fs), err, i)
				}
				if i == 0 {
					time.Sleep(20 * time.Millisecond)
				}
			}
			slow.r.setGate(false)
			last, n := -1, 0
			for {
				fs, _, err := slow.msg(300 * time.Millisecond)
				if err != nil {
					break
				}
				k := -1
				if len(fs) == 2 && string(fs[0]) == "m" {
					fmt.Sscan(string(fs[1]), &k)
				}
				if k <= last || k >= total {
					v.Fail("high-water mark %d: message %s after message %d", hwm, vpShow(fs), last)
				}
				if n < hwm && k != n {
					v.Fail("high-water mark %d: the %dth message to arrive is %d, although only %d can be waiting", hwm, n, k, n)
				}
				last = k
				n++
			}
			if n < hwm {
				v.Fail("high-water mark %d: only %d of %d messages reached a subscriber that did not read for a while", hwm, n, total)
			}
			w.s.Close()
			v.Count(total)
		}
	})
}

// Publishers and subscribers act at the same time: what arrives is in order,
// and nothing arrives that no held topic matches.
func TestVPPubConcurrent(t *testing.T) {
	vpRun(t, "pub-concurrent", func(v *vpT) {
		for round := 0; round < vpN(3); round++ {
			w := vpNewPubWorld(v, round%2 == 1)
			stop := make(chan struct{})
			var wg sync.WaitGroup
			for p := 0; p < 2; p++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; ; i++ {
						select {
						case <-stop:
							return
						default:
						}
						w.s.Send(zmq4.NewMsgFrom([]byte(fmt.Sprintf("t%d", i%3)), []byte{byte(p)}, []byte(fmt.Sprint(i))))
						if i%16 == 0 {
							time.Sleep(time.Millisecond)
						}
					}
				}()
			}
			for j := 0; j < 4; j++ {
				p := vpConnect(v, w.ep, "SUB", "")
				topic := fmt.Sprintf("t%d", j%3)
				// other topics come and go all the while
				for i := 0; i < 100; i++ {
					p.send([]byte(fmt.Sprintf("\x01other%d", i)))
				}
				gone := make(chan struct{})
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 20000; i++ {
						select {
						case <-gone:
							return
						default:
						}
						p.send([]byte(fmt.Sprintf("%cother%d", i%2, i%97)))
					}
				}()
				p.send([]byte("\x01" + topic))
				last := map[byte]int{}
				for i := 0; i < 60; i++ {
					fs, _, err := p.msg(5 * time.Second)
					if err != nil || len(fs) != 3 || len(fs[1]) != 1 {
						v.Fail("subscriber of %q got %s (%v)", topic, vpShow(fs), err)
					}
					if string(fs[0]) != topic {
						v.Fail("subscriber of %q got a message of %q", topic, fs[0])
					}
					n := 0
					fmt.Sscan(string(fs[2]), &n)
					if l, ok := last[fs[1][0]]; ok && n <= l {
						v.Fail("subscriber of %q got message %d of publisher %d after message %d", topic, n, fs[1][0], l)
					}
					last[fs[1][0]] = n
				}
				close(gone)
				p.Close()
				v.Count(60)
			}
			close(stop)
			v.Within(5*time.Second, "publishers stop", wg.Wait)
			w.s.Close()
		}
	})
}
