package zmq4_test

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4"
)

var vpSubTopics = []string{"", "a", "ab", "abc", "b", "A", "\x00", "\x01", "\x00a", "a\x00", "\xff", "é", "weather", "weather.paris", strings.Repeat("x", 254), strings.Repeat("x", 255), strings.Repeat("y", 300)}

type vpSubWorld struct {
	v     *vpT
	s     zmq4.Socket
	ep    string
	held  map[string]bool
	peers []*vpPeer
	views []map[string]bool // what each publisher was told
	log   []string
}

func (w *vpSubWorld) history() string {
	l := w.log
	if len(l) > 25 {
		l = l[len(l)-25:]
	}
	return strings.Join(l, "; ")
}

func (w *vpSubWorld) list() []string {
	u := []string{}
	for t := range w.held {
		u = append(u, t)
	}
	sort.Strings(u)
	return u
}

func (w *vpSubWorld) checkTopics() {
	got, want := w.s.(zmq4.Topics).Topics(), w.list()
	if len(got) != len(want) {
		w.v.Fail("after %s: Topics() is %q, want %q", w.history(), got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			w.v.Fail("after %s: Topics() is %q, want %q", w.history(), got, want)
		}
	}
}

// told reads one announcement from publisher i.
func (w *vpSubWorld) told(i int, what string) (on bool, topic string) {
	fs, _, err := w.peers[i].msg(5 * time.Second)
	if err != nil {
		w.v.Fail("after %s: publisher %d was not told %s (%v)", w.history(), i, what, err)
	}
	if len(fs) != 1 || len(fs[0]) == 0 || fs[0][0] > 1 {
		w.v.Fail("after %s: publisher %d was told %s, that is not a subscription frame", w.history(), i, vpShow(fs))
	}
	on, topic = fs[0][0] == 1, string(fs[0][1:])
	if on {
		w.views[i][topic] = true
	} else {
		delete(w.views[i], topic)
	}
	return
}

func (w *vpSubWorld) change(on bool, topic string) {
	name, verb := zmq4.OptionUnsubscribe, "-"
	if on {
		name, verb = zmq4.OptionSubscribe, "+"
		w.held[topic] = true
	} else {
		delete(w.held, topic)
	}
	w.log = append(w.log, verb+vpShort([]byte(topic)))
	w.v.Within(8*time.Second, "SetOption", func() {
		if err := w.s.SetOption(name, topic); err != nil {
			w.v.Fail("after %s: %v", w.history(), err)
		}
	})
	w.checkTopics()
	for i := range w.peers {
		gon, gt := w.told(i, fmt.Sprintf("of %s%q", verb, topic))
		if gon != on || gt != topic {
			w.v.Fail("after %s: publisher %d was told %v %q, want %v %q", w.history(), i, gon, gt, on, topic)
		}
	}
	w.quiet()
	w.v.Count(1)
}

func (w *vpSubWorld) quiet() {
	for i, p := range w.peers {
		if b := p.take(); len(b) != 0 {
			w.v.Fail("after %s: publisher %d was sent %s that no change calls for", w.history(), i, vpShort(b))
		}
	}
}

// connect adds a publisher; it must be told every topic now held. (The topics
// are sent to the publishers that were there already as well, which changes nothing.)
func (w *vpSubWorld) connect(dial bool) {
	w.log = append(w.log, fmt.Sprintf("publisher %d connects", len(w.peers)))
	var p *vpPeer
	if dial {
		p, _, _ = vpDialedBy(w.v, w.s, []string{"PUB", "XPUB"}[len(w.peers)%2], "")
	} else {
		p = vpConnect(w.v, w.ep, []string{"PUB", "XPUB"}[len(w.peers)%2], "")
	}
	w.peers = append(w.peers, p)
	w.views = append(w.views, map[string]bool{})
	n := len(w.peers) - 1
	for len(w.views[n]) < len(w.held) {
		on, t := w.told(n, fmt.Sprintf("all of %q", w.list()))
		if !on || !w.held[t] {
			w.v.Fail("after %s: new publisher %d was told %v %q, held are %q", w.history(), n, on, t, w.list())
		}
	}
	time.Sleep(15 * time.Millisecond)
	for i, p := range w.peers {
		for len(vpPeek(p)) > 0 {
			w.told(i, "a whole message")
		}
		if !vpSameSet(w.views[i], w.held) {
			w.v.Fail("after %s: publisher %d believes %q, held are %q", w.history(), i, vpKeys13(w.views[i]), w.list())
		}
	}
	w.v.Count(1)
}

func vpPeek(p *vpPeer) []byte {
	p.r.mu.Lock()
	defer p.r.mu.Unlock()
	return append([]byte(nil), p.r.buf...)
}

func vpKeys13(m map[string]bool) (k []string) {
	for t := range m {
		k = append(k, t)
	}
	sort.Strings(k)
	return
}

func vpSameSet(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func vpNewSubWorld(v *vpT) *vpSubWorld {
	w := &vpSubWorld{v: v, s: zmq4.NewSub(vpCtx), held: map[string]bool{}}
	w.ep = vpListen(v, w.s)
	return w
}

// Histories of subscribe, unsubscribe and connect against a model.
func TestVPSubHistory(t *testing.T) {
	vpRun(t, "sub-history", func(v *vpT) {
		for round := 0; round < vpN(8); round++ {
			w := vpNewSubWorld(v)
			pool := vpSubTopics
			if round%2 == 0 {
				pool = pool[:5]
			}
			for step := 0; step < vpN(40); step++ {
				k := v.rng.Intn(10)
				if k == 0 && len(w.peers) < 5 {
					w.connect(v.rng.Intn(2) == 0)
					continue
				}
				w.change(k < 6, pool[v.rng.Intn(len(pool))])
			}
			w.connect(round%2 == 0)
			w.s.Close()
		}
	})
}

// What is not a subscription of a string is refused and changes nothing.
func TestVPSubRefused(t *testing.T) {
	vpRun(t, "sub-refused", func(v *vpT) {
		w := vpNewSubWorld(v)
		for round := 0; round < 2; round++ {
			w.change(true, "a")
			for i, o := range []struct {
				name  string
				value any
			}{
				{zmq4.OptionSubscribe, 1}, {zmq4.OptionSubscribe, []byte("x")}, {zmq4.OptionSubscribe, nil}, {zmq4.OptionUnsubscribe, []byte("a")},
				{zmq4.OptionUnsubscribe, nil}, {"subscribe", "x"}, {"", "x"}, {zmq4.OptionHWM, "x"}, {zmq4.OptionHWM, 3}, {"SUBSCRIBE ", "x"}, {"Unsubscribe", "a"},
			} {
				var err error
				v.Within(5*time.Second, "SetOption", func() { err = w.s.SetOption(o.name, o.value) })
				w.log = append(w.log, fmt.Sprintf("SetOption(%q, %v)", o.name, o.value))
				if err == nil {
					v.Fail("option %d: SetOption(%q, %#v) succeeded", i, o.name, o.value)
				}
				w.checkTopics()
				w.quiet()
			}
			w.connect(round == 0)
		}
		w.s.Close()
	})
}

// A subscriber and a publisher that appears at the same moment: whatever the
// schedule, the publisher ends up knowing every topic.
func TestVPSubRace(t *testing.T) {
	vpRun(t, "sub-race", func(v *vpT) {
		for round := 0; round < vpN(40); round++ {
			s := zmq4.NewSub(vpCtx)
			ep := vpListen(v, s)
			n := 1 + v.rng.Intn(6)
			gap := time.Duration(v.rng.Intn(3000)) * time.Microsecond
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					time.Sleep(gap / time.Duration(n))
					if err := s.SetOption(zmq4.OptionSubscribe, fmt.Sprintf("t%d", i)); err != nil {
						v.Fail("subscribe: %v", err)
					}
				}
			}()
			p := vpConnect(v, ep, "PUB", "")
			got := map[string]bool{}
			for len(got) < n {
				fs, _, err := p.msg(5 * time.Second)
				if err != nil {
					v.Fail("round %d: %d topics were subscribed while a publisher connected, it was only told %q (%v)", round, n, vpKeys13(got), err)
				}
				if len(fs) != 1 || len(fs[0]) == 0 || fs[0][0] != 1 {
					v.Fail("round %d: the publisher was told %s", round, vpShow(fs))
				}
				got[string(fs[0][1:])] = true
			}
			v.Within(5*time.Second, "subscribing", wg.Wait)
			v.Count(1)
			s.Close()
		}
	})
}

// The same, with subscriptions made as fast as they can be while the publisher
// appears, so that some fall between any two steps of its registration.
func TestVPSubStorm(t *testing.T) {
	vpRun(t, "sub-storm", func(v *vpT) {
		for round := 0; round < vpN(60); round++ {
			s := zmq4.NewSub(vpCtx)
			ep := vpListen(v, s)
			var stop atomic.Bool
			var n atomic.Int64
			var wg sync.WaitGroup
			for g := 0; g < 2; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 1500 && !stop.Load(); i++ {
						if err := s.SetOption(zmq4.OptionSubscribe, fmt.Sprintf("g%d/%d", g, i)); err != nil {
							v.Fail("subscribe: %v", err)
						}
						n.Add(1)
					}
				}()
			}
			p := vpConnect(v, ep, "PUB", "")
			vpEventually(2*time.Second, func() bool { return len(vpPeek(p)) > 0 })
			stop.Store(true)
			v.Within(5*time.Second, "subscribing", wg.Wait)
			got := map[string]bool{}
			for len(got) < int(n.Load()) {
				fs, _, err := p.msg(5 * time.Second)
				if err != nil {
					for _, t := range s.(zmq4.Topics).Topics() {
						if !got[t] {
							v.Fail("round %d: %d topics were subscribed while a publisher connected; it was never told of %q (%v)", round, n.Load(), t, err)
						}
					}
					v.Fail("round %d: %d topics were subscribed, the publisher was told %d", round, n.Load(), len(got))
				}
				if len(fs) != 1 || len(fs[0]) == 0 || fs[0][0] != 1 {
					v.Fail("round %d: the publisher was told %s", round, vpShow(fs))
				}
				got[string(fs[0][1:])] = true
			}
			v.Count(1)
			s.Close()
		}
	})
}

// Concurrent subscribers of one socket: the topics are the union.
//
//vp:race
func TestVPSubConcurrent(t *testing.T) {
	vpRun(t, "sub-concurrent", func(v *vpT) {
		for round := 0; round < vpN(5); round++ {
			w := vpNewSubWorld(v)
			w.connect(false)
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 15; i++ {
						t := fmt.Sprintf("g%d/%d", g, i)
						w.s.SetOption(zmq4.OptionSubscribe, t)
						w.s.(zmq4.Topics).Topics()
						if i%3 == 0 {
							w.s.SetOption(zmq4.OptionUnsubscribe, t)
						}
					}
				}()
			}
			v.Within(20*time.Second, "subscribing", wg.Wait)
			for g := 0; g < 4; g++ {
				for i := 0; i < 15; i++ {
					if i%3 != 0 {
						w.held[fmt.Sprintf("g%d/%d", g, i)] = true
					}
				}
			}
			w.checkTopics()
			for i := 0; i < 4*20; i++ {
				w.told(0, "of every change")
			}
			if !vpSameSet(w.views[0], w.held) {
				v.Fail("the publisher believes %q, held are %q", vpKeys13(w.views[0]), w.list())
			}
			w.connect(true)
			v.Count(60)
			w.s.Close()
		}
	})
}
