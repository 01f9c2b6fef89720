package zmq4_test

import (
	"encoding/binary"
	"testing"

	"github.com/luxfi/zmq/v4"
)

// Histories against a plain slice.
func TestVPQueue(t *testing.T) {
	vpRun(t, "queue", func(v *vpT) {
		next := uint64(0)
		mk := func() zmq4.Msg {
			next++
			b := make([]byte, 8)
			binary.BigEndian.PutUint64(b, next)
			if next%7 == 0 {
				return zmq4.NewMsgFrom(b, nil, []byte("more"))
			}
			return zmq4.NewMsg(b)
		}
		history := func(ops int, pick func(i, n int) int) {
			q := zmq4.NewQueue()
			var model []zmq4.Msg
			inits := 0
			look := func(i int, what string) {
				if q.Len() != len(model) {
					v.Fail("after %d operations (last %s, %d Inits): Len is %d, want %d", i, what, inits, q.Len(), len(model))
				}
				m, ok := q.Peek()
				if ok != (len(model) > 0) {
					v.Fail("after %d operations (last %s): Peek reports %v with %d values queued", i, what, ok, len(model))
				}
				if ok && !vpSame(m.Frames, model[0].Frames) {
					v.Fail("after %d operations (last %s, %d Inits, %d values queued): Peek returns %s, the oldest is %s", i, what, inits, len(model), vpShow(m.Frames), vpShow(model[0].Frames))
				}
				v.Count(1)
			}
			for i := 0; i < ops; i++ {
				what := ""
				switch o := pick(i, len(model)); {
				case o == 0:
					m := mk()
					q.Push(m)
					model = append(model, m)
					what = "Push"
				case o == 1 && len(model) > 0:
					q.Pop()
					model = model[1:]
					what = "Pop"
				case o == 2:
					q.Init()
					model = nil
					inits++
					what = "Init"
				default:
					what = "Peek"
				}
				look(i+1, what)
			}
			for len(model) > 0 {
				q.Pop()
				model = model[1:]
				look(ops, "Pop (draining)")
			}
		}
		// fill to every interesting level, then drain
		for _, n := range []int{1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 514, 1023, 1024, 1025, 1026, 1535, 1536, 1537, 2048, 2049, 2500, 4096, 4097, 5000} {
			history(n, func(i, k int) int { return 0 })
			history(4*n, func(i, k int) int {
				if i < n {
					return 0
				}
				return i % 2
			})
		}
		// hold the length near a level while pushing and popping
		for _, lvl := range []int{1, 2, 255, 256, 511, 512, 513, 1024, 1025} {
			lvl := lvl
			history(lvl+4000, func(i, k int) int {
				if k < lvl || k == lvl && v.rng.Intn(2) == 0 {
					return 0
				}
				return 1
			})
		}
		// random histories with different drifts, and Init among them
		for i := 0; i < vpN(120); i++ {
			p, init := v.rng.Float64(), v.rng.Intn(3) == 0
			history(200+v.rng.Intn(3000), func(i, k int) int {
				if init && v.rng.Intn(400) == 0 {
					return 2
				}
				if v.rng.Intn(100) == 0 {
					p = v.rng.Float64()
				}
				if v.rng.Float64() < p {
					return 0
				}
				if v.rng.Intn(50) == 0 {
					return 3
				}
				return 1
			})
		}
		// popping an empty queue panics and leaves it usable
		q := zmq4.NewQueue()
		func() {
			defer func() { recover() }()
			q.Pop()
		}()
		q = zmq4.NewQueue()
		q.Push(zmq4.NewMsgString("x"))
		if m, ok := q.Peek(); !ok || q.Len() != 1 || string(m.Bytes()) != "x" {
			v.Fail("a fresh queue after one Push: Len %d, Peek %v %v", q.Len(), m, ok)
		}
	})
}
