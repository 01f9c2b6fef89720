package zmq4_test

import (
	"bytes"
	"testing"

	"github.com/luxfi/zmq/v4"
)

func vpCopy(fs [][]byte) [][]byte {
	o := make([][]byte, len(fs))
	for i, f := range fs {
		o[i] = append([]byte{}, f...)
	}
	return o
}

func TestVPMessage(t *testing.T) {
	vpRun(t, "message", func(v *vpT) {
		check := func(what string, m zmq4.Msg, fs [][]byte) {
			want := vpCopy(fs)
			if !vpSame(m.Frames, want) || m.Type != zmq4.UsrMsg || m.Err() != nil {
				v.Fail("%s of %s made %s (type %d, error %v)", what, vpShow(want), vpShow(m.Frames), m.Type, m.Err())
			}
			all := bytes.Join(want, nil)
			b := m.Bytes()
			if !bytes.Equal(b, all) {
				v.Fail("Bytes of %s (made by %s) is %s, want %s", vpShow(want), what, vpShort(b), vpShort(all))
			}
			for i := range b {
				b[i] ^= 0x5a
			}
			b = append(b, 1, 2, 3)
			_ = b
			if !vpSame(m.Frames, want) {
				v.Fail("writing to the slice Bytes returned changed the message %s to %s", vpShow(want), vpShow(m.Frames))
			}
			o := m.Clone()
			if !vpSame(o.Frames, want) {
				v.Fail("Clone of %s is %s", vpShow(want), vpShow(o.Frames))
			}
			// changing the clone leaves the original alone
			for i := range o.Frames {
				for k := range o.Frames[i] {
					o.Frames[i][k] ^= 0xff
				}
				_ = append(o.Frames[i], 9)
			}
			if !vpSame(m.Frames, want) {
				v.Fail("changing the bytes of a clone of %s changed the original to %s", vpShow(want), vpShow(m.Frames))
			}
			// no two frames of the clone share memory
			for i := range o.Frames {
				before := vpCopy(o.Frames)
				for k := range o.Frames[i] {
					o.Frames[i][k]++
				}
				_ = append(o.Frames[i], 77, 77, 77)
				for j := range o.Frames {
					if j != i && !bytes.Equal(o.Frames[j], before[j]) {
						v.Fail("writing frame %d of a clone of %s changed its frame %d", i, vpShow(want), j)
					}
				}
			}
			for i := range o.Frames {
				o.Frames[i] = []byte("replaced")
			}
			if !vpSame(m.Frames, want) {
				v.Fail("replacing frames of a clone of %s changed the original to %s", vpShow(want), vpShow(m.Frames))
			}
			// and the other way round
			o = m.Clone()
			for i := range m.Frames {
				for k := range m.Frames[i] {
					m.Frames[i][k] ^= 0xff
				}
				m.Frames[i] = nil
			}
			if !vpSame(o.Frames, want) {
				v.Fail("changing a message after cloning it changed the clone of %s to %s", vpShow(want), vpShow(o.Frames))
			}
			v.Count(1)
		}
		run := func(fs [][]byte) {
			check("NewMsgFrom", zmq4.NewMsgFrom(vpCopy(fs)...), fs)
			check("NewMsg", zmq4.NewMsg(append([]byte{}, fs[0]...)), fs[:1])
			ss := make([]string, len(fs))
			for i := range fs {
				ss[i] = string(fs[i])
			}
			check("NewMsgFromString", zmq4.NewMsgFromString(ss), fs)
			check("NewMsgString", zmq4.NewMsgString(ss[0]), fs[:1])
			// frames that are windows of one buffer with room behind them
			buf := bytes.Join(fs, nil)
			buf = append(buf, make([]byte, 64)...)
			var win [][]byte
			n := 0
			for _, f := range fs {
				win = append(win, buf[n:n+len(f)])
				n += len(f)
			}
			check("NewMsgFrom (shared buffer)", zmq4.NewMsgFrom(win...), fs)
		}
		check("NewMsgFrom", zmq4.NewMsgFrom(), nil)
		check("NewMsgFromString", zmq4.NewMsgFromString(nil), nil)
		check("zero message", zmq4.Msg{}, nil)
		for _, n := range vpSizes {
			run([][]byte{vpBytes(v.rng, n)})
			run([][]byte{vpBytes(v.rng, n), {}, vpBytes(v.rng, n/2), nil})
		}
		for i := 0; i < vpN(1500); i++ {
			run(vpFrames(v.rng, 10))
		}
		for n := 1; n < 70; n++ {
			fs := make([][]byte, n)
			for i := range fs {
				fs[i] = vpBytes(v.rng, v.rng.Intn(6))
			}
			run(fs)
		}
	})
}
