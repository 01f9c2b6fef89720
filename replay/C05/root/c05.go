package zmq4_test

import (
	"bytes"
	"encoding/binary"
	"strings"
	"testing"

	"github.com/luxfi/zmq/v4"
)

const vpNameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.+"

func vpMDName(v *vpT, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vpNameChars[v.rng.Intn(len(vpNameChars))]
	}
	return string(b)
}

// vpTitle upper-cases the first letter of every run of letters; only used for
// names of letters and hyphens.
func vpTitle(s string) string {
	b := []byte(s)
	for i := range b {
		if (i == 0 || b[i-1] == '-') && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func vpMDWord(v *vpT) string {
	var w []string
	for i := 1 + v.rng.Intn(3); i > 0; i-- {
		b := make([]byte, 1+v.rng.Intn(8))
		for i := range b {
			b[i] = vpNameChars[v.rng.Intn(52)]
		}
		w = append(w, string(b))
	}
	return strings.Join(w, "-")
}

type vpKV struct{ k, v string }

// vpMDSplit is the reference decoder: the properties of a block.
func vpMDSplit(b []byte) (out []vpKV, ok bool) {
	for len(b) > 0 {
		n := int(b[0])
		if len(b) < 1+n+4 {
			return out, false
		}
		k := string(b[1 : 1+n])
		l := uint64(binary.BigEndian.Uint32(b[1+n:]))
		b = b[5+n:]
		if uint64(len(b)) < l {
			return out, false
		}
		out = append(out, vpKV{k, string(b[:l])})
		b = b[l:]
	}
	return out, true
}

func vpMDEncode(kv ...vpKV) []byte {
	var b []byte
	for _, x := range kv {
		b = append(b, byte(len(x.k)))
		b = append(b, x.k...)
		b = binary.BigEndian.AppendUint32(b, uint32(len(x.v)))
		b = append(b, x.v...)
	}
	return b
}

func TestVPMetadataEncode(t *testing.T) {
	vpRun(t, "encode", func(v *vpT) {
		check := func(md zmq4.Metadata) {
			v.Count(1)
			in := map[string]string{}
			bad := false
			low := map[string]bool{}
			for k, x := range md {
				in[k] = x
				if k == "" || low[strings.ToLower(k)] {
					bad = true
				}
				low[strings.ToLower(k)] = true
			}
			raw, err := md.MarshalZMTP()
			if bad {
				if err == nil {
					v.Fail("metadata %q has an empty name or names equal up to case, but is encoded as %x", in, raw)
				}
				return
			}
			if err != nil {
				v.Fail("metadata with names of %d entries refused: %v (%s)", len(in), err, vpShort([]byte(strings.Join(vpMDNames(in), " "))))
				return
			}
			kv, ok := vpMDSplit(raw)
			if !ok || len(kv) != len(in) {
				v.Fail("metadata %s encodes to %d properties (well formed: %v)", vpShort([]byte(strings.Join(vpMDNames(in), " "))), len(kv), ok)
				return
			}
			for k, x := range in {
				w := "x-" + strings.ToLower(k)
				if k == "Identity" || k == "Socket-Type" {
					w = strings.ToLower(k)
				}
				n := 0
				for _, p := range kv {
					if strings.ToLower(p.k) == w {
						n++
						if p.v != x {
							v.Fail("entry %q=%s (%d bytes) is encoded with value %s (%d bytes)", k, vpShort([]byte(x)), len(x), vpShort([]byte(p.v)), len(p.v))
						}
					}
				}
				if n != 1 {
					v.Fail("entry %q appears %d times in the encoding (as %q)", k, n, w)
				}
			}
			if len(md) != len(in) {
				v.Fail("encoding changed the metadata")
			}
			// and back
			back := zmq4.Metadata{}
			if err := back.UnmarshalZMTP(raw); err != nil || len(back) != len(in) {
				v.Fail("decoding our own encoding of %q gives %d entries, %v", vpMDNames(in), len(back), err)
			}
		}
		check(zmq4.Metadata{})
		check(zmq4.Metadata{"": "x"})
		check(zmq4.Metadata{"a": "1", "A": "2"})
		check(zmq4.Metadata{"Identity": "me", "identity": "2"})
		check(zmq4.Metadata{"Identity": "me", "Socket-Type": "PAIR"})
		check(zmq4.Metadata{"Identity": "", "Socket-Type": "PAIR", "app": ""})
		for _, n := range []int{0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 1000, 32767, 32768, 65535, 65536, 65537, 70000, 1 << 17, 1<<24 + 3} {
			check(zmq4.Metadata{"Identity": string(vpBytes(v.rng, n)), "Socket-Type": "REQ", "note": string(vpBytes(v.rng, n))})
		}
		for n := 1; n <= 253; n++ {
			check(zmq4.Metadata{vpMDName(v, n): string(vpBytes(v.rng, v.rng.Intn(40)))})
		}
		for i := 0; i < vpN(2000); i++ {
			md := zmq4.Metadata{}
			for j := v.rng.Intn(9); j > 0; j-- {
				k := vpMDName(v, v.rng.Intn(4))
				if v.rng.Intn(6) == 0 {
					k = []string{"Identity", "Socket-Type"}[v.rng.Intn(2)]
				}
				md[k] = string(vpBytes(v.rng, v.rng.Intn(30)))
			}
			check(md)
		}
		// a name that cannot be encoded in one length octet must not be mangled
		for _, n := range []int{254, 255, 256, 300, 511, 512, 600} {
			md := zmq4.Metadata{vpMDName(v, n): "value"}
			raw, err := md.MarshalZMTP()
			v.Count(1)
			if err == nil {
				if kv, ok := vpMDSplit(raw); !ok || len(kv) != 1 || len(kv[0].k) != n+2 {
					v.Fail("a name of %d bytes is encoded as %s", n, vpShort(raw))
				}
			}
		}
	})
}

func vpMDNames(m map[string]string) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	return out
}

func TestVPMetadataDecode(t *testing.T) {
	vpRun(t, "decode", func(v *vpT) {
		check := func(raw []byte, before zmq4.Metadata) {
			v.Count(1)
			md := zmq4.Metadata{}
			for k, x := range before {
				md[k] = x
			}
			kv, ok := vpMDSplit(raw)
			buf := append([]byte(nil), raw...)
			err := func() (err error) {
				defer func() {
					if e := recover(); e != nil {
						v.Fail("decoding %x panics: %v", raw, e)
					}
				}()
				return md.UnmarshalZMTP(buf)
			}()
			if ok != (err == nil) {
				v.Fail("decoding %s (well formed: %v): error %v", vpShort(raw), ok, err)
				return
			}
			if !bytes.Equal(buf, raw) {
				v.Fail("decoding changes its input")
			}
			for i := range buf { // the result must not live in the caller's buffer
				buf[i] ^= 0x55
			}
			if !ok {
				return
			}
			want := map[string]string{}
			for k, x := range before {
				want[strings.ToLower(k)] = x
			}
			exact := map[string]bool{}
			for _, p := range kv {
				want[strings.ToLower(p.k)] = p.v
				if strings.Trim(strings.ToLower(p.k), "abcdefghijklmnopqrstuvwxyz-") == "" {
					exact[vpTitle(p.k)] = true
				}
			}
			got := map[string]string{}
			for k, x := range md {
				got[strings.ToLower(k)] = x
			}
			for k, x := range want {
				if y, has := got[k]; !has || y != x {
					v.Fail("decoding %s: %q is %s, want %s", vpShort(raw), k, vpShort([]byte(y)), vpShort([]byte(x)))
				}
			}
			for k := range exact {
				if _, has := md[k]; !has {
					v.Fail("decoding %s: nothing is stored under the title-cased name %q: %q", vpShort(raw), k, vpMDNames(md))
				}
			}
			if len(got) != len(want) {
				v.Fail("decoding %s gives %d names, want %d", vpShort(raw), len(got), len(want))
			}
		}
		check(nil, nil)
		check(nil, zmq4.Metadata{"Keep": "x"})
		check(vpMDEncode(vpKV{"socket-type", "PAIR"}, vpKV{"IDENTITY", "me"}), nil)
		check(vpMDEncode(vpKV{"", ""}), nil)
		check(vpMDEncode(vpKV{"a", "1"}, vpKV{"A", "2"}), nil)
		// every truncation and every corrupted length of a small block
		full := vpMDEncode(vpKV{"Socket-Type", "DEALER"}, vpKV{"Identity", "someone"}, vpKV{"X-Key", ""})
		for i := range full {
			check(full[:i], nil)
			for _, d := range []byte{1, 2, 4, 0x7f, 0x80, 0xff} {
				g := append([]byte(nil), full...)
				g[i] += d
				if g[i] >= 0x80 && i != 0 { // keep names ASCII
					continue
				}
				check(g, nil)
			}
		}
		for _, n := range []int{0, 1, 127, 128, 255, 256, 65535, 65536, 1 << 20} {
			for _, m := range []int{1, 5, 127, 128, 254, 255} {
				b := vpMDEncode(vpKV{vpMDName(v, m), string(vpBytes(v.rng, n))}, vpKV{"last", "z"})
				check(b, zmq4.Metadata{"Other": "o"})
				check(b[:len(b)-1], nil)
				check(append(b, 0), nil)
				check(append(b, 0, 0, 0, 0), nil)
			}
		}
		for i := 0; i < vpN(6000); i++ {
			var kv []vpKV
			for j := v.rng.Intn(6); j > 0; j-- {
				kv = append(kv, vpKV{vpMDWord(v), string(vpBytes(v.rng, v.rng.Intn(300)))})
			}
			b := vpMDEncode(kv...)
			if v.rng.Intn(3) == 0 && len(b) > 0 {
				b = b[:v.rng.Intn(len(b))]
			}
			check(b, nil)
		}
		// length fields beyond what is there
		for _, l := range []uint32{1, 5, 6, 255, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
			b := append([]byte{1, 'k'}, binary.BigEndian.AppendUint32(nil, l)...)
			check(append(b, "hello"...), nil)
			check(b, nil)
		}
	})
}

// The single-property codec.
func TestVPProperty(t *testing.T) {
	vpRun(t, "property", func(v *vpT) {
		for i := 0; i < vpN(6000); i++ {
			p := vpKV{vpMDWord(v), string(vpBytes(v.rng, v.rng.Intn(400)))}
			want := vpMDEncode(vpKV{vpTitle(p.k), p.v})
			pad := v.rng.Intn(5)
			buf := vpBytes(v.rng, len(want)+pad)
			tail := append([]byte(nil), buf[len(want):]...)
			n, _ := zmq4.Property{K: p.k, V: p.v}.Read(buf)
			if n != len(want) || !bytes.Equal(buf[:n], want) || !bytes.Equal(buf[n:], tail) {
				v.Fail("property %q (%d bytes) encodes to %d bytes %s, want %s", p.k, len(p.v), n, vpShort(buf), vpShort(want))
			}
			var q zmq4.Property
			m, err := q.Write(buf)
			if err != nil || m != len(want) || q.K != vpTitle(p.k) || q.V != p.v {
				v.Fail("property %q decodes to %q, %d bytes of value, consumed %d of %d, %v", p.k, q.K, len(q.V), m, len(want), err)
			}
			v.Count(1)
		}
	})
}
