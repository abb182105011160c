package drv

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/bifurcation/mint"
	"github.com/bifurcation/mint/syntax"
)

// CodecType is a type of Codec.tla.
type CodecType struct {
	K  string      `json:"k"`
	N  int         `json:"n"`
	H  int         `json:"h"`
	Lo int         `json:"lo"`
	Hi int         `json:"hi"`
	E  []CodecType `json:"e"`
}

func (t CodecType) String() string {
	s := t.K
	if t.N > 0 {
		s += fmt.Sprint(t.N)
	}
	if t.K == "vec" || t.K == "map" {
		s += fmt.Sprintf("[h%d %d..%d]", t.H, t.Lo, t.Hi)
	}
	if len(t.E) > 0 {
		var p []string
		for _, e := range t.E {
			p = append(p, e.String())
		}
		s += "(" + strings.Join(p, ",") + ")"
	}
	return s
}

// CodecCase is a case of Codec.tla.
type CodecCase struct {
	Op    string      `json:"op"`
	T     CodecType   `json:"t"`
	V     interface{} `json:"v"`
	B     []int       `json:"b"`
	N     int         `json:"n"`
	OK    bool        `json:"ok"`
	Canon bool        `json:"canon"`
	Dirty interface{} `json:"dirty,omitempty"` // what the destination holds before
}

func (k CodecCase) String() string {
	s := k.Op + " " + k.T.String()
	if k.Op == "enc" {
		j, _ := json.Marshal(k.V)
		return s + " " + string(j)
	}
	if k.Op == "big" {
		return s + fmt.Sprintf(" %d bytes", k.N)
	}
	return s + fmt.Sprintf(" %x", k.bytes())
}

func (k CodecCase) bytes() []byte {
	b := make([]byte, len(k.B))
	for i, x := range k.B {
		b[i] = byte(x)
	}
	return b
}

// Even8 is valid when it is even.
type Even8 uint8

func (e Even8) ValidForTLS() error {
	if e%2 != 0 {
		return errors.New("odd")
	}
	return nil
}

// Cust8 has an encoding of its own.
type Cust8 uint8

func (c Cust8) MarshalTLS() ([]byte, error) { return []byte{0xc0, byte(c)}, nil }
func (c *Cust8) UnmarshalTLS(b []byte) (int, error) {
	if len(b) < 2 || b[0] != 0xc0 {
		return 0, errors.New("not a Cust8")
	}
	*c = Cust8(b[1])
	return 2, nil
}

// Blob encodes as its number of bytes.
type Blob struct{ N int }

func (c Blob) MarshalTLS() ([]byte, error) { return make([]byte, c.N), nil }
func (c *Blob) UnmarshalTLS(b []byte) (int, error) {
	c.N = len(b)
	return len(b), nil
}

var uintTypes = map[int]reflect.Type{1: reflect.TypeOf(uint8(0)), 2: reflect.TypeOf(uint16(0)), 4: reflect.TypeOf(uint32(0)), 8: reflect.TypeOf(uint64(0))}

var badTags = []struct {
	typ interface{}
	tag string
}{
	{[]byte(nil), "head=1,varint"}, {uint8(0), "head=1"}, {uint8(0), "optional"}, {[]byte(nil), "head=2,min=5,max=3"}, {[]byte(nil), "head=none,head=2"},
	{[]byte(nil), "varint"}, {[]byte(nil), "omit,head=2"}, {uint16(0), "varint,optional"}, {[]byte(nil), "head=x"}, {[]byte(nil), "head="}, {[]byte(nil), "head=2=3"},
}

func goType(t CodecType) reflect.Type {
	switch t.K {
	case "u", "vi":
		return uintTypes[t.N]
	case "even":
		return reflect.TypeOf(Even8(0))
	case "cust":
		return reflect.TypeOf(Cust8(0))
	case "blob":
		return reflect.TypeOf(Blob{})
	case "arr":
		return reflect.ArrayOf(t.N, goType(t.E[0]))
	case "vec":
		return reflect.SliceOf(goType(t.E[0]))
	case "map":
		return reflect.MapOf(goType(t.E[0]), goType(t.E[1]))
	case "opt", "ptr":
		return reflect.PtrTo(goType(t.E[0]))
	case "omit":
		return goType(t.E[0])
	case "bad":
		return reflect.TypeOf(badTags[t.N-1].typ)
	case "st":
		f := make([]reflect.StructField, len(t.E))
		for i, e := range t.E {
			f[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: goType(e)}
			if tag := goTag(e); tag != "" {
				f[i].Tag = reflect.StructTag(`tls:"` + tag + `"`)
			}
		}
		return reflect.StructOf(f)
	}
	panic("type " + t.K)
}

func goTag(t CodecType) string {
	var p []string
	switch t.K {
	case "vi":
		p = append(p, "varint")
	case "opt":
		p = append(p, "optional")
	case "omit":
		p = append(p, "omit")
	case "bad":
		return badTags[t.N-1].tag
	}
	switch {
	case t.H == 0:
		p = append(p, "head=none")
	case t.H == 9:
		p = append(p, "head=varint")
	case t.H > 0:
		p = append(p, fmt.Sprintf("head=%d", t.H))
	}
	if t.Lo > 0 {
		p = append(p, fmt.Sprintf("min=%d", t.Lo))
	}
	if t.Hi > 0 {
		p = append(p, fmt.Sprintf("max=%d", t.Hi))
	}
	return strings.Join(p, ",")
}

func numOf(v interface{}) (u uint64) {
	for _, b := range v.([]interface{}) {
		u = u<<8 | uint64(b.(float64))
	}
	return
}

func numBytes(u uint64, n int) interface{} {
	out := make([]interface{}, n)
	for i := range out {
		out[i] = float64(byte(u >> (8 * uint(n-1-i))))
	}
	return out
}

// setVal stores a value of the specification in a Go variable.
func setVal(r reflect.Value, t CodecType, v interface{}) {
	switch t.K {
	case "u", "vi", "even", "cust":
		r.SetUint(numOf(v))
	case "arr", "vec":
		s := v.([]interface{})
		if t.K == "vec" {
			r.Set(reflect.MakeSlice(r.Type(), len(s), len(s)))
		}
		for i := range s {
			setVal(r.Index(i), t.E[0], s[i])
		}
	case "map":
		r.Set(reflect.MakeMap(r.Type()))
		for _, e := range v.([]interface{}) {
			p := e.([]interface{})
			key, val := reflect.New(r.Type().Key()).Elem(), reflect.New(r.Type().Elem()).Elem()
			setVal(key, t.E[0], p[0])
			setVal(val, t.E[1], p[1])
			r.SetMapIndex(key, val)
		}
	case "opt", "ptr":
		if s := v.([]interface{}); len(s) == 1 {
			r.Set(reflect.New(r.Type().Elem()))
			setVal(r.Elem(), t.E[0], s[0])
		} else {
			r.Set(reflect.Zero(r.Type()))
		}
	case "st":
		for i, x := range v.([]interface{}) {
			setVal(r.Field(i), t.E[i], x)
		}
	case "omit", "bad":
	default:
		panic("value of " + t.K)
	}
}

// getVal reads a Go variable as a value of the specification.
func getVal(r reflect.Value, t CodecType) interface{} {
	out := []interface{}{}
	switch t.K {
	case "u", "vi", "even", "cust":
		return numBytes(r.Uint(), int(r.Type().Size()))
	case "arr", "vec":
		for i := 0; i < r.Len(); i++ {
			out = append(out, getVal(r.Index(i), t.E[0]))
		}
	case "map":
		for it := r.MapRange(); it.Next(); {
			out = append(out, []interface{}{getVal(it.Key(), t.E[0]), getVal(it.Value(), t.E[1])})
		}
		sort.Slice(out, func(i, j int) bool {
			return bytes.Compare(flat(out[i].([]interface{})[0]), flat(out[j].([]interface{})[0])) < 0
		})
	case "opt", "ptr":
		if !r.IsNil() {
			out = append(out, getVal(r.Elem(), t.E[0]))
		}
	case "st":
		for i := range t.E {
			out = append(out, getVal(r.Field(i), t.E[i]))
		}
	case "omit", "bad":
	default:
		panic("value of " + t.K)
	}
	return out
}

func flat(v interface{}) (b []byte) {
	switch x := v.(type) {
	case float64:
		return []byte{byte(x)}
	case []interface{}:
		for _, e := range x {
			b = append(b, flat(e)...)
		}
	}
	return
}

// A codecObj is a Go value that can be encoded and decoded.
type codecObj struct {
	set func(v interface{}) bool // false: cannot hold v
	get func() interface{}
	enc func() ([]byte, error)
	dec func([]byte) (int, error)
}

type mintBody interface {
	Marshal() ([]byte, error)
	Unmarshal([]byte) (int, error)
}

// plain makes a codecObj of a mint type whose fields are those of the layout.
func plain(p mintBody, t CodecType) *codecObj {
	r := reflect.ValueOf(p).Elem()
	return &codecObj{
		set: func(v interface{}) bool { setVal(r, t, v); return true },
		get: func() interface{} { return getVal(r, t) },
		enc: mintBody(p).Marshal, dec: p.Unmarshal,
	}
}

func list(v interface{}, i ...int) []interface{} {
	for _, x := range i {
		v = v.([]interface{})[x]
	}
	return v.([]interface{})
}

func newCodecObj(t CodecType) *codecObj {
	if t.K != "named" {
		p := reflect.New(goType(t))
		return &codecObj{
			set: func(v interface{}) bool { setVal(p.Elem(), t, v); return true },
			get: func() interface{} { return getVal(p.Elem(), t) },
			enc: func() ([]byte, error) { return syntax.Marshal(p.Elem().Interface()) },
			dec: func(b []byte) (int, error) { return syntax.Unmarshal(b, p.Interface()) },
		}
	}
	lay := t.E[0]
	// part of a bigger struct: the layout's field i is the variable f(i)
	fields := func(p mintBody, prep func(v interface{}) bool, f func(i int) interface{}, done func(i int) interface{}) *codecObj {
		return &codecObj{
			set: func(v interface{}) bool {
				if prep != nil && !prep(v) {
					return false
				}
				for i, e := range lay.E {
					if d := f(i); d != nil {
						setVal(reflect.ValueOf(d).Elem(), e, list(v)[i])
					}
				}
				return true
			},
			get: func() interface{} {
				out := []interface{}{}
				for i, e := range lay.E {
					if d := f(i); d != nil {
						out = append(out, getVal(reflect.ValueOf(d).Elem(), e))
					} else {
						out = append(out, done(i))
					}
				}
				return out
			},
			enc: mintBody(p).Marshal, dec: p.Unmarshal,
		}
	}
	switch t.N {
	case 1:
		return plain(&mint.CertificateVerifyBody{}, lay)
	case 2:
		return plain(&mint.ServerHelloBody{}, lay)
	case 3:
		return plain(&mint.EncryptedExtensionsBody{}, lay)
	case 4:
		return plain(&mint.CertificateRequestBody{}, lay)
	case 5:
		return plain(&mint.NewSessionTicketBody{}, lay)
	case 6:
		return plain(&mint.KeyUpdateBody{}, lay)
	case 7:
		return plain(&mint.SupportedGroupsExtension{}, lay)
	case 8:
		return plain(&mint.SignatureAlgorithmsExtension{}, lay)
	case 9:
		return plain(&mint.PSKKeyExchangeModesExtension{}, lay)
	case 10:
		return plain(&mint.TicketEarlyDataInfoExtension{}, lay)
	case 11:
		return plain(&mint.CookieExtension{}, lay)
	case 12:
		return plain(&mint.Extension{}, lay)
	case 13:
		return plain(&mint.ExtensionList{}, lay)
	case 20:
		p := &mint.KeyShareExtension{HandshakeType: mint.HandshakeTypeClientHello}
		return fields(p, nil, func(int) interface{} { return &p.Shares }, nil)
	case 21:
		p := &mint.KeyShareExtension{HandshakeType: mint.HandshakeTypeHelloRetryRequest}
		return fields(p, nil, func(int) interface{} { return &p.SelectedGroup }, nil)
	case 22:
		p := &mint.KeyShareExtension{HandshakeType: mint.HandshakeTypeServerHello}
		return &codecObj{
			set: func(v interface{}) bool {
				p.Shares = make([]mint.KeyShareEntry, 1)
				setVal(reflect.ValueOf(&p.Shares[0]).Elem(), lay, v)
				return true
			},
			get: func() interface{} {
				if len(p.Shares) != 1 {
					return nil
				}
				return getVal(reflect.ValueOf(p.Shares[0]), lay)
			},
			enc: mintBody(p).Marshal, dec: p.Unmarshal,
		}
	case 23:
		p := &mint.PreSharedKeyExtension{HandshakeType: mint.HandshakeTypeClientHello}
		return fields(p, func(v interface{}) bool { return len(list(v, 0)) == len(list(v, 1)) },
			func(i int) interface{} { return []interface{}{&p.Identities, &p.Binders}[i] }, nil)
	case 24:
		p := &mint.PreSharedKeyExtension{HandshakeType: mint.HandshakeTypeServerHello}
		return fields(p, nil, func(int) interface{} { return &p.SelectedIdentity }, nil)
	case 25:
		p := &mint.SupportedVersionsExtension{HandshakeType: mint.HandshakeTypeClientHello}
		return fields(p, nil, func(int) interface{} { return &p.Versions }, nil)
	case 26:
		p := &mint.SupportedVersionsExtension{HandshakeType: mint.HandshakeTypeServerHello}
		return &codecObj{
			set: func(v interface{}) bool { p.Versions = []uint16{uint16(numOf(list(v, 0)))}; return true },
			get: func() interface{} {
				if len(p.Versions) != 1 {
					return nil
				}
				return []interface{}{numBytes(uint64(p.Versions[0]), 2)}
			},
			enc: mintBody(p).Marshal, dec: p.Unmarshal,
		}
	case 27: // one host name; mint ignores what may follow it
		p := new(mint.ServerNameExtension)
		return &codecObj{
			set: func(v interface{}) bool {
				if l := list(v, 0); len(l) != 1 || list(l[0], 0)[0].(float64) != 0 {
					return false
				}
				*p = mint.ServerNameExtension(flat(list(v, 0, 0)[1]))
				return true
			},
			get: func() interface{} { return string(*p) },
			enc: mintBody(p).Marshal, dec: p.Unmarshal,
		}
	case 28, 29:
		p := &mint.ClientHelloBody{}
		if t.N == 29 {
			p.LegacyVersion = 0xfefd
		}
		at := []interface{}{&p.LegacyVersion, &p.Random, &p.LegacySessionID, &p.CipherSuites, nil, &p.Extensions}
		fixed := []interface{}{nil, nil, nil, nil, []interface{}{[]interface{}{0.0}}, nil}
		if t.N == 29 {
			at = []interface{}{&p.LegacyVersion, &p.Random, &p.LegacySessionID, nil, &p.CipherSuites, nil, &p.Extensions}
			fixed = []interface{}{nil, nil, nil, []interface{}{0.0}, nil, []interface{}{[]interface{}{0.0}}, nil}
		}
		return fields(p, func(v interface{}) bool {
			if want := map[int]uint64{28: 0x0303, 29: 0xfefd}[t.N]; numOf(list(v)[0]) != want {
				return false
			}
			for i, f := range fixed {
				if f != nil && !reflect.DeepEqual(f, list(v)[i]) {
					return false
				}
			}
			return true
		}, func(i int) interface{} { return at[i] }, func(i int) interface{} { return fixed[i] })
	case 30:
		p := &mint.ALPNExtension{}
		return &codecObj{
			set: func(v interface{}) bool {
				p.Protocols = nil
				for _, n := range list(v, 0) {
					p.Protocols = append(p.Protocols, string(flat(n)))
				}
				return true
			},
			get: func() interface{} {
				l := []interface{}{}
				for _, n := range p.Protocols {
					name := []interface{}{}
					for _, b := range []byte(n) {
						name = append(name, []interface{}{float64(b)})
					}
					l = append(l, []interface{}{name})
				}
				return []interface{}{l}
			},
			enc: mintBody(p).Marshal, dec: p.Unmarshal,
		}
	}
	panic(fmt.Sprint("named ", t.N))
}

// RunCodec executes a case of Codec.tla.
func RunCodec(k CodecCase, rng *rand.Rand) (class string, bad []string) {
	fail := func(f string, a ...interface{}) { bad = append(bad, fmt.Sprintf(f, a...)) }
	defer func() {
		if p := recover(); p != nil {
			fail("the codec panicked: %v", p)
		}
	}()
	class = fmt.Sprint(k.Op, " ", k.T.String(), " ", k.OK)
	switch k.Op {
	case "big":
		st := CodecType{K: "st", H: -1, E: []CodecType{k.T}}
		p := reflect.New(goType(st))
		p.Elem().Field(0).Set(reflect.ValueOf([]Blob{{k.N}}))
		b, err := syntax.Marshal(p.Elem().Interface())
		if (err == nil) != k.OK {
			fail("encoding a vector of %d bytes: %v, specified to succeed: %v", k.N, err, k.OK)
			return
		}
		if err == nil && (len(b) != len(k.B)+k.N || !bytes.Equal(b[:len(k.B)], k.bytes())) {
			fail("a vector of %d bytes is encoded to %d bytes with the header % x, not % x", k.N, len(b), b[:min(len(b), 9)], k.B)
			return
		}
		in := append(k.bytes(), make([]byte, k.N)...)
		if !k.OK {
			if k.T.H > 3 || (k.T.Lo == 0 && k.T.Hi == 0) { // not even the header can say so
				return
			}
			in = append((bigHeader)(k.T.H, k.N), make([]byte, k.N)...)
		}
		d := reflect.New(goType(st))
		n, err := syntax.Unmarshal(append(in, trailing(k.T)...), d.Interface())
		if (err == nil) != k.OK {
			fail("decoding a vector of %d bytes: %v, specified to succeed: %v", k.N, err, k.OK)
		} else if err == nil && (n != len(in) || d.Elem().Field(0).Len() != 1 || d.Elem().Field(0).Index(0).Interface().(Blob).N != k.N) {
			fail("decoding a vector of %d bytes consumes %d of %d", k.N, n, len(in))
		}
	case "enc":
		o := newCodecObj(k.T)
		if !o.set(k.V) {
			return class + " inexpressible", nil
		}
		b, err := o.enc()
		if (err == nil) != k.OK {
			fail("encoding gives %x, %v; specified to succeed: %v", b, err, k.OK)
			return
		}
		if err == nil && !bytes.Equal(b, k.bytes()) {
			fail("encoded to %x, specified %x", b, k.bytes())
			return
		}
		if b2, err2 := o.enc(); !bytes.Equal(b, b2) || (err == nil) != (err2 == nil) {
			fail("encoded again to %x, %v", b2, err2)
		}
	case "dec":
		in := k.bytes()
		o := newCodecObj(k.T)
		if k.Dirty != nil {
			o.set(k.Dirty)
		}
		if k.T.K == "named" && (k.T.N == 28 || k.T.N == 29) {
			o = newCodecObj(k.T) // the version it holds chooses the layout
		}
		n, err := o.dec(in)
		if !bytes.Equal(in, k.bytes()) {
			fail("decoding changed its input to %x", in)
		}
		if (err == nil) != k.OK {
			fail("decoding %x gives %v, %v; specified to succeed: %v", in, n, err, k.OK)
			return
		}
		if err != nil {
			return
		}
		if n != k.N {
			fail("decoding %x consumed %d bytes, specified %d", in, n, k.N)
		}
		for i := range in {
			in[i] ^= 0x5a
		}
		var want interface{} = k.V
		if k.T.K == "named" && k.T.N == 27 {
			want = string(flat(list(k.V, 0, 0)[1]))
		}
		got := o.get()
		if !reflect.DeepEqual(got, want) {
			g, _ := json.Marshal(got)
			w, _ := json.Marshal(want)
			fail("decoded to %s, specified %s", g, w)
			return
		}
		again := newCodecObj(k.T)
		if !again.set(k.V) {
			return
		}
		b, err := o.enc()
		switch {
		case k.Canon && err != nil:
			fail("what was decoded cannot be encoded: %v", err)
		case k.Canon && !bytes.Equal(b, k.bytes()[:k.N]):
			fail("what was decoded from %x encodes to %x", k.bytes()[:k.N], b)
		case err == nil:
			if m, err := again.dec(b); err != nil || m != len(b) || !reflect.DeepEqual(again.get(), got) {
				fail("what was decoded encodes to %x, which decodes differently (%v)", b, err)
			}
		}
	}
	return
}

// bigHeader is the header of a body of n bytes, disregarding the declared bounds.
func bigHeader(h, n int) []byte {
	if h == 9 {
		switch {
		case n < 64:
			return []byte{byte(n)}
		case n < 16384:
			return []byte{0x40 | byte(n>>8), byte(n)}
		}
		return []byte{0x80 | byte(n>>24), byte(n >> 16), byte(n >> 8), byte(n)}
	}
	b := make([]byte, h)
	for i := range b {
		b[i] = byte(n >> (8 * uint(h-1-i)))
	}
	return b
}

func trailing(t CodecType) []byte {
	if t.H == 0 {
		return nil
	}
	return []byte{9, 9, 9}
}
