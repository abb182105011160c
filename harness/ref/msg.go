package ref

import (
	"bytes"
	"errors"
	"fmt"
)

// Handshake message types.
const (
	TCH, TSH, TNST, TEOED, TEE, TCert, TCR, TCV, TFin, TKU, TMsgHash = 1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254
)

// Record types.
const (
	RCCS, RAlert, RHandshake, RApp, RAck = 20, 21, 22, 23, 25
)

// Extension types.
const (
	XSNI, XGroups, XSigAlgs, XALPN, XPSK, XEarly, XVersions, XCookie, XPSKModes, XKeyShare, XTicketEarly = 0, 10, 13, 16, 41, 42, 43, 44, 45, 51, 46
)

// W is a byte writer for TLS structures.
type W struct{ B []byte }

func (w *W) U8(v int) *W     { w.B = append(w.B, byte(v)); return w }
func (w *W) U16(v int) *W    { w.B = append(w.B, byte(v>>8), byte(v)); return w }
func (w *W) U24(v int) *W    { w.B = append(w.B, byte(v>>16), byte(v>>8), byte(v)); return w }
func (w *W) U32(v uint32) *W { return w.U16(int(v >> 16)).U16(int(v & 0xffff)) }
func (w *W) Raw(b []byte) *W { w.B = append(w.B, b...); return w }
func (w *W) V8(b []byte) *W  { return w.U8(len(b)).Raw(b) }
func (w *W) V16(b []byte) *W { return w.U16(len(b)).Raw(b) }
func (w *W) V24(b []byte) *W { return w.U24(len(b)).Raw(b) }

// R is a bounds-checked reader.
type R struct {
	B   []byte
	Err error
}

func (r *R) N(n int) []byte {
	if r.Err != nil || n < 0 || len(r.B) < n {
		r.Err = errors.New("ref: short message")
		return nil
	}
	b := r.B[:n]
	r.B = r.B[n:]
	return b
}
func (r *R) U8() int {
	b := r.N(1)
	if b == nil {
		return 0
	}
	return int(b[0])
}
func (r *R) U16() int    { return r.U8()<<8 | r.U8() }
func (r *R) U24() int    { return r.U8()<<16 | r.U16() }
func (r *R) U32() uint32 { return uint32(r.U16())<<16 | uint32(r.U16()) }
func (r *R) V8() []byte  { return r.N(r.U8()) }
func (r *R) V16() []byte { return r.N(r.U16()) }
func (r *R) V24() []byte { return r.N(r.U24()) }

// Ext is one extension.
type Ext struct {
	Type int
	Data []byte
}

type Exts []Ext

func (x Exts) Find(t int) []byte {
	for _, e := range x {
		if e.Type == t {
			if e.Data == nil {
				return []byte{}
			}
			return e.Data
		}
	}
	return nil
}
func (x Exts) Has(t int) bool { return x.Find(t) != nil }
func (x Exts) Without(t int) Exts {
	var o Exts
	for _, e := range x {
		if e.Type != t {
			o = append(o, e)
		}
	}
	return o
}

// Replace substitutes the data of extension t, or appends it.
func (x Exts) Replace(t int, d []byte) Exts {
	o := append(Exts{}, x...)
	for i := range o {
		if o[i].Type == t {
			o[i].Data = d
			return o
		}
	}
	return append(o, Ext{t, d})
}

func (x Exts) Bytes() []byte {
	w := &W{}
	for _, e := range x {
		w.U16(e.Type).V16(e.Data)
	}
	return w.B
}

func ParseExts(b []byte) (Exts, error) {
	r := &R{B: b}
	var o Exts
	for len(r.B) > 0 && r.Err == nil {
		t := r.U16()
		o = append(o, Ext{t, r.V16()})
	}
	return o, r.Err
}

// Msg frames a handshake message (TLS framing, also used for transcripts).
func Msg(t int, body []byte) []byte { return (&W{}).U8(t).V24(body).B }

// Hello is a ClientHello or ServerHello.
type Hello struct {
	Client    bool
	DTLS      bool
	Version   int
	Random    []byte
	SessionID []byte
	Cookie    []byte // DTLS legacy_cookie
	Suites    []int  // one for a server
	Comp      []byte
	Exts      Exts
}

func (h *Hello) Body() []byte {
	w := &W{}
	w.U16(h.Version).Raw(h.Random).V8(h.SessionID)
	if h.Client {
		if h.DTLS {
			w.V8(h.Cookie)
		}
		s := &W{}
		for _, c := range h.Suites {
			s.U16(c)
		}
		w.V16(s.B).V8(h.Comp)
	} else {
		w.U16(h.Suites[0]).Raw(h.Comp)
	}
	w.V16(h.Exts.Bytes())
	return w.B
}

func (h *Hello) Msg() []byte {
	if h.Client {
		return Msg(TCH, h.Body())
	}
	return Msg(TSH, h.Body())
}

func ParseHello(client, dtls bool, body []byte) (*Hello, error) {
	r := &R{B: body}
	h := &Hello{Client: client, DTLS: dtls}
	h.Version = r.U16()
	h.Random = r.N(32)
	h.SessionID = r.V8()
	if client {
		if dtls {
			h.Cookie = r.V8()
		}
		s := &R{B: r.V16()}
		for len(s.B) >= 2 {
			h.Suites = append(h.Suites, s.U16())
		}
		h.Comp = r.V8()
	} else {
		h.Suites = []int{r.U16()}
		h.Comp = r.N(1)
	}
	x := r.V16()
	if r.Err != nil {
		return nil, r.Err
	}
	if len(r.B) != 0 {
		return nil, errors.New("ref: trailing bytes in hello")
	}
	var err error
	h.Exts, err = ParseExts(x)
	return h, err
}

var HRRRandom = []byte{0xCF, 0x21, 0xAD, 0x74, 0xE5, 0x9A, 0x61, 0x11, 0xBE, 0x1D, 0x8C, 0x02, 0x1E, 0x65, 0xB8, 0x91,
	0xC2, 0xA2, 0x11, 0x16, 0x7A, 0xBB, 0x8C, 0x5E, 0x07, 0x9E, 0x09, 0xE2, 0xC8, 0xA8, 0x33, 0x9C}

func (h *Hello) IsHRR() bool { return !h.Client && bytes.Equal(h.Random, HRRRandom) }

// Share is a key share entry.
type Share struct {
	Group int
	Data  []byte
}

func ParseShares(b []byte) ([]Share, error) {
	r := &R{B: b}
	l := &R{B: r.V16()}
	var o []Share
	for len(l.B) > 0 && l.Err == nil {
		g := l.U16()
		o = append(o, Share{g, l.V16()})
	}
	if r.Err != nil {
		return nil, r.Err
	}
	return o, l.Err
}

func SharesExt(client bool, s ...Share) []byte {
	w := &W{}
	for _, e := range s {
		w.U16(e.Group).V16(e.Data)
	}
	if client {
		return (&W{}).V16(w.B).B
	}
	return w.B
}

func U16List(vs ...int) []byte {
	w := &W{}
	for _, v := range vs {
		w.U16(v)
	}
	return (&W{}).V16(w.B).B
}

func ParseU16List(b []byte) []int {
	r := &R{B: b}
	l := &R{B: r.V16()}
	var o []int
	for len(l.B) >= 2 {
		o = append(o, l.U16())
	}
	return o
}

func SNIExt(name string) []byte {
	return (&W{}).V16((&W{}).U8(0).V16([]byte(name)).B).B
}

func ALPNExt(names ...string) []byte {
	w := &W{}
	for _, n := range names {
		w.V8([]byte(n))
	}
	return (&W{}).V16(w.B).B
}

func ParseALPN(b []byte) []string {
	r := &R{B: b}
	l := &R{B: r.V16()}
	var o []string
	for len(l.B) > 0 && l.Err == nil {
		o = append(o, string(l.V8()))
	}
	return o
}

// PSKOffer is one identity of a pre_shared_key extension.
type PSKOffer struct {
	Identity []byte
	Age      uint32
	Binder   []byte
}

func ParsePSKOffers(b []byte) ([]PSKOffer, error) {
	r := &R{B: b}
	ids := &R{B: r.V16()}
	var o []PSKOffer
	for len(ids.B) > 0 && ids.Err == nil {
		id := ids.V16()
		o = append(o, PSKOffer{Identity: id, Age: ids.U32()})
	}
	bs := &R{B: r.V16()}
	for i := 0; len(bs.B) > 0 && bs.Err == nil; i++ {
		v := bs.V8()
		if i < len(o) {
			o[i].Binder = v
		}
	}
	if r.Err != nil {
		return nil, r.Err
	}
	if ids.Err != nil {
		return nil, ids.Err
	}
	return o, bs.Err
}

func PSKOffersExt(os []PSKOffer) []byte {
	ids, bs := &W{}, &W{}
	for _, o := range os {
		ids.V16(o.Identity).U32(o.Age)
		bs.V8(o.Binder)
	}
	return (&W{}).V16(ids.B).V16(bs.B).B
}

// BindersLen is the length of the binders list, including its length prefix.
func BindersLen(os []PSKOffer) int {
	n := 2
	for _, o := range os {
		n += 1 + len(o.Binder)
	}
	return n
}

// CertMsg builds a Certificate message.
func CertMsg(ctx []byte, ders ...[]byte) []byte {
	l := &W{}
	for _, d := range ders {
		l.V24(d).V16(nil)
	}
	return Msg(TCert, (&W{}).V8(ctx).V24(l.B).B)
}

// ParseCertMsg returns the DER certificates.
func ParseCertMsg(body []byte) (ctx []byte, ders [][]byte, err error) {
	r := &R{B: body}
	ctx = r.V8()
	l := &R{B: r.V24()}
	for len(l.B) > 0 && l.Err == nil {
		ders = append(ders, l.V24())
		l.V16()
	}
	if r.Err != nil {
		return nil, nil, r.Err
	}
	if len(r.B) != 0 {
		return nil, nil, fmt.Errorf("trailing bytes")
	}
	return ctx, ders, l.Err
}

// NST is a NewSessionTicket.
type NST struct {
	Lifetime, AgeAdd uint32
	Nonce, Ticket    []byte
	Exts             Exts
}

func ParseNST(body []byte) (*NST, error) {
	r := &R{B: body}
	t := &NST{Lifetime: r.U32(), AgeAdd: r.U32(), Nonce: r.V8(), Ticket: r.V16()}
	x := r.V16()
	if r.Err != nil {
		return nil, r.Err
	}
	var err error
	t.Exts, err = ParseExts(x)
	return t, err
}

func (t *NST) Msg() []byte {
	return Msg(TNST, (&W{}).U32(t.Lifetime).U32(t.AgeAdd).V8(t.Nonce).V16(t.Ticket).V16(t.Exts.Bytes()).B)
}
