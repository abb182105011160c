package ref

import (
	"bytes"
	"crypto"
	"crypto/rand"
	"errors"
	"fmt"
)

// Peer is one side of a TLS connection driven message by message.  It never
// enforces an order on what it sends: it computes every message correctly with
// respect to the transcript it has actually seen and sent, which is what a
// capable attacker would do.
type Peer struct {
	IsServer bool
	Alg      Alg
	S        *Schedule
	Kex      map[int]*Kex
	Tr       []byte // transcript so far (with the HRR substitution applied)
	In, Out  *Keys  // nil: plaintext
	raw      []byte // undelimited incoming bytes
	hs       []byte // incoming handshake bytes not yet parsed
	Sent     []byte // bytes to hand to the endpoint under test
	DH       []byte

	CH, CH1, SH, HRR *Hello
	CHMsg            []byte // last ClientHello message
	CHOut            []byte // client role: last ClientHello sent
	EOEDSent         bool
	FinHash          []byte // transcript hash the peer's Finished must cover
	Early            *Keys  // client role: early data keys
	RecordVersion    int
	SkipBad          bool // server role rejecting early data: skip undecryptable records
	InLog, OutLog    []Rec
	AppSoFar         []byte
	D                *dtlsState                                            // nil: TLS
	Mangle           func(m []byte) []byte                                 // applied to the next handshake message, then reset
	OnRec            func(k *Keys, ct byte, payload []byte) ([]byte, bool) // may take over the framing of a record
	OnFrag           func(k *Keys, m []byte, seq int) ([]byte, bool)       // may take over the framing of a DTLS message
	Hold             *[]Held                                               // when set, handshake payloads are collected instead of sent
}

// Held is a handshake payload and the keys it belongs under (nil: plaintext).
type Held struct {
	Payload []byte
	Keys    *Keys
}

// Rec is one record observed or sent.
type Rec struct {
	Type    byte // inner type
	Outer   byte
	Len     int
	Payload []byte
	Enc     bool
	Epoch   int    // DTLS
	Num     uint64 // DTLS
}

func NewServer() *Peer { return &Peer{IsServer: true, Kex: map[int]*Kex{}, RecordVersion: 0x0303} }
func NewClient() *Peer { return &Peer{Kex: map[int]*Kex{}, RecordVersion: 0x0301} }

func rnd(n int) []byte {
	b := make([]byte, n)
	if _, err := rand.Read(b); err != nil {
		panic(err)
	}
	return b
}

// Rnd returns random bytes.
func Rnd(n int) []byte { return rnd(n) }

// PlainRecord frames a plaintext record.
func (p *Peer) PlainRecord(ct byte, payload []byte) []byte {
	if p.D != nil {
		return p.dtlsRecord(nil, ct, payload)
	}
	return (&W{}).U8(int(ct)).U16(p.RecordVersion).V16(payload).B
}

// Record frames a record under the current keys.
func (p *Peer) Record(ct byte, payload []byte) []byte {
	return p.RecordUnder(p.Out, ct, payload)
}

// mangled applies and resets Mangle.
func (p *Peer) mangled(m []byte) []byte {
	if f := p.Mangle; f != nil {
		p.Mangle = nil
		return f(m)
	}
	return m
}

// Send queues a record for the endpoint under test.
func (p *Peer) Send(ct byte, payload []byte) {
	if p.Hold != nil && ct == RHandshake {
		*p.Hold = append(*p.Hold, Held{payload, p.Out})
		return
	}
	if ct == RHandshake {
		payload = p.mangled(payload)
	}
	if p.D != nil && ct == RHandshake {
		p.dtlsSend(p.Out, payload)
		return
	}
	for ct == RHandshake && len(payload) > 16384 {
		p.Sent = append(p.Sent, p.Record(ct, payload[:16384])...)
		payload = payload[16384:]
	}
	p.Sent = append(p.Sent, p.Record(ct, payload)...)
}

// RecordUnder frames a record under given keys.
func (p *Peer) RecordUnder(k *Keys, ct byte, payload []byte) []byte {
	if f := p.OnRec; f != nil {
		if b, ok := f(k, ct, payload); ok {
			return b
		}
	}
	if p.D != nil {
		return p.dtlsRecord(k, ct, payload)
	}
	if k == nil {
		return p.PlainRecord(ct, payload)
	}
	return k.Seal(ct, payload, 0)
}

// SendHS adds the message to the transcript and queues it in one record.
func (p *Peer) SendHS(m []byte) {
	m = p.mangled(m)
	p.Tr = append(p.Tr, m...)
	p.Send(RHandshake, m)
}

// Flush returns the queued bytes.
func (p *Peer) Flush() []byte {
	b := p.Sent
	p.Sent = nil
	return b
}

// TH is the current transcript hash.
func (p *Peer) TH() []byte { return p.hash(p.Alg, p.Tr) }

// ---- receiving ----

// Feed adds bytes written by the endpoint under test.
func (p *Peer) Feed(b []byte) { p.raw = append(p.raw, b...) }

var ErrMore = errors.New("ref: need more bytes")

// NextRecord returns the next record written by the endpoint.
func (p *Peer) NextRecord() (Rec, error) {
	if p.D != nil {
		return p.dtlsNext()
	}
	for {
		if len(p.raw) < 5 {
			return Rec{}, ErrMore
		}
		n := int(p.raw[3])<<8 | int(p.raw[4])
		if len(p.raw) < 5+n {
			return Rec{}, ErrMore
		}
		rec := append([]byte{}, p.raw[:5+n]...)
		r := Rec{Type: rec[0], Outer: rec[0], Len: n, Payload: rec[5:]}
		if p.In != nil {
			if rec[0] != RApp {
				p.raw = p.raw[5+n:]
				return r, fmt.Errorf("ref: record of type %d while keys are active", rec[0])
			}
			ct, pl, err := p.In.Open(rec)
			if err != nil {
				if p.SkipBad {
					p.raw = p.raw[5+n:]
					continue
				}
				return r, err
			}
			p.SkipBad = false
			r.Type, r.Payload, r.Enc = ct, pl, true
		}
		p.raw = p.raw[5+n:]
		if rec[1] != 3 {
			return r, errors.New("ref: record version")
		}
		p.InLog = append(p.InLog, r)
		return r, nil
	}
}

// RawPending is the undelivered part of the endpoint's output.
func (p *Peer) RawPending() int {
	if p.D != nil {
		p.skipOld()
	}
	return len(p.raw)
}

// BinderHash is what the binders of the ClientHello at the end of the transcript cover.
func (p *Peer) BinderHash(a Alg, os []PSKOffer) []byte {
	n := len(p.Tr) - len(p.CHMsg)
	return p.hash(a, p.Tr[:n], p.CHMsg[:len(p.CHMsg)-BindersLen(os)])
}

// Fragment makes the peer cut its DTLS messages into fragments of n bytes (0: none).
func (p *Peer) Fragment(n int) {
	if p.D != nil {
		p.D.MTU = n
	}
}

// AlertError is a received alert.
type AlertError struct{ Level, Desc byte }

func (a AlertError) Error() string {
	return fmt.Sprintf("ref: alert level %d desc %d", a.Level, a.Desc)
}

// NextHS returns the next complete handshake message (with header) of the endpoint.
func (p *Peer) NextHS() ([]byte, error) {
	for {
		if len(p.hs) >= 4 {
			n := int(p.hs[1])<<16 | int(p.hs[2])<<8 | int(p.hs[3])
			if len(p.hs) >= 4+n {
				m := append([]byte{}, p.hs[:4+n]...)
				p.hs = p.hs[4+n:]
				return m, nil
			}
		}
		r, err := p.NextRecord()
		if err != nil {
			return nil, err
		}
		switch r.Type {
		case RHandshake:
			if p.D != nil {
				if err := p.dtlsAdd(r); err != nil {
					return nil, err
				}
				continue
			}
			p.hs = append(p.hs, r.Payload...)
		case RAlert:
			if len(r.Payload) != 2 {
				return nil, fmt.Errorf("ref: alert record of %d bytes", len(r.Payload))
			}
			return nil, AlertError{r.Payload[0], r.Payload[1]}
		default:
			return nil, fmt.Errorf("ref: record type %d instead of handshake", r.Type)
		}
	}
}

// ExpectHS reads a message and checks its type.
func (p *Peer) ExpectHS(t int) ([]byte, error) {
	m, err := p.NextHS()
	if err != nil {
		return nil, err
	}
	if int(m[0]) != t {
		return m, fmt.Errorf("ref: message type %d, want %d", m[0], t)
	}
	return m, nil
}

// HSBuffered is the number of handshake bytes received but not parsed.
func (p *Peer) HSBuffered() int { return len(p.hs) }

// ---- server role ----

// RecvCH reads a ClientHello and starts (or, after an HRR, continues) the transcript.
func (p *Peer) RecvCH() error {
	m, err := p.ExpectHS(TCH)
	if err != nil {
		return err
	}
	h, err := ParseHello(true, p.D != nil, m[4:])
	if err != nil {
		return err
	}
	if p.CH != nil {
		p.CH1 = p.CH
	}
	p.CH, p.CHMsg = h, m
	p.Tr = append(p.Tr, m...)
	return nil
}

// MakeHRR builds a HelloRetryRequest for a suite with the given extensions and
// replaces ClientHello1 in the transcript.
func (p *Peer) MakeHRR(a Alg, exts Exts) []byte {
	p.Alg = a
	h := &Hello{Version: 0x0303, Random: HRRRandom, SessionID: p.CH.SessionID, Suites: []int{int(a.ID)}, Comp: []byte{0}, Exts: exts}
	m := h.Msg()
	if !(len(p.Tr) > 0 && p.Tr[0] == TMsgHash) {
		p.Tr = Msg(TMsgHash, p.hash(a, p.Tr))
	}
	p.HRR = h
	return m
}

// SHOpt describes a ServerHello.
type SHOpt struct {
	Suite     int
	Group     int // 0: no key share
	Share     []byte
	PSK       int // -1: none, else selected identity
	Version   int // supported_versions value; -1: omit
	Legacy    int
	SessionID []byte
	Extra     Exts
	Random    []byte
}

// MakeSH builds a ServerHello and runs the key schedule for it.  dh is computed
// with the client's share when Group matches one of them.
func (p *Peer) MakeSH(o SHOpt, psk []byte, resumption bool) ([]byte, error) {
	a, ok := SuiteByID(uint16(o.Suite))
	if !ok {
		a = AES128
	}
	p.Alg = a
	exts := Exts{}
	if o.Version >= 0 {
		v := o.Version
		if v == 0 {
			v = 0x0304
		}
		exts = append(exts, Ext{XVersions, (&W{}).U16(v).B})
	}
	var dh []byte
	if o.Group != 0 {
		k := p.Kex[o.Group]
		if k == nil {
			var err error
			k, err = NewKex(o.Group)
			if err != nil {
				k = &Kex{Group: o.Group, Pub: rnd(32)}
			}
			p.Kex[o.Group] = k
		}
		pub := k.Pub
		if o.Share != nil {
			pub = o.Share
		}
		exts = append(exts, Ext{XKeyShare, SharesExt(false, Share{o.Group, pub})})
		if p.CH != nil {
			ss, _ := ParseShares(p.CH.Exts.Find(XKeyShare))
			for _, s := range ss {
				if s.Group == o.Group && (k.ec != nil || k.x != nil) {
					d, err := k.Shared(s.Data)
					if err != nil {
						return nil, err
					}
					dh = d
				}
			}
		}
	}
	if o.PSK >= 0 {
		exts = append(exts, Ext{XPSK, (&W{}).U16(o.PSK).B})
	}
	exts = append(exts, o.Extra...)
	rn := o.Random
	if rn == nil {
		rn = rnd(32)
	}
	leg := o.Legacy
	if leg == 0 {
		leg = 0x0303
	}
	h := &Hello{Version: leg, Random: rn, SessionID: o.SessionID, Suites: []int{o.Suite}, Comp: []byte{0}, Exts: exts}
	p.SH = h
	p.DH = dh
	m := p.mangled(h.Msg())
	p.Tr = append(p.Tr, m...)
	var key []byte
	if o.PSK >= 0 {
		key = psk
	}
	p.S = NewSchedule(a, key, resumption)
	p.S.SetHandshake(dh, p.TH())
	return m, nil
}

// CVSign signs the current transcript.
func (p *Peer) CVSign(scheme int, key crypto.Signer, context string) ([]byte, error) {
	return Sign(scheme, key, CVInput(context, p.TH()))
}

// CVMsg builds a CertificateVerify.
func CVMsg(scheme int, sig []byte) []byte { return Msg(TCV, (&W{}).U16(scheme).V16(sig).B) }

// FinMsg builds this side's Finished over the current transcript.
func (p *Peer) FinMsg() []byte { return Msg(TFin, p.FinMAC(p.IsServer)) }

// FinMAC computes verify_data for the server or client over the current transcript.
func (p *Peer) FinMAC(server bool) []byte {
	base := p.S.CHS
	if server {
		base = p.S.SHS
	}
	return p.Alg.FinishedMAC(base, p.TH())
}

// CheckFin verifies a received Finished against the current transcript and appends it.
func (p *Peer) CheckFin(m []byte) error {
	if !bytes.Equal(m[4:], p.FinMAC(!p.IsServer)) {
		return errors.New("ref: Finished does not verify")
	}
	p.Tr = append(p.Tr, m...)
	return nil
}
