package ref

import (
	"bytes"
	"crypto/x509"
	"errors"
	"fmt"
)

// CHOpt describes a ClientHello.
type CHOpt struct {
	Suites    []int
	Groups    []int // supported_groups; nil: omit
	Shares    []int // groups to send shares for; nil: no key_share extension
	BadShare  []byte
	Sigs      []int  // nil: omit
	SNI       string // "": omit
	ALPN      []string
	Versions  []int // nil: omit
	PSKs      []PSKUse
	Modes     []int // nil: omit
	Early     bool
	Cookie    []byte
	SessionID []byte
	Comp      []byte
	Trail     []byte
	Extra     Exts
	PSKFirst  bool // put pre_shared_key before the other extensions
	DropBind  bool // omit the last binder
	Random    []byte
}

// PSKUse is an offered identity with the key for its binder.
type PSKUse struct {
	ID         []byte
	Key        []byte
	Resumption bool
	Suite      int
	Age        uint32
	BadBinder  int // 1: flip first bit, 2: flip last bit, 3: binder of other label
}

// MakeCH builds a ClientHello, appends it to the transcript and returns it.
func (p *Peer) MakeCH(o CHOpt) ([]byte, error) {
	x := Exts{}
	if o.Versions != nil {
		w := &W{}
		for _, v := range o.Versions {
			w.U16(v)
		}
		x = append(x, Ext{XVersions, (&W{}).V8(w.B).B})
	}
	if o.SNI != "" {
		x = append(x, Ext{XSNI, SNIExt(o.SNI)})
	}
	if o.Groups != nil {
		x = append(x, Ext{XGroups, U16List(o.Groups...)})
	}
	if o.Sigs != nil {
		x = append(x, Ext{XSigAlgs, U16List(o.Sigs...)})
	}
	if o.Shares != nil {
		var ss []Share
		for _, g := range o.Shares {
			k := p.Kex[g]
			if k == nil {
				var err error
				k, err = NewKex(g)
				if err != nil {
					k = &Kex{Group: g, Pub: rnd(32)}
				}
				p.Kex[g] = k
			}
			d := k.Pub
			if o.BadShare != nil {
				d = o.BadShare
			}
			ss = append(ss, Share{g, d})
		}
		x = append(x, Ext{XKeyShare, SharesExt(true, ss...)})
	}
	if o.ALPN != nil {
		x = append(x, Ext{XALPN, ALPNExt(o.ALPN...)})
	}
	if o.Cookie != nil {
		x = append(x, Ext{XCookie, (&W{}).V16(o.Cookie).B})
	}
	if o.Modes != nil {
		b := []byte{}
		for _, m := range o.Modes {
			b = append(b, byte(m))
		}
		x = append(x, Ext{XPSKModes, (&W{}).V8(b).B})
	}
	if o.Early {
		x = append(x, Ext{XEarly, nil})
	}
	x = append(x, o.Extra...)
	rn := o.Random
	if rn == nil {
		rn = rnd(32)
	}
	comp := o.Comp
	if comp == nil {
		comp = []byte{0}
	}
	h := &Hello{Client: true, DTLS: p.D != nil, Version: p.legacyVersion(), Random: rn, SessionID: o.SessionID, Suites: o.Suites, Comp: comp, Exts: x}
	if len(o.PSKs) > 0 {
		var os []PSKOffer
		for _, u := range o.PSKs {
			a, ok := SuiteByID(uint16(u.Suite))
			if !ok {
				return nil, errors.New("ref: PSK suite")
			}
			os = append(os, PSKOffer{u.ID, u.Age, make([]byte, a.Len())})
		}
		place := func() {
			e := Ext{XPSK, PSKOffersExt(os)}
			if o.PSKFirst {
				h.Exts = append(Exts{e}, x...)
			} else {
				h.Exts = append(append(Exts{}, x...), e)
			}
		}
		place()
		m := h.Msg()
		cut := m[:len(m)-BindersLen(os)]
		for i, u := range o.PSKs {
			a, _ := SuiteByID(uint16(u.Suite))
			res := u.Resumption
			if u.BadBinder == 3 {
				res = !res
			}
			s := NewSchedule(a, u.Key, res)
			b := s.Binder(p.hash(a, p.Tr, cut))
			switch u.BadBinder {
			case 1:
				b[0] ^= 0x80
			case 2:
				b[len(b)-1] ^= 1
			}
			os[i].Binder = b
		}
		if o.DropBind {
			// one binder less than identities
			ids := &W{}
			for _, f := range os {
				ids.V16(f.Identity).U32(f.Age)
			}
			bs := &W{}
			for _, f := range os[:len(os)-1] {
				bs.V8(f.Binder)
			}
			h.Exts = append(append(Exts{}, x...), Ext{XPSK, (&W{}).V16(ids.B).V16(bs.B).B})
		} else {
			place()
		}
	}
	m := h.Msg()
	if len(o.Trail) > 0 {
		m = Msg(TCH, append(append([]byte{}, m[4:]...), o.Trail...))
	}
	if p.CH != nil {
		p.CH1 = p.CH
	}
	m = p.mangled(m)
	p.CH, p.CHMsg = h, m
	p.Tr = append(p.Tr, m...)
	return m, nil
}

// RecvSH reads a ServerHello or HelloRetryRequest.
func (p *Peer) RecvSH() (hrr bool, err error) {
	m, err := p.ExpectHS(TSH)
	if err != nil {
		return false, err
	}
	h, err := ParseHello(false, false, m[4:])
	if err != nil {
		return false, err
	}
	if len(h.Suites) != 1 {
		return false, errors.New("ref: ServerHello suites")
	}
	a, ok := SuiteByID(uint16(h.Suites[0]))
	if !ok {
		return false, fmt.Errorf("ref: server selected suite %04x", h.Suites[0])
	}
	if p.HRR != nil && p.Alg.ID != a.ID {
		return false, errors.New("ref: suite differs from HelloRetryRequest")
	}
	p.Alg = a
	if h.IsHRR() {
		if p.HRR != nil {
			return true, errors.New("ref: second HelloRetryRequest")
		}
		p.HRR = h
		p.Tr = Msg(TMsgHash, p.hash(a, p.Tr))
		p.Tr = append(p.Tr, m...)
		return true, nil
	}
	p.SH = h
	p.Tr = append(p.Tr, m...)
	return false, nil
}

// Cookie is the cookie of the HelloRetryRequest.
func (p *Peer) Cookie() []byte {
	return (&R{B: p.HRR.Exts.Find(XCookie)}).V16()
}

// ClientKeys runs the key schedule after a ServerHello.  psks are the offers of the last ClientHello.
func (p *Peer) ClientKeys(psks []PSKUse) (sel int, err error) {
	sel = -1
	var key []byte
	var res bool
	if d := p.SH.Exts.Find(XPSK); d != nil {
		if len(d) != 2 {
			return sel, errors.New("ref: pre_shared_key in ServerHello")
		}
		sel = int(d[0])<<8 | int(d[1])
		if sel >= len(psks) {
			return sel, errors.New("ref: server selected an identity that was not offered")
		}
		key, res = psks[sel].Key, psks[sel].Resumption
	}
	var dh []byte
	if d := p.SH.Exts.Find(XKeyShare); d != nil {
		r := &R{B: d}
		g := r.U16()
		pub := r.V16()
		k := p.Kex[g]
		if r.Err != nil || k == nil {
			return sel, errors.New("ref: key share of the server")
		}
		dh, err = k.Shared(pub)
		if err != nil {
			return sel, err
		}
	} else if sel < 0 {
		return sel, errors.New("ref: neither key share nor PSK in ServerHello")
	}
	p.DH = dh
	p.S = NewSchedule(p.Alg, key, res)
	p.S.SetHandshake(dh, p.TH())
	p.In = p.Alg.Keys(p.S.SHS)
	return sel, nil
}

// SFlight is what the server sent after its ServerHello.
type SFlight struct {
	EE     Exts
	CR     bool
	CRExts Exts
	CRCtx  []byte
	Chain  [][]byte
	Scheme int
}

// RecvFlight reads and verifies EncryptedExtensions .. Finished.
func (p *Peer) RecvFlight(psk bool) (*SFlight, error) {
	f := &SFlight{}
	m, err := p.ExpectHS(TEE)
	if err != nil {
		return nil, err
	}
	r := &R{B: m[4:]}
	f.EE, err = ParseExts(r.V16())
	if err != nil || r.Err != nil || len(r.B) != 0 {
		return nil, fmt.Errorf("ref: EncryptedExtensions malformed %v", err)
	}
	p.Tr = append(p.Tr, m...)
	if !psk {
		m, err = p.NextHS()
		if err != nil {
			return nil, err
		}
		if m[0] == TCR {
			f.CR = true
			r := &R{B: m[4:]}
			f.CRCtx = r.V8()
			f.CRExts, err = ParseExts(r.V16())
			if err != nil || r.Err != nil {
				return nil, errors.New("ref: CertificateRequest malformed")
			}
			p.Tr = append(p.Tr, m...)
			m, err = p.NextHS()
			if err != nil {
				return nil, err
			}
		}
		if m[0] != TCert {
			return nil, fmt.Errorf("ref: message %d instead of Certificate", m[0])
		}
		ctx, ders, err := ParseCertMsg(m[4:])
		if err != nil || len(ctx) != 0 || len(ders) == 0 {
			return nil, fmt.Errorf("ref: Certificate malformed %v", err)
		}
		f.Chain = ders
		p.Tr = append(p.Tr, m...)
		cv, err := p.ExpectHS(TCV)
		if err != nil {
			return nil, err
		}
		r := &R{B: cv[4:]}
		f.Scheme = r.U16()
		sig := r.V16()
		c, err := x509.ParseCertificate(ders[0])
		if err != nil {
			return nil, err
		}
		if err := Verify(f.Scheme, c.PublicKey, CVInput(ServerCVContext, p.TH()), sig); err != nil {
			return nil, fmt.Errorf("ref: server CertificateVerify: %v", err)
		}
		p.Tr = append(p.Tr, cv...)
	}
	m, err = p.ExpectHS(TFin)
	if err != nil {
		return nil, err
	}
	if !bytes.Equal(m[4:], p.FinMAC(true)) {
		return nil, errors.New("ref: server Finished does not verify")
	}
	p.Tr = append(p.Tr, m...)
	if p.HSBuffered() != 0 {
		return nil, errors.New("ref: data after the server Finished in its record")
	}
	p.S.SetApp(p.TH())
	p.In = p.Alg.Keys(p.S.SAP)
	return f, nil
}
