// Package drv drives mint endpoints with behaviours of the specifications.
package drv

import (
	"bytes"
	"crypto/x509"
	"errors"
	"fmt"
	"time"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

const Host = "example.com"

// HsCase is a behaviour of ClientHs.tla or ServerHs.tla.
type HsCase struct {
	Cfg   HsCfg    `json:"cfg"`
	Steps []HsStep `json:"steps"`
}
type HsCfg struct {
	PSK    string `json:"psk"`
	Early  bool   `json:"early"`
	ALPN   bool   `json:"alpn"`
	Verify string `json:"verify"`
	CCert  bool   `json:"ccert"`
	Key    string `json:"key"`
	DTLS   bool   `json:"dtls"`
}
type HsStep struct {
	M  string `json:"m"`
	St string `json:"st"`
}

func (c HsCase) Msgs() string {
	s := ""
	for i, x := range c.Steps {
		if i > 0 {
			s += ","
		}
		s += x.M
	}
	return s
}

// PSKFor builds a PSK.
func PSKFor(suite mint.CipherSuite, id string, resumption bool) mint.PreSharedKey {
	n := 32
	if suite == mint.TLS_AES_256_GCM_SHA384 {
		n = 48
	}
	k := make([]byte, n)
	for i := range k {
		k[i] = byte(i*7) ^ byte(len(id))
	}
	return mint.PreSharedKey{CipherSuite: suite, IsResumption: resumption, Identity: []byte(id), Key: k,
		ReceivedAt: time.Now(), ExpiresAt: time.Now().Add(24 * time.Hour), TicketAgeAdd: 0x01020304}
}

// ClientRun drives one client with a sequence of server messages.
type ClientRun struct {
	Cfg       HsCfg
	E         *eut.EUT
	P         *ref.Peer
	main      int
	alt       int
	scheme    int
	unoff     int
	mism      int
	psk       mint.PreSharedKey
	chain     [][]byte // last certificate chain presented
	ident     *eut.Ident
	oldTH     []byte // transcript hash of an unrelated handshake
	sawCR     bool
	crSigs    bool
	early     bool
	usedPSK   bool
	alpn      string
	suite     int
	connd     bool // handshake completion has been checked
	Bad       []string
	LastAlert mint.Alert // of the failure
	wrote     []byte     // early data written by the client
	cbCalls   int
	cbRaw     [][]byte
	appIn     []byte
	KeyUpd    int // key updates sent by the peer with a response requested
	hrrs      int
}

// NewClientRun creates the endpoint and produces its ClientHello.
func NewClientRun(cfg HsCfg) *ClientRun { return NewClientRunT(cfg, nil) }

// NewClientRunT is NewClientRun with the endpoint's AEADs traced.
func NewClientRunT(cfg HsCfg, tr *eut.Tracer) *ClientRun { return newClientRun(cfg, tr, false) }

func newClientRun(cfg HsCfg, tr *eut.Tracer, blocking bool) *ClientRun {
	r := &ClientRun{Cfg: cfg, P: ref.NewServer()}
	r.main, r.alt = 0x1301, 0x1302
	if cfg.Key == "p384" {
		r.main, r.alt = 0x1302, 0x1301
	}
	mc := &mint.Config{ServerName: Host, NonBlocking: !blocking, Time: eut.Clock,
		Groups: []mint.NamedGroup{mint.X25519, mint.P256}, UseDTLS: cfg.DTLS}
	if cfg.DTLS {
		r.P.UseDTLS()
	}
	switch cfg.Key {
	case "p256":
		r.scheme, r.unoff, r.mism = ref.ECDSA256, ref.ECDSA521, ref.ECDSA384
		mc.SignatureSchemes = []mint.SignatureScheme{mint.ECDSA_P256_SHA256, mint.ECDSA_P384_SHA384, mint.RSA_PSS_SHA256}
	case "p384":
		r.scheme, r.unoff, r.mism = ref.ECDSA384, ref.ECDSA521, ref.ECDSA256
		mc.SignatureSchemes = []mint.SignatureScheme{mint.ECDSA_P256_SHA256, mint.ECDSA_P384_SHA384, mint.RSA_PSS_SHA256}
	case "p521":
		r.scheme, r.unoff, r.mism = ref.ECDSA521, ref.ECDSA384, ref.ECDSA256
		mc.SignatureSchemes = []mint.SignatureScheme{mint.ECDSA_P256_SHA256, mint.ECDSA_P521_SHA512, mint.RSA_PSS_SHA256}
	case "rsa":
		r.scheme, r.unoff, r.mism = ref.PSS256, ref.PSS384, ref.PKCS1SHA256
		mc.SignatureSchemes = []mint.SignatureScheme{mint.RSA_PSS_SHA256, mint.ECDSA_P256_SHA256}
	}
	mc.CipherSuites = []mint.CipherSuite{mint.CipherSuite(r.main)}
	if cfg.PSK != "none" {
		mc.CipherSuites = []mint.CipherSuite{mint.CipherSuite(r.alt), mint.CipherSuite(r.main)}
		r.psk = PSKFor(mint.CipherSuite(r.main), "the identity", false)
		mc.PSKs = &mint.PSKMapCache{Host: r.psk}
		switch cfg.PSK {
		case "both":
			mc.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE, mint.PSKModeKE}
		case "dhe":
			mc.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE}
		case "ke":
			mc.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeKE}
		}
	} else {
		r.psk = PSKFor(mint.CipherSuite(r.main), "unknown", false)
	}
	mc.AllowEarlyData = cfg.Early
	if cfg.ALPN {
		mc.NextProtos = []string{"h2", "http/1.1"}
	}
	pki := eut.ThePKI()
	if cfg.CCert {
		mc.Certificates = []*mint.Certificate{pki.Ident("p256", "good2", "client").Mint()}
	}
	mc.RootCAs = pki.CA.Pool
	switch cfg.Verify {
	case "skip", "skipcbok", "skipcbrej":
		mc.InsecureSkipVerify = true
	}
	switch cfg.Verify {
	case "cbok", "skipcbok", "cbrej", "skipcbrej":
		rej := cfg.Verify == "cbrej" || cfg.Verify == "skipcbrej"
		skip := mc.InsecureSkipVerify
		mc.VerifyPeerCertificate = func(raw [][]byte, chains [][]*x509.Certificate) error {
			r.cbCalls++
			r.cbRaw = raw
			if skip && chains != nil {
				r.badf("callback got verified chains although verification is skipped")
			}
			if !skip && len(chains) == 0 {
				r.badf("callback got no verified chains")
			}
			if rej {
				return errors.New("rejected by the application")
			}
			return nil
		}
	}
	r.oldTH = ref.Rnd(32)
	if tr != nil {
		tr.Attach(mc, true)
	}
	r.E = eut.New(mc, true)
	return r
}

func (r *ClientRun) badf(f string, a ...interface{}) { r.Bad = append(r.Bad, fmt.Sprintf(f, a...)) }

// Start makes the client send its ClientHello (and early data).
func (r *ClientRun) Start() eut.Res {
	res := r.E.Step()
	if res.Out != eut.Progress {
		return res
	}
	r.drain()
	if err := r.P.RecvCH(); err != nil {
		r.badf("ClientHello: %v", err)
		return res
	}
	r.checkCH()
	if r.Cfg.Early && r.Cfg.PSK != "none" {
		a, _ := ref.SuiteByID(uint16(r.main))
		s := ref.NewSchedule(a, r.psk.Key, r.psk.IsResumption)
		s.SetEarly(a.Hash(r.P.CHMsg))
		r.P.Early = a.Keys(s.CETraffic)
		r.wrote = []byte("early bird")
		if n, err, o, note := r.E.Write(r.wrote); err != nil || o != "" || n != len(r.wrote) {
			r.badf("early Write: %d %v %s %s", n, err, o, note)
		}
		r.drain()
	} else {
		if n, err, _, _ := r.E.Write([]byte("too early")); err == nil || n != 0 {
			r.badf("client accepted a Write of application data before completion")
		}
	}
	return res
}

// checkCH checks what the client offers.
func (r *ClientRun) checkCH() {
	h := r.P.CH
	offerPSK := r.Cfg.PSK != "none"
	if h.Exts.Has(ref.XPSK) != offerPSK {
		r.badf("PSK offered=%v want %v", h.Exts.Has(ref.XPSK), offerPSK)
	}
	if got, want := h.Exts.Has(ref.XEarly), r.Cfg.Early && offerPSK && r.hrrs == 0; got != want {
		r.badf("early data offered=%v want %v", got, want)
	}
	if got := len(ref.ParseALPN(h.Exts.Find(ref.XALPN))); (got == 2) != r.Cfg.ALPN || (got == 0) == r.Cfg.ALPN {
		r.badf("ALPN offer has %d protocols", got)
	}
	if len(h.Suites) != 1 || h.Suites[0] != r.main {
		r.badf("suites offered %x", h.Suites)
	}
	if offerPSK {
		os, err := ref.ParsePSKOffers(h.Exts.Find(ref.XPSK))
		if err != nil || len(os) != 1 || !bytes.Equal(os[0].Identity, r.psk.Identity) {
			r.badf("PSK offers %v %v", os, err)
			return
		}
		if h.Exts[len(h.Exts)-1].Type != ref.XPSK {
			r.badf("PSK extension is not last")
		}
		a, _ := ref.SuiteByID(uint16(r.main))
		s := ref.NewSchedule(a, r.psk.Key, r.psk.IsResumption)
		want := s.Binder(r.P.BinderHash(a, os))
		if !bytes.Equal(os[0].Binder, want) {
			r.badf("binder does not verify")
		}
	}
}

func (r *ClientRun) drain() { r.P.Feed(r.E.W.TakeBytes()) }

// Build computes the wire bytes of the symbol and updates the peer.
func (r *ClientRun) Build(m string) []byte {
	p := r.P
	pki := eut.ThePKI()
	sh := func(o ref.SHOpt) []byte {
		if o.Suite == 0 {
			o.Suite = r.main
		}
		o.SessionID = p.CH.SessionID
		var key []byte
		if o.PSK >= 0 {
			key = r.psk.Key
		}
		b, err := p.MakeSH(o, key, r.psk.IsResumption)
		if err != nil {
			panic(fmt.Sprintf("MakeSH %s: %v", m, err))
		}
		r.suite = o.Suite
		r.usedPSK = o.PSK >= 0
		return b
	}
	afterSH := func() {
		p.Out, p.In = p.Alg.Keys(p.S.SHS), p.Alg.Keys(p.S.CHS)
	}
	sendSH := func(o ref.SHOpt) {
		b := sh(o)
		p.Send(ref.RHandshake, b)
		afterSH()
	}
	plainHS := func(b []byte) { p.Sent = append(p.Sent, p.HSUnder(nil, 0, b)...) }
	ee := func(x ref.Exts) []byte { return ref.Msg(ref.TEE, (&ref.W{}).V16(x.Bytes()).B) }
	connected := r.connd
	alg := p.Alg
	if alg.New == nil {
		alg, _ = ref.SuiteByID(uint16(r.main))
		p.Alg = alg
	}
	if p.S == nil && m[0] != 'S' && m != "EE+SH.dhe" {
		// messages that need secrets before the key exchange: use made-up ones
		p.S = ref.NewSchedule(alg, nil, false)
		p.S.SetHandshake(nil, p.TH())
		defer func() { p.S = nil }()
	}
	X := func(o ref.SHOpt) {
		if connected || (p.Out != nil && r.connd) {
			b := (&ref.Hello{Version: 0x0303, Random: ref.Rnd(32), Suites: []int{r.main}, Comp: []byte{0}, Exts: ref.Exts{{Type: ref.XVersions, Data: ref.U16List(0x0304)[2:]}}}).Msg()
			p.Send(ref.RHandshake, b)
			return
		}
		if p.Out != nil { // a second ServerHello, under the handshake keys
			q := p.Clone()
			q.Out = p.Out
			b, err := q.MakeSH(func() ref.SHOpt {
				if o.Suite == 0 {
					o.Suite = r.main
				}
				return o
			}(), r.psk.Key, false)
			if err != nil {
				panic(err)
			}
			p.SendHS(b)
			return
		}
		sendSH(o)
	}
	dhe := ref.SHOpt{Group: ref.X25519, PSK: -1}
	certMsg := func(what string) []byte {
		if what == "empty" {
			r.chain = nil
			if r.ident == nil {
				r.ident = pki.Ident(r.Cfg.Key, "good", Host)
			}
			return ref.CertMsg(nil)
		}
		id := pki.Ident(r.Cfg.Key, what, Host)
		r.ident, r.chain = id, id.DERs()
		return ref.CertMsg(nil, id.DERs()...)
	}
	cv := func(scheme int, key *eut.Ident, ctx string, th []byte) []byte {
		if key == nil {
			key = pki.Ident(r.Cfg.Key, "good", Host)
		}
		sig, err := ref.Sign(scheme, key.Key, ref.CVInput(ctx, th))
		if err != nil {
			sig = ref.Rnd(64)
		}
		return ref.CVMsg(scheme, sig)
	}
	switch m {
	case "SH.dhe":
		X(dhe)
	case "SH.psk_dhe":
		X(ref.SHOpt{Group: ref.X25519, PSK: 0})
	case "SH.psk_ke":
		X(ref.SHOpt{PSK: 0})
	case "SH.none":
		X(ref.SHOpt{PSK: -1})
	case "SH.badgroup":
		X(ref.SHOpt{Group: ref.P384, PSK: -1})
	case "SH.offcurve":
		b := ref.Rnd(65)
		b[0] = 4
		X(ref.SHOpt{Group: ref.P256, PSK: -1, Share: b})
	case "SH.shortshare":
		k, _ := ref.NewKex(ref.P256)
		X(ref.SHOpt{Group: ref.P256, PSK: -1, Share: k.Pub[:33]})
	case "SH.unoffsuite":
		X(ref.SHOpt{Group: ref.X25519, PSK: -1, Suite: r.alt})
	case "SH.unknownsuite":
		X(ref.SHOpt{Group: ref.X25519, PSK: -1, Suite: 0x1303})
	case "SH.ver12":
		X(ref.SHOpt{Group: ref.X25519, PSK: -1, Version: 0x0303})
	case "SH.nosv":
		X(ref.SHOpt{Group: ref.X25519, PSK: -1, Version: -1})
	case "SH.legacy":
		X(ref.SHOpt{Group: ref.X25519, PSK: -1, Legacy: 0x0302})
	case "SH.pskidx1":
		X(ref.SHOpt{Group: ref.X25519, PSK: 1})
	case "SH.pskhash":
		X(ref.SHOpt{Group: ref.X25519, PSK: 0, Suite: r.alt})
	case "SH.dhe+EE":
		if p.Out != nil {
			X(dhe)
			break
		}
		b := sh(dhe)
		e := ee(nil)
		p.Tr = append(p.Tr, e...)
		p.SendPacked(append(append([]byte{}, b...), e...))
		afterSH()
	case "EE+SH.dhe": // EncryptedExtensions in the clear before the ServerHello
		if p.Out != nil {
			X(dhe)
			break
		}
		e := ee(nil)
		if r.Cfg.DTLS {
			p.SkipSeq(1)
			p.Sent = append(p.Sent, p.HSUnder(nil, 0, e)...)
			p.SkipSeq(-2)
			b := sh(dhe)
			p.Send(ref.RHandshake, b)
			p.SkipSeq(1)
			p.Tr = append(p.Tr, e...)
			afterSH()
			break
		}
		b := sh(dhe)
		p.Tr = append(p.Tr, e...)
		p.Send(ref.RHandshake, append(append([]byte{}, e...), b...))
		afterSH()
	case "HRR", "HRR.nocookie", "HRR.extra", "HRR.suite":
		x := ref.Exts{{Type: ref.XVersions, Data: (&ref.W{}).U16(0x0304).B}}
		if m != "HRR.nocookie" {
			x = append(x, ref.Ext{Type: ref.XCookie, Data: (&ref.W{}).V16([]byte("cookie!")).B})
		}
		if m == "HRR.extra" {
			x = append(x, ref.Ext{Type: 0xfabc, Data: []byte{1}})
		}
		a := alg
		if m == "HRR.suite" {
			a, _ = ref.SuiteByID(uint16(r.alt))
		}
		if p.Out != nil {
			b := (&ref.Hello{Version: 0x0303, Random: ref.HRRRandom, Suites: []int{int(a.ID)}, Comp: []byte{0}, Exts: x}).Msg()
			p.SendHS(b)
			break
		}
		b := p.MakeHRR(a, x)
		p.SendHS(b)
		p.Alg = alg
	case "EE":
		p.SendHS(ee(nil))
	case "EE.early":
		p.SendHS(ee(ref.Exts{{Type: ref.XEarly}}))
		r.early = true
	case "EE.alpn":
		p.SendHS(ee(ref.Exts{{Type: ref.XALPN, Data: ref.ALPNExt("http/1.1")}}))
		r.alpn = "http/1.1"
	case "EE.alpnbad":
		p.SendHS(ee(ref.Exts{{Type: ref.XALPN, Data: ref.ALPNExt("spdy/1")}}))
	case "EE.alpn2":
		p.SendHS(ee(ref.Exts{{Type: ref.XALPN, Data: ref.ALPNExt("h2", "http/1.1")}}))
	case "EE@plain":
		b := ee(nil)
		p.Tr = append(p.Tr, b...)
		plainHS(b)
	case "EE.frag":
		b := ee(nil)
		if r.Cfg.DTLS {
			p.Fragment(1)
			p.SendHS(b)
			p.Fragment(0)
			break
		}
		p.Tr = append(p.Tr, b...)
		p.Send(ref.RHandshake, b[:3])
		p.Send(ref.RHandshake, b[3:])
	case "EE.trail":
		p.SendHS(ref.Msg(ref.TEE, append((&ref.W{}).V16(nil).B, 0)))
	case "CR", "CR.ctx", "CR.nosig":
		x := ref.Exts{{Type: ref.XSigAlgs, Data: ref.U16List(ref.ECDSA256, ref.PSS256)}}
		if m == "CR.nosig" {
			x = ref.Exts{}
		}
		ctx := []byte{}
		if m == "CR.ctx" {
			ctx = []byte{1, 2, 3}
		}
		r.sawCR = true
		p.SendHS(ref.Msg(ref.TCR, (&ref.W{}).V8(ctx).V16(x.Bytes()).B))
	case "Cert.good", "Cert.inter", "Cert.extra", "Cert.nointer", "Cert.name", "Cert.untrusted", "Cert.expired", "Cert.future", "Cert.interName",
		"Cert.interExpired", "Cert.interUntrusted", "Cert.subExpired", "Cert.leafCA", "Cert.extraName", "Cert.usage", "Cert.empty":
		p.SendHS(certMsg(m[5:]))
	case "Cert@plain":
		b := certMsg("good")
		p.Tr = append(p.Tr, b...)
		plainHS(b)
	case "CV.ok":
		p.SendHS(cv(r.scheme, r.ident, ref.ServerCVContext, p.TH()))
	case "CV.badsig":
		b := cv(r.scheme, r.ident, ref.ServerCVContext, p.TH())
		b[len(b)-1] ^= 1
		p.SendHS(b)
	case "CV.wrongkey":
		p.SendHS(cv(r.scheme, pki.Ident(r.Cfg.Key, "good2", Host), ref.ServerCVContext, p.TH()))
	case "CV.wrongctx":
		p.SendHS(cv(r.scheme, r.ident, ref.ClientCVContext, p.TH()))
	case "CV.stale":
		p.SendHS(cv(r.scheme, r.ident, ref.ServerCVContext, r.oldTH))
	case "CV.unoffered":
		p.SendHS(cv(r.unoff, r.ident, ref.ServerCVContext, p.TH()))
	case "CV.mismatch":
		p.SendHS(cv(r.mism, r.ident, ref.ServerCVContext, p.TH()))
	case "CV.empty":
		p.SendHS(ref.CVMsg(r.scheme, nil))
	case "CV@plain":
		b := cv(r.scheme, r.ident, ref.ServerCVContext, p.TH())
		p.Tr = append(p.Tr, b...)
		plainHS(b)
	case "Fin":
		p.SendHS(p.FinMsg())
	case "Fin.bad":
		b := p.FinMsg()
		b[4] ^= 0x80
		p.SendHS(b)
	case "Fin.badlast":
		b := p.FinMsg()
		b[len(b)-1] ^= 1
		p.SendHS(b)
	case "Fin.short":
		b := p.FinMAC(true)
		p.SendHS(ref.Msg(ref.TFin, b[:len(b)-1]))
	case "Fin.long":
		p.SendHS(ref.Msg(ref.TFin, append(p.FinMAC(true), 0)))
	case "Fin.empty":
		p.SendHS(ref.Msg(ref.TFin, nil))
	case "Fin.client":
		p.SendHS(ref.Msg(ref.TFin, p.FinMAC(false)))
	case "Fin@plain":
		b := p.FinMsg()
		p.Tr = append(p.Tr, b...)
		plainHS(b)
	case "Fin@app":
		b := p.FinMsg()
		p.Tr = append(p.Tr, b...)
		q := *p.S
		q.SetApp(p.TH())
		p.Sent = append(p.Sent, p.HSUnder(alg.Keys(q.SAP), 3, b)...)
	case "Fin+NST":
		b := p.FinMsg()
		p.Tr = append(p.Tr, b...)
		n := (&ref.NST{Lifetime: 100, AgeAdd: 1, Nonce: []byte{1}, Ticket: []byte("t")}).Msg()
		p.SendPacked(append(b, n...))
	case "NST":
		n := (&ref.NST{Lifetime: 100, AgeAdd: 1, Nonce: []byte{1}, Ticket: []byte("tick")}).Msg()
		p.Send(ref.RHandshake, n)
	case "KU0", "KU1":
		p.Send(ref.RHandshake, ref.Msg(ref.TKU, []byte{m[2] - '0'}))
		if connected {
			p.Out = alg.Next(p.Out)
			if m == "KU1" {
				r.KeyUpd++
			}
		}
	case "KU.bad":
		p.Send(ref.RHandshake, ref.Msg(ref.TKU, []byte{2}))
	case "KU.empty":
		p.Send(ref.RHandshake, ref.Msg(ref.TKU, nil))
	case "KU.long":
		p.Send(ref.RHandshake, ref.Msg(ref.TKU, []byte{0, 0}))
	case "KU+KU":
		p.SendPacked(append(ref.Msg(ref.TKU, []byte{0}), ref.Msg(ref.TKU, []byte{0})...))
	case "KU+NST":
		n := (&ref.NST{Lifetime: 100, AgeAdd: 1, Nonce: []byte{1}, Ticket: []byte("tick")}).Msg()
		p.SendPacked(append(ref.Msg(ref.TKU, []byte{0}), n...))
	case "NST.bad":
		n := (&ref.NST{Lifetime: 100, AgeAdd: 1, Nonce: []byte{1}, Ticket: []byte("tick")}).Msg()
		p.Send(ref.RHandshake, ref.Msg(ref.TNST, append(n[4:], 0)))
	case "App":
		b := []byte(fmt.Sprintf("application data %d", len(r.appIn)))
		p.Send(ref.RApp, b)
		if connected {
			r.appIn = append(r.appIn, b...)
		}
	case "App@plain":
		p.Sent = append(p.Sent, p.PlainRecord(ref.RApp, []byte("plain text"))...)
	case "EOED":
		p.SendHS(ref.Msg(ref.TEOED, nil))
	case "CH":
		p.SendHS(p.CHMsg)
	case "Junk":
		p.SendHS(ref.Msg(99, []byte("junk")))
	case "MsgHash":
		p.SendHS(ref.Msg(ref.TMsgHash, ref.Rnd(32)))
	case "Alert.close":
		p.Send(ref.RAlert, []byte{1, 0})
	case "Alert.fatal":
		p.Send(ref.RAlert, []byte{2, 40})
	case "Alert.warn":
		p.Send(ref.RAlert, []byte{1, 90})
	case "Alert.short":
		p.Send(ref.RAlert, []byte{2})
	case "BadRec":
		b := p.RecordUnder(p.Out.Clone(), ref.RHandshake, p.HSFrame(ref.Msg(ref.TEE, []byte{0, 0})))
		b[len(b)-1] ^= 0x40
		p.Sent = append(p.Sent, b...)
	default:
		panic("unknown message symbol " + m)
	}
	return p.Flush()
}

// Do delivers one message and reports the resulting phase class:
// wait, CONNECTED, FAILED, CLOSED, BROKEN, panic, hang.
func (r *ClientRun) Do(m string) (string, string) {
	put(r.E, r.Build(m))
	return r.Observe(m)
}

// put hands the peer's bytes to the endpoint, in DTLS one record per datagram.
func put(e *eut.EUT, b []byte) {
	if !e.Cfg.UseDTLS {
		e.W.Put(b)
		return
	}
	for _, d := range ref.SplitDTLS(b) {
		e.W.Put(d)
	}
}

// Observe lets the endpoint process its input.
func (r *ClientRun) Observe(m string) (string, string) {
	if !r.connd {
		return r.settle(r.E.Step(), m)
	}
	rr := r.E.ReadAll(4096)
	return r.afterRead(rr, m)
}

// settle judges the result of handshake calls after message m.
func (r *ClientRun) settle(res eut.Res, m string) (string, string) {
	{
		switch res.Out {
		case eut.Panicked, eut.Hung:
			return string(res.Out), res.Note
		case eut.Failed:
			r.LastAlert = res.Alert
			return "FAILED", res.String()
		case eut.Progress:
			if m == "HRR" {
				r.hrrs++
				r.drain()
				if r.wrote != nil && r.hrrs == 1 {
					r.P.In = r.P.Early
					if rec, err := r.P.NextRecord(); err != nil || rec.Type != ref.RApp || !bytes.Equal(rec.Payload, r.wrote) {
						r.badf("early data record before the retry: %v", err)
					}
					r.P.In = nil
				}
				if err := r.P.RecvCH(); err != nil {
					r.badf("second ClientHello: %v", err)
				} else {
					r.checkCH()
					r.checkCH2()
				}
			}
			if r.E.IsConnected() {
				r.badf("connected but Handshake says would block")
			}
			return "wait", ""
		}
		r.connd = true
		r.checkConnected()
		return "CONNECTED", ""
	}
}

// afterRead judges what a connected endpoint read after message m.
func (r *ClientRun) afterRead(rr eut.RR, m string) (string, string) {
	if rr.Out != "" {
		return string(rr.Out), rr.Note
	}
	if !bytes.Equal(rr.Data, r.appIn) {
		r.badf("Read returned %q, peer sent %q", trunc(rr.Data), trunc(r.appIn))
	}
	r.appIn = nil
	if rr.EOF {
		r.LastAlert = mint.AlertCloseNotify
		return "CLOSED", ""
	}
	if rr.Err != nil {
		r.LastAlert = rr.Alert
		return "BROKEN", rr.Err.Error()
	}
	r.drain()
	for ; r.KeyUpd > 0; r.KeyUpd-- {
		b, err := r.P.ExpectHS(ref.TKU)
		if err != nil || !bytes.Equal(b[4:], []byte{0}) {
			r.badf("no answer to a key update request: %v", err)
			break
		}
		r.P.In = r.P.Alg.Next(r.P.In)
	}
	r.pingOut("after " + m)
	return "CONNECTED", ""
}

func trunc(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

// checkCH2: the second ClientHello only differs where it may.
func (r *ClientRun) checkCH2() {
	a, b := r.P.CH1, r.P.CH
	if got := b.Exts.Find(ref.XCookie); !bytes.Equal(got, (&ref.W{}).V16([]byte("cookie!")).B) {
		r.badf("second ClientHello carries cookie %x", got)
	}
	for _, t := range []int{ref.XSNI, ref.XGroups, ref.XSigAlgs, ref.XALPN, ref.XVersions, ref.XPSKModes} {
		if !bytes.Equal(a.Exts.Find(t), b.Exts.Find(t)) {
			r.badf("second ClientHello changes extension %d", t)
		}
	}
}

func (r *ClientRun) pingOut(when string) {
	msg := []byte("ping " + when)
	n, err, o, note := r.E.Write(msg)
	if err != nil || o != "" || n != len(msg) {
		r.badf("Write %s: %d %v %s %s", when, n, err, o, note)
		return
	}
	r.drain()
	rec, err := r.P.NextRecord()
	if err != nil || rec.Type != ref.RApp || !bytes.Equal(rec.Payload, msg) {
		r.badf("application record %s: type %d %q err %v", when, rec.Type, trunc(rec.Payload), err)
	}
}

// checkConnected verifies the client's flight and what it reports with the reference.
func (r *ClientRun) checkConnected() {
	p := r.P
	r.drain()
	p.S.SetApp(p.TH())
	hsIn := p.In
	// 0-RTT data the client wrote, and EndOfEarlyData when it was accepted.
	if r.wrote != nil {
		p.In = p.Early
		if r.early {
			rec, err := p.NextRecord()
			if err != nil || rec.Type != ref.RApp || !bytes.Equal(rec.Payload, r.wrote) {
				r.badf("early data record: %v %q", err, trunc(rec.Payload))
				return
			}
			eoed, err := p.ExpectHS(ref.TEOED)
			if err != nil {
				r.badf("EndOfEarlyData: %v", err)
				return
			}
			p.Tr = append(p.Tr, eoed...)
		} else if r.hrrs == 0 {
			if rec, err := p.NextRecord(); err != nil || rec.Type != ref.RApp {
				r.badf("early data record: %v", err)
				return
			}
		}
	}
	p.In = hsIn
	if r.sawCR && !r.usedPSK {
		m, err := p.ExpectHS(ref.TCert)
		if err != nil {
			r.badf("client Certificate: %v", err)
			return
		}
		ctx, ders, err := ref.ParseCertMsg(m[4:])
		if err != nil || len(ctx) != 0 {
			r.badf("client Certificate: context %x, %v", ctx, err)
			return
		}
		p.Tr = append(p.Tr, m...)
		if r.Cfg.CCert {
			id := eut.ThePKI().Ident("p256", "good2", "client")
			if len(ders) != 1 || !bytes.Equal(ders[0], id.Chain[0].Raw) {
				r.badf("client presented a wrong chain of %d certificates", len(ders))
				return
			}
			cvm, err := p.ExpectHS(ref.TCV)
			if err != nil {
				r.badf("client CertificateVerify: %v", err)
				return
			}
			rd := &ref.R{B: cvm[4:]}
			sch := rd.U16()
			sig := rd.V16()
			if sch != ref.ECDSA256 {
				r.badf("client signed with scheme %04x", sch)
			}
			if err := ref.Verify(sch, id.Key.Public(), ref.CVInput(ref.ClientCVContext, p.TH()), sig); err != nil {
				r.badf("client CertificateVerify: %v", err)
				return
			}
			p.Tr = append(p.Tr, cvm...)
		} else if len(ders) != 0 {
			r.badf("client without a certificate presented one")
		}
	}
	fin, err := p.ExpectHS(ref.TFin)
	if err != nil {
		r.badf("client Finished: %v", err)
		return
	}
	if err := p.CheckFin(fin); err != nil {
		r.badf("client: %v", err)
		return
	}
	if p.HSBuffered() != 0 || p.RawPending() != 0 {
		r.badf("client sent more than its flight")
	}
	p.S.SetResumption(p.TH())
	p.In, p.Out = p.Alg.Keys(p.S.CAP), p.Alg.Keys(p.S.SAP)
	r.pingOut("after completion")
	cs := r.E.C.ConnectionState()
	if int(cs.CipherSuite.Suite) != r.suite {
		r.badf("reports suite %04x, used %04x", cs.CipherSuite.Suite, r.suite)
	}
	if cs.UsingPSK != r.usedPSK {
		r.badf("reports PSK %v, used %v", cs.UsingPSK, r.usedPSK)
	}
	if cs.UsingEarlyData != r.early {
		r.badf("reports early data %v, server said %v", cs.UsingEarlyData, r.early)
	}
	if cs.NextProto != r.alpn {
		r.badf("reports ALPN %q, server chose %q", cs.NextProto, r.alpn)
	}
	if r.usedPSK {
		if len(cs.PeerCertificates) != 0 {
			r.badf("reports peer certificates on a PSK handshake")
		}
	} else {
		if len(cs.PeerCertificates) != len(r.chain) {
			r.badf("reports %d peer certificates, server presented %d", len(cs.PeerCertificates), len(r.chain))
		} else {
			for i, c := range cs.PeerCertificates {
				if !bytes.Equal(c.Raw, r.chain[i]) {
					r.badf("reported certificate %d is not the presented one", i)
				}
			}
		}
		skip := r.Cfg.Verify == "skip" || r.Cfg.Verify == "skipcbok"
		if skip != (len(cs.VerifiedChains) == 0) {
			r.badf("reports %d verified chains with skip=%v", len(cs.VerifiedChains), skip)
		}
		if cb := r.Cfg.Verify == "cbok" || r.Cfg.Verify == "skipcbok"; cb != (r.cbCalls == 1) {
			r.badf("VerifyPeerCertificate called %d times", r.cbCalls)
		} else if cb && len(r.cbRaw) != len(r.chain) {
			r.badf("VerifyPeerCertificate saw %d certificates", len(r.cbRaw))
		}
	}
	e, err := r.E.C.ComputeExporter("EXPORTER-test", []byte("ctx"), 40)
	if err != nil || !bytes.Equal(e, p.S.Exporter("EXPORTER-test", []byte("ctx"), 40)) {
		r.badf("exporter differs from the key schedule (%v)", err)
	}
}

// AfterFailure checks that a failed handshake stays failed, whatever arrives.
func (r *ClientRun) AfterFailure(feed []byte) {
	failedDead(r.E, feed, r.badf)
}

func failedDead(e *eut.EUT, feed []byte, badf func(string, ...interface{})) {
	e.W.Take()
	chk := func(when string) {
		if e.Dead {
			return
		}
		res := e.HandshakeOnce()
		switch res.Out {
		case eut.Connected:
			badf("%s: Handshake succeeds after a failure", when)
		case eut.Progress:
			badf("%s: Handshake no longer reports the failure (%v)", when, res.Alert)
		case eut.Panicked, eut.Hung:
			badf("%s: %v", when, res)
			return
		}
		if e.IsConnected() {
			badf("%s: reports connected after a failure", when)
		}
		if n, err, o, note := e.Write([]byte("secret")); err == nil || n != 0 {
			badf("%s: Write accepted after a failure (%d, %v)", when, n, err)
		} else if o != "" {
			badf("%s: Write: %s %s", when, o, note)
		}
		rr := e.ReadAll(64)
		if len(rr.Data) != 0 {
			badf("%s: Read returned data after a failure: %q", when, trunc(rr.Data))
		}
		if rr.Out != "" {
			badf("%s: Read %s %s", when, rr.Out, rr.Note)
		} else if rr.Err == nil {
			badf("%s: Read does not report an error after a failure", when)
		}
		var err error
		if o, note := e.Guard(func() { _, err = e.C.ComputeExporter("l", nil, 16) }); o != "" {
			badf("%s: ComputeExporter %s %s", when, o, note)
		} else if err == nil {
			badf("%s: exporter available after a failure", when)
		}
		if o, note := e.Guard(func() { err = e.C.SendKeyUpdate(false) }); o != "" {
			badf("%s: SendKeyUpdate %s %s", when, o, note)
		} else if err == nil {
			badf("%s: SendKeyUpdate accepted after a failure", when)
		}
		for _, w := range e.W.Take() {
			if e.Cfg.UseDTLS {
				// retransmissions and ACKs of the handshake are harmless
				if len(w) > 13+2+1+16 && w[0] == ref.RApp && w[4] >= 3 {
					badf("%s: endpoint emitted a record of epoch %d and %d bytes after failing", when, w[4], len(w))
				}
				continue
			}
			if len(w) > 0 && (w[0] == ref.RHandshake || w[0] == ref.RApp && len(w) > 5+2+1+16) {
				badf("%s: endpoint emitted a record of type %d and %d bytes after failing", when, w[0], len(w))
			}
		}
	}
	chk("right after the failure")
	if len(feed) > 0 {
		put(e, feed)
		chk("after more input")
	}
	e.W.EOF()
	chk("at end of stream")
}

// Fork returns a run that shares the endpoint but has its own copy of the peer.
func (r *ClientRun) Fork() *ClientRun {
	q := *r
	q.P = r.P.Clone()
	return &q
}

// AdoptSeq makes a forked peer continue on the record sequence the endpoint has consumed.
func (r *ClientRun) AdoptSeq(o *ClientRun, m string) {
	if r.P.Out != nil && o.P.Out != nil && r.P.Out.Secret != nil && bytes.Equal(r.P.Out.Secret, o.P.Out.Secret) {
		r.P.Out.Seq = o.P.Out.Seq
	}
}

// Continue builds the rest of a legal server flight from a phase.
func (r *ClientRun) Continue(phase string, psk bool) []byte {
	var ms []string
	switch phase {
	case "WAIT_SH":
		ms = []string{"SH.dhe", "EE", "Cert.good", "CV.ok", "Fin"}
	case "WAIT_EE":
		ms = []string{"EE", "Cert.good", "CV.ok", "Fin"}
		if psk {
			ms = []string{"EE", "Fin"}
		}
	case "WAIT_CERT_CR", "WAIT_CERT":
		ms = []string{"Cert.good", "CV.ok", "Fin"}
	case "WAIT_CV":
		ms = []string{"CV.ok", "Fin"}
	case "WAIT_FIN":
		ms = []string{"Fin"}
	}
	var b []byte
	for _, m := range ms {
		b = append(b, r.Build(m)...)
	}
	if r.P.S != nil && len(ms) > 0 {
		r.P.S.SetApp(r.P.TH())
		b = append(b, r.P.RecordUnder(r.P.Alg.Keys(r.P.S.SAP), ref.RApp, []byte("data after a failed handshake"))...)
	}
	return b
}
