package drv

import (
	"bytes"
	"crypto/x509"
	"encoding/hex"
	"errors"
	"fmt"
	"time"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// SrvCfg is a configuration record of ServerHs.tla.
type SrvCfg struct {
	Auth   string `json:"auth"`
	PSK    string `json:"psk"`
	Early  bool   `json:"early"`
	Cookie bool   `json:"cookie"`
	Key    string `json:"key"`
	DTLS   bool   `json:"dtls"`
	tweak  func(*mint.Config)
}

// SrvCase is a behaviour of ServerHs.tla.
type SrvCase struct {
	Cfg   SrvCfg   `json:"cfg"`
	Steps []HsStep `json:"steps"`
}

func (c SrvCase) Msgs() string { return HsCase{Steps: c.Steps}.Msgs() }

// ServerRun drives one server with a sequence of client messages.
type ServerRun struct {
	Cfg        SrvCfg
	E          *eut.EUT
	P          *ref.Peer
	MC         *mint.Config
	known      mint.PreSharedKey
	altPSK     mint.PreSharedKey
	unk        mint.PreSharedKey
	scheme     int
	unoff      int
	mism       int
	ident      *eut.Ident
	chain      [][]byte // client chain presented
	wantID     [][]byte // chain the server must report
	offers     []ref.PSKUse
	alpn       bool
	neg        bool // ServerHello seen
	accepted   bool // early data accepted
	usedPSK    bool
	hsOut      *ref.Keys
	earlySent  []byte
	earlyRead  []byte
	rejected   []byte
	oldTH      []byte
	connd      bool
	cookie     []byte
	lastCH     string
	Bad        []string
	LastAlert  mint.Alert // of the failure
	cbRaw      [][]byte
	cbCalls    int
	appIn      []byte
	KeyUpd     int
	retries    int
	suitesHRR  int
	handlerGen int
	early1     []byte // message sent before its time
}

const serverSuite = 0x1301

// NewServerRun creates the endpoint.
func NewServerRun(cfg SrvCfg) *ServerRun { return NewServerRunT(cfg, nil) }

// NewServerRunT is NewServerRun with the endpoint's AEADs traced.
func NewServerRunT(cfg SrvCfg, tr *eut.Tracer) *ServerRun { return newServerRun(cfg, tr, false) }

func newServerRun(cfg SrvCfg, tr *eut.Tracer, blocking bool) *ServerRun {
	r := &ServerRun{Cfg: cfg, P: ref.NewClient()}
	pki := eut.ThePKI()
	mc := &mint.Config{NonBlocking: !blocking, Time: eut.Clock,
		CipherSuites: []mint.CipherSuite{mint.TLS_AES_128_GCM_SHA256, mint.TLS_AES_256_GCM_SHA384},
		Groups:       []mint.NamedGroup{mint.X25519, mint.P256},
		Certificates: []*mint.Certificate{pki.Ident("p256", "good", Host).Mint()},
		PSKModes:     []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE, mint.PSKModeKE},
		UseDTLS:      cfg.DTLS,
	}
	if cfg.DTLS {
		r.P.UseDTLS()
	}
	switch cfg.Key {
	case "p256":
		r.scheme, r.unoff, r.mism = ref.ECDSA256, ref.ECDSA521, ref.ECDSA384
		mc.SignatureSchemes = []mint.SignatureScheme{mint.ECDSA_P256_SHA256, mint.ECDSA_P384_SHA384, mint.RSA_PSS_SHA256}
	case "p384":
		r.scheme, r.unoff, r.mism = ref.ECDSA384, ref.ECDSA521, ref.ECDSA256
		mc.SignatureSchemes = []mint.SignatureScheme{mint.ECDSA_P256_SHA256, mint.ECDSA_P384_SHA384, mint.RSA_PSS_SHA256}
	case "p521":
		r.scheme, r.unoff, r.mism = ref.ECDSA521, ref.ECDSA384, ref.ECDSA256
		mc.SignatureSchemes = []mint.SignatureScheme{mint.ECDSA_P256_SHA256, mint.ECDSA_P521_SHA512, mint.RSA_PSS_SHA256}
	case "rsa":
		r.scheme, r.unoff, r.mism = ref.PSS256, ref.PSS384, ref.PKCS1SHA256
		mc.SignatureSchemes = []mint.SignatureScheme{mint.RSA_PSS_SHA256, mint.ECDSA_P256_SHA256}
	}
	r.known = PSKFor(mint.TLS_AES_128_GCM_SHA256, "known identity", true)
	r.altPSK = PSKFor(mint.TLS_AES_256_GCM_SHA384, "alt identity", true)
	r.unk = PSKFor(mint.TLS_AES_128_GCM_SHA256, "some unknown identity", true)
	r.known.ReceivedAt = r.known.ReceivedAt.Add(-2 * time.Hour)
	if cfg.PSK != "none" {
		mc.PSKs = &mint.PSKMapCache{
			hex.EncodeToString(r.known.Identity):  r.known,
			hex.EncodeToString(r.altPSK.Identity): r.altPSK,
		}
		mc.SendSessionTickets = true
		mc.TicketLifetime = 3600
	} else {
		mc.PSKs = &mint.PSKMapCache{}
	}
	mc.AllowEarlyData = cfg.Early
	mc.RequireClientAuth = cfg.Auth != "none"
	if cfg.Auth == "cbok" || cfg.Auth == "cbrej" {
		rej := cfg.Auth == "cbrej"
		mc.VerifyPeerCertificate = func(raw [][]byte, chains [][]*x509.Certificate) error {
			r.cbCalls++
			r.cbRaw = raw
			if rej {
				return errors.New("rejected by the application")
			}
			return nil
		}
	}
	mc.RequireCookie = cfg.Cookie
	if cfg.Cookie {
		cp, err := mint.NewDefaultCookieProtector()
		if err != nil {
			panic(err)
		}
		mc.CookieProtector = cp
	}
	if cfg.tweak != nil {
		cfg.tweak(mc)
	}
	r.oldTH = ref.Rnd(32)
	r.MC = mc
	if tr != nil {
		tr.Attach(mc, false)
	}
	r.E = eut.New(mc, false)
	return r
}

func (r *ServerRun) badf(f string, a ...interface{}) { r.Bad = append(r.Bad, fmt.Sprintf(f, a...)) }
func (r *ServerRun) drain()                          { r.P.Feed(r.E.W.TakeBytes()) }

// Start lets the server wait for its first message.
func (r *ServerRun) Start() eut.Res {
	res := r.E.Step()
	if n, err, _, _ := r.E.Write([]byte("too early")); err == nil || n != 0 {
		r.badf("server accepted a Write of application data before completion")
	}
	return res
}

func (r *ServerRun) use(p mint.PreSharedKey) ref.PSKUse {
	return ref.PSKUse{ID: p.Identity, Key: p.Key, Resumption: p.IsResumption, Suite: int(p.CipherSuite),
		Age: uint32(time.Since(p.ReceivedAt)/time.Millisecond) + p.TicketAgeAdd}
}

// chOpt is the ClientHello of a symbol.
func (r *ServerRun) chOpt(m string) ref.CHOpt {
	o := ref.CHOpt{
		Suites: []int{0x1301, 0x1302}, Groups: []int{ref.X25519, ref.P256}, Shares: []int{ref.X25519},
		Sigs: []int{ref.ECDSA256, ref.PSS256}, SNI: Host, Versions: []int{0x0304}, Modes: []int{1},
	}
	k, u := r.use(r.known), r.use(r.unk)
	switch m {
	case "CH.full", "CK.bad", "CK.badlast", "CK.trunc", "CK.ext", "CK.none", "CK.forged", "CK.foreign":
	case "CK.suite":
		o.Suites = []int{0x1302}
	case "CH.unk":
		o.Extra = ref.Exts{{Type: 0x0a0a, Data: []byte{0}}, {Type: 0xff01, Data: []byte{0}}}
		o.Suites = []int{0x1a1a, 0x1301, 0x1302, 0xc02f}
		o.Sigs = []int{0x0807, ref.ECDSA256, 0x0401}
		o.Versions = []int{0x7f1c, 0x0304, 0x0303}
	case "CH.rich":
		u2 := u
		u2.ID = []byte("another unknown identity")
		o.PSKs, o.Modes, o.ALPN = []ref.PSKUse{u, u2}, []int{1, 0}, []string{"h2", "http/1.1"}
		o.Groups, o.Shares = []int{ref.X25519, ref.P256}, []int{ref.X25519, ref.P256}
		o.Extra = ref.Exts{{Type: 0x0a0a, Data: []byte{0}}}
	case "CH.sid32":
		o.SessionID = ref.Rnd(32)
	case "CH.share2":
		o.Groups, o.Shares = []int{ref.P384, ref.P256, ref.X25519}, []int{ref.P384, ref.P256, ref.X25519}
	case "CH.order":
		o.Suites = []int{0x1301}
		o.Groups, o.Shares = []int{ref.P256}, []int{ref.P256}
	case "CH.psk":
		o.PSKs, o.Modes = []ref.PSKUse{k}, []int{1, 0}
	case "CH.pskke":
		o.PSKs, o.Modes = []ref.PSKUse{k}, []int{0}
	case "CH.pskkens":
		o.PSKs, o.Modes, o.Shares, o.Groups = []ref.PSKUse{k}, []int{0}, nil, nil
	case "CH.psk2":
		o.PSKs = []ref.PSKUse{u, k}
	case "CH.early":
		o.PSKs, o.Early = []ref.PSKUse{k}, true
	case "CH.early2":
		o.PSKs, o.Early = []ref.PSKUse{u, k}, true
	case "CH.pskunknown":
		o.PSKs = []ref.PSKUse{u}
	case "CH.pskalt":
		o.PSKs, o.Suites = []ref.PSKUse{r.use(r.altPSK)}, []int{0x1301}
	case "CH.pskbad":
		k.BadBinder = 1
		o.PSKs = []ref.PSKUse{k}
	case "CH.pskbadlast":
		k.BadBinder = 2
		o.PSKs = []ref.PSKUse{k}
	case "CH.psklabel":
		k.BadBinder = 3
		o.PSKs = []ref.PSKUse{k}
	case "CH.pskkey":
		k.Key = ref.Rnd(32)
		o.PSKs = []ref.PSKUse{k}
	case "CH.psk2bad":
		k.BadBinder = 2
		o.PSKs = []ref.PSKUse{u, k}
	case "CH.pskage":
		k.Age += 3600 * 1000
		o.PSKs = []ref.PSKUse{k}
	case "CH.pskyoung":
		k.Age -= 3600 * 1000
		o.PSKs = []ref.PSKUse{k}
	case "CH.pskfirst":
		o.PSKs, o.PSKFirst = []ref.PSKUse{k}, true
	case "CH.pskcount":
		o.PSKs, o.DropBind = []ref.PSKUse{u, k}, true
	case "CH.nover":
		o.Versions = nil
	case "CH.ver12":
		o.Versions = []int{0x0303}
	case "CH.badsuite":
		o.Suites = []int{0x1303, 0xc02f}
	case "CH.comp":
		o.Comp = []byte{0, 1}
	case "CH.trail":
		o.Trail = []byte{0}
	case "CH.sid5":
		o.SessionID = ref.Rnd(5)
	case "CH.nogroup":
		o.Groups, o.Shares = []int{ref.P521}, []int{ref.P521}
	case "CH.noshare":
		o.Shares = nil
	case "CH.nosni":
		o.SNI = ""
	case "CH.nosig":
		o.Sigs = nil
	case "CH.nogroups":
		o.Groups = nil
	case "CH.sniother":
		o.SNI = "unknown." + Host
	case "CH.sigbad":
		o.Sigs = []int{ref.ECDSA384, ref.PSS256}
	case "CH.offcurve":
		b := ref.Rnd(65)
		b[0] = 4
		o.Groups, o.Shares, o.BadShare = []int{ref.P256}, []int{ref.P256}, b
	default:
		panic("unknown ClientHello symbol " + m)
	}
	if r.cookie != nil {
		o.Cookie = r.cookie
		if m != "CH.sid5" {
			o.SessionID = r.P.CH.SessionID // a client does not change it
		}
	}
	switch m {
	case "CK.none":
		o.Cookie = nil
	case "CK.bad":
		o.Cookie = append([]byte{}, r.cookie...)
		o.Cookie[0] ^= 1
	case "CK.badlast":
		o.Cookie = append([]byte{}, r.cookie...)
		o.Cookie[len(o.Cookie)-1] ^= 0x80
	case "CK.trunc":
		o.Cookie = r.cookie[:len(r.cookie)-1]
	case "CK.ext":
		o.Cookie = append(append([]byte{}, r.cookie...), 0)
	case "CK.forged":
		o.Cookie = ref.Rnd(80)
	case "CK.foreign":
		cp, err := mint.NewDefaultCookieProtector()
		if err != nil {
			panic(err)
		}
		b, err := cp.NewToken((&ref.W{}).U16(0x1301).V16(ref.Rnd(32)).V16(nil).B)
		if err != nil {
			panic(err)
		}
		o.Cookie = b
	}
	return o
}

// Build computes the wire bytes of a symbol.
func (r *ServerRun) Build(m string) []byte {
	p := r.P
	pki := eut.ThePKI()
	if m[0] == 'C' && (m[1] == 'H' || m[1] == 'K') {
		o := r.chOpt(m)
		if r.neg || r.connd {
			q := p.Clone()
			q.Tr = nil
			b, err := q.MakeCH(o)
			if err != nil {
				panic(err)
			}
			p.SendHS(b)
			return p.Flush()
		}
		if m == "CK.none" {
			// a fresh start
			p.Tr, p.HRR, p.CH = nil, nil, nil
			r.cookie = nil
		}
		b, err := p.MakeCH(o)
		if err != nil {
			panic(err)
		}
		r.lastCH = m
		r.offers = o.PSKs
		p.Send(ref.RHandshake, b)
		if o.Early {
			a, _ := ref.SuiteByID(uint16(o.PSKs[0].Suite))
			s := ref.NewSchedule(a, o.PSKs[0].Key, o.PSKs[0].Resumption)
			s.SetEarly(a.Hash(b))
			p.Early = a.Keys(s.CETraffic)
		}
		return p.Flush()
	}
	if p.Alg.New == nil {
		p.Alg, _ = ref.SuiteByID(serverSuite)
	}
	if p.S == nil && m != "Cert+CH" {
		p.S = ref.NewSchedule(p.Alg, nil, false)
		p.S.SetHandshake(nil, p.TH())
		p.S.SetApp(p.TH())
		defer func() { p.S = nil }()
	}
	plainHS := func(b []byte) {
		p.Tr = append(p.Tr, b...)
		p.Sent = append(p.Sent, p.HSUnder(nil, 0, b)...)
	}
	certMsg := func(what string) []byte {
		if what == "empty" {
			r.chain = nil
			return ref.CertMsg(nil)
		}
		id := pki.Ident(r.Cfg.Key, what, "client")
		r.ident, r.chain = id, id.DERs()
		return ref.CertMsg(nil, id.DERs()...)
	}
	cv := func(scheme int, id *eut.Ident, ctx string, th []byte) []byte {
		if id == nil {
			id = pki.Ident(r.Cfg.Key, "good", "client")
		}
		sig, err := ref.Sign(scheme, id.Key, ref.CVInput(ctx, th))
		if err != nil {
			sig = ref.Rnd(64)
		}
		return ref.CVMsg(scheme, sig)
	}
	switch m {
	case "Cert+CH":
		c := certMsg("good")
		p.Out = nil
		o := r.chOpt("CH.full")
		if r.Cfg.DTLS {
			p.SkipSeq(1)
			p.Sent = append(p.Sent, p.HSUnder(nil, 0, c)...)
			p.SkipSeq(-2)
		} else {
			p.Send(ref.RHandshake, c)
		}
		b, err := p.MakeCH(o)
		if err != nil {
			panic(err)
		}
		r.lastCH, r.offers, r.early1 = "CH.full", o.PSKs, c
		p.Send(ref.RHandshake, b)
	case "Early":
		b := []byte(fmt.Sprintf("0-RTT data %d;", len(r.earlySent)+len(r.rejected)))
		p.Sent = append(p.Sent, p.Early.Seal(ref.RApp, b, 0)...)
		if r.accepted {
			r.earlySent = append(r.earlySent, b...)
		} else {
			r.rejected = append(r.rejected, b...)
		}
	case "Early.bad":
		b := p.Early.Seal(ref.RApp, []byte("0-RTT"), 0)
		b[len(b)-1] ^= 1
		p.Sent = append(p.Sent, b...)
	case "EOED":
		p.SendHS(ref.Msg(ref.TEOED, nil))
		if r.accepted && r.hsOut != nil {
			p.Out = r.hsOut
			r.hsOut = nil
		}
	case "EOED.body":
		p.SendHS(ref.Msg(ref.TEOED, []byte{0}))
	case "EOED+Fin":
		a := ref.Msg(ref.TEOED, nil)
		p.Tr = append(p.Tr, a...)
		b := p.FinMsg()
		p.Tr = append(p.Tr, b...)
		p.Send(ref.RHandshake, append(a, b...))
	case "Cert.good", "Cert.inter", "Cert.untrusted", "Cert.expired", "Cert.extra", "Cert.interUntrusted", "Cert.empty":
		p.SendHS(certMsg(m[5:]))
	case "Cert@plain":
		plainHS(certMsg("good"))
	case "CV.ok":
		p.SendHS(cv(r.scheme, r.ident, ref.ClientCVContext, p.TH()))
	case "CV.badsig":
		b := cv(r.scheme, r.ident, ref.ClientCVContext, p.TH())
		b[len(b)-1] ^= 1
		p.SendHS(b)
	case "CV.wrongkey":
		p.SendHS(cv(r.scheme, pki.Ident(r.Cfg.Key, "good2", "client"), ref.ClientCVContext, p.TH()))
	case "CV.wrongctx":
		p.SendHS(cv(r.scheme, r.ident, ref.ServerCVContext, p.TH()))
	case "CV.stale":
		p.SendHS(cv(r.scheme, r.ident, ref.ClientCVContext, r.oldTH))
	case "CV.unoffered":
		p.SendHS(cv(r.unoff, r.ident, ref.ClientCVContext, p.TH()))
	case "CV.mismatch":
		p.SendHS(cv(r.mism, r.ident, ref.ClientCVContext, p.TH()))
	case "CV.empty":
		p.SendHS(ref.CVMsg(r.scheme, nil))
	case "CV@plain":
		plainHS(cv(r.scheme, r.ident, ref.ClientCVContext, p.TH()))
	case "Fin":
		p.SendHS(p.FinMsg())
	case "Fin.bad":
		b := p.FinMsg()
		b[4] ^= 0x80
		p.SendHS(b)
	case "Fin.badlast":
		b := p.FinMsg()
		b[len(b)-1] ^= 1
		p.SendHS(b)
	case "Fin.short":
		b := p.FinMAC(false)
		p.SendHS(ref.Msg(ref.TFin, b[:len(b)-1]))
	case "Fin.long":
		p.SendHS(ref.Msg(ref.TFin, append(p.FinMAC(false), 0)))
	case "Fin.empty":
		p.SendHS(ref.Msg(ref.TFin, nil))
	case "Fin.server":
		p.SendHS(ref.Msg(ref.TFin, p.FinMAC(true)))
	case "Fin@plain":
		plainHS(p.FinMsg())
	case "Fin@app":
		b := p.FinMsg()
		p.Tr = append(p.Tr, b...)
		p.Sent = append(p.Sent, p.HSUnder(p.Alg.Keys(p.S.CAP), 3, b)...)
	case "Fin+App":
		b := p.FinMsg()
		p.Tr = append(p.Tr, b...)
		p.SendPacked(append(b, ref.Msg(ref.TKU, []byte{0})...))
	case "NST":
		p.Send(ref.RHandshake, (&ref.NST{Lifetime: 100, AgeAdd: 1, Nonce: []byte{1}, Ticket: []byte("tick")}).Msg())
	case "KU0", "KU1":
		p.Send(ref.RHandshake, ref.Msg(ref.TKU, []byte{m[2] - '0'}))
		if r.connd {
			p.Out = p.Alg.Next(p.Out)
			if m == "KU1" {
				r.KeyUpd++
			}
		}
	case "KU.bad":
		p.Send(ref.RHandshake, ref.Msg(ref.TKU, []byte{2}))
	case "KU.empty":
		p.Send(ref.RHandshake, ref.Msg(ref.TKU, nil))
	case "KU.long":
		p.Send(ref.RHandshake, ref.Msg(ref.TKU, []byte{0, 0}))
	case "KU+KU":
		p.SendPacked(append(ref.Msg(ref.TKU, []byte{0}), ref.Msg(ref.TKU, []byte{0})...))
	case "App":
		b := []byte(fmt.Sprintf("application data %d", len(r.appIn)))
		p.Send(ref.RApp, b)
		if r.connd {
			r.appIn = append(r.appIn, b...)
		}
	case "App@plain":
		p.Sent = append(p.Sent, p.PlainRecord(ref.RApp, []byte("plain text"))...)
	case "SH":
		p.SendHS((&ref.Hello{Version: 0x0303, Random: ref.Rnd(32), Suites: []int{0x1301}, Comp: []byte{0}, Exts: ref.Exts{{Type: ref.XVersions, Data: []byte{3, 4}}}}).Msg())
	case "EE":
		p.SendHS(ref.Msg(ref.TEE, []byte{0, 0}))
	case "CR":
		x := ref.Exts{{Type: ref.XSigAlgs, Data: ref.U16List(ref.ECDSA256)}}
		p.SendHS(ref.Msg(ref.TCR, (&ref.W{}).V8(nil).V16(x.Bytes()).B))
	case "Junk":
		p.SendHS(ref.Msg(99, []byte("junk")))
	case "MsgHash":
		p.SendHS(ref.Msg(ref.TMsgHash, ref.Rnd(32)))
	case "Alert.close":
		p.Send(ref.RAlert, []byte{1, 0})
	case "Alert.fatal":
		p.Send(ref.RAlert, []byte{2, 40})
	case "Alert.warn":
		p.Send(ref.RAlert, []byte{1, 90})
	case "Alert.short":
		p.Send(ref.RAlert, []byte{2})
	case "BadRec":
		b := p.RecordUnder(p.Out.Clone(), ref.RHandshake, p.HSFrame(ref.Msg(ref.TFin, ref.Rnd(32))))
		b[len(b)-1] ^= 0x40
		p.Sent = append(p.Sent, b...)
	default:
		panic("unknown message symbol " + m)
	}
	return p.Flush()
}

// Do delivers one message and reports the observed phase class.
func (r *ServerRun) Do(m string) (string, string) {
	put(r.E, r.Build(m))
	return r.Observe(m)
}

func (r *ServerRun) readEarly() {
	if !r.Cfg.Early {
		return
	}
	if !r.MC.NonBlocking {
		buf := make([]byte, 7)
		o, note := r.E.Guard(func() {
			for len(r.earlyRead) < len(r.earlySent) {
				n, err := r.E.C.Read(buf)
				r.earlyRead = append(r.earlyRead, buf[:n]...)
				if err != nil {
					r.badf("Read of early data: %v", err)
					return
				}
			}
		})
		if o != "" {
			r.badf("Read of early data: %s %s", o, note)
		}
		return
	}
	rr := r.E.ReadAll(7)
	if rr.Out != "" {
		r.badf("Read of early data: %s %s", rr.Out, rr.Note)
	}
	if rr.Err != nil {
		r.badf("Read of early data: %v", rr.Err)
	}
	r.earlyRead = append(r.earlyRead, rr.Data...)
}

// Observe lets the endpoint process its input.
func (r *ServerRun) Observe(m string) (string, string) {
	if r.connd {
		return r.afterRead(r.E.ReadAll(4096), m)
	}
	return r.settle(r.E.Step(), m)
}

// afterRead judges what a connected endpoint read after message m.
func (r *ServerRun) afterRead(rr eut.RR, m string) (string, string) {
	if rr.Out != "" {
		return string(rr.Out), rr.Note
	}
	if !bytes.Equal(rr.Data, r.appIn) {
		r.badf("Read returned %q, peer sent %q", trunc(rr.Data), trunc(r.appIn))
	}
	r.appIn = nil
	if rr.EOF {
		r.LastAlert = mint.AlertCloseNotify
		return "CLOSED", ""
	}
	if rr.Err != nil {
		r.LastAlert = rr.Alert
		return "BROKEN", rr.Err.Error()
	}
	r.drain()
	for ; r.KeyUpd > 0; r.KeyUpd-- {
		b, err := r.P.ExpectHS(ref.TKU)
		if err != nil || !bytes.Equal(b[4:], []byte{0}) {
			r.badf("no answer to a key update request: %v", err)
			break
		}
		r.P.In = r.P.Alg.Next(r.P.In)
	}
	r.pingOut("after " + m)
	return "CONNECTED", ""
}

// clearSH tells whether an unprotected record holds a ServerHello that is no retry request.
func clearSH(w []byte, dtls bool) bool {
	h, m := 5, 4
	if dtls {
		h, m = 13, 12
	}
	return len(w) >= h+m+34 && w[0] == ref.RHandshake && (!dtls || w[3] == 0 && w[4] == 0) &&
		w[h] == ref.TSH && !bytes.Equal(w[h+m+2:h+m+34], ref.HRRRandom)
}

// settle judges the result of handshake calls after message m.
func (r *ServerRun) settle(res eut.Res, m string) (string, string) {
	switch res.Out {
	case eut.Panicked, eut.Hung:
		return string(res.Out), res.Note
	case eut.Failed:
		for _, w := range r.E.W.AllOut {
			if !r.neg && clearSH(w, r.Cfg.DTLS) {
				r.badf("server sent a ServerHello and then failed on the ClientHello")
			}
		}
		r.LastAlert = res.Alert
		return "FAILED", res.String()
	case eut.Progress:
		if r.E.IsConnected() {
			r.badf("connected but Handshake says would block")
		}
		r.drain()
		if !r.neg && m[0] == 'C' && (m[1] == 'H' || m[1] == 'K') {
			r.onHello(m)
		}
		if r.neg {
			r.readEarly()
			if len(r.earlyRead) > 0 && !bytes.Equal(r.earlyRead, r.earlySent) {
				r.badf("early data read %q, sent %q", trunc(r.earlyRead), trunc(r.earlySent))
			}
		}
		return "wait", ""
	}
	r.connd = true
	r.checkConnected(m)
	return "CONNECTED", ""
}

// onHello processes the server's answer to a ClientHello.
func (r *ServerRun) onHello(m string) {
	p := r.P
	hrr, err := p.RecvSH()
	if err != nil {
		r.badf("answer to %s: %v", m, err)
		return
	}
	if hrr {
		r.retries++
		if !r.Cfg.Cookie {
			r.badf("HelloRetryRequest from a server that needs no cookie")
		}
		c := p.Cookie()
		if len(c) == 0 {
			r.badf("HelloRetryRequest without a cookie")
		}
		if r.cookie != nil && m != "CK.none" {
			r.badf("second HelloRetryRequest")
		}
		if len(p.HRR.Exts) != 2 || !bytes.Equal(p.HRR.Exts.Find(ref.XVersions), []byte{3, 4}) {
			r.badf("HelloRetryRequest extensions %v", p.HRR.Exts)
		}
		if !bytes.Equal(p.HRR.SessionID, p.CH.SessionID) {
			r.badf("HelloRetryRequest does not echo the session id")
		}
		if p.RawPending() != 0 || p.HSBuffered() != 0 {
			r.badf("server sent more than a HelloRetryRequest")
		}
		r.cookie = c
		return
	}
	if r.Cfg.Cookie && r.cookie == nil {
		r.badf("ServerHello without a cookie exchange")
	}
	r.neg = true
	if !bytes.Equal(p.SH.SessionID, p.CH.SessionID) {
		r.badf("ServerHello does not echo the session id")
	}
	want := serverSuite
	if p.SH.Suites[0] != want {
		r.badf("server selected suite %04x", p.SH.Suites[0])
	}
	sel, err := p.ClientKeys(r.offers)
	if err != nil {
		r.badf("ServerHello: %v", err)
		return
	}
	r.usedPSK = sel >= 0
	hasShare := p.SH.Exts.Has(ref.XKeyShare)
	wantPSK := r.Cfg.PSK != "none" && map[string]bool{"CH.psk": true, "CH.pskke": true, "CH.pskkens": true, "CH.psk2": true, "CH.early": true, "CH.early2": true}[r.lastCH]
	if r.usedPSK != wantPSK {
		r.badf("%s: server uses PSK=%v, expected %v", r.lastCH, r.usedPSK, wantPSK)
	}
	if wantShare := !(r.usedPSK && (r.lastCH == "CH.pskke" || r.lastCH == "CH.pskkens")); hasShare != wantShare {
		r.badf("%s: server key share=%v, expected %v", r.lastCH, hasShare, wantShare)
	}
	if hasShare {
		g := (&ref.R{B: p.SH.Exts.Find(ref.XKeyShare)}).U16()
		wg := ref.X25519
		if r.lastCH == "CH.share2" || r.lastCH == "CH.order" {
			wg = ref.P256
		}
		if g != wg {
			r.badf("%s: server selected group %d, expected %d", r.lastCH, g, wg)
		}
	}
	f, err := p.RecvFlight(r.usedPSK)
	if err != nil {
		r.badf("server flight: %v", err)
		return
	}
	if p.RawPending() != 0 {
		r.badf("server sent more than its flight")
	}
	r.accepted = f.EE.Has(ref.XEarly)
	wantEarly := r.lastCH == "CH.early" && wantPSK && r.Cfg.Early
	if r.accepted != wantEarly {
		r.badf("%s: early data accepted=%v, expected %v", r.lastCH, r.accepted, wantEarly)
	}
	if f.EE.Has(ref.XALPN) {
		r.badf("ALPN selected without an offer")
	}
	if !r.usedPSK {
		if f.CR != (r.Cfg.Auth != "none") {
			r.badf("CertificateRequest sent=%v", f.CR)
		}
		if f.CR {
			got := ref.ParseU16List(f.CRExts.Find(ref.XSigAlgs))
			if len(got) != len(r.MC.SignatureSchemes) || len(f.CRCtx) != 0 {
				r.badf("CertificateRequest has %d schemes, context %x", len(got), f.CRCtx)
			}
		}
		if f.Scheme != ref.ECDSA256 {
			r.badf("server signed with scheme %04x", f.Scheme)
		}
		id := eut.ThePKI().Ident("p256", "good", Host)
		if len(f.Chain) != 1 || !bytes.Equal(f.Chain[0], id.Chain[0].Raw) {
			r.badf("server presented another chain")
		}
	}
	hs := p.Alg.Keys(p.S.CHS)
	if r.accepted {
		p.Out = p.Early
		r.hsOut = hs
	} else {
		p.Out = hs
	}
}

func (r *ServerRun) pingOut(when string) {
	msg := []byte("ping " + when)
	n, err, o, note := r.E.Write(msg)
	if err != nil || o != "" || n != len(msg) {
		r.badf("Write %s: %d %v %s %s", when, n, err, o, note)
		return
	}
	r.drain()
	rec, err := r.P.NextRecord()
	if err != nil || rec.Type != ref.RApp || !bytes.Equal(rec.Payload, msg) {
		r.badf("application record %s: type %d %q err %v", when, rec.Type, trunc(rec.Payload), err)
	}
}

func (r *ServerRun) checkConnected(m string) {
	p := r.P
	r.readEarly()
	if !bytes.Equal(r.earlyRead, r.earlySent) {
		r.badf("early data read %q, sent %q", trunc(r.earlyRead), trunc(r.earlySent))
	}
	p.S.SetResumption(p.TH())
	r.drain()
	if r.MC.SendSessionTickets {
		m, err := p.ExpectHS(ref.TNST)
		if err != nil {
			r.badf("NewSessionTicket: %v", err)
			return
		}
		t, err := ref.ParseNST(m[4:])
		if err != nil {
			r.badf("NewSessionTicket: %v", err)
			return
		}
		if t.Lifetime != 3600 {
			r.badf("ticket lifetime %d", t.Lifetime)
		}
		if k, ok := r.MC.PSKs.Get(hex.EncodeToString(t.Ticket)); !ok {
			r.badf("ticket is not in the server's cache")
		} else if !bytes.Equal(k.Key, p.S.TicketPSK(t.Nonce)) || !k.IsResumption || int(k.CipherSuite) != int(p.Alg.ID) || k.TicketAgeAdd != t.AgeAdd {
			r.badf("stored resumption PSK differs from the key schedule")
		}
	}
	p.Out = p.Alg.Keys(p.S.CAP)
	r.pingOut("after completion")
	cs := r.E.C.ConnectionState()
	if int(cs.CipherSuite.Suite) != int(p.Alg.ID) {
		r.badf("reports suite %04x", cs.CipherSuite.Suite)
	}
	if cs.UsingPSK != r.usedPSK {
		r.badf("reports PSK %v, used %v", cs.UsingPSK, r.usedPSK)
	}
	if cs.UsingEarlyData != r.accepted {
		r.badf("reports early data %v, accepted %v", cs.UsingEarlyData, r.accepted)
	}
	want := r.chain
	if r.Cfg.Auth == "none" || r.usedPSK {
		want = nil
	}
	if len(cs.PeerCertificates) != len(want) {
		r.badf("reports %d client certificates, presented %d", len(cs.PeerCertificates), len(want))
	} else {
		for i, c := range cs.PeerCertificates {
			if !bytes.Equal(c.Raw, want[i]) {
				r.badf("reported client certificate %d is not the presented one", i)
			}
		}
	}
	if r.Cfg.Auth == "cbok" && want != nil && (r.cbCalls != 1 || len(r.cbRaw) != len(want)) {
		r.badf("VerifyPeerCertificate called %d times with %d certificates", r.cbCalls, len(r.cbRaw))
	}
	e, err := r.E.C.ComputeExporter("EXPORTER-test", []byte("ctx"), 40)
	if err != nil || !bytes.Equal(e, p.S.Exporter("EXPORTER-test", []byte("ctx"), 40)) {
		r.badf("exporter differs from the key schedule (%v)", err)
	}
}

// Fork returns a run that shares the endpoint but has its own copy of the peer.
func (r *ServerRun) Fork() *ServerRun {
	q := *r
	q.P = r.P.Clone()
	q.hsOut = r.hsOut.Clone()
	return &q
}

// AdoptSeq makes a forked peer continue on the record sequence the endpoint has consumed.
func (r *ServerRun) AdoptSeq(o *ServerRun, m string) {
	if r.P.Out != nil && o.P.Out != nil && bytes.Equal(r.P.Out.Secret, o.P.Out.Secret) {
		r.P.Out.Seq = o.P.Out.Seq
	}
}

// Continue builds the rest of a legal client flight from a phase.
func (r *ServerRun) Continue(phase string) []byte {
	var ms []string
	switch phase {
	case "WAIT_CH", "WAIT_CH2":
		ms = []string{"CH.full"}
	case "WAIT_EOED":
		ms = []string{"EOED", "Fin"}
	case "WAIT_CERT":
		ms = []string{"Cert.good", "CV.ok", "Fin"}
	case "WAIT_CV":
		ms = []string{"CV.ok", "Fin"}
	case "WAIT_FIN":
		ms = []string{"Fin"}
	}
	var b []byte
	for _, m := range ms {
		b = append(b, r.Build(m)...)
	}
	if r.neg && r.P.S != nil && r.P.S.CAP != nil {
		b = append(b, r.P.RecordUnder(r.P.Alg.Keys(r.P.S.CAP), ref.RApp, []byte("data after a failed handshake"))...)
	}
	return b
}

// AfterFailure checks that a failed handshake stays failed.
func (r *ServerRun) AfterFailure(feed []byte) { failedDead(r.E, feed, r.badf) }
