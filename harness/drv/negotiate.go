package drv

import (
	"bytes"
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"reflect"
	"sync"
	"time"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// NegCert is a certificate of Negotiate.tla.
type NegCert struct {
	Names []string `json:"names"`
	Key   string   `json:"key"`
}

// NegCase is a case of Negotiate.tla.
type NegCase struct {
	C struct {
		Cli struct {
			Suites  []string  `json:"suites"`
			Groups  []string  `json:"groups"`
			ALPN    []string  `json:"alpn"`
			Schemes []string  `json:"schemes"`
			SNI     string    `json:"sni"`
			PSK     string    `json:"psk"`
			Next    string    `json:"next"`
			Res     bool      `json:"res"`
			Modes   []string  `json:"modes"`
			Certs   []NegCert `json:"certs"`
		} `json:"cli"`
		Srv struct {
			Suites  []string  `json:"suites"`
			Groups  []string  `json:"groups"`
			ALPN    []string  `json:"alpn"`
			Certs   []NegCert `json:"certs"`
			Schemes []string  `json:"schemes"`
			Knows   bool      `json:"knows"`
			Modes   []string  `json:"modes"`
			Auth    bool      `json:"auth"`
		} `json:"srv"`
	} `json:"c"`
	R struct {
		OK      bool     `json:"ok"`
		Suite   string   `json:"suite"`
		Group   string   `json:"group"`
		PSK     bool     `json:"psk"`
		ALPN    string   `json:"alpn"`
		Cert    int      `json:"cert"`
		Scheme  string   `json:"scheme"`
		CCert   int      `json:"ccert"`
		CScheme string   `json:"cscheme"`
		SentPSK bool     `json:"sentpsk"`
		Offered []string `json:"offered"`
	} `json:"r"`
}

var negSuite = map[string]int{"A": 0x1301, "B": 0x1302}
var negGroup = map[string]int{"x25519": ref.X25519, "p256": ref.P256, "p384": ref.P384, "p521": ref.P521, "ffdhe2048": 256}
var negScheme = map[string]int{"ecdsa256": ref.ECDSA256, "ecdsa384": ref.ECDSA384, "ecdsa521": ref.ECDSA521,
	"pss256": ref.PSS256, "pss384": ref.PSS384, "pss512": ref.PSS512, "ed25519": 0x0807}
var negMode = map[string]int{"ke": 0, "dhe": 1}

func ints(m map[string]int, l []string) []int {
	o := []int{}
	for _, s := range l {
		v, ok := m[s]
		if !ok {
			panic("unknown name " + s)
		}
		o = append(o, v)
	}
	return o
}

var negIdents struct {
	sync.Mutex
	m map[string]*eut.Ident
}

// negHost maps a symbolic name.
func negHost(n string) string { return n + ".example.com" }

func negIdent(c NegCert) *eut.Ident {
	id := c.Key
	for _, n := range c.Names {
		id += "/" + n
	}
	negIdents.Lock()
	defer negIdents.Unlock()
	if i, ok := negIdents.m[id]; ok {
		return i
	}
	if negIdents.m == nil {
		negIdents.m = map[string]*eut.Ident{}
	}
	var hs []string
	for _, n := range c.Names {
		hs = append(hs, negHost(n))
	}
	k := eut.NewKey(c.Key)
	i := &eut.Ident{Kind: c.Key, Key: k, Chain: []*x509.Certificate{eut.ThePKI().CA.Leaf(k, eut.LeafOpt{Names: hs})}}
	negIdents.m[id] = i
	return i
}

// MutateOrder returns the certificates of a list, distinct objects for equal entries.
func negCerts(cs []NegCert) ([]*mint.Certificate, []*eut.Ident) {
	var o []*mint.Certificate
	var ids []*eut.Ident
	for _, c := range cs {
		i := negIdent(c)
		o = append(o, i.Mint())
		ids = append(ids, i)
	}
	return o, ids
}

func negPSK(k NegCase) mint.PreSharedKey {
	p := PSKFor(mint.CipherSuite(negSuite[k.C.Cli.PSK]), "psk-"+k.C.Cli.PSK, k.C.Cli.Res)
	p.NextProto = k.C.Cli.Next
	return p
}

func negServerConfig(k NegCase, psk mint.PreSharedKey) (*mint.Config, []*eut.Ident) {
	s := k.C.Srv
	certs, ids := negCerts(s.Certs)
	mc := &mint.Config{NonBlocking: true, Time: eut.Clock, NextProtos: s.ALPN, Certificates: certs, RequireClientAuth: s.Auth}
	for _, v := range ints(negSuite, s.Suites) {
		mc.CipherSuites = append(mc.CipherSuites, mint.CipherSuite(v))
	}
	for _, v := range ints(negGroup, s.Groups) {
		mc.Groups = append(mc.Groups, mint.NamedGroup(v))
	}
	for _, v := range ints(negScheme, s.Schemes) {
		mc.SignatureSchemes = append(mc.SignatureSchemes, mint.SignatureScheme(v))
	}
	for _, v := range ints(negMode, s.Modes) {
		mc.PSKModes = append(mc.PSKModes, mint.PSKKeyExchangeMode(v))
	}
	cache := mint.PSKMapCache{}
	other := PSKFor(mint.TLS_AES_128_GCM_SHA256, "another one", true)
	cache[hex.EncodeToString(other.Identity)] = other
	if k.C.Cli.PSK != "" && s.Knows {
		cache[hex.EncodeToString(psk.Identity)] = psk
	}
	mc.PSKs = &cache
	return mc, ids
}

// NegWire runs a reference client with the offers of the case against a real server and
// checks everything the server selects on the wire.
func NegWire(k NegCase) []string {
	var bad []string
	badf := func(f string, a ...interface{}) {
		bad = append(bad, "reference client, real server: "+fmt.Sprintf(f, a...))
	}
	psk := mint.PreSharedKey{}
	if k.C.Cli.PSK != "" {
		psk = negPSK(k)
	}
	mc, ids := negServerConfig(k, psk)
	e := eut.New(mc, false)
	p := ref.NewClient()
	o := ref.CHOpt{Suites: ints(negSuite, k.R.Offered), Groups: ints(negGroup, k.C.Cli.Groups), Shares: ints(negGroup, k.C.Cli.Groups),
		Sigs: ints(negScheme, k.C.Cli.Schemes), SNI: negHost(k.C.Cli.SNI), Versions: []int{0x0304}, Modes: ints(negMode, k.C.Cli.Modes)}
	if len(k.C.Cli.ALPN) > 0 {
		o.ALPN = k.C.Cli.ALPN
	}
	if k.R.SentPSK {
		o.PSKs = []ref.PSKUse{{ID: psk.Identity, Key: psk.Key, Resumption: psk.IsResumption, Suite: int(psk.CipherSuite),
			Age: uint32(time.Since(psk.ReceivedAt)/time.Millisecond) + psk.TicketAgeAdd}}
	}
	ch, err := p.MakeCH(o)
	if err != nil {
		panic(err)
	}
	p.Send(ref.RHandshake, ch)
	e.W.Put(p.Flush())
	res := e.Step()
	if !k.R.OK {
		if res.Out != eut.Failed {
			badf("server should refuse, but: %s", res)
		}
		return bad
	}
	if res.Out != eut.Progress {
		badf("server should accept, but: %s", res)
		return bad
	}
	p.Feed(e.W.TakeBytes())
	if hrr, err := p.RecvSH(); err != nil || hrr {
		badf("no ServerHello (%v)", err)
		return bad
	}
	if p.SH.Suites[0] != negSuite[k.R.Suite] {
		badf("suite %04x selected, expected %04x", p.SH.Suites[0], negSuite[k.R.Suite])
		return bad
	}
	sel, err := p.ClientKeys(o.PSKs)
	if err != nil {
		badf("ServerHello: %v", err)
		return bad
	}
	if (sel >= 0) != k.R.PSK {
		badf("PSK used=%v, expected %v", sel >= 0, k.R.PSK)
		return bad
	}
	group := 0
	if d := p.SH.Exts.Find(ref.XKeyShare); d != nil {
		group = (&ref.R{B: d}).U16()
	}
	if group != negGroup[k.R.Group] {
		badf("group %d selected, expected %q", group, k.R.Group)
	}
	f, err := p.RecvFlight(k.R.PSK)
	if err != nil {
		badf("server flight: %v", err)
		return bad
	}
	alpn := ""
	if d := f.EE.Find(ref.XALPN); d != nil {
		l := ref.ParseALPN(d)
		if len(l) != 1 {
			badf("server names %d application protocols", len(l))
		} else {
			alpn = l[0]
		}
	}
	if alpn != k.R.ALPN {
		badf("application protocol %q selected, expected %q", alpn, k.R.ALPN)
	}
	if !k.R.PSK {
		if f.Scheme != negScheme[k.R.Scheme] {
			badf("signature scheme %04x, expected %q", f.Scheme, k.R.Scheme)
		}
		if id := ids[k.R.Cert-1]; len(f.Chain) != 1 || !bytes.Equal(f.Chain[0], id.Chain[0].Raw) {
			badf("another certificate was presented")
		}
		if f.CR != k.C.Srv.Auth {
			badf("CertificateRequest=%v, expected %v", f.CR, k.C.Srv.Auth)
		}
		if f.CR && !reflect.DeepEqual(ref.ParseU16List(f.CRExts.Find(ref.XSigAlgs)), ints(negScheme, k.C.Srv.Schemes)) {
			badf("CertificateRequest offers other schemes than configured")
		}
	}
	return bad
}

// NegPair runs two mint endpoints with the configurations of the case.
func NegPair(k NegCase, dtls bool) []string {
	var bad []string
	pre := "mint client and server: "
	if dtls {
		pre = "DTLS mint client and server: "
	}
	badf := func(f string, a ...interface{}) { bad = append(bad, pre+fmt.Sprintf(f, a...)) }
	psk := mint.PreSharedKey{}
	if k.C.Cli.PSK != "" {
		psk = negPSK(k)
	}
	sc, ids := negServerConfig(k, psk)
	c := k.C.Cli
	certs, cids := negCerts(c.Certs)
	cc := &mint.Config{NonBlocking: true, Time: eut.Clock, NextProtos: c.ALPN, Certificates: certs, ServerName: negHost(c.SNI), RootCAs: eut.ThePKI().CA.Pool}
	for _, v := range ints(negSuite, c.Suites) {
		cc.CipherSuites = append(cc.CipherSuites, mint.CipherSuite(v))
	}
	for _, v := range ints(negGroup, c.Groups) {
		cc.Groups = append(cc.Groups, mint.NamedGroup(v))
	}
	for _, v := range ints(negScheme, c.Schemes) {
		cc.SignatureSchemes = append(cc.SignatureSchemes, mint.SignatureScheme(v))
	}
	for _, v := range ints(negMode, c.Modes) {
		cc.PSKModes = append(cc.PSKModes, mint.PSKKeyExchangeMode(v))
	}
	cache := mint.PSKMapCache{negHost("other"): PSKFor(mint.TLS_AES_128_GCM_SHA256, "of another server", true)}
	if c.PSK != "" {
		cache[negHost(c.SNI)] = psk
	}
	cc.PSKs = &cache
	cc.UseDTLS, sc.UseDTLS = dtls, dtls
	p := NewPair(cc, sc)
	p.Handshake()
	h, err := p.FirstHello()
	if err != nil {
		badf("ClientHello: %v", err)
		return bad
	}
	eq := func(what string, got, want interface{}) {
		if !reflect.DeepEqual(got, want) {
			badf("client offers %s %v, configured %v", what, got, want)
		}
	}
	eq("suites", h.Suites, ints(negSuite, k.R.Offered))
	eq("groups", ref.ParseU16List(h.Exts.Find(ref.XGroups)), ints(negGroup, c.Groups))
	eq("schemes", ref.ParseU16List(h.Exts.Find(ref.XSigAlgs)), ints(negScheme, c.Schemes))
	if len(c.ALPN) > 0 {
		eq("protocols", ref.ParseALPN(h.Exts.Find(ref.XALPN)), c.ALPN)
	} else if h.Exts.Has(ref.XALPN) {
		badf("client offers application protocols, none configured")
	}
	eq("server name", h.Exts.Find(ref.XSNI), ref.SNIExt(negHost(c.SNI)))
	if d := h.Exts.Find(ref.XPSKModes); d != nil {
		var ms []int
		for _, b := range d[1:] {
			ms = append(ms, int(b))
		}
		eq("PSK modes", ms, ints(negMode, c.Modes))
	}
	if h.Exts.Has(ref.XPSK) != k.R.SentPSK {
		badf("client offers PSK=%v, expected %v", h.Exts.Has(ref.XPSK), k.R.SentPSK)
	}
	ss, err := ref.ParseShares(h.Exts.Find(ref.XKeyShare))
	var gs []int
	for _, s := range ss {
		gs = append(gs, s.Group)
	}
	if err != nil {
		badf("client key shares: %v", err)
	}
	for _, g := range gs {
		ok := false
		for _, x := range ints(negGroup, c.Groups) {
			ok = ok || x == g
		}
		if !ok {
			badf("client sends a key share for group %d, which is not configured", g)
		}
	}
	if len(bad) > 0 {
		return bad
	}
	if b := p.Broken(); b != "" {
		badf("%s", b)
		return bad
	}
	if !k.R.OK {
		if p.CRes.Out == eut.Connected || p.SRes.Out == eut.Connected {
			badf("handshake completes without common ground: client %s server %s", p.CRes, p.SRes)
		}
		if p.SRes.Out != eut.Failed {
			badf("server should fail, but: %s", p.SRes)
		}
		return bad
	}
	if !p.Both() {
		badf("handshake should complete: client %s server %s", p.CRes, p.SRes)
		return bad
	}
	st := p.Cli.C.ConnectionState()
	if int(st.CipherSuite.Suite) != negSuite[k.R.Suite] {
		badf("suite %04x negotiated, expected %q", int(st.CipherSuite.Suite), k.R.Suite)
	}
	if st.NextProto != k.R.ALPN {
		badf("application protocol %q, expected %q", st.NextProto, k.R.ALPN)
	}
	if st.UsingPSK != k.R.PSK {
		badf("PSK used=%v, expected %v", st.UsingPSK, k.R.PSK)
	}
	bad = append(bad, p.Agree()...)
	var sch, cch []*x509.Certificate
	if k.R.Cert > 0 {
		sch = ids[k.R.Cert-1].Chain
	}
	if k.R.CCert > 0 {
		cch = cids[k.R.CCert-1].Chain
	}
	bad = append(bad, p.AgreeCerts(sch, cch)...)
	bad = append(bad, p.Exchange("negotiated")...)
	return bad
}

// NegClientAuth runs a real client with the certificates of the case against a reference
// server and checks which certificate and scheme it uses.
func NegClientAuth(k NegCase) []string {
	var bad []string
	badf := func(f string, a ...interface{}) {
		bad = append(bad, "real client, reference server: "+fmt.Sprintf(f, a...))
	}
	certs, cids := negCerts(k.C.Cli.Certs)
	cc := &mint.Config{NonBlocking: true, Time: eut.Clock, Certificates: certs, ServerName: Host, RootCAs: eut.ThePKI().CA.Pool}
	e := eut.New(cc, true)
	e.Step()
	p := ref.NewServer()
	p.Feed(e.W.TakeBytes())
	if err := p.RecvCH(); err != nil {
		badf("ClientHello: %v", err)
		return bad
	}
	p.Alg, _ = ref.SuiteByID(0x1301)
	sh, err := p.MakeSH(ref.SHOpt{Suite: 0x1301, Group: ref.X25519, PSK: -1}, nil, false)
	if err != nil {
		panic(err)
	}
	p.Send(ref.RHandshake, sh)
	p.Out = p.Alg.Keys(p.S.SHS)
	p.SendHS(ref.Msg(ref.TEE, []byte{0, 0}))
	x := ref.Exts{{Type: ref.XSigAlgs, Data: ref.U16List(ints(negScheme, k.C.Srv.Schemes)...)}}
	p.SendHS(ref.Msg(ref.TCR, (&ref.W{}).V8(nil).V16(x.Bytes()).B))
	id := eut.ThePKI().Ident("p256", "good", Host)
	p.SendHS(ref.CertMsg(nil, id.DERs()...))
	sig, err := p.CVSign(ref.ECDSA256, id.Key, ref.ServerCVContext)
	if err != nil {
		panic(err)
	}
	p.SendHS(ref.CVMsg(ref.ECDSA256, sig))
	p.SendHS(p.FinMsg())
	p.S.SetApp(p.TH())
	p.In = p.Alg.Keys(p.S.CHS)
	e.W.Put(p.Flush())
	res := e.Step()
	if res.Out != eut.Connected {
		badf("client does not complete: %s", res)
		return bad
	}
	p.Feed(e.W.TakeBytes())
	m, err := p.ExpectHS(ref.TCert)
	if err != nil {
		badf("client flight: %v", err)
		return bad
	}
	_, ders, err := ref.ParseCertMsg(m[4:])
	if err != nil {
		badf("client Certificate: %v", err)
		return bad
	}
	p.Tr = append(p.Tr, m...)
	if k.R.CCert == 0 {
		if len(ders) != 0 {
			badf("client presents a certificate although no scheme fits")
		}
	} else {
		if len(ders) != 1 || !bytes.Equal(ders[0], cids[k.R.CCert-1].Chain[0].Raw) {
			badf("client presents another certificate (%d in the chain)", len(ders))
			return bad
		}
		m, err = p.ExpectHS(ref.TCV)
		if err != nil {
			badf("client flight: %v", err)
			return bad
		}
		r := &ref.R{B: m[4:]}
		sch := r.U16()
		if sch != negScheme[k.R.CScheme] {
			badf("client signs with scheme %04x, expected %q", sch, k.R.CScheme)
		}
		if err := ref.Verify(sch, cids[k.R.CCert-1].Chain[0].PublicKey, ref.CVInput(ref.ClientCVContext, p.TH()), r.V16()); err != nil {
			badf("client signature: %v", err)
		}
		p.Tr = append(p.Tr, m...)
	}
	m, err = p.ExpectHS(ref.TFin)
	if err != nil || p.CheckFin(m) != nil {
		badf("client Finished does not verify (%v)", err)
	}
	return bad
}
