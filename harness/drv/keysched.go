package drv

import (
	"bytes"
	"crypto/x509"
	"fmt"
	"math/rand"
	"time"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// Term is a term of KeySched.tla.
type Term struct {
	Op string   `json:"op"`
	A  *Term    `json:"a"`
	B  *Term    `json:"b"`
	L  string   `json:"l"`
	Tr []string `json:"tr"`
	N  int      `json:"n"`
}

// KSConf is a configuration of KeySched.tla.
type KSConf struct {
	Role  string `json:"role"`
	Suite string `json:"suite"`
	Group string `json:"group"`
	Kind  string `json:"kind"`
	Ext   bool   `json:"ext"`
	HRR   bool   `json:"hrr"`
	Early bool   `json:"early"`
	CAuth bool   `json:"cauth"`
}

// KSCase is a behaviour of KeySched.tla.
type KSCase struct {
	Hist []struct {
		A   string   `json:"a"`
		M   string   `json:"m"`
		By  string   `json:"by"`
		Key *Term    `json:"key"`
		Mac *Term    `json:"mac"`
		Tr  []string `json:"tr"`
		C   int      `json:"c"`
		N   int      `json:"n"`
		Req bool     `json:"req"`
		Cf  KSConf   `json:"cf"`
	} `json:"hist"`
}

func (k KSCase) String() string {
	s, c := "", 0
	for _, h := range k.Hist {
		if h.C != c {
			c = h.C
			s += fmt.Sprintf("[%s %s %s %s", h.Cf.Role, h.Cf.Suite, h.Cf.Kind, h.Cf.Group)
			for _, o := range []struct {
				b bool
				n string
			}{{h.Cf.Ext, "external"}, {h.Cf.HRR, "hrr"}, {h.Cf.Early, "early"}, {h.Cf.CAuth, "cauth"}} {
				if o.b {
					s += " " + o.n
				}
			}
			s += "] "
		}
		switch h.A {
		case "msg":
		case "ku":
			s += fmt.Sprintf("ku:%s%v ", h.By, h.Req)
		default:
			s += fmt.Sprintf("%s:%s%d ", h.A, h.By, h.N)
		}
	}
	return s
}

var ksGroup = map[string]int{"x25519": ref.X25519, "p256": ref.P256, "p384": ref.P384, "p521": ref.P521, "ff2048": 256, "ff3072": 257}

type ksRun struct {
	rng    *rand.Rand
	bad    []string
	cf     KSConf
	conn   int
	a      ref.Alg
	msgs   map[string][]byte
	dhe    map[int][]byte
	nonces map[int]map[int][]byte // connection -> ticket number -> nonce
	psk    []byte
	keys   map[string]*ref.Keys
	e      *eut.EUT
	p      *ref.Peer
	ccache *mint.PSKMapCache
	scache *mint.PSKMapCache
	kex    *ref.Kex
	peerG  int
	peerK  []byte // the endpoint's share
	cert   *x509.Certificate
	id     *eut.Ident
	scheme int
	res    eut.Res
	toEUT  []byte // application data sent to the endpoint and not yet read
	use    ref.PSKUse
	grease bool // the ClientHello has extensions nobody knows
}

func (r *ksRun) badf(f string, a ...interface{}) { r.bad = append(r.bad, fmt.Sprintf(f, a...)) }

// transcript hash of the named messages
func (r *ksRun) hash(tr []string) []byte {
	var b []byte
	for _, n := range tr {
		m, ok := r.msgs[n]
		if !ok {
			panic("driver: no message " + n)
		}
		b = append(b, m...)
	}
	return r.a.Hash(b)
}

// eval computes a term from the shared inputs and the messages seen on the wire.
func (r *ksRun) eval(t *Term) []byte {
	a := r.a
	switch t.Op {
	case "zero":
		return a.Zero()
	case "psk":
		return r.psk
	case "dhe":
		return r.dhe[t.N]
	case "extract":
		return a.Extract(r.eval(t.A), r.eval(t.B))
	case "derive":
		return a.ExpandLabel(r.eval(t.A), t.L, r.hash(t.Tr), a.Len())
	case "label":
		return a.ExpandLabel(r.eval(t.A), t.L, nil, a.Len())
	case "ticket":
		return a.ExpandLabel(r.eval(t.A), "resumption", r.nonces[ticketConn(t.A)][t.N], a.Len())
	case "mac":
		return a.HMAC(r.eval(t.A), r.hash(t.Tr))
	}
	panic("driver: term " + t.Op)
}

// ticketConn is the connection whose resumption secret this is.
func ticketConn(t *Term) int {
	c := 0
	fmt.Sscanf(t.Tr[len(t.Tr)-1], "%d", &c)
	return c
}

func (r *ksRun) key(t *Term) *ref.Keys {
	if t.Op == "none" {
		return nil
	}
	s := r.eval(t)
	id := fmt.Sprintf("%d %x", r.conn, s)
	if r.keys[id] == nil {
		r.keys[id] = r.a.Keys(s)
	}
	return r.keys[id]
}

// RunKeySched plays the other endpoint with the secrets of the specification only.
func RunKeySched(k KSCase, rng *rand.Rand) (cls string, bad []string) {
	r := &ksRun{rng: rng, msgs: map[string][]byte{}, dhe: map[int][]byte{}, nonces: map[int]map[int][]byte{}, keys: map[string]*ref.Keys{},
		ccache: &mint.PSKMapCache{}, scache: &mint.PSKMapCache{}}
	for i, h := range k.Hist {
		if h.C != r.conn {
			tickets := false
			for _, x := range k.Hist[i:] {
				tickets = tickets || x.C == h.C && x.A == "nst"
			}
			r.start(h.C, h.Cf, tickets)
			cls += fmt.Sprintf("%s%s%s%s%v%v%v%v/", h.Cf.Role, h.Cf.Suite, h.Cf.Kind, h.Cf.Group, h.Cf.Ext, h.Cf.HRR, h.Cf.Early, h.Cf.CAuth)
		}
		eutDoes := (h.By == "c") == (r.cf.Role == "client")
		switch h.A {
		case "msg":
			if eutDoes {
				r.recv(h.M, r.key(h.Key), h.Mac, h.Tr)
			} else {
				r.send(h.M, r.key(h.Key), h.Mac, h.Tr)
			}
			if h.M == "CFIN" {
				r.connected(tickets(k, h.C))
			}
		case "early", "data":
			r.data(h.A, h.M, r.key(h.Key), eutDoes)
		case "ku":
			r.keyUpdate(r.key(h.Key), eutDoes, h.Req)
		case "export":
			r.export(r.eval(h.Key), h.N)
		case "nst":
			r.nst(r.key(h.Key), h.Mac, h.N, eutDoes)
		}
		if len(r.bad) > 0 {
			return cls, []string{fmt.Sprintf("connection %d, %s %s: %s", h.C, h.A, h.M, r.bad[0])}
		}
	}
	return cls, nil
}

func tickets(k KSCase, c int) bool {
	for _, x := range k.Hist {
		if x.C == c && x.A == "nst" {
			return true
		}
	}
	return false
}

// start creates the endpoint of a connection.
func (r *ksRun) start(n int, cf KSConf, tickets bool) {
	rng, pki := r.rng, eut.ThePKI()
	r.conn, r.cf = n, cf
	suite := sessSuite(cf.Suite)
	r.a, _ = ref.SuiteByID(uint16(suite))
	if n == 1 && cf.Kind != "cert" {
		r.psk = make([]byte, 1+rng.Intn(80))
		rng.Read(r.psk)
		psk := PSKFor(suite, fmt.Sprintf("psk %d", rng.Intn(1000)), !cf.Ext)
		psk.Key = r.psk
		r.use = ref.PSKUse{ID: psk.Identity, Key: psk.Key, Resumption: psk.IsResumption, Suite: int(suite), Age: uint32(time.Since(psk.ReceivedAt)/time.Millisecond) + psk.TicketAgeAdd}
		r.ccache.Put(Host, psk)
		r.scache.Put(fmt.Sprintf("%x", psk.Identity), psk)
	}
	kind := []string{"p256", "p384", "p521", "rsa"}[rng.Intn(4)]
	r.scheme = map[string]int{"p256": ref.ECDSA256, "p384": ref.ECDSA384, "p521": ref.ECDSA521, "rsa": []int{ref.PSS256, ref.PSS384}[rng.Intn(2)]}[kind]
	r.id = pki.Ident(kind, "good", Host)
	c := &mint.Config{NonBlocking: true, Time: eut.Clock, ServerName: Host, RootCAs: pki.CA.Pool, CipherSuites: []mint.CipherSuite{suite}, AllowEarlyData: cf.Early}
	g := cf.Group
	if g == "-" {
		g = "x25519"
	}
	r.peerG = ksGroup[g]
	c.Groups = []mint.NamedGroup{mint.NamedGroup(r.peerG)}
	c.PSKModes = []mint.PSKKeyExchangeMode{map[string]mint.PSKKeyExchangeMode{"ke": mint.PSKModeKE}[cf.Kind]}
	if cf.Kind == "dhe" || cf.Kind == "cert" {
		c.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE}
	}
	if cf.Role == "client" {
		c.PSKs = &mint.PSKMapCache{}
		if cf.Kind != "cert" {
			c.PSKs = r.ccache
		}
		if cf.CAuth {
			c.Certificates = []*mint.Certificate{r.id.Mint()}
		}
		if cf.Kind == "cert" {
			r.ccache = c.PSKs.(*mint.PSKMapCache)
		}
		r.p = ref.NewServer()
	} else {
		c.PSKs = r.scache
		c.Certificates = []*mint.Certificate{r.id.Mint()}
		c.RequireClientAuth = cf.CAuth
		c.SendSessionTickets, c.TicketLifetime, c.TicketLen = tickets, 3600, []int{0, 1, 16, 200}[rng.Intn(4)]
		if tickets && c.TicketLen == 0 {
			c.TicketLen = 16
		}
		c.RequireCookie, c.CookieProtector = cf.HRR, streamCookies
		r.p = ref.NewClient()
	}
	r.e = eut.New(c, cf.Role == "client")
	r.kex, r.peerK, r.cert, r.toEUT, r.res, r.grease = nil, nil, nil, nil, eut.Res{}, false
	if cf.Role == "server" {
		r.p.RecordVersion = 0x0301
	}
}

func (r *ksRun) name(m string) string { return fmt.Sprint(r.conn, m) }

func (r *ksRun) step() {
	if settled(r.res) {
		return
	}
	r.res = r.e.Step()
	if r.res.Out != eut.Progress && r.res.Out != eut.Connected {
		r.badf("Handshake: %s", r.res)
	}
	r.p.Feed(r.e.W.TakeBytes())
}

// recv takes the next handshake message of the endpoint.
func (r *ksRun) recv(m string, k *ref.Keys, mac *Term, tr []string) {
	p := r.p
	if p.RawPending() == 0 && p.HSBuffered() == 0 {
		r.step()
		if len(r.bad) > 0 {
			return
		}
	}
	p.In = k
	b, err := p.NextHS()
	if err != nil {
		r.badf("does not open under the specified key: %v", err)
		return
	}
	typ := map[string]int{"CH1": ref.TCH, "CH": ref.TCH, "HRR": ref.TSH, "SH": ref.TSH, "EE": ref.TEE, "CR": ref.TCR, "CT": ref.TCert, "CV": ref.TCV,
		"SFIN": ref.TFin, "CFIN": ref.TFin, "CCT": ref.TCert, "CCV": ref.TCV, "EOED": ref.TEOED}[m]
	if int(b[0]) != typ {
		r.badf("message type %d, want %d", b[0], typ)
		return
	}
	r.msgs[r.name(m)] = b
	switch m {
	case "CH1", "CH":
		r.hello(true, b, m, mac)
		if m == "CH1" {
			r.msgs[r.name("MH")] = ref.Msg(ref.TMsgHash, r.a.Hash(b))
		}
	case "HRR", "SH":
		h, err := ref.ParseHello(false, false, b[4:])
		if err != nil {
			r.badf("%v", err)
			return
		}
		if h.IsHRR() != (m == "HRR") || h.Suites[0] != int(r.a.ID) {
			r.badf("retry=%v suite %04x", h.IsHRR(), h.Suites[0])
			return
		}
		if m == "HRR" {
			p.HRR = h
			return
		}
		if h.Exts.Has(ref.XPSK) != (r.cf.Kind != "cert") || h.Exts.Has(ref.XKeyShare) != (r.cf.Kind != "ke") {
			r.badf("extensions of the ServerHello do not select %s", r.cf.Kind)
			return
		}
		if d := h.Exts.Find(ref.XKeyShare); d != nil {
			x := &ref.R{B: d}
			g, pub := x.U16(), x.V16()
			if g != r.peerG {
				r.badf("group %d", g)
				return
			}
			if r.dhe[r.conn], err = r.kex.Shared(pub); err != nil {
				r.badf("key share: %v", err)
			}
		}
	case "EE":
		x, err := ref.ParseExts((&ref.R{B: b[4:]}).V16())
		if err != nil || x.Has(ref.XEarly) != r.cf.Early {
			r.badf("EncryptedExtensions: early data %v, specification %v (%v)", x.Has(ref.XEarly), r.cf.Early, err)
		}
	case "CT", "CCT":
		_, ders, err := ref.ParseCertMsg(b[4:])
		if err != nil || len(ders) == 0 {
			r.badf("Certificate %v", err)
			return
		}
		r.cert, err = x509.ParseCertificate(ders[0])
		if err != nil {
			r.badf("Certificate %v", err)
		}
	case "CV", "CCV":
		x := &ref.R{B: b[4:]}
		s, sig := x.U16(), x.V16()
		ctx := ref.ServerCVContext
		if m == "CCV" {
			ctx = ref.ClientCVContext
		}
		if err := ref.Verify(s, r.cert.PublicKey, ref.CVInput(ctx, r.hash(tr)), sig); err != nil {
			r.badf("%v", err)
		}
	case "SFIN", "CFIN":
		if !bytes.Equal(b[4:], r.eval(mac)) {
			r.badf("verify_data is not that of the key schedule")
		}
		if p.HSBuffered() != 0 {
			r.badf("handshake bytes after Finished")
		}
	}
}

// hello checks a ClientHello of the endpoint.
func (r *ksRun) hello(cli bool, b []byte, m string, mac *Term) {
	h, err := ref.ParseHello(true, false, b[4:])
	if err != nil {
		r.badf("%v", err)
		return
	}
	r.p.CH = h
	ss, _ := ref.ParseShares(h.Exts.Find(ref.XKeyShare))
	for _, s := range ss {
		if s.Group == r.peerG {
			r.peerK = s.Data
		}
	}
	if r.peerK == nil {
		r.badf("no share for group %d", r.peerG)
	}
	if mac.Op == "none" {
		return
	}
	os, err := ref.ParsePSKOffers(h.Exts.Find(ref.XPSK))
	if err != nil || len(os) != 1 {
		r.badf("%d identities offered (%v)", len(os), err)
		return
	}
	if !bytes.Equal(os[0].Identity, r.use.ID) {
		r.badf("identity %x offered", os[0].Identity)
		return
	}
	r.msgs[r.name(m+"-")] = b[:len(b)-ref.BindersLen(os)]
	if !bytes.Equal(os[0].Binder, r.eval(mac)) {
		r.badf("the binder is not that of the key schedule")
	}
	if h.Exts.Has(ref.XEarly) != r.cf.Early {
		r.badf("early_data offered: %v", h.Exts.Has(ref.XEarly))
	}
}

// out delivers a record to the endpoint.
func (r *ksRun) out(k *ref.Keys, ct byte, b []byte) {
	if k == nil {
		r.e.W.Put(r.p.PlainRecord(ct, b))
		return
	}
	r.e.W.Put(k.Seal(ct, b, []int{0, 0, 1, 100}[r.rng.Intn(4)]))
}

// send builds the next handshake message of the harness.
func (r *ksRun) send(m string, k *ref.Keys, mac *Term, tr []string) {
	p, rng := r.p, r.rng
	var b []byte
	share := func() ref.Share { return ref.Share{Group: r.peerG, Data: r.kex.Pub} }
	newKex := func() {
		var err error
		if r.kex, err = ref.NewKex(r.peerG); err != nil {
			panic(err)
		}
	}
	switch m {
	case "CH1", "CH":
		if r.kex == nil {
			newKex()
		}
		o := ref.CHOpt{Suites: []int{int(r.a.ID)}, Groups: []int{r.peerG}, Sigs: []int{ref.ECDSA256, ref.ECDSA384, ref.ECDSA521, ref.PSS256, ref.PSS384, ref.PSS512},
			SNI: Host, Versions: []int{0x0304}, Extra: ref.Exts{{Type: ref.XKeyShare, Data: ref.SharesExt(true, share())}}, Early: r.cf.Early, Random: ref.Rnd(32)}
		if rng.Intn(2) == 0 {
			o.SessionID = ref.Rnd(32) // mint takes no other length
		}
		if r.grease = r.grease || rng.Intn(3) == 0; r.grease {
			o.Extra = append(o.Extra, ref.Ext{Type: 0x3a3a, Data: ref.Rnd(rng.Intn(40))}, ref.Ext{Type: 0x0015, Data: make([]byte, rng.Intn(300))})
		}
		if p.HRR != nil {
			o.Cookie = p.Cookie()
			o.SessionID, o.Random = p.CH.SessionID, p.CH.Random
		}
		if r.cf.Kind != "cert" {
			o.Modes = []int{map[string]int{"ke": 0, "dhe": 1}[r.cf.Kind]}
			o.PSKs = []ref.PSKUse{r.use}
		}
		q := ref.NewClient()
		var err error
		if b, err = q.MakeCH(o); err != nil {
			panic(err)
		}
		p.CH = q.CH
		if mac.Op != "none" {
			// the binder is the one of the specification
			cut := len(b) - 3 - r.a.Len()
			r.msgs[r.name(m+"-")] = append([]byte{}, b[:cut]...)
			copy(b[cut+3:], r.eval(mac))
		}
		if m == "CH1" {
			r.msgs[r.name("MH")] = ref.Msg(ref.TMsgHash, r.a.Hash(b))
		}
	case "HRR":
		x := ref.Exts{{Type: ref.XVersions, Data: []byte{3, 4}}, {Type: ref.XCookie, Data: (&ref.W{}).V16(ref.Rnd(1 + rng.Intn(300))).B}}
		b = (&ref.Hello{Version: 0x0303, Random: ref.HRRRandom, SessionID: p.CH.SessionID, Suites: []int{int(r.a.ID)}, Comp: []byte{0}, Exts: x}).Msg()
	case "SH":
		x := ref.Exts{{Type: ref.XVersions, Data: []byte{3, 4}}}
		if r.cf.Kind != "ke" {
			newKex()
			dh, err := r.kex.Shared(r.peerK)
			// a shared secret that starts with a zero byte
			if r.cf.Group == "x25519" || r.cf.Group == "p256" && rng.Intn(4) == 0 || r.cf.Group == "ff2048" && rng.Intn(40) == 0 {
				for i := 0; i < 3000 && err == nil && dh[0] != 0; i++ {
					newKex()
					dh, err = r.kex.Shared(r.peerK)
				}
			}
			if err != nil {
				r.badf("key share of the endpoint: %v", err)
				return
			}
			r.dhe[r.conn] = dh
			x = append(x, ref.Ext{Type: ref.XKeyShare, Data: ref.SharesExt(false, share())})
		}
		if r.cf.Kind != "cert" {
			x = append(x, ref.Ext{Type: ref.XPSK, Data: []byte{0, 0}})
		}
		b = (&ref.Hello{Version: 0x0303, Random: ref.Rnd(32), SessionID: p.CH.SessionID, Suites: []int{int(r.a.ID)}, Comp: []byte{0}, Exts: x}).Msg()
	case "EE":
		x := ref.Exts{}
		if r.cf.Early {
			x = append(x, ref.Ext{Type: ref.XEarly})
		}
		b = ref.Msg(ref.TEE, (&ref.W{}).V16(x.Bytes()).B)
	case "CR":
		x := ref.Exts{{Type: ref.XSigAlgs, Data: ref.U16List(ref.ECDSA256, ref.ECDSA384, ref.ECDSA521, ref.PSS256)}}
		if rng.Intn(3) == 0 {
			x = append(x, ref.Ext{Type: 0x3a3a, Data: ref.Rnd(rng.Intn(40))})
		}
		b = ref.Msg(ref.TCR, (&ref.W{}).V8(nil).V16(x.Bytes()).B)
	case "CT", "CCT":
		b = ref.CertMsg(nil, r.id.DERs()...)
	case "CV", "CCV":
		ctx := ref.ServerCVContext
		if m == "CCV" {
			ctx = ref.ClientCVContext
		}
		sig, err := ref.Sign(r.scheme, r.id.Key, ref.CVInput(ctx, r.hash(tr)))
		if err != nil {
			panic(err)
		}
		b = ref.CVMsg(r.scheme, sig)
	case "SFIN", "CFIN":
		b = ref.Msg(ref.TFin, r.eval(mac))
	case "EOED":
		b = ref.Msg(ref.TEOED, nil)
	}
	r.msgs[r.name(m)] = b
	r.out(k, ref.RHandshake, b)
	if rng.Intn(3) == 0 && m != "CH" || m == "CH1" {
		r.step()
	}
}

// connected lets the endpoint finish.
func (r *ksRun) connected(nst bool) {
	r.step()
	if len(r.bad) == 0 && !settled(r.res) {
		r.step()
	}
	if len(r.bad) > 0 {
		return
	}
	if r.res.Out != eut.Connected {
		r.badf("the handshake is not complete: %s", r.res)
		return
	}
	if cs := uint16(r.e.C.ConnectionState().CipherSuite.Suite); cs != r.a.ID {
		r.badf("ConnectionState names suite %04x", cs)
	}
}

func (r *ksRun) data(a, m string, k *ref.Keys, eutDoes bool) {
	b := make([]byte, 1+r.rng.Intn(300))
	r.rng.Read(b)
	if eutDoes {
		if a == "early" && r.res.Out == "" {
			r.step()
		}
		n, err, o, note := r.e.Write(b)
		if err != nil || n != len(b) || o != "" {
			r.badf("Write: %d %v %s%s", n, err, o, note)
			return
		}
		r.p.Feed(r.e.W.TakeBytes())
		r.expect(k, ref.RApp, b)
		return
	}
	r.out(k, ref.RApp, b)
	r.toEUT = append(r.toEUT, b...)
	if a == "data" && m != "half" {
		r.read()
	}
}

// expect takes a record of the endpoint.
func (r *ksRun) expect(k *ref.Keys, ct byte, want []byte) {
	r.p.In = k
	rec, err := r.p.NextRecord()
	if err != nil {
		r.badf("does not open under the specified key: %v", err)
		return
	}
	if rec.Type != ct || !bytes.Equal(rec.Payload, want) {
		r.badf("record of type %d: %s, want %s", rec.Type, brief(rec.Payload), brief(want))
	}
}

// read lets the endpoint read everything sent to it.
func (r *ksRun) read() {
	rr := r.e.ReadAll(1 + r.rng.Intn(500))
	if rr.Err != nil || rr.Out != "" {
		r.badf("Read: %s", rr)
		return
	}
	if !bytes.Equal(rr.Data, r.toEUT) {
		r.badf("read %s, sent %s", brief(rr.Data), brief(r.toEUT))
	}
	r.toEUT = nil
	r.p.Feed(r.e.W.TakeBytes())
}

func (r *ksRun) keyUpdate(k *ref.Keys, eutDoes, req bool) {
	w := []byte{0}
	if req {
		w[0] = 1
	}
	m := ref.Msg(ref.TKU, w)
	if !eutDoes {
		r.out(k, ref.RHandshake, m)
		r.read()
		return
	}
	if r.p.RawPending() == 0 { // not the answer to a request
		var err error
		o, note := r.e.Guard(func() { err = r.e.C.SendKeyUpdate(req) })
		if err != nil || o != "" {
			r.badf("SendKeyUpdate: %v %s%s", err, o, note)
			return
		}
		r.p.Feed(r.e.W.TakeBytes())
	}
	r.expect(k, ref.RHandshake, m)
}

// export compares exporters: n 1 is an ordinary use, 2 and 3 are at the borders.
func (r *ksRun) export(exp []byte, n int) {
	rng := r.rng
	pick := func(v ...int) int { return v[rng.Intn(len(v))] }
	label, ctx, l := "EXPORTER-test label", []byte("context"), 32
	if n > 1 {
		label = string(bytes.Repeat([]byte("L"), pick(0, 1, 12, 100, 249)))
		ctx = make([]byte, pick(0, 0, 1, 32, 255, 256, 70000))
		rng.Read(ctx)
		if len(ctx) == 0 && rng.Intn(2) == 0 {
			ctx = nil
		}
	}
	if n == 3 {
		l = pick(1, 16, 31, 33, 48, 49, 96, 255, 256, 1000, 255*r.a.Len())
	}
	want := r.a.ExpandLabel(r.a.ExpandLabel(exp, label, r.a.Hash(), r.a.Len()), "exporter", r.a.Hash(ctx), l)
	var got []byte
	var err error
	o, note := r.e.Guard(func() { got, err = r.e.C.ComputeExporter(label, ctx, l) })
	if err != nil || o != "" || !bytes.Equal(got, want) {
		r.badf("exporter (label of %d bytes, context of %d bytes, %d bytes): %v %s%s", len(label), len(ctx), l, err, o, note)
	}
}

// nst: a ticket is sent; its PSK is the term.
func (r *ksRun) nst(k *ref.Keys, psk *Term, n int, eutDoes bool) {
	if r.nonces[r.conn] == nil {
		r.nonces[r.conn] = map[int][]byte{}
	}
	if eutDoes {
		r.p.In = k
		m, err := r.p.ExpectHS(ref.TNST)
		if err != nil {
			r.badf("no ticket: %v", err)
			return
		}
		t, err := ref.ParseNST(m[4:])
		if err != nil {
			r.badf("ticket: %v", err)
			return
		}
		r.nonces[r.conn][n] = t.Nonce
		r.use = ref.PSKUse{ID: t.Ticket, Key: r.eval(psk), Resumption: true, Suite: int(r.a.ID), Age: t.AgeAdd}
		return
	}
	nonce := ref.Rnd(r.rng.Intn(256))
	for i := 0; i < n; i++ {
		if bytes.Equal(r.nonces[r.conn][i], nonce) {
			nonce = append([]byte{byte(n)}, nonce...)
		}
	}
	if r.rng.Intn(2) == 0 {
		nonce = []byte{byte(n)}
	}
	r.nonces[r.conn][n] = nonce
	t := &ref.NST{Lifetime: 7200, AgeAdd: r.rng.Uint32(), Nonce: nonce, Ticket: ref.Rnd(1 + r.rng.Intn(300)), Exts: ref.Exts{{Type: ref.XTicketEarly, Data: []byte{0, 0, 0x40, 0}}}}
	if r.rng.Intn(3) == 0 {
		t.Exts = append(t.Exts, ref.Ext{Type: 0x3a3a, Data: ref.Rnd(r.rng.Intn(40))})
	}
	r.use = ref.PSKUse{ID: t.Ticket, Suite: int(r.a.ID)}
	r.out(k, ref.RHandshake, t.Msg())
	r.read()
	if len(r.bad) > 0 {
		return
	}
	got, ok := r.ccache.Get(Host)
	if !ok || !bytes.Equal(got.Key, r.eval(psk)) {
		r.badf("the PSK of the ticket is not that of the key schedule (stored: %v)", ok)
	}
}

// ShareWidths looks at the key shares of many ClientHellos: the encodings have a fixed width.
func ShareWidths(group string, n int) string {
	want := map[string]int{"x25519": 32, "p256": 65, "p384": 97, "p521": 133, "ff2048": 256, "ff3072": 384}[group]
	for i := 0; i < n; i++ {
		e := eut.New(&mint.Config{NonBlocking: true, ServerName: Host, Groups: []mint.NamedGroup{mint.NamedGroup(ksGroup[group])}}, true)
		e.Step()
		h := firstHello(e.W.Take())
		if h == nil {
			return "no ClientHello"
		}
		ss, err := ref.ParseShares(h.Exts.Find(ref.XKeyShare))
		if err != nil || len(ss) != 1 || len(ss[0].Data) != want {
			return fmt.Sprintf("a %s share of %d bytes (%v)", group, len(ss[0].Data), err)
		}
	}
	return ""
}
