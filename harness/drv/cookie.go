package drv

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"sync"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// CookieStep is one ClientHello of Cookie.tla.
type CookieStep struct {
	I     int      `json:"i"`
	Q     int      `json:"q"`
	Su    []string `json:"su"`
	PSK   bool     `json:"psk"`
	Fresh bool     `json:"fresh"`
	K     int      `json:"k"`
	D     string   `json:"d"`
	Out   string   `json:"out"`
}

// CookieCase is a history of Cookie.tla.
type CookieCase struct {
	Prot []int        `json:"prot"`
	Hdl  []string     `json:"hdl"`
	Hist []CookieStep `json:"hist"`
}

func (k CookieCase) String() string {
	s := fmt.Sprintf("%v %v", k.Prot, k.Hdl)
	for _, h := range k.Hist {
		if h.D == "setup" {
			continue
		}
		s += fmt.Sprintf(" [s%d p%d %v psk=%v fresh=%v %s %d: %s]", h.I, h.Q, h.Su, h.PSK, h.Fresh, h.D, h.K, h.Out)
	}
	return s
}

type cookieHandler struct {
	kind  string
	value func(q string) []byte
	mu    sync.Mutex
	gen   [][]byte
	val   [][]byte
}

func (h *cookieHandler) Generate(c *mint.Conn) ([]byte, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.kind == "skip" {
		return nil, nil
	}
	if h.kind == "err" {
		return nil, errors.New("no cookie today")
	}
	v := h.value("no peer")
	if h.kind == "addr" {
		v = h.value(c.RemoteAddr().String())
	}
	h.gen = append(h.gen, v)
	return v, nil
}

func (h *cookieHandler) Validate(c *mint.Conn, v []byte) bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.val = append(h.val, append([]byte{}, v...))
	switch h.kind {
	case "any":
		return true
	case "addr":
		return bytes.Equal(v, h.value(c.RemoteAddr().String()))
	}
	return false
}

type issuedCookie struct {
	raw, tr []byte
	val     []byte
	inst    int
	hrr     *ref.Hello
	alg     ref.Alg
	kex     map[int]*ref.Kex
}

// RunCookie executes a history and returns what differs.
func RunCookie(k CookieCase, rng *rand.Rand) (cls string, bad []string) {
	badf := func(f string, a ...interface{}) { bad = append(bad, fmt.Sprintf(f, a...)) }
	pki := eut.ThePKI()
	prots := map[int]mint.CookieProtector{}
	psk := PSKFor(mint.TLS_AES_128_GCM_SHA256, "cookie psk", true)
	size := []int{8, 16, 100, 300, 5000}[rng.Intn(5)]
	key := ref.Rnd(16)
	value := func(q string) []byte {
		var o []byte
		for i := 0; len(o) < size; i++ {
			h := sha256.Sum256([]byte(fmt.Sprintf("%x %s %d", key, q, i)))
			o = append(o, h[:]...)
		}
		return o[:size]
	}
	cfgs, hdls := map[int]*mint.Config{}, map[int]*cookieHandler{}
	for i := range k.Prot {
		n := k.Prot[i]
		if prots[n] == nil {
			p, err := mint.NewDefaultCookieProtector()
			if err != nil {
				badf("protector: %v", err)
				return
			}
			prots[n] = p
		}
		c := &mint.Config{NonBlocking: true, Time: eut.Clock,
			CipherSuites:  []mint.CipherSuite{mint.TLS_AES_128_GCM_SHA256, mint.TLS_AES_256_GCM_SHA384},
			Groups:        []mint.NamedGroup{mint.X25519, mint.P256},
			Certificates:  []*mint.Certificate{pki.Ident("p256", "good", Host).Mint()},
			PSKModes:      []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE, mint.PSKModeKE},
			PSKs:          &mint.PSKMapCache{hex.EncodeToString(psk.Identity): psk},
			RequireCookie: true, CookieProtector: prots[n]}
		if k.Hdl[i] != "none" {
			h := &cookieHandler{kind: k.Hdl[i], value: value}
			c.CookieHandler, hdls[i+1] = h, h
		}
		cfgs[i+1] = c
	}
	type at struct{ i, q int }
	open := map[at]*eut.EUT{}
	var issued []issuedCookie
	seen := map[string]bool{}
	for n, h := range k.Hist {
		if h.D == "setup" {
			continue
		}
		where := fmt.Sprintf("hello %d", n)
		key := at{h.I, h.Q}
		e := open[key]
		if h.Fresh || e == nil {
			e = eut.New(cfgs[h.I], false)
			e.W.Addr = strconv.Itoa(h.Q)
			open[key] = e
		}
		hd := hdls[h.I]
		if hd != nil {
			hd.gen, hd.val = nil, nil
		}
		p := ref.NewClient()
		o := ref.CHOpt{Groups: []int{ref.X25519, ref.P256}, Shares: []int{ref.X25519}, Sigs: []int{ref.ECDSA256, ref.PSS256}, SNI: Host,
			Versions: []int{0x0304}, Modes: []int{1}}
		for _, s := range h.Su {
			o.Suites = append(o.Suites, int(sessSuite(s)))
		}
		if h.PSK {
			o.PSKs = []ref.PSKUse{{ID: psk.Identity, Key: psk.Key, Resumption: true, Suite: int(psk.CipherSuite), Age: psk.TicketAgeAdd}}
		}
		if h.K > 0 {
			if h.K > len(issued) {
				badf("%s: harness: cookie %d was not issued", where, h.K)
				return
			}
			c := issued[h.K-1]
			o.Cookie = append([]byte{}, c.raw...)
			p.Tr, p.HRR, p.Alg = append([]byte{}, c.tr...), c.hrr, c.alg
			if rng.Intn(2) == 0 {
				p.Kex = c.kex // the same key share, as an honest client has
			}
			d := h.D
			var other []byte
			if d == "splice" {
				for j, x := range issued {
					if j != h.K-1 && len(x.raw) > 40 {
						other = x.raw
					}
				}
				if other == nil {
					d = "drop"
				}
			}
			switch d {
			case "flip0":
				o.Cookie[0] ^= 1 << uint(rng.Intn(8))
			case "fliplast":
				o.Cookie[len(o.Cookie)-1] ^= 1 << uint(rng.Intn(8))
			case "flip":
				o.Cookie[rng.Intn(len(o.Cookie))] ^= 1 << uint(rng.Intn(8))
			case "trunc":
				o.Cookie = o.Cookie[:len(o.Cookie)-1]
			case "ext":
				o.Cookie = append(o.Cookie, byte(rng.Intn(256)))
			case "drop":
				o.Cookie = o.Cookie[:1+rng.Intn(len(o.Cookie)-1)]
			case "splice":
				o.Cookie = append(append([]byte{}, other[:32]...), o.Cookie[32:]...)
			}
		}
		switch h.D {
		case "forged":
			if rng.Intn(2) == 0 {
				o.Cookie = ref.Rnd(1 + rng.Intn(200))
			} else {
				// what this server would have issued, under another key
				cp, err := mint.NewDefaultCookieProtector()
				if err != nil {
					badf("protector: %v", err)
					return
				}
				a, _ := ref.SuiteByID(uint16(o.Suites[0]))
				o.Cookie, err = cp.NewToken((&ref.W{}).U16(o.Suites[0]).V16(ref.Rnd(a.Len())).V16(value("mem" + strconv.Itoa(h.Q))).B)
				if err != nil {
					badf("NewToken: %v", err)
					return
				}
			}
		case "empty":
			o.Cookie = []byte{}
		}
		if _, err := p.MakeCH(o); err != nil {
			badf("%s: harness: %v", where, err)
			return
		}
		p.Send(ref.RHandshake, p.CHMsg)
		e.W.Put(p.Flush())
		res := e.Step()
		if res.Out == eut.Panicked || res.Out == eut.Hung {
			badf("%s: %s", where, res)
			return
		}
		out := e.W.TakeBytes()
		p.Feed(out)
		kind := "fail"
		var serr error
		if len(out) > 5 && out[0] == ref.RHandshake {
			var hrr bool
			if h.D == "none" || p.HRR == nil {
				hrr, serr = p.RecvSH()
			} else {
				// a second HelloRetryRequest is legitimate only if the server did not take the cookie
				q := p.HRR
				hrr, serr = p.RecvSH()
				if hrr && serr != nil && q != nil {
					serr = nil
				}
			}
			kind = "sh"
			if hrr {
				kind = "hrr"
			}
		}
		if serr != nil {
			badf("%s: answer: %v", where, serr)
			return
		}
		if h.Out == "refuse" {
			if kind == "sh" || res.Out == eut.Connected {
				badf("%s: the server goes on with an empty cookie", where)
			}
			return cls + "e", bad
		}
		cls += h.Out[:1]
		if kind != h.Out {
			badf("%s: server answers %s (%s), specification %s", where, kind, res, h.Out)
			return
		}
		switch kind {
		case "fail":
			if res.Out != eut.Failed {
				badf("%s: server does not fail: %s", where, res)
				return
			}
			delete(open, key)
		case "hrr":
			if res.Out != eut.Progress {
				badf("%s: server after a HelloRetryRequest: %s", where, res)
				return
			}
			if p.RawPending() != 0 || p.HSBuffered() != 0 {
				badf("%s: server sent more than a HelloRetryRequest", where)
			}
			if len(p.HRR.Exts) != 2 || !bytes.Equal(p.HRR.Exts.Find(ref.XVersions), []byte{3, 4}) || p.HRR.Exts.Find(ref.XCookie) == nil {
				badf("%s: HelloRetryRequest extensions %v", where, p.HRR.Exts)
				return
			}
			c := p.Cookie()
			if len(c) == 0 || seen[string(c)] {
				badf("%s: empty or repeated cookie", where)
				return
			}
			seen[string(c)] = true
			x := issuedCookie{raw: c, tr: p.Tr, inst: h.I, hrr: p.HRR, alg: p.Alg, kex: p.Kex}
			if hd != nil {
				if len(hd.gen) != 1 {
					badf("%s: the handler was asked for %d values", where, len(hd.gen))
					return
				}
				x.val = hd.gen[0]
				if bytes.Contains(out, x.val[:8]) {
					badf("%s: the application value is visible in the HelloRetryRequest", where)
				}
			}
			if bytes.Contains(out, p.Alg.Hash(p.CHMsg)) {
				badf("%s: the ClientHello hash is visible in the HelloRetryRequest", where)
			}
			issued = append(issued, x)
		case "sh":
			delete(open, key)
			if hd != nil && h.K > 0 {
				ok := len(hd.val) >= 1
				for _, v := range hd.val {
					ok = ok && bytes.Equal(v, issued[h.K-1].val)
				}
				if !ok {
					badf("%s: the handler was asked about %d values, not the issued one", where, len(hd.val))
				}
			}
			sel, err := p.ClientKeys(o.PSKs)
			if err != nil {
				badf("%s: ServerHello: %v", where, err)
				return
			}
			if (sel >= 0) != h.PSK {
				badf("%s: PSK used=%v, offered=%v", where, sel >= 0, h.PSK)
				return
			}
			if _, err := p.RecvFlight(sel >= 0); err != nil {
				badf("%s: server flight: %v", where, err)
				return
			}
			p.Out = p.Alg.Keys(p.S.CHS)
			p.SendHS(p.FinMsg())
			e.W.Put(p.Flush())
			if res = e.Step(); res.Out != eut.Connected {
				badf("%s: handshake after the cookie does not complete: %s", where, res)
				return
			}
			p.S.SetApp(p.TH())
			cs := e.C.ConnectionState()
			if int(cs.CipherSuite.Suite) != p.SH.Suites[0] || cs.UsingPSK != h.PSK {
				badf("%s: server reports suite %04x PSK %v", where, int(cs.CipherSuite.Suite), cs.UsingPSK)
			}
		}
		if len(bad) > 0 {
			return
		}
	}
	return
}

// CookieHonestCase is a case of CookieHonest.tla.
type CookieHonestCase struct {
	C struct {
		Style string   `json:"style"`
		Su    []string `json:"su"`
		PSK   string   `json:"psk"`
		Val   string   `json:"val"`
		Auth  bool     `json:"auth"`
		Tr    string   `json:"tr"`
	} `json:"c"`
	Hellos int    `json:"hellos"`
	HRRs   int    `json:"hrrs"`
	Suite  string `json:"suite"`
	Res    bool   `json:"res"`
	Early  bool   `json:"early"`
}

func (k CookieHonestCase) String() string { return fmt.Sprintf("%+v", k.C) }

type onceHandler struct {
	mu       sync.Mutex
	v        []byte
	gen, val [][]byte
}

func (h *onceHandler) Generate(c *mint.Conn) ([]byte, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.gen = append(h.gen, h.v)
	return h.v, nil
}

func (h *onceHandler) Validate(c *mint.Conn, v []byte) bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.val = append(h.val, append([]byte{}, v...))
	return bytes.Equal(v, h.v)
}

// RunCookieHonest runs a case and returns what differs.
func RunCookieHonest(k CookieHonestCase, rng *rand.Rand) (bad []string) {
	badf := func(f string, a ...interface{}) { bad = append(bad, fmt.Sprintf(f, a...)) }
	pki := eut.ThePKI()
	c := k.C
	dtls := c.Tr == "dtls"
	cc := &mint.Config{NonBlocking: c.Style != "blk2", Time: eut.Clock, ServerName: Host, RootCAs: pki.CA.Pool, UseDTLS: dtls,
		Groups: []mint.NamedGroup{mint.X25519}}
	sc := &mint.Config{NonBlocking: c.Style == "same" || c.Style == "fresh", Time: eut.Clock, UseDTLS: dtls,
		Groups: []mint.NamedGroup{mint.P256, mint.X25519}, Certificates: []*mint.Certificate{pki.Ident("p256", "good", Host).Mint()},
		RequireCookie: true}
	for _, s := range c.Su {
		cc.CipherSuites = append(cc.CipherSuites, sessSuite(s))
	}
	if c.Style != "dflt" {
		cp, err := mint.NewDefaultCookieProtector()
		if err != nil {
			badf("protector: %v", err)
			return
		}
		sc.CookieProtector = cp
	}
	var hd *onceHandler
	switch c.Val {
	case "none":
	case "skip":
		sc.CookieHandler = &cookieHandler{kind: "skip"}
	default:
		n, _ := strconv.Atoi(c.Val)
		hd = &onceHandler{v: ref.Rnd(n)}
		sc.CookieHandler = hd
	}
	if c.PSK != "none" {
		psk := PSKFor(mint.TLS_AES_128_GCM_SHA256, "honest psk", true)
		cc.PSKs = &mint.PSKMapCache{Host: psk}
		sc.PSKs = &mint.PSKMapCache{hex.EncodeToString(psk.Identity): psk}
		cc.PSKModes, sc.PSKModes = sessModes([]string{"dhe"}), sessModes([]string{"dhe", "ke"})
		if c.PSK == "ke" {
			cc.PSKModes = sessModes([]string{"ke"})
		}
		if c.PSK == "early" {
			cc.AllowEarlyData, sc.AllowEarlyData = true, true
		}
	}
	if c.Auth {
		sc.RequireClientAuth = true
		cc.Certificates = []*mint.Certificate{pki.Ident("p256", "good2", "client").Mint()}
	}
	p := NewPair(cc, sc)
	switch {
	case c.Style == "blk2":
		p.Cli.W.OnWrite, p.Srv.W.OnWrite = func(b []byte) { p.Srv.W.Put(b) }, func(b []byte) { p.Cli.W.Put(b) }
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); p.SRes = p.Srv.HandshakeOnce() }()
		go func() { defer wg.Done(); p.CRes = p.Cli.HandshakeOnce() }()
		wg.Wait()
		p.C2S, p.S2C = p.Cli.W.Take(), p.Srv.W.Take()
	default:
		srvs := []*eut.EUT{p.Srv}
		done := make(chan struct{})
		if !sc.NonBlocking {
			srv := p.Srv
			go func() {
				defer close(done)
				r := srv.HandshakeOnce()
				srv.W.Stop()
				p.SRes = r
			}()
		}
		for i := 0; i < 50; i++ {
			if !settled(p.CRes) {
				p.CRes = p.Cli.Step()
			}
			a := p.Move()
			if sc.NonBlocking {
				if !settled(p.SRes) {
					p.SRes = p.Srv.Step()
				}
			} else {
				p.Srv.W.WaitIdle()
			}
			b := p.Move()
			if sc.NonBlocking && p.SRes.Retry && c.Style == "fresh" {
				// a stateless server: another connection object takes the next ClientHello
				p.SRes = eut.Res{}
				p.Srv = eut.New(sc, false)
				srvs = append(srvs, p.Srv)
			}
			if !a && !b && i > 2 {
				break
			}
		}
		if !sc.NonBlocking {
			p.Srv.W.EOF() // a server that still waits gives up
			<-done
		}
		for _, s := range srvs[:len(srvs)-1] {
			if s.IsConnected() {
				badf("a server that asked for a retry is connected")
			}
		}
		if want := k.HRRs; c.Style == "fresh" && len(srvs) != want+1 {
			badf("%d servers saw a ClientHello, specification %d", len(srvs), want+1)
		}
	}
	if b := p.Broken(); b != "" {
		badf("%s", b)
		return
	}
	if !p.Both() {
		badf("does not complete: client %s server %s", p.CRes, p.SRes)
		return
	}
	hellos, hrrs := countHellos(p, dtls)
	if hellos != k.Hellos || hrrs != k.HRRs {
		badf("%d ClientHellos and %d HelloRetryRequests, specification %d and %d", hellos, hrrs, k.Hellos, k.HRRs)
	}
	bad = append(bad, p.Agree()...)
	for _, e := range []*eut.EUT{p.Cli, p.Srv} {
		s := e.C.ConnectionState()
		if s.CipherSuite.Suite != sessSuite(k.Suite) || s.UsingPSK != k.Res || s.UsingEarlyData != k.Early {
			badf("suite %04x PSK %v early %v, specification %s %v %v", int(s.CipherSuite.Suite), s.UsingPSK, s.UsingEarlyData, k.Suite, k.Res, k.Early)
		}
	}
	if n := len(p.Srv.C.ConnectionState().PeerCertificates); (n > 0) != (c.Auth && !k.Res) {
		badf("server reports %d client certificates", n)
	}
	if hd != nil {
		if len(hd.gen) != 1 || len(hd.val) != 1 || !bytes.Equal(hd.val[0], hd.v) {
			badf("handler: %d values generated, %d validated", len(hd.gen), len(hd.val))
		}
		if len(hd.v) > 15 {
			for _, b := range append(p.C2S, p.S2C...) {
				if bytes.Contains(b, hd.v[:16]) {
					badf("the application value is visible on the wire")
					break
				}
			}
		}
	}
	if !sc.NonBlocking || !cc.NonBlocking {
		return
	}
	return append(bad, p.Exchange("after the cookie")...)
}

// countHellos counts the ClientHellos and HelloRetryRequests on the wire.
func countHellos(p *Pair, dtls bool) (hellos, hrrs int) {
	count := func(chunks [][]byte, t byte) int {
		seen := map[string]bool{}
		n := 0
		if dtls {
			for _, d := range chunks {
				if len(d) < 25 || d[0] != ref.RHandshake || d[3] != 0 || d[4] != 0 || d[13] != t {
					continue
				}
				if t == ref.TSH && (d[19] != 0 || d[20] != 0 || d[21] != 0 || !bytes.Contains(d, ref.HRRRandom)) {
					continue
				}
				s := string(d[17:19])
				if !seen[s] {
					seen[s] = true
					n++
				}
			}
			return n
		}
		var hs []byte
		for _, d := range chunks {
			if d[0] != ref.RHandshake {
				break
			}
			hs = append(hs, d[5:]...)
		}
		for len(hs) >= 4 {
			l := 4 + (int(hs[1])<<16 | int(hs[2])<<8 | int(hs[3]))
			if l > len(hs) {
				break
			}
			if hs[0] == t && (t != ref.TSH || bytes.Contains(hs[:l], ref.HRRRandom)) {
				n++
			}
			hs = hs[l:]
		}
		return n
	}
	return count(p.C2S, ref.TCH), count(p.S2C, ref.TSH)
}
