package drv

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"time"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// SessConn is one step of Session.tla.
type SessConn struct {
	A       string   `json:"a"`
	Cl      int      `json:"cl"`
	Sr      int      `json:"sr"`
	Nm      string   `json:"nm"`
	Su      []string `json:"su"`
	Cm      []string `json:"cm"`
	Sm      []string `json:"sm"`
	Fl      string   `json:"fl"`
	Ck      bool     `json:"ck"`
	Tx      string   `json:"tx"`
	OK      bool     `json:"ok"`
	PSK     bool     `json:"psk"`
	Suite   string   `json:"suite"`
	Proto   string   `json:"proto"`
	Cp      []string `json:"cp"`
	Sp      []string `json:"sp"`
	Offered bool     `json:"offered"`
	T       int      `json:"t"`
	New     int      `json:"new"`
}

// SessCase is a history of Session.tla.
type SessCase struct {
	Hist []SessConn `json:"hist"`
}

func (k SessCase) String() string {
	s := ""
	for _, h := range k.Hist {
		if h.A == "forget" {
			s += fmt.Sprintf("[s%d forgets] ", h.Sr)
			continue
		}
		s += fmt.Sprintf("[c%d-s%d %s %v %v/%v t%d %s tx=%s ck=%v] ", h.Cl, h.Sr, h.Nm, h.Su, h.Cm, h.Sm, h.T, h.Fl, h.Tx, h.Ck)
	}
	return s
}

func sessSuite(s string) mint.CipherSuite {
	if s == "a" {
		return mint.TLS_AES_128_GCM_SHA256
	}
	return mint.TLS_AES_256_GCM_SHA384
}

func sessModes(m []string) []mint.PSKKeyExchangeMode {
	var o []mint.PSKKeyExchangeMode
	for _, x := range m {
		if x == "ke" {
			o = append(o, mint.PSKModeKE)
		} else {
			o = append(o, mint.PSKModeDHEKE)
		}
	}
	return o
}

// RunSession executes a history and returns what differs.
func RunSession(k SessCase, rng *rand.Rand) (cls string, bad []string) {
	badf := func(f string, a ...interface{}) { bad = append(bad, fmt.Sprintf(f, a...)) }
	dtls := rng.Intn(4) == 0
	pki := eut.ThePKI()
	name := func(n string) string { return n + "." + Host }
	ccache := map[int]mint.PreSharedKeyCache{1: &mint.PSKMapCache{}, 2: &mint.PSKMapCache{}}
	scache := map[int]*mint.PSKMapCache{1: {}, 2: {}}
	tickets := map[int]mint.PreSharedKey{}
	seenKey := map[string]int{}
	keep := func(i int, what string, b []byte) {
		if len(b) == 0 {
			return
		}
		s := string(b)
		if j, ok := seenKey[s]; ok && j != i {
			badf("connection %d uses the %s of connection %d", i+1, what, j+1)
		}
		seenKey[s] = i
	}
	for i, h := range k.Hist {
		if h.A == "forget" {
			scache[h.Sr] = &mint.PSKMapCache{}
			continue
		}
		cc := &mint.Config{NonBlocking: true, Time: eut.Clock, ServerName: name(h.Nm), RootCAs: pki.CA.Pool, UseDTLS: dtls,
			NextProtos: h.Cp, Groups: []mint.NamedGroup{mint.X25519}, PSKModes: sessModes(h.Cm), PSKs: ccache[h.Cl]}
		for _, s := range h.Su {
			cc.CipherSuites = append(cc.CipherSuites, sessSuite(s))
		}
		sc := &mint.Config{NonBlocking: true, Time: eut.Clock, UseDTLS: dtls, PSKs: scache[h.Sr], PSKModes: sessModes(h.Sm), NextProtos: h.Sp,
			Groups:             []mint.NamedGroup{mint.P256, mint.X25519},
			Certificates:       []*mint.Certificate{pki.Ident("p256", "good", name("n1")).Mint(), pki.Ident("p256", "good", name("n2")).Mint()},
			SendSessionTickets: h.Tx != "none", TicketLifetime: 3600}
		if h.Ck {
			sc.RequireCookie, sc.CookieProtector = true, streamCookies
		}
		restore := func() {}
		if h.Fl != "none" {
			t := tickets[h.T]
			t.Identity = append([]byte{}, t.Identity...)
			t.Key = append([]byte{}, t.Key...)
			switch h.Fl {
			case "key":
				t.Key[rng.Intn(len(t.Key))] ^= 1 << uint(rng.Intn(8))
			case "age":
				d := []time.Duration{-time.Hour, time.Hour, -30 * time.Second, 20 * time.Second, 49 * 24 * time.Hour}[rng.Intn(5)]
				t.ReceivedAt = t.ReceivedAt.Add(d)
			case "ageold", "aged":
				// the server has had the ticket for long; the client's claim agrees (aged) or is what it was when fresh
				d := []time.Duration{20 * time.Second, time.Minute, 10 * time.Minute, 50 * time.Minute}[rng.Intn(4)]
				id := hex.EncodeToString(t.Identity)
				if o, ok := scache[h.Sr].Get(id); ok {
					old := o
					o.ReceivedAt = o.ReceivedAt.Add(-d)
					scache[h.Sr].Put(id, o)
					restore = func() { scache[h.Sr].Put(id, old) }
				}
				if h.Fl == "aged" {
					t.ReceivedAt = t.ReceivedAt.Add(-d)
				}
			case "label":
				t.IsResumption = false
			case "idswap":
				for n, o := range tickets {
					if _, ok := scache[h.Sr].Get(hex.EncodeToString(o.Identity)); ok && n != h.T && o.CipherSuite == t.CipherSuite {
						t.Identity = o.Identity
						break
					}
				}
			case "unk":
				t.Identity = ref.Rnd(1 + rng.Intn(64))
			}
			cc.PSKs = &mint.PSKMapCache{name(h.Nm): t}
		}
		before := map[string]bool{}
		for id := range *scache[h.Sr] {
			before[id] = true
		}
		var tr *eut.Tracer
		if !dtls {
			tr = &eut.Tracer{}
			tr.Attach(cc, true)
			tr.Attach(sc, false)
		}
		p := NewPair(cc, sc)
		p.Handshake()
		restore()
		at := fmt.Sprintf("connection %d", i+1)
		if b := p.Broken(); b != "" {
			badf("%s: %s", at, b)
			return
		}
		if ch, err := p.FirstHello(); err != nil {
			badf("%s: ClientHello: %v", at, err)
		} else if got := ch.Exts.Has(ref.XPSK); got != h.Offered {
			badf("%s: ticket offered=%v, specification %v", at, got, h.Offered)
		}
		if !h.OK {
			cls += "f"
			if p.Srv.IsConnected() || p.Cli.IsConnected() {
				badf("%s: completes (client %s, server %s) although the proof of the PSK is wrong (%s)", at, p.CRes, p.SRes, h.Fl)
			}
			if len(bad) > 0 {
				return
			}
			continue
		}
		if !p.Both() {
			badf("%s: does not complete: client %s server %s", at, p.CRes, p.SRes)
			return
		}
		if h.PSK {
			cls += "r"
		} else {
			cls += "F"
		}
		a, b := p.Cli.C.ConnectionState(), p.Srv.C.ConnectionState()
		if a.UsingPSK != h.PSK || b.UsingPSK != h.PSK {
			badf("%s: resumption reported client %v server %v, specification %v", at, a.UsingPSK, b.UsingPSK, h.PSK)
		}
		if a.CipherSuite.Suite != sessSuite(h.Suite) {
			badf("%s: suite %04x, specification %s", at, int(a.CipherSuite.Suite), h.Suite)
		}
		if a.NextProto != h.Proto {
			badf("%s: application protocol %q, specification %q", at, a.NextProto, h.Proto)
		}
		if h.PSK == (len(a.PeerCertificates) > 0) {
			badf("%s: %d peer certificates with resumption=%v", at, len(a.PeerCertificates), h.PSK)
		}
		bad = append(bad, p.Agree()...)
		// tickets
		var fresh []mint.PreSharedKey
		for id, t := range *scache[h.Sr] {
			if !before[id] {
				if id != hex.EncodeToString(t.Identity) {
					badf("%s: server stores the ticket under a wrong name", at)
				}
				fresh = append(fresh, t)
			}
		}
		if want := h.New != 0; (len(fresh) == 1) != want || len(fresh) > 1 {
			badf("%s: server stored %d tickets, specification %v", at, len(fresh), want)
			return
		}
		if len(bad) > 0 {
			return
		}
		if h.Tx == "unread" {
			msg := []byte("only towards the server")
			n, err, o, note := p.Cli.Write(msg)
			p.Move()
			if rr := p.Srv.ReadAll(100); n != len(msg) || err != nil || o != "" || !bytes.Equal(rr.Data, msg) {
				badf("%s: data: %d %v %s%s %s", at, n, err, o, note, rr)
			}
		} else {
			for _, e := range p.Exchange(at) {
				badf("%s: %s", at, e)
			}
		}
		if h.New != 0 {
			t := fresh[0]
			if t.CipherSuite != sessSuite(h.Suite) || !t.IsResumption || len(t.Identity) == 0 {
				badf("%s: stored ticket has suite %04x, resumption %v", at, int(t.CipherSuite), t.IsResumption)
			}
			for j, o := range tickets {
				if bytes.Equal(o.Identity, t.Identity) || bytes.Equal(o.Key, t.Key) {
					badf("%s: ticket repeats ticket %d", at, j)
				}
			}
			keep(i, "resumption secret", t.Key)
			tickets[h.New] = t
			if h.Tx == "read" {
				cache := cc.PSKs
				c, ok := cache.Get(name(h.Nm))
				if !ok || !bytes.Equal(c.Identity, t.Identity) || !bytes.Equal(c.Key, t.Key) || c.CipherSuite != t.CipherSuite || c.TicketAgeAdd != t.TicketAgeAdd || !c.IsResumption {
					badf("%s: the client did not store the ticket that the server issued", at)
				} else if h.Fl != "none" {
					ccache[h.Cl].Put(name(h.Nm), c)
				}
				// the client's copy: its own clock
				t = c
				tickets[h.New] = t
			}
		}
		// fresh keys
		if e, err := p.Cli.C.ComputeExporter("EXPORTER-fresh", nil, 32); err == nil {
			keep(i, "exporter", e)
		}
		if tr != nil {
			for _, e := range tr.Events() {
				keep(i, "traffic key", []byte(e.Key))
			}
		}
		if len(bad) > 0 {
			return
		}
	}
	return
}
