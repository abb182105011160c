package drv

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// EarlyTok is a chunk of the specification.
type EarlyTok struct {
	K string `json:"k"`
	I int    `json:"i"`
}

// EarlyCase is a behaviour of Early.tla.
type EarlyCase struct {
	Cf struct {
		Ticket string `json:"ticket"`
		CA     bool   `json:"ca"`
		SA     bool   `json:"sa"`
		Cookie bool   `json:"cookie"`
	} `json:"cf"`
	Steps []struct {
		A   string     `json:"a"`
		OK  bool       `json:"ok"`
		C   bool       `json:"c"`
		S   bool       `json:"s"`
		Srd []EarlyTok `json:"srd"`
		Crd []EarlyTok `json:"crd"`
	} `json:"steps"`
	Acc bool `json:"acc"`
	PSK bool `json:"psk"`
	NE  int  `json:"ne"`
	ND  int  `json:"nd"`
	NS  int  `json:"ns"`
}

func (k EarlyCase) String() string {
	s := fmt.Sprintf("ticket=%s client=%v server=%v cookie=%v: ", k.Cf.Ticket, k.Cf.CA, k.Cf.SA, k.Cf.Cookie)
	for _, x := range k.Steps {
		s += x.A + " "
	}
	return s
}

type earlyRun struct {
	p          *Pair
	k          EarlyCase
	rng        *rand.Rand
	early, dat [][]byte // what the client wrote
	srv        [][]byte // what the server wrote
	srd, crd   []byte
	fl         [2][][]byte
	bad        []string
	buf        int
	big        bool
}

func (r *earlyRun) badf(f string, a ...interface{}) { r.bad = append(r.bad, fmt.Sprintf(f, a...)) }

// RunEarly executes a case.
func RunEarly(k EarlyCase, rng *rand.Rand) []string {
	pki := eut.ThePKI()
	suite := mint.TLS_AES_128_GCM_SHA256
	if rng.Intn(2) == 0 {
		suite = mint.TLS_AES_256_GCM_SHA384
	}
	psk := PSKFor(suite, "ticket for early data", true)
	cc := &mint.Config{NonBlocking: true, Time: eut.Clock, ServerName: Host, RootCAs: pki.CA.Pool, Groups: []mint.NamedGroup{mint.X25519}, AllowEarlyData: k.Cf.CA}
	sc := &mint.Config{NonBlocking: true, Time: eut.Clock, Certificates: []*mint.Certificate{pki.Ident("p256", "good", Host).Mint()}, Groups: []mint.NamedGroup{mint.X25519}, AllowEarlyData: k.Cf.SA}
	if k.Cf.Ticket != "none" {
		cc.PSKs = &mint.PSKMapCache{Host: psk}
	}
	if k.Cf.Ticket == "known" {
		sc.PSKs = &mint.PSKMapCache{fmt.Sprintf("%x", psk.Identity): psk}
	} else {
		o := PSKFor(suite, "another ticket", true)
		sc.PSKs = &mint.PSKMapCache{fmt.Sprintf("%x", o.Identity): o}
	}
	switch rng.Intn(3) {
	case 0:
		cc.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeKE}
	case 1:
		cc.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE}
	}
	if k.Cf.Cookie {
		sc.RequireCookie, sc.CookieProtector = true, streamCookies
	}
	r := &earlyRun{p: NewPair(cc, sc), k: k, rng: rng, buf: []int{1, 3, 50, 5000}[rng.Intn(4)]}
	for i, s := range k.Steps {
		r.step(s.A, s.OK)
		if len(r.bad) == 0 {
			if g := r.p.Cli.IsConnected(); g != s.C {
				r.badf("client connected=%v, specification %v", g, s.C)
			}
			if g := r.p.Srv.IsConnected(); g != s.S {
				r.badf("server connected=%v, specification %v", g, s.S)
			}
			// a chunk of two records may have arrived in part
			if w := r.expect(s.Srd, true); !bytes.HasPrefix(r.srd, w) || len(r.srd) > len(w) && !bytes.HasPrefix(r.total(), r.srd) || len(r.srd) > len(w) && !r.big {
				r.badf("server has read %s, specification %s", brief(r.srd), brief(w))
			}
			if w := r.expect(s.Crd, false); !bytes.Equal(r.crd, w) {
				r.badf("client has read %s, specification %s", brief(r.crd), brief(w))
			}
		}
		if len(r.bad) > 0 {
			return []string{fmt.Sprintf("step %d (%s): %s", i+1, s.A, r.bad[0])}
		}
	}
	r.finish()
	return r.bad
}

func (r *earlyRun) expect(ts []EarlyTok, srv bool) []byte {
	var b []byte
	for _, t := range ts {
		switch {
		case !srv:
			b = append(b, r.srv[t.I-1]...)
		case t.K == "E":
			b = append(b, r.early[t.I-1]...)
		default:
			b = append(b, r.dat[t.I-1]...)
		}
	}
	return b
}

// total is everything the server's application must get.
func (r *earlyRun) total() []byte {
	var want []byte
	if r.k.Acc {
		want = bytes.Join(r.early, nil)
	}
	return append(want, bytes.Join(r.dat, nil)...)
}

func (r *earlyRun) take() {
	if b := r.p.Cli.W.TakeBytes(); len(b) > 0 {
		r.fl[1] = append(r.fl[1], b)
	}
	if b := r.p.Srv.W.TakeBytes(); len(b) > 0 {
		r.fl[0] = append(r.fl[0], b)
	}
}

func (r *earlyRun) data(tag string, i int) []byte {
	n := 1 + r.rng.Intn(100)
	if r.rng.Intn(10) == 0 {
		n = 16380 + r.rng.Intn(5000)
		r.big = r.big || n > 16384
	}
	b := []byte(fmt.Sprintf("<%s%d>", tag, i))
	for len(b) < n {
		b = append(b, byte(r.rng.Intn(256)))
	}
	return b
}

func (r *earlyRun) poll(e *eut.EUT, res *eut.Res) {
	*res = e.Step()
	if res.Out != eut.Connected && res.Out != eut.Progress {
		r.badf("Handshake: %s", res)
	}
	r.take()
}

func (r *earlyRun) step(a string, ok bool) {
	p := r.p
	switch a {
	case "Pc":
		r.poll(p.Cli, &p.CRes)
	case "Ps":
		r.poll(p.Srv, &p.SRes)
	case "Dc", "dc", "Ds", "ds":
		x, w := 0, p.Cli.W
		if a[1] == 's' {
			x, w = 1, p.Srv.W
		}
		q := r.fl[x]
		if len(q) == 0 {
			r.badf("driver: nothing in flight")
			return
		}
		n := len(q)
		if a[0] == 'd' {
			n--
		}
		for _, b := range q[:n] {
			w.Put(b)
		}
		r.fl[x] = q[n:]
		if a[0] == 'd' {
			l := r.fl[x][0]
			cut := r.rng.Intn(len(l))
			w.Put(l[:cut])
			r.fl[x] = [][]byte{l[cut:]}
		}
	case "W":
		conn := p.Cli.IsConnected()
		b := r.data("E", len(r.early)+1)
		if conn {
			b = r.data("D", len(r.dat)+1)
		}
		n, err, o, note := p.Cli.Write(b)
		if o != "" {
			r.badf("Write: %s %s", o, note)
			return
		}
		if !ok {
			if err == nil || n != 0 {
				r.badf("Write of early data is accepted (%d, %v) although none may be sent", n, err)
			}
			if w := p.Cli.W.Take(); len(w) > 0 {
				r.badf("a refused Write put %d records on the wire", len(w))
			}
			return
		}
		if err != nil || n != len(b) {
			r.badf("Write: %d %v", n, err)
			return
		}
		if conn {
			r.dat = append(r.dat, b)
		} else {
			r.early = append(r.early, b)
		}
		r.take()
	case "V":
		b := r.data("S", len(r.srv)+1)
		n, err, o, note := p.Srv.Write(b)
		if err != nil || n != len(b) || o != "" {
			r.badf("server Write: %d %v %s%s", n, err, o, note)
			return
		}
		r.srv = append(r.srv, b)
		r.take()
	case "Rs", "Rc":
		e, into := p.Srv, &r.srd
		if a == "Rc" {
			e, into = p.Cli, &r.crd
		}
		rr := e.ReadAll(r.buf)
		if rr.Out != "" || rr.Err != nil {
			r.badf("Read: %s", rr)
		}
		*into = append(*into, rr.Data...)
		r.take()
	}
}

func (r *earlyRun) finish() {
	p := r.p
	if p.CRes.Out == "" {
		r.step("Pc", true)
	}
	for i := 0; i < 6 && len(r.bad) == 0 && !p.Both(); i++ {
		for x, a := range []string{"Dc", "Ds"} {
			if len(r.fl[x]) > 0 {
				r.step(a, true)
			}
		}
		if !settled(p.CRes) {
			r.step("Pc", true)
		}
		if !settled(p.SRes) {
			r.step("Ps", true)
		}
	}
	if len(r.bad) > 0 {
		return
	}
	if !p.Both() {
		r.badf("does not complete: client %s server %s", p.CRes, p.SRes)
		return
	}
	for x, a := range []string{"Dc", "Ds"} {
		if len(r.fl[x]) > 0 {
			r.step(a, true)
		}
	}
	r.step("Rs", true)
	r.step("Rc", true)
	if len(r.bad) > 0 {
		return
	}
	want := r.total()
	if !bytes.Equal(r.srd, want) {
		r.badf("server read %s in total, specification %s", brief(r.srd), brief(want))
	}
	if w := bytes.Join(r.srv, nil); !bytes.Equal(r.crd, w) {
		r.badf("client read %s in total, specification %s", brief(r.crd), brief(w))
	}
	for _, e := range []*eut.EUT{p.Cli, p.Srv} {
		st := e.C.ConnectionState()
		if st.UsingEarlyData != r.k.Acc || st.UsingPSK != r.k.PSK {
			r.badf("client=%v reports early data %v, PSK %v; specification %v, %v", e.Client, st.UsingEarlyData, st.UsingPSK, r.k.Acc, r.k.PSK)
		}
	}
	// what was offered on the wire
	if ch := firstHello(p.Cli.W.AllOut); ch == nil {
		r.badf("no ClientHello on the wire")
	} else if got, want := ch.Exts.Has(ref.XEarly), r.k.Cf.CA && r.k.Cf.Ticket != "none"; got != want {
		r.badf("ClientHello offers early data=%v, specification %v", got, want)
	}
	r.bad = append(r.bad, p.Agree()...)
	if len(r.bad) == 0 {
		r.bad = append(r.bad, p.Exchange("last")...)
	}
}

func firstHello(out [][]byte) *ref.Hello {
	var body []byte
	for _, d := range out {
		if len(d) > 5 && d[0] == ref.RHandshake {
			body = append(body, d[5:]...)
		}
	}
	if len(body) < 4 {
		return nil
	}
	n := int(body[1])<<16 | int(body[2])<<8 | int(body[3])
	if len(body) < 4+n {
		return nil
	}
	h, err := ref.ParseHello(true, false, body[4:4+n])
	if err != nil {
		return nil
	}
	return h
}
