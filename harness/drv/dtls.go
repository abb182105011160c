package drv

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// T is the test the process runs in.
var T *testing.T

// Bubble runs f with its own virtual clock.
func Bubble(f func()) {
	T.Run("b", func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) { f() })
	})
}

// DtlsTick is the length of a tick of Dtls.tla: 1 tick is more than the
// acknowledgement delay, 4 are just more than the retransmission delay.
const DtlsTick = 26 * time.Millisecond

// DtlsDgram is a datagram as Dtls.tla describes it: kind, epoch, message, fragment.
type DtlsDgram struct {
	K  string `json:"k"`
	Ep int    `json:"ep"`
	M  int    `json:"m"`
	F  int    `json:"f"`
}

// DtlsStep is a step of Dtls.tla.
type DtlsStep struct {
	A  string `json:"a"`
	W  string `json:"w"`
	I  int    `json:"i"`
	Tx struct {
		C []DtlsDgram `json:"c"`
		S []DtlsDgram `json:"s"`
	} `json:"tx"`
	CC bool `json:"cc"`
	SC bool `json:"sc"`
	CT int  `json:"ct"` // ms until the client's next timer, -1: none
	ST int  `json:"st"`
	// number of the payload in the delivered datagram
	Data int `json:"data"`
}

// DtlsCase is a behaviour of Dtls.tla.
type DtlsCase struct {
	Mode  string     `json:"mode"`
	Steps []DtlsStep `json:"steps"`
}

func (k DtlsCase) String() string {
	var b strings.Builder
	b.WriteString(k.Mode)
	for _, s := range k.Steps {
		switch s.A {
		case "start":
		case "tick":
			b.WriteString(" tick")
		default:
			fmt.Fprintf(&b, " %s:%s%d", s.A, s.W, s.I)
		}
	}
	return b.String()
}

// longProtos are application protocols that make a hello of more than one fragment.
func longProtos(n int) []string {
	var o []string
	for i := 0; n > 0; i++ {
		l := 200
		if n < l {
			l = n
		}
		o = append(o, fmt.Sprintf("%02d", i)+strings.Repeat("p", l))
		n -= l
	}
	return o
}

// padChain appends certificates to a chain until the message has about n bytes.
func padChain(c *mint.Certificate, n int) *mint.Certificate {
	size := 0
	o := &mint.Certificate{PrivateKey: c.PrivateKey}
	for _, x := range c.Chain {
		o.Chain = append(o.Chain, x)
		size += 5 + len(x.Raw)
	}
	extra := eut.ThePKI().CA.Cert
	for size < n {
		o.Chain = append(o.Chain, extra)
		size += 5 + len(extra.Raw)
	}
	return o
}

// DtlsConfigs returns the configurations of a mode of Dtls.tla.
func DtlsConfigs(mode string) (cc, sc *mint.Config) {
	pki := eut.ThePKI()
	cc = &mint.Config{NonBlocking: true, Time: eut.Clock, UseDTLS: true, ServerName: Host, RootCAs: pki.CA.Pool, Groups: []mint.NamedGroup{mint.X25519}}
	sc = &mint.Config{NonBlocking: true, Time: eut.Clock, UseDTLS: true, Groups: []mint.NamedGroup{mint.X25519},
		Certificates: []*mint.Certificate{pki.Ident("p256", "good", Host).Mint()}}
	usePSK := func() {
		psk := PSKFor(mint.TLS_AES_128_GCM_SHA256, "dtls psk", true)
		cc.PSKs = &mint.PSKMapCache{Host: psk}
		sc.PSKs = &mint.PSKMapCache{hex.EncodeToString(psk.Identity): psk}
	}
	switch mode {
	case "psk":
		usePSK()
	case "bigch":
		usePSK()
		cc.NextProtos = longProtos(1400)
	case "cert":
		sc.Certificates[0] = padChain(sc.Certificates[0], 2600)
	case "cauth":
		sc.RequireClientAuth = true
		cc.Certificates = []*mint.Certificate{padChain(pki.Ident("p256", "good2", "client").Mint(), 1500)}
	case "cookie":
		usePSK()
		sc.RequireCookie, sc.CookieProtector = true, streamCookies
	case "bigcookie":
		usePSK()
		cc.NextProtos = longProtos(1400)
		sc.RequireCookie, sc.CookieProtector = true, streamCookies
		sc.CookieHandler = &onceHandler{v: bytes.Repeat([]byte("cookie"), 230)}
	}
	return
}

type dtlsRun struct {
	p    *Pair
	net  map[string][][]byte
	seen map[string]map[string]bool // record numbers used
	lens map[string]int             // length of the record of a fragment
	got  map[string][]byte
	bad  []string
	reps int
}

func (r *dtlsRun) badf(f string, a ...interface{}) { r.bad = append(r.bad, fmt.Sprintf(f, a...)) }

func (r *dtlsRun) end(w string) *eut.EUT {
	if w == "c" {
		return r.p.Cli
	}
	return r.p.Srv
}

// poll lets an endpoint do what it has to do.
func (r *dtlsRun) poll(w string) {
	e, res := r.end(w), &r.p.CRes
	if w == "s" {
		res = &r.p.SRes
	}
	for i := 0; i < 50; i++ {
		if e.IsConnected() {
			rr := e.ReadAll(2000)
			if rr.Err != nil || rr.Out != "" {
				r.badf("%s: Read: %s", w, rr)
				return
			}
			r.got[w] = append(r.got[w], rr.Data...)
		} else {
			*res = e.Step()
			if res.Out != eut.Connected && res.Out != eut.Progress {
				r.badf("%s: Handshake: %s", w, res)
				return
			}
		}
		if e.W.Pending() == 0 {
			return
		}
	}
	r.badf("%s: does not consume its input", w)
}

// sent takes what an endpoint wrote and checks the record headers.
func (r *dtlsRun) sent(w string) [][]byte {
	out := r.end(w).W.Take()
	for _, d := range out {
		if len(d) < 13 {
			r.badf("%s wrote a datagram of %d bytes", w, len(d))
			continue
		}
		if n := int(d[11])<<8 | int(d[12]); n != len(d)-13 {
			r.badf("%s wrote a datagram of %d bytes with a record of %d", w, len(d), n)
		}
		num := string(d[3:11])
		if r.seen[w][num] {
			r.badf("%s used record number %x twice", w, num)
		}
		r.seen[w][num] = true
		if len(d) > 1300 {
			r.badf("%s wrote a datagram of %d bytes", w, len(d))
		}
	}
	r.net[w] = append(r.net[w], out...)
	return out
}

func dgEpoch(d []byte) int { return int(d[3])<<8 | int(d[4]) }

// compare checks the datagrams that a step wrote.
func (r *dtlsRun) compare(at, w string, want []DtlsDgram, wrote [][]byte) bool {
	if len(want) != len(wrote) {
		r.badf("%s: %s sends %d datagrams, specification %d: %v", at, w, len(wrote), len(want), want)
		return false
	}
	for i, x := range want {
		d := wrote[i]
		if dgEpoch(d) != x.Ep {
			r.badf("%s: %s datagram %d in epoch %d, specification %d", at, w, i, dgEpoch(d), x.Ep)
			return false
		}
		if x.K != "hs" {
			if x.Ep == 0 && d[0] != ref.RAck {
				r.badf("%s: %s datagram %d is not an ACK", at, w, i)
			}
			continue
		}
		if x.Ep == 0 {
			if d[0] != ref.RHandshake || len(d) < 25 {
				r.badf("%s: %s datagram %d is not a handshake record", at, w, i)
				return false
			}
			if seq := int(d[17])<<8 | int(d[18]); seq != x.M-1 {
				r.badf("%s: %s datagram %d is of message %d, specification %d", at, w, i, seq, x.M-1)
			}
			off := int(d[19])<<16 | int(d[20])<<8 | int(d[21])
			if (off == 0) != (x.F == 1) {
				r.badf("%s: %s datagram %d has offset %d, specification fragment %d", at, w, i, off, x.F)
			}
		}
		name := fmt.Sprintf("%s/%d/%d", w, x.M, x.F)
		if n, ok := r.lens[name]; ok {
			r.reps++
			if n != len(d) {
				r.badf("%s: %s sends message %d fragment %d again with %d bytes instead of %d", at, w, x.M, x.F, len(d), n)
			}
		}
		r.lens[name] = len(d)
	}
	return true
}

func (r *dtlsRun) timer(at, w string, want int) {
	e := r.end(w)
	var on bool
	var d time.Duration
	if o, note := e.Guard(func() { on, d = e.C.GetDTLSTimeout() }); o != "" {
		r.badf("%s: GetDTLSTimeout: %s", at, note)
		return
	}
	if on != (want >= 0) || on && d != time.Duration(want)*time.Millisecond {
		r.badf("%s: %s timeout %v %v, specification %d ms", at, w, on, d, want)
	}
}

func payloadOf(n int) []byte { return bytes.Repeat([]byte(fmt.Sprintf("payload %d.", n)), 1+n*7%40) }

// RunDtls executes a behaviour of Dtls.tla and returns what differs.  It has to run in a Bubble.
func RunDtls(k DtlsCase, rng *rand.Rand) (cls string, bad []string) {
	cc, sc := DtlsConfigs(k.Mode)
	r := &dtlsRun{p: NewPair(cc, sc), net: map[string][][]byte{}, seen: map[string]map[string]bool{"c": {}, "s": {}}, lens: map[string]int{}, got: map[string][]byte{}}
	other := map[string]string{"c": "s", "s": "c"}
	for n, s := range k.Steps {
		at := fmt.Sprintf("step %d (%s %s%d)", n, s.A, s.W, s.I)
		before := map[string]int{"c": len(r.got["c"]), "s": len(r.got["s"])}
		switch s.A {
		case "start":
			r.poll("s")
			r.poll("c")
		case "deliver", "dup", "drop":
			q := r.net[s.W]
			if s.I < 1 || s.I > len(q) {
				r.badf("%s: harness: no such datagram", at)
				return cls, r.bad
			}
			d := q[s.I-1]
			if s.A != "dup" {
				r.net[s.W] = append(append([][]byte{}, q[:s.I-1]...), q[s.I:]...)
			}
			if s.A != "drop" {
				r.end(other[s.W]).W.Put(d)
				r.poll(other[s.W])
			}
		case "tick":
			time.Sleep(DtlsTick)
			r.poll("c")
			r.poll("s")
		case "data":
			e := r.end(s.W)
			b := payloadOf(s.I)
			if n, err, o, note := e.Write(b); n != len(b) || err != nil || o != "" {
				r.badf("%s: Write: %d %v %s%s", at, n, err, o, note)
			}
		}
		cw, sw := r.sent("c"), r.sent("s")
		if len(r.bad) > 0 {
			r.bad[0] = at + ": " + r.bad[0]
			return cls, r.bad
		}
		if c, v := r.p.Cli.IsConnected(), r.p.Srv.IsConnected(); c != s.CC || v != s.SC {
			r.badf("%s: connected client %v server %v, specification %v %v", at, c, v, s.CC, s.SC)
			return cls, r.bad
		}
		if !r.compare(at, "c", s.Tx.C, cw) || !r.compare(at, "s", s.Tx.S, sw) {
			return cls, r.bad
		}
		r.timer(at, "c", s.CT)
		r.timer(at, "s", s.ST)
		// payloads arrive exactly when their datagram does
		for _, w := range []string{"c", "s"} {
			fresh := r.got[w][before[w]:]
			var want []byte
			if s.A == "deliver" && other[s.W] == w && s.Data > 0 {
				want = payloadOf(s.Data)
			}
			if !bytes.Equal(fresh, want) {
				r.badf("%s: %s reads %d bytes, %d were sent", at, w, len(fresh), len(want))
			}
		}
		if len(r.bad) > 0 {
			return cls, r.bad
		}
	}
	// from now on the network behaves
	for i := 0; i < 60; i++ {
		for len(r.net["c"])+len(r.net["s"]) > 0 {
			for _, w := range []string{"c", "s"} {
				for _, d := range r.net[w] {
					r.end(other[w]).W.Put(d)
					r.poll(other[w])
				}
				r.net[w] = nil
			}
			r.sent("c")
			r.sent("s")
		}
		if r.p.Cli.IsConnected() && r.p.Srv.IsConnected() || len(r.bad) > 0 {
			break
		}
		time.Sleep(DtlsTick)
		r.poll("c")
		r.poll("s")
		r.sent("c")
		r.sent("s")
	}
	if len(r.bad) > 0 {
		return cls, r.bad
	}
	if !r.p.Cli.IsConnected() || !r.p.Srv.IsConnected() {
		r.badf("the handshake does not complete although the network behaves again")
		return cls, r.bad
	}
	cls = fmt.Sprintf("%s/%d", k.Mode, r.reps)
	r.p.C2S, r.p.S2C = nil, nil
	r.bad = append(r.bad, r.p.Agree()...)
	r.bad = append(r.bad, r.p.Exchange("after the faults")...)
	return cls, r.bad
}
