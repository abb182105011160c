package drv

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"

	"github.com/bifurcation/mint"

	"verifharness/eut"
)

// StyleCase is a behaviour of Styles.tla.
type StyleCase struct {
	Cookie bool `json:"cookie"`
	Steps  []struct {
		A string `json:"a"`
		C bool   `json:"c"`
		S bool   `json:"s"`
	} `json:"steps"`
}

func (k StyleCase) String() string {
	s := ""
	for _, x := range k.Steps {
		s += x.A + " "
	}
	return s
}

// styleWant is what every schedule of a mode must negotiate.
type styleWant struct {
	suite             mint.CipherSuite
	psk, early        bool
	srvCerts, cliCert int
}

func wantFor(mode string) styleWant {
	w := styleWant{suite: mint.TLS_AES_128_GCM_SHA256}
	switch mode {
	case "psk384", "early384":
		w.suite = mint.TLS_AES_256_GCM_SHA384
	}
	switch mode {
	case "psk", "psk384", "early", "early384", "dhe":
		w.psk = true
	default:
		w.srvCerts = 1
	}
	w.early = mode == "early" || mode == "early384"
	if mode == "cauth" {
		w.cliCert = 1
	}
	return w
}

// CheckNegotiated compares the reported parameters with what the mode must give.
func CheckNegotiated(p *Pair, mode string) []string {
	w := wantFor(mode)
	var bad []string
	for _, e := range []*eut.EUT{p.Cli, p.Srv} {
		st := e.C.ConnectionState()
		certs := w.cliCert
		who := "server"
		if e.Client {
			certs, who = w.srvCerts, "client"
		}
		if st.CipherSuite.Suite != w.suite || st.UsingPSK != w.psk || st.UsingEarlyData != w.early || len(st.PeerCertificates) != certs || st.NextProto != "" {
			bad = append(bad, fmt.Sprintf("%s reports suite %04x psk %v early %v certificates %d ALPN %q", who, int(st.CipherSuite.Suite), st.UsingPSK, st.UsingEarlyData, len(st.PeerCertificates), st.NextProto))
		}
	}
	return bad
}

type styleRun struct {
	p     *Pair
	mode  string
	early bool
	wrote []byte
	read  []byte
	fl    [2][][]byte // in flight: to client, to server
	bad   []string
	rng   *rand.Rand
}

func (r *styleRun) badf(f string, a ...interface{}) { r.bad = append(r.bad, fmt.Sprintf(f, a...)) }

func (r *styleRun) take() {
	r.fl[1] = append(r.fl[1], r.p.Cli.W.Take()...)
	r.fl[0] = append(r.fl[0], r.p.Srv.W.Take()...)
}

func (r *styleRun) poll(x int) {
	e, res := r.p.Cli, &r.p.CRes
	if x == 1 {
		e, res = r.p.Srv, &r.p.SRes
	}
	was := res.Out
	*res = e.Step()
	switch res.Out {
	case eut.Connected:
	case eut.Progress:
		if n := e.W.Pending(); n != 0 {
			r.badf("would block with %d bytes unread", n)
		}
		if was == eut.Connected {
			r.badf("a completed handshake no longer reports completion")
		}
	default:
		r.badf("Handshake: %s", res)
	}
	r.take()
	if x == 0 && r.early && r.wrote == nil {
		r.wrote = []byte("zero round trips")
		if n, err, o, note := e.Write(r.wrote); n != len(r.wrote) || err != nil || o != "" {
			r.badf("early Write: %d %v %s%s", n, err, o, note)
		}
		r.take()
	}
	if r.rng.Intn(3) == 0 && len(r.bad) == 0 {
		a := e.HandshakeOnce()
		if a.Out != res.Out {
			r.badf("polling again: %s after %s", a, res)
		}
		if w := e.W.Take(); len(w) > 0 {
			r.badf("polling again without input wrote %d records", len(w))
		}
	}
}

func (r *styleRun) deliver(x int, full bool) {
	w := r.p.Cli.W
	if x == 1 {
		w = r.p.Srv.W
	}
	q := r.fl[x]
	if len(q) == 0 {
		return
	}
	if full {
		for _, b := range q {
			w.Put(b)
		}
		r.fl[x] = nil
		return
	}
	l := q[len(q)-1]
	for _, b := range q[:len(q)-1] {
		w.Put(b)
	}
	cut := r.rng.Intn(len(l))
	w.Put(l[:cut])
	r.fl[x] = [][]byte{l[cut:]}
}

// noise uses the API too early.
func (r *styleRun) noise(x int) {
	e := r.p.Cli
	if x == 1 {
		e = r.p.Srv
	}
	rr := e.ReadAll(5)
	if rr.Out != "" {
		r.badf("early Read: %s %s", rr.Out, rr.Note)
	}
	if x == 1 {
		r.read = append(r.read, rr.Data...)
	} else if len(rr.Data) > 0 {
		r.badf("the client read %q before completion", rr.Data)
	}
	if !(x == 0 && r.early) {
		if n, err, o, note := e.Write([]byte("too early")); err == nil || n != 0 || o != "" {
			r.badf("Write before completion: %d %v %s%s", n, err, o, note)
		}
	}
	var err error
	if o, note := e.Guard(func() { _, err = e.C.ComputeExporter("x", nil, 8) }); o != "" || err == nil {
		r.badf("exporter before completion: %v %s%s", err, o, note)
	}
	if o, note := e.Guard(func() { err = e.C.SendKeyUpdate(true) }); o != "" || err == nil {
		r.badf("SendKeyUpdate before completion: %v %s%s", err, o, note)
	}
	if w := e.W.Take(); len(w) > 0 {
		r.badf("calls that are refused wrote %d records", len(w))
	}
}

// RunStyle executes one schedule on one mode.
func RunStyle(k StyleCase, mode string, rng *rand.Rand) []string {
	cc, sc := StreamConfigs(mode)
	r := &styleRun{p: NewPair(cc, sc), mode: mode, early: cc.AllowEarlyData, rng: rng}
	for i, s := range k.Steps {
		switch s.A {
		case "Pc":
			r.poll(0)
		case "Ps":
			r.poll(1)
		case "Dc", "dc":
			r.deliver(0, s.A == "Dc")
		case "Ds", "ds":
			r.deliver(1, s.A == "Ds")
		case "Ac":
			r.noise(0)
		case "As":
			r.noise(1)
		}
		if len(r.bad) == 0 {
			if g := r.p.Cli.IsConnected(); g != s.C {
				r.badf("client connected=%v, specification %v", g, s.C)
			}
			if g := r.p.Srv.IsConnected(); g != s.S {
				r.badf("server connected=%v, specification %v", g, s.S)
			}
		}
		if len(r.bad) > 0 {
			return []string{fmt.Sprintf("step %d (%s): %s", i+1, s.A, r.bad[0])}
		}
	}
	for i := 0; i < 6 && !r.p.Both(); i++ {
		r.deliver(0, true)
		r.poll(0)
		r.deliver(1, true)
		r.poll(1)
		if len(r.bad) > 0 {
			return r.bad
		}
	}
	r.deliver(0, true)
	r.deliver(1, true)
	return r.finish()
}

func (r *styleRun) finish() []string {
	if !r.p.Both() {
		return []string{fmt.Sprintf("does not complete: client %s server %s", r.p.CRes, r.p.SRes)}
	}
	if r.early && r.p.Srv.W.Pending() == 0 && !bytes.Equal(r.read, r.wrote) {
		rr := r.p.Srv.ReadAll(3)
		r.read = append(r.read, rr.Data...)
		if rr.Err != nil {
			r.badf("reading early data: %s", rr)
		}
	}
	if !bytes.Equal(r.read, r.wrote) {
		r.badf("the server read %q, early data was %q", r.read, r.wrote)
	}
	r.bad = append(r.bad, CheckNegotiated(r.p, r.mode)...)
	r.bad = append(r.bad, r.p.Agree()...)
	if len(r.bad) == 0 {
		r.bad = append(r.bad, r.p.Exchange("after")...)
	}
	return r.bad
}

// RunBlocking connects a pair in which either side may be blocking, over a transport that cuts at random.
func RunBlocking(mode string, cb, sb bool, rng *rand.Rand, seg string) []string {
	cc, sc := StreamConfigs(mode)
	if cb && cc.AllowEarlyData {
		return nil // a blocking client cannot write early data
	}
	cc.NonBlocking, sc.NonBlocking = !cb, !sb
	r := &styleRun{p: NewPair(cc, sc), mode: mode, early: cc.AllowEarlyData, rng: rng}
	p := r.p
	var mu sync.Mutex
	rnd := func(n int) int { mu.Lock(); defer mu.Unlock(); return 1 + rng.Intn(n) }
	put := func(w *eut.Wire) func(b []byte) {
		return func(b []byte) {
			b = append([]byte{}, b...)
			switch seg {
			case "rnd":
				for len(b) > 0 {
					n := rnd(len(b))
					w.Put(b[:n])
					b = b[n:]
				}
			default:
				w.Put(b)
			}
		}
	}
	if seg == "byte" {
		p.Cli.W.MaxRead, p.Srv.W.MaxRead = 1, 1
	}
	p.Cli.W.OnWrite, p.Srv.W.OnWrite = put(p.Srv.W), put(p.Cli.W)
	var wg sync.WaitGroup
	run := func(e *eut.EUT, blocking bool, res *eut.Res) {
		defer wg.Done()
		if blocking {
			*res = e.HandshakeOnce()
			if !settled(*res) && res.Out == eut.Progress {
				*res = eut.Res{Out: eut.Failed, Alert: res.Alert, Note: "a blocking Handshake returned early"}
			}
			return
		}
		first := true
		for i := 0; i < 2000000; i++ {
			*res = e.Step()
			if first && e.Client && r.early {
				r.wrote = []byte("zero round trips")
				e.Write(r.wrote)
			}
			first = false
			if settled(*res) {
				return
			}
		}
	}
	wg.Add(2)
	go run(p.Srv, sb, &p.SRes)
	go run(p.Cli, cb, &p.CRes)
	wg.Wait()
	if !p.Both() {
		return []string{fmt.Sprintf("does not complete: client %s server %s", p.CRes, p.SRes)}
	}
	bad := append(CheckNegotiated(p, mode), p.Agree()...)
	// data: written before it is read, so that blocking reads find it
	for i, x := range []*eut.EUT{p.Cli, p.Srv} {
		y := p.Srv
		want := append([]byte{}, r.wrote...)
		if i == 1 {
			y, want = p.Cli, nil
		}
		msg := bytes.Repeat([]byte(fmt.Sprintf("data %d ", i)), 1+rng.Intn(5000))
		want = append(want, msg...)
		if n, err, o, note := x.Write(msg); err != nil || n != len(msg) || o != "" {
			bad = append(bad, fmt.Sprintf("Write: %d %v %s%s", n, err, o, note))
			continue
		}
		got, buf := []byte{}, make([]byte, 1+rng.Intn(30000))
		if o, note := y.Guard(func() {
			for len(got) < len(want) {
				n, err := y.C.Read(buf)
				got = append(got, buf[:n]...)
				if err != nil && err != mint.AlertWouldBlock {
					bad = append(bad, fmt.Sprintf("Read: %v", err))
					return
				}
			}
		}); o != "" {
			bad = append(bad, fmt.Sprintf("Read: %s %s", o, note))
		} else if !bytes.Equal(got, want) {
			bad = append(bad, fmt.Sprintf("read %s, want %s", brief(got), brief(want)))
		}
	}
	return bad
}
