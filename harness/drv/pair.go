package drv

import (
	"bytes"
	"crypto/x509"
	"encoding/hex"
	"fmt"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// Pair is a mint client and a mint server on one (manipulable) transport.
type Pair struct {
	Cli, Srv   *eut.EUT
	CRes, SRes eut.Res
	// Tamper decides what reaches the other side instead of one written chunk.
	Tamper func(toServer bool, chunk []byte) [][]byte
	C2S    [][]byte // everything the client wrote
	S2C    [][]byte
}

// NewPair creates both endpoints (non-blocking).
func NewPair(cc, sc *mint.Config) *Pair {
	return &Pair{Cli: eut.New(cc, true), Srv: eut.New(sc, false)}
}

// Move transports what was written and reports whether anything was.
func (p *Pair) Move() bool {
	moved := false
	for _, b := range p.Cli.W.Take() {
		moved = true
		p.C2S = append(p.C2S, b)
		p.put(true, b)
	}
	for _, b := range p.Srv.W.Take() {
		moved = true
		p.S2C = append(p.S2C, b)
		p.put(false, b)
	}
	return moved
}

func (p *Pair) put(toServer bool, b []byte) {
	out := [][]byte{b}
	if p.Tamper != nil {
		out = p.Tamper(toServer, b)
	}
	w := p.Cli.W
	if toServer {
		w = p.Srv.W
	}
	for _, c := range out {
		w.Put(c)
	}
}

func settled(r eut.Res) bool { return r.Out != eut.Progress && r.Out != "" }

// Handshake runs both sides until neither makes progress.
func (p *Pair) Handshake() {
	for i := 0; i < 200; i++ {
		if !settled(p.CRes) {
			p.CRes = p.Cli.Step()
		}
		a := p.Move()
		if !settled(p.SRes) {
			p.SRes = p.Srv.Step()
		}
		b := p.Move()
		if !a && !b && p.Cli.W.Pending() == 0 && p.Srv.W.Pending() == 0 || settled(p.CRes) && settled(p.SRes) {
			return
		}
		if i > 20 && !a && !b {
			return
		}
	}
}

// Both reports whether both sides completed.
func (p *Pair) Both() bool { return p.CRes.Out == eut.Connected && p.SRes.Out == eut.Connected }

// Broken reports panics and hangs.
func (p *Pair) Broken() string {
	for _, r := range []eut.Res{p.CRes, p.SRes} {
		if r.Out == eut.Panicked || r.Out == eut.Hung {
			return r.String()
		}
	}
	return ""
}

// ExporterLabels are the exporters that Agree compares.
var exporterCases = []struct {
	label string
	ctx   []byte
	n     int
}{{"EXPORTER-a", nil, 32}, {"EXPORTER-a", []byte{}, 32}, {"EXPORTER-a", []byte("x"), 32}, {"EXPORTER-b", nil, 32}, {"EXPORTER-b", []byte("x"), 48}, {"EXPORTER-a", []byte("x"), 100}, {"EXPORTER-ax", nil, 32}}

// Agree checks that two connected endpoints have the same view.
func (p *Pair) Agree() []string {
	var bad []string
	badf := func(f string, a ...interface{}) { bad = append(bad, fmt.Sprintf(f, a...)) }
	a, b := p.Cli.C.ConnectionState(), p.Srv.C.ConnectionState()
	if a.CipherSuite.Suite != b.CipherSuite.Suite {
		badf("suites differ: client %04x server %04x", int(a.CipherSuite.Suite), int(b.CipherSuite.Suite))
	}
	if a.NextProto != b.NextProto {
		badf("application protocols differ: client %q server %q", a.NextProto, b.NextProto)
	}
	if a.UsingPSK != b.UsingPSK {
		badf("PSK use differs: client %v server %v", a.UsingPSK, b.UsingPSK)
	}
	if a.UsingEarlyData != b.UsingEarlyData {
		badf("early data use differs: client %v server %v", a.UsingEarlyData, b.UsingEarlyData)
	}
	seen := map[string]string{}
	for _, e := range exporterCases {
		x, err1 := p.Cli.C.ComputeExporter(e.label, e.ctx, e.n)
		y, err2 := p.Srv.C.ComputeExporter(e.label, e.ctx, e.n)
		if err1 != nil || err2 != nil || len(x) != e.n || !bytes.Equal(x, y) {
			badf("exporter %s/%q/%d: client %x (%v) server %x (%v)", e.label, e.ctx, e.n, trunc(x), err1, trunc(y), err2)
			continue
		}
		name := fmt.Sprintf("%s/%x", e.label, e.ctx)
		if o, ok := seen[hex.EncodeToString(x[:32])]; ok && o != name && e.n == 32 {
			badf("exporters %s and %s are equal", name, o)
		}
		if e.n == 32 {
			seen[hex.EncodeToString(x[:32])] = name
		}
	}
	return bad
}

// AgreeCerts compares the reported chains with the ones that were used.
func (p *Pair) AgreeCerts(server, client []*x509.Certificate) []string {
	var bad []string
	cmp := func(who string, got []*x509.Certificate, want []*x509.Certificate) {
		if len(got) != len(want) {
			bad = append(bad, fmt.Sprintf("%s reports %d peer certificates, expected %d", who, len(got), len(want)))
			return
		}
		for i := range got {
			if !bytes.Equal(got[i].Raw, want[i].Raw) {
				bad = append(bad, fmt.Sprintf("%s reports another peer certificate %d", who, i))
			}
		}
	}
	cmp("client", p.Cli.C.ConnectionState().PeerCertificates, server)
	cmp("server", p.Srv.C.ConnectionState().PeerCertificates, client)
	return bad
}

// Exchange sends data in both directions and checks what arrives.
func (p *Pair) Exchange(tag string) []string {
	var bad []string
	for i := 0; i < 2; i++ {
		for dir := 0; dir < 2; dir++ {
			from, to, who := p.Cli, p.Srv, "client to server"
			if dir == 1 {
				from, to, who = p.Srv, p.Cli, "server to client"
			}
			msg := []byte(fmt.Sprintf("%s %d %s", tag, i, who))
			n, err, o, note := from.Write(msg)
			if err != nil || o != "" || n != len(msg) {
				bad = append(bad, fmt.Sprintf("Write %s: %d %v %s%s", who, n, err, o, note))
				return bad
			}
			p.Move()
			rr := to.ReadAll(64)
			if rr.Err != nil || rr.Out != "" || !bytes.Equal(rr.Data, msg) {
				bad = append(bad, fmt.Sprintf("Read %s: %s, sent %q", who, rr, msg))
				return bad
			}
			p.Move()
		}
	}
	return bad
}

// FirstHello parses the client's first ClientHello off the wire.
func (p *Pair) FirstHello() (*ref.Hello, error) {
	if len(p.C2S) == 0 {
		return nil, fmt.Errorf("nothing written")
	}
	b := p.C2S[0]
	hdr, dtls := 5, p.Cli.Cfg.UseDTLS
	if dtls && len(b) < 25 {
		return nil, fmt.Errorf("short record")
	}
	var body []byte
	if dtls {
		// reassemble the fragments of the first ClientHello
		for _, d := range p.C2S {
			if len(d) < 25 || d[0] != ref.RHandshake || d[13] != ref.TCH || d[17] != b[17] || d[18] != b[18] {
				continue
			}
			n, off := int(d[14])<<16|int(d[15])<<8|int(d[16]), int(d[19])<<16|int(d[20])<<8|int(d[21])
			if body == nil {
				body = make([]byte, n)
			}
			if len(body) != n || off+len(d)-25 > n {
				return nil, fmt.Errorf("inconsistent ClientHello fragments")
			}
			copy(body[off:], d[25:])
		}
	} else {
		if len(b) < hdr+4 {
			return nil, fmt.Errorf("short record")
		}
		for _, d := range p.C2S {
			if d[0] == ref.RHandshake {
				body = append(body, d[hdr:]...)
			}
		}
		if len(body) < 4 {
			return nil, fmt.Errorf("short message")
		}
		n := int(body[1])<<16 | int(body[2])<<8 | int(body[3])
		if len(body) < 4+n {
			return nil, fmt.Errorf("incomplete ClientHello")
		}
		body = body[4 : 4+n]
	}
	return ref.ParseHello(true, dtls, body)
}
