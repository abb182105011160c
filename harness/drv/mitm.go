package drv

import (
	"bytes"
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"math/rand"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// MitmMode is a mode of Mitm.tla.
type MitmMode struct {
	Name  string `json:"name"`
	HRR   bool   `json:"hrr"`
	Early string `json:"early"`
}

// MitmOp is one manipulation, at the level of the specification.
type MitmOp struct {
	D string `json:"d"`
	K string `json:"k"`
	U string `json:"u"`
}

// MitmCase is a terminal state of Mitm.tla.
type MitmCase struct {
	Mode MitmMode `json:"mode"`
	Ops  []MitmOp `json:"ops"`
	Both bool     `json:"both"`
}

// MitmAct makes an operation concrete: which record of the unit, which byte or variant.
type MitmAct struct {
	MitmOp
	Rec  int    `json:"rec"`
	Off  int    `json:"off"`
	Bit  byte   `json:"bit"`
	Var  string `json:"var"`
	done bool
}

const mitmEarlyText = "early data of the client"

// mitmConfigs builds the configurations of a mode.  Everything that must be the same in
// two runs (identities, PSKs, cookie key) comes from shared state.
type MitmEnv struct {
	Mode MitmMode
	DTLS bool
	psk  mint.PreSharedKey
	cp   mint.CookieProtector
	// Old holds the units of an earlier undisturbed run.
	Old map[string][][]byte
	// Units holds the records of each unit, for enumerating positions.
	Units map[string][][]byte
}

func NewMitmEnv(m MitmMode, dtls bool) *MitmEnv {
	v := &MitmEnv{Mode: m, DTLS: dtls}
	suite := mint.TLS_AES_128_GCM_SHA256
	if m.Name == "psk384" {
		suite = mint.TLS_AES_256_GCM_SHA384
	}
	v.psk = PSKFor(suite, "mitm psk", true)
	v.psk.NextProto = "h2"
	cp, err := mint.NewDefaultCookieProtector()
	if err != nil {
		panic(err)
	}
	v.cp = cp
	p, bad := v.Run(nil)
	if len(bad) == 0 {
		v.Old = p.units
		p, bad = v.Run(nil)
		v.Units = p.units
	}
	if len(bad) > 0 {
		// reported by the caller through the undisturbed case
		v.Units = map[string][][]byte{}
		v.Old = map[string][][]byte{}
	}
	return v
}

func (v *MitmEnv) configs() (*mint.Config, *mint.Config) {
	pki := eut.ThePKI()
	cc := &mint.Config{NonBlocking: true, Time: eut.Clock, ServerName: Host, RootCAs: pki.CA.Pool, NextProtos: []string{"h2", "h1"},
		Groups: []mint.NamedGroup{mint.X25519, mint.P256}, UseDTLS: v.DTLS}
	sc := &mint.Config{NonBlocking: true, Time: eut.Clock, Certificates: []*mint.Certificate{pki.Ident("p256", "inter", Host).Mint()},
		NextProtos: []string{"h1", "h2"}, Groups: []mint.NamedGroup{mint.X25519, mint.P256}, SendSessionTickets: true, TicketLifetime: 1000, UseDTLS: v.DTLS}
	cpsk, spsk := mint.PSKMapCache{}, mint.PSKMapCache{}
	know, offer := false, false
	switch v.Mode.Name {
	case "cert", "cookie":
	case "cauth":
		sc.RequireClientAuth = true
		cc.Certificates = []*mint.Certificate{pki.Ident("p256", "good", "client").Mint()}
	case "pskdhe":
		know, offer = true, true
		cc.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE}
	case "pskke":
		know, offer = true, true
		cc.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeKE}
	case "psk384", "cookiepsk":
		know, offer = true, true
	case "unknown":
		offer = true
	case "early":
		know, offer = true, true
		cc.AllowEarlyData, sc.AllowEarlyData = true, true
	case "earlyrej":
		offer = true
		cc.AllowEarlyData, sc.AllowEarlyData = true, true
	case "cookieearly":
		know, offer = true, true
		cc.AllowEarlyData, sc.AllowEarlyData = true, true
	default:
		panic("unknown mode " + v.Mode.Name)
	}
	if v.Mode.HRR {
		sc.RequireCookie, sc.CookieProtector = true, v.cp
	}
	if offer {
		cpsk[Host] = v.psk
	}
	if know {
		spsk[hex.EncodeToString(v.psk.Identity)] = v.psk
	}
	cc.PSKs, sc.PSKs = &cpsk, &spsk
	return cc, sc
}

// MitmRun is the state of one attacked handshake.
type MitmRun struct {
	*Pair
	env      *MitmEnv
	acts     []*MitmAct
	units    map[string][][]byte
	sawHRR   bool
	sawSH    bool
	sawCF    bool
	data     bool
	held     [2][][]byte
	lastSent [2][]byte
	Applied  int
}

func (r *MitmRun) hdr() int {
	if r.env.DTLS {
		return 13
	}
	return 5
}

// unit names the flight a record belongs to.
func (r *MitmRun) unit(toServer bool, b []byte) string {
	if len(b) == 0 {
		return ""
	}
	h := r.hdr()
	plain := b[0] == ref.RHandshake && (!r.env.DTLS || b[3] == 0 && b[4] == 0)
	if b[0] == ref.RAlert {
		return ""
	}
	if toServer {
		switch {
		case plain && r.sawHRR && !r.sawSH:
			return "CH2"
		case plain && !r.sawSH:
			return "CH"
		case !r.sawSH:
			return "EARLY"
		case !r.data:
			r.sawCF = true
			return "CFLT"
		}
		return "DATA"
	}
	switch {
	case plain && bytes.Contains(b, ref.HRRRandom):
		r.sawHRR = true
		return "HRR"
	case plain:
		r.sawSH = true
		return "SH"
	case !r.sawCF:
		return "SFLT"
	case !r.data:
		return "NST"
	}
	_ = h
	return "DATA"
}

// Mode is the mode of the run.
func (r *MitmRun) Mode() MitmMode { return r.env.Mode }

func dir(toServer bool) int {
	if toServer {
		return 1
	}
	return 0
}

func (r *MitmRun) tamper(toServer bool, b []byte) [][]byte {
	u := r.unit(toServer, b)
	d := "s2c"
	if toServer {
		d = "c2s"
	}
	idx := len(r.units[u])
	r.units[u] = append(r.units[u], b)
	out := [][]byte{b}
	for _, a := range r.acts {
		if a.done || a.U != u || a.D != d || a.Rec != idx || u == "" {
			continue
		}
		a.done = true
		r.Applied++
		switch a.K {
		case "drop":
			out = nil
		case "dup":
			out = [][]byte{b, b}
		case "alter":
			out = [][]byte{r.alter(a, b)}
		case "old":
			old := r.env.Old[u]
			if idx < len(old) {
				out = [][]byte{old[idx]}
			} else {
				out = nil
			}
		case "reflect":
			out = [][]byte{r.lastSent[dir(!toServer)], b}
		case "inject", "app":
			out = [][]byte{r.injected(a), b}
		case "split":
			h := r.hdr()
			k := h + 1 + a.Off%(len(b)-h-1)
			x := append([]byte{}, b[:k]...)
			y := append(append([]byte{}, b[:h]...), b[k:]...)
			setLen(x, h)
			setLen(y, h)
			out = [][]byte{x, y}
		case "swap":
			r.held[dir(toServer)] = append(r.held[dir(toServer)], b)
			r.lastSent[dir(toServer)] = b
			return nil
		}
	}
	r.lastSent[dir(toServer)] = b
	if hd := r.held[dir(toServer)]; len(hd) > 0 {
		out = append(out, hd...)
		r.held[dir(toServer)] = nil
	}
	return out
}

func setLen(rec []byte, h int) {
	n := len(rec) - h
	rec[h-2], rec[h-1] = byte(n>>8), byte(n)
}

func (r *MitmRun) injected(a *MitmAct) []byte {
	p := ref.NewServer()
	var rec []byte
	v := a.Var
	if a.K == "app" {
		v = "app"
	}
	switch v {
	case "hs":
		rec = p.PlainRecord(ref.RHandshake, ref.Msg(ref.TFin, ref.Rnd(32)))
	case "close":
		rec = p.PlainRecord(ref.RAlert, []byte{1, 0})
	case "fatal":
		rec = p.PlainRecord(ref.RAlert, []byte{2, 40})
	case "app":
		rec = p.PlainRecord(ref.RApp, ref.Rnd(40))
	case "ku":
		rec = p.PlainRecord(ref.RHandshake, ref.Msg(ref.TKU, []byte{0}))
	case "ccs":
		rec = p.PlainRecord(20, []byte{1})
	}
	if r.env.DTLS {
		x := append([]byte{rec[0], 0xfe, 0xfd, 0, 0, 0, 0, 0, 0, 0, byte(200 + a.Off%50)}, rec[3:]...)
		return x
	}
	return rec
}

// InjectVars are the variants of an injected record.
var InjectVars = []string{"hs", "close", "fatal", "ku", "ccs"}

// HelloVars are the semantic alterations of a hello message.
var HelloVars = []string{"drop0", "drop1", "drop2", "drop3", "drop4", "drop5", "drop6", "drop7", "drop8", "drop9", "exts", "sid", "random", "suites", "suite1", "share", "groups", "sigs", "alpn", "alpn1", "sni", "modes", "legacy"}

func (r *MitmRun) alter(a *MitmAct, b []byte) []byte {
	x := append([]byte{}, b...)
	h := r.hdr()
	switch {
	case a.Var == "":
		if a.Off < len(x) {
			x[a.Off] ^= a.Bit
		}
	case a.Var == "trunc":
		x = x[:len(x)-1]
		setLen(x, h)
	case a.Var == "extend":
		x = append(x, 0)
		setLen(x, h)
	case a.Var == "empty":
		x = x[:h]
		setLen(x, h)
	default:
		if r.env.DTLS || len(b) < h+4 {
			return x
		}
		client := b[h] == ref.TCH
		m, err := ref.ParseHello(client, false, b[h+4:])
		if err != nil {
			return x
		}
		alterHello(m, a.Var, client)
		x = append(x[:h:h], m.Msg()...)
		setLen(x, h)
	}
	return x
}

func revInts(b []byte) []byte {
	l := ref.ParseU16List(b)
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return ref.U16List(l...)
}

func alterHello(m *ref.Hello, v string, client bool) {
	if len(v) == 5 && v[:4] == "drop" {
		if i := int(v[4] - '0'); i < len(m.Exts) {
			m.Exts = append(append(ref.Exts{}, m.Exts[:i]...), m.Exts[i+1:]...)
		}
		return
	}
	switch v {
	case "exts":
		if len(m.Exts) > 1 {
			m.Exts[0], m.Exts[1] = m.Exts[1], m.Exts[0]
		}
	case "sid":
		m.SessionID = bytes.Repeat([]byte{7}, 32)
	case "random":
		m.Random = ref.Rnd(32)
	case "suites":
		if len(m.Suites) > 1 {
			m.Suites[0], m.Suites[1] = m.Suites[1], m.Suites[0]
		} else if m.Suites[0] == 0x1301 {
			m.Suites[0] = 0x1302
		} else {
			m.Suites[0] = 0x1301
		}
	case "suite1":
		if client {
			m.Suites = m.Suites[len(m.Suites)-1:]
		} else {
			m.Suites[0] = 0x1303
		}
	case "share":
		d := m.Exts.Find(ref.XKeyShare)
		if d == nil {
			return
		}
		k, err := ref.NewKex(ref.X25519)
		if err != nil {
			return
		}
		m.Exts = m.Exts.Replace(ref.XKeyShare, ref.SharesExt(client, ref.Share{Group: ref.X25519, Data: k.Pub}))
	case "groups":
		if d := m.Exts.Find(ref.XGroups); d != nil {
			m.Exts = m.Exts.Replace(ref.XGroups, revInts(d))
		}
	case "sigs":
		if d := m.Exts.Find(ref.XSigAlgs); d != nil {
			m.Exts = m.Exts.Replace(ref.XSigAlgs, revInts(d))
		}
	case "alpn":
		if d := m.Exts.Find(ref.XALPN); d != nil {
			l := ref.ParseALPN(d)
			m.Exts = m.Exts.Replace(ref.XALPN, ref.ALPNExt(l[len(l)-1], l[0]))
		}
	case "alpn1":
		if d := m.Exts.Find(ref.XALPN); d != nil {
			l := ref.ParseALPN(d)
			m.Exts = m.Exts.Replace(ref.XALPN, ref.ALPNExt(l[len(l)-1]))
		}
	case "sni":
		if m.Exts.Has(ref.XSNI) {
			m.Exts = m.Exts.Replace(ref.XSNI, ref.SNIExt("other."+Host))
		}
	case "modes":
		if m.Exts.Has(ref.XPSKModes) {
			d := m.Exts.Find(ref.XPSKModes)
			n := []byte{1, 0}
			if d[len(d)-1] == 0 {
				n = []byte{1, 1}
			}
			m.Exts = m.Exts.Replace(ref.XPSKModes, n)
		}
	case "legacy":
		m.Version ^= 1
	}
}

// Run executes one attacked handshake and reports violations of agreement; Survived says
// whether both sides completed and exchanged data.
func (v *MitmEnv) Run(acts []*MitmAct) (*MitmRun, []string) {
	cc, sc := v.configs()
	r := &MitmRun{Pair: NewPair(cc, sc), env: v, acts: acts, units: map[string][][]byte{}}
	r.Pair.Tamper = r.tamper
	var bad []string
	if cc.AllowEarlyData {
		r.CRes = r.Cli.Step()
		if n, err, o, note := r.Cli.Write([]byte(mitmEarlyText)); err != nil || o != "" || n != len(mitmEarlyText) {
			bad = append(bad, fmt.Sprintf("early Write: %d %v %s%s", n, err, o, note))
		}
	}
	r.Handshake()
	if b := r.Broken(); b != "" {
		return r, append(bad, b)
	}
	return r, bad
}

// Judge compares the end of the run with the property.  survived: both completed, and
// data passes both ways.
func (r *MitmRun) Judge() (survived bool, bad []string) {
	if !r.Both() {
		return false, nil
	}
	bad = r.Agree()
	pki := eut.ThePKI()
	var sch, cch []*x509.Certificate
	if !r.Cli.C.ConnectionState().UsingPSK {
		sch = pki.Ident("p256", "inter", Host).Chain
		if r.Mode().Name == "cauth" {
			cch = pki.Ident("p256", "good", "client").Chain
		}
	}
	bad = append(bad, r.AgreeCerts(sch, cch)...)
	r.data = true
	if r.Mode().Early != "" {
		rr := r.Srv.ReadAll(1000)
		want := ""
		if r.Srv.C.ConnectionState().UsingEarlyData {
			want = mitmEarlyText
		}
		if string(rr.Data) != want {
			bad = append(bad, fmt.Sprintf("server reads early data %q, expected %q", trunc(rr.Data), want))
		}
		if rr.Err != nil {
			return false, bad
		}
	}
	x := r.Exchange("mitm")
	return len(x) == 0, bad
}

// Expand lists the concrete forms of an operation.  stride thins out the byte positions.
func (v *MitmEnv) Expand(o MitmOp, stride int, rng *rand.Rand) []*MitmAct {
	var out []*MitmAct
	recs := v.Units[o.U]
	for i, b := range recs {
		switch o.K {
		case "alter":
			ofs := 0
			if stride > 1 {
				ofs = rng.Intn(stride)
			}
			for off := ofs; off < len(b); off += stride {
				out = append(out, &MitmAct{MitmOp: o, Rec: i, Off: off, Bit: 1 << uint(rng.Intn(8))})
			}
			for _, s := range []string{"trunc", "extend", "empty"} {
				out = append(out, &MitmAct{MitmOp: o, Rec: i, Var: s})
			}
			if !v.DTLS && (o.U == "CH" || o.U == "CH2" || o.U == "SH" || o.U == "HRR") {
				for _, s := range HelloVars {
					out = append(out, &MitmAct{MitmOp: o, Rec: i, Var: s})
				}
			}
		case "inject":
			for _, s := range InjectVars {
				out = append(out, &MitmAct{MitmOp: o, Rec: i, Var: s, Off: rng.Intn(50)})
			}
		case "split":
			for k := 0; k < 3; k++ {
				out = append(out, &MitmAct{MitmOp: o, Rec: i, Off: rng.Intn(1000)})
			}
		default:
			out = append(out, &MitmAct{MitmOp: o, Rec: i})
		}
	}
	return out
}

// Noop reports whether an action leaves the record as it was, or only touches what is not
// part of the handshake (the legacy version of the record header).
func (r *MitmRun) Noop(a *MitmAct) bool {
	if a.K == "alter" {
		recs := r.units[a.U]
		if a.Rec >= len(recs) {
			return true
		}
		if a.Var == "" && (a.Off == 1 || a.Off == 2 || a.Off >= len(recs[a.Rec])) {
			return true
		}
		if a.Var != "" && bytes.Equal(r.alter(a, recs[a.Rec]), recs[a.Rec]) {
			return true
		}
	}
	return !a.done
}
