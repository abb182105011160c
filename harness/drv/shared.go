package drv

import (
	"bytes"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sync"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// CfgProf is what the user sets in a Config of SharedConfig.tla.
type CfgProf struct {
	Nm   string   `json:"nm"`
	Cert string   `json:"cert"`
	Su   []string `json:"su"`
	Gr   []string `json:"gr"`
	Sg   []string `json:"sg"`
	Pr   []string `json:"pr"`
	Ck   bool     `json:"ck"`
	Tx   bool     `json:"tx"`
	Au   bool     `json:"au"`
	Ea   bool     `json:"ea"`
	Ks   bool     `json:"ks"`
	Tl   int      `json:"tl"`
}

// CfgRes is the outcome of a connection.
type CfgRes struct {
	OK    bool   `json:"ok"`
	Suite string `json:"suite"`
	PSK   bool   `json:"psk"`
	Proto string `json:"proto"`
	Early bool   `json:"early"`
	Cert  bool   `json:"cert"`
}

// CfgEvent is one step of SharedConfig.tla.
type CfgEvent struct {
	A    string `json:"a"`
	Objs []struct {
		Side string  `json:"side"`
		P    CfgProf `json:"p"`
		K    int     `json:"k"`
	} `json:"objs"`
	I   int             `json:"i"`
	C   int             `json:"c"`
	S   int             `json:"s"`
	O   int             `json:"o"`
	N   int             `json:"n"`
	F   string          `json:"f"`
	Osu []string        `json:"osu"`
	Off bool            `json:"off"`
	Ph  string          `json:"ph"`
	R   CfgRes          `json:"r"`
	Tx  bool            `json:"tx"`
	Tl  int             `json:"tl"`
	P   json.RawMessage `json:"p"`
}

// CfgPar is a connection that may run at the same time as all others.
type CfgPar struct {
	C   int      `json:"c"`
	S   int      `json:"s"`
	All []CfgRes `json:"all"`
}

// CfgCase is a history of SharedConfig.tla.
type CfgCase struct {
	Hist []CfgEvent `json:"hist"`
	Fin  []CfgProf  `json:"fin"`
	Par  []CfgPar   `json:"par"`
}

func (k CfgCase) String() string {
	s := ""
	for _, e := range k.Hist {
		switch e.A {
		case "new":
			for _, o := range e.Objs {
				s += fmt.Sprintf("%s%+v ", o.Side, o.P)
			}
		case "open":
			s += fmt.Sprintf("open%d(%d,%d,%s) ", e.I, e.C, e.S, e.F)
		case "clone", "set":
			s += fmt.Sprintf("%s(%d,%s) ", e.A, e.O, e.F)
		default:
			s += fmt.Sprintf("%s%d ", e.A, e.I)
		}
	}
	return s
}

var cfgGroup = map[string]mint.NamedGroup{"p256": mint.P256, "x25519": mint.X25519}
var cfgScheme = map[string]mint.SignatureScheme{"pss256": mint.RSA_PSS_SHA256, "ecdsa256": mint.ECDSA_P256_SHA256}

func cfgHost(n string) string { return n + "." + Host }

// setField puts one setting of a profile into a Config.
func setField(m *mint.Config, client bool, p CfgProf, f string) {
	pki := eut.ThePKI()
	switch f {
	case "nm":
		if client {
			m.ServerName = cfgHost(p.Nm)
		}
	case "su":
		m.CipherSuites = nil
		for _, x := range p.Su {
			m.CipherSuites = append(m.CipherSuites, sessSuite(x))
		}
	case "gr":
		m.Groups = nil
		for _, x := range p.Gr {
			m.Groups = append(m.Groups, cfgGroup[x])
		}
	case "sg":
		m.SignatureSchemes = nil
		for _, x := range p.Sg {
			m.SignatureSchemes = append(m.SignatureSchemes, cfgScheme[x])
		}
	case "pr":
		m.NextProtos = append([]string(nil), p.Pr...)
	case "cert":
		if !client {
			m.Certificates = []*mint.Certificate{pki.Ident(p.Cert, "good", cfgHost("n1")).Mint(), pki.Ident(p.Cert, "good", cfgHost("n2")).Mint()}
		}
	case "au":
		if client {
			m.Certificates = nil
			if p.Au {
				m.Certificates = []*mint.Certificate{pki.Ident("p256", "good", "client").Mint()}
			}
		} else {
			m.RequireClientAuth = p.Au
		}
	case "ck":
		m.RequireCookie = p.Ck
	case "tx":
		m.SendSessionTickets = p.Tx
		if !client {
			m.TicketLifetime = 3600
		}
	case "ea":
		m.AllowEarlyData = p.Ea
		if !client {
			m.EarlyDataLifetime = 1000
		}
	case "ks":
		if p.Ks {
			m.PSKs = &mint.PSKMapCache{}
		}
	case "tl":
		m.TicketLen = p.Tl
	}
}

func buildConfig(client bool, p CfgProf, nonblocking bool) *mint.Config {
	m := &mint.Config{NonBlocking: nonblocking, Time: eut.Clock}
	if client {
		m.RootCAs = eut.ThePKI().CA.Pool
	} else if nonblocking {
		m.CookieProtector = streamCookies
	}
	for _, f := range []string{"nm", "su", "gr", "sg", "pr", "cert", "au", "ck", "tx", "ea", "ks", "tl"} {
		setField(m, client, p, f)
	}
	return m
}

// ConfigFields are the fields a user can set.
func ConfigFields() []string {
	var o []string
	t := reflect.TypeOf(mint.Config{})
	for i := 0; i < t.NumField(); i++ {
		if f := t.Field(i); f.PkgPath == "" {
			o = append(o, f.Name)
		}
	}
	return o
}

// FieldEqual compares one field of two Configs.
func FieldEqual(name string, a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Func:
		return a.Pointer() == b.Pointer()
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		x, y := a.Elem(), b.Elem()
		if x.Type() != y.Type() {
			return false
		}
		if x.Kind() == reflect.Ptr || x.Kind() == reflect.Func {
			return x.Pointer() == y.Pointer()
		}
		return reflect.DeepEqual(a.Interface(), b.Interface())
	case reflect.Ptr:
		return a.Pointer() == b.Pointer()
	case reflect.Slice:
		return a.Len() == 0 && b.Len() == 0 || reflect.DeepEqual(a.Interface(), b.Interface())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// userSet is a deep enough copy of what the user has set.
type userSet map[string]reflect.Value

func snapshot(m *mint.Config) userSet {
	u := userSet{}
	v := reflect.ValueOf(m).Elem()
	for _, n := range ConfigFields() {
		f := v.FieldByName(n)
		if f.IsZero() || f.Kind() == reflect.Slice && f.Len() == 0 {
			continue
		}
		c := reflect.New(f.Type()).Elem()
		if f.Kind() == reflect.Slice {
			c.Set(reflect.AppendSlice(reflect.MakeSlice(f.Type(), 0, f.Len()), f))
		} else {
			c.Set(f)
		}
		u[n] = c
	}
	return u
}

func (u userSet) check(m *mint.Config) string {
	v := reflect.ValueOf(m).Elem()
	for _, n := range ConfigFields() {
		w, ok := u[n]
		if !ok {
			// a flag that the user left off stays off
			if f := v.FieldByName(n); f.Kind() == reflect.Bool && f.Bool() {
				return fmt.Sprintf("%s is on although the user left it off", n)
			}
			continue
		}
		if f := v.FieldByName(n); !FieldEqual(n, f, w) {
			return fmt.Sprintf("%s was set to %v by the user and is now %v", n, w, f)
		}
	}
	return ""
}

type cfgConn struct {
	p      *Pair
	cr, sr eut.Res
	c, s   int
	f      string
	dead   bool // failed earlier than the specification says
}

func feed(from, to *eut.EUT, flip bool) {
	for _, b := range from.W.Take() {
		if flip && len(b) > 5 && b[0] == ref.RApp {
			b = append([]byte{}, b...)
			b[len(b)-1] ^= 1
		}
		to.W.Put(b)
	}
}

func cacheSize(m *mint.Config) int {
	if p, ok := m.PSKs.(*mint.PSKMapCache); ok && p != nil {
		return len(*p)
	}
	return -1
}

// RunShared executes a history over shared Configs.
func RunShared(k CfgCase, rng *rand.Rand) (cls string, bad []string) {
	badf := func(f string, a ...interface{}) { bad = append(bad, fmt.Sprintf(f, a...)) }
	var cfg []*mint.Config
	var set []userSet
	var client []bool
	var profs []CfgProf
	conns := map[int]*cfgConn{}
	clientChain := eut.ThePKI().Ident("p256", "good", "client").Chain
	for n, e := range k.Hist {
		at := fmt.Sprintf("step %d (%s %d)", n, e.A, e.I)
		x := conns[e.I]
		switch e.A {
		case "new":
			for _, o := range e.Objs {
				cfg = append(cfg, buildConfig(o.Side == "c", o.P, true))
				client = append(client, o.Side == "c")
				profs = append(profs, o.P)
				set = append(set, snapshot(cfg[len(cfg)-1]))
			}
		case "clone":
			var cl *mint.Config
			func() {
				defer func() {
					if r := recover(); r != nil {
						badf("%s: Clone panics: %v", at, r)
					}
				}()
				cl = cfg[e.O-1].Clone()
			}()
			if cl == nil {
				badf("%s: Clone returns nothing", at)
				return
			}
			cfg = append(cfg, cl)
			client = append(client, client[e.O-1])
			profs = append(profs, profs[e.O-1])
			set = append(set, set[e.O-1])
			cls += "C"
		case "set":
			var np CfgProf
			if err := json.Unmarshal(e.P, &np); err != nil {
				panic(err)
			}
			profs[e.O-1] = np
			before := set[e.O-1]
			m := cfg[e.O-1]
			setField(m, client[e.O-1], profs[e.O-1], e.F)
			u := userSet{}
			now := snapshot(m)
			name := map[string]string{"su": "CipherSuites", "gr": "Groups", "sg": "SignatureSchemes", "pr": "NextProtos", "nm": "ServerName",
				"ck": "RequireCookie", "tx": "SendSessionTickets", "ea": "AllowEarlyData", "tl": "TicketLen", "au": "RequireClientAuth"}[e.F]
			if e.F == "au" && client[e.O-1] {
				name = "Certificates"
			}
			for f, v := range before {
				u[f] = v
			}
			delete(u, name)
			if v, ok := now[name]; ok {
				u[name] = v
			}
			set[e.O-1] = u
			cls += "S"
		case "open":
			x = &cfgConn{p: NewPair(cfg[e.C-1], cfg[e.S-1]), c: e.C - 1, s: e.S - 1, f: e.F}
			conns[e.I] = x
			x.cr = x.p.Cli.Step()
			x.p.C2S = append(x.p.C2S, x.p.Cli.W.AllOut...)
			h, err := x.p.FirstHello()
			if err != nil {
				badf("%s: ClientHello: %v (%s)", at, err, x.cr)
				return
			}
			var want []int
			for _, s := range e.Osu {
				want = append(want, int(sessSuite(s)))
			}
			pr := profs[e.C-1]
			if !reflect.DeepEqual(h.Suites, want) {
				badf("%s: client offers suites %x, specification %x", at, h.Suites, want)
			}
			if h.Exts.Has(ref.XPSK) != e.Off {
				badf("%s: ticket offered=%v, specification %v", at, !e.Off, e.Off)
			}
			for _, l := range []struct {
				what string
				x    int
				set  int
				want func() []int
			}{
				{"groups", ref.XGroups, len(pr.Gr), func() (o []int) {
					for _, g := range pr.Gr {
						o = append(o, int(cfgGroup[g]))
					}
					return
				}},
				{"schemes", ref.XSigAlgs, len(pr.Sg), func() (o []int) {
					for _, g := range pr.Sg {
						o = append(o, int(cfgScheme[g]))
					}
					return
				}},
			} {
				if got := ref.ParseU16List(h.Exts.Find(l.x)); l.set > 0 && !reflect.DeepEqual(got, l.want()) {
					badf("%s: client offers %s %x, configured %x", at, l.what, got, l.want())
				}
			}
			if len(pr.Pr) > 0 {
				if got := ref.ParseALPN(h.Exts.Find(ref.XALPN)); !reflect.DeepEqual(got, pr.Pr) {
					badf("%s: client offers protocols %v, configured %v", at, got, pr.Pr)
				}
			} else if h.Exts.Has(ref.XALPN) {
				badf("%s: client offers protocols, none configured", at)
			}
		case "srv":
			feed(x.p.Cli, x.p.Srv, false)
			x.sr = x.p.Srv.Step()
			if e.Ph != "failed" && x.sr.Out == eut.Failed {
				if e.Ph == "hrr" {
					x.dead = true
				} else {
					badf("%s: server fails although it would succeed alone: %s", at, x.sr)
				}
			}
			if e.Ph == "failed" {
				cls += "x"
				if x.sr.Out != eut.Failed && !x.dead {
					badf("%s: server should refuse: %s", at, x.sr)
				}
			} else if x.dead && e.Ph != "hrr" {
				badf("%s: server refused the first ClientHello", at)
			}
		case "cli":
			if x.dead {
				break
			}
			if e.Ph == "failed" {
				switch x.f {
				case "alertS":
					x.p.Cli.W.Put([]byte{21, 3, 3, 0, 2, 2, 40})
				case "eofS":
					x.p.Srv.W.Take()
					x.p.Cli.W.EOF()
				}
				cls += "f"
			}
			feed(x.p.Srv, x.p.Cli, x.f == "flipS" && e.Ph == "failed")
			x.cr = x.p.Cli.Step()
			switch e.Ph {
			case "failed":
				if x.cr.Out != eut.Failed {
					badf("%s: client should fail (%s): %s", at, x.f, x.cr)
				}
			case "cfin":
				if x.cr.Out != eut.Connected {
					badf("%s: client does not complete: %s", at, x.cr)
				}
			default:
				if x.cr.Out != eut.Progress {
					badf("%s: client does not retry: %s", at, x.cr)
				}
			}
		case "fin":
			size := cacheSize(cfg[x.s])
			feed(x.p.Cli, x.p.Srv, x.f == "flipC")
			x.sr = x.p.Srv.Step()
			if e.Ph == "failed" {
				cls += "g"
				// (a server that rejected early data skips what it cannot decrypt)
				if x.sr.Out == eut.Connected {
					badf("%s: server completes with a corrupted client flight", at)
				}
				break
			}
			if x.sr.Out != eut.Connected {
				badf("%s: server does not complete: %s", at, x.sr)
				break
			}
			x.p.CRes, x.p.SRes = x.cr, x.sr
			a, b := x.p.Cli.C.ConnectionState(), x.p.Srv.C.ConnectionState()
			if a.CipherSuite.Suite != sessSuite(e.R.Suite) || a.UsingPSK != e.R.PSK || a.NextProto != e.R.Proto || a.UsingEarlyData != e.R.Early {
				badf("%s: suite %04x resumption %v protocol %q early %v, specification %+v", at, int(a.CipherSuite.Suite), a.UsingPSK, a.NextProto, a.UsingEarlyData, e.R)
			}
			bad = append(bad, x.p.Agree()...)
			var want []*x509.Certificate
			if e.R.Cert {
				want = clientChain
			}
			if len(b.PeerCertificates) != len(want) || len(want) > 0 && !bytes.Equal(b.PeerCertificates[0].Raw, want[0].Raw) {
				badf("%s: server reports %d client certificates, specification %v", at, len(b.PeerCertificates), e.R.Cert)
			}
			cls += map[bool]string{true: "r", false: "F"}[e.R.PSK]
			if now := cacheSize(cfg[x.s]); size >= 0 && now >= 0 {
				if d := now - size; (d == 1) != e.Tx || d > 1 {
					badf("%s: %d tickets stored, specification %v", at, d, e.Tx)
				}
			}
			if e.Tx && e.Tl > 0 {
				found := false
				for id := range *cfg[x.s].PSKs.(*mint.PSKMapCache) {
					found = found || len(id) == 2*e.Tl
				}
				if !found {
					badf("%s: no ticket of the configured length %d", at, e.Tl)
				}
			}
		case "read":
			bad = append(bad, x.p.Exchange(at)...)
		}
		if x != nil {
			for _, r := range []eut.Res{x.cr, x.sr} {
				if r.Out == eut.Panicked || r.Out == eut.Hung {
					badf("%s: %s", at, r)
				}
			}
		}
		for i := range cfg {
			if d := set[i].check(cfg[i]); d != "" {
				badf("%s: Config %d: %s", at, i+1, d)
			}
		}
		if len(bad) > 0 {
			return
		}
	}
	return
}

// RunParallel runs the connections of a case at the same time; with clones, each over its own clones of the Configs;
// with network, over mint's listeners and dialer.
func RunParallel(k CfgCase, nonblocking, clones, network bool, rng *rand.Rand) (bad []string) {
	var mu sync.Mutex
	badf := func(f string, a ...interface{}) {
		mu.Lock()
		bad = append(bad, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	var cfg []*mint.Config
	var set []userSet
	var before []map[string]reflect.Value
	for i, p := range k.Fin {
		cfg = append(cfg, buildConfig(k.Side(i), p, nonblocking))
		set = append(set, snapshot(cfg[i]))
		before = append(before, allFields(cfg[i]))
	}
	if network {
		runNet(k, cfg, badf)
		for i := range cfg {
			if d := set[i].check(cfg[i]); d != "" {
				badf("Config %d: %s", i+1, d)
			}
			// a client Config is only ever used through Dial, which works on a copy
			if d := changed(before[i], cfg[i]); d != "" && k.Side(i) {
				badf("Config %d: Dial changes %s", i+1, d)
			}
		}
		return
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range k.Par {
		x := k.Par[i]
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			var p *Pair
			cc, sc := cfg[x.C-1], cfg[x.S-1]
			if clones {
				cc, sc = cc.Clone(), sc.Clone()
			}
			p = NewPair(cc, sc)
			if nonblocking {
				p.Handshake()
			} else {
				p.Cli.W.OnWrite, p.Srv.W.OnWrite = p.Srv.W.Put, p.Cli.W.Put
				var hs sync.WaitGroup
				hs.Add(2)
				run := func(e, peer *eut.EUT, r *eut.Res) {
					defer hs.Done()
					*r = e.HandshakeOnce()
					if r.Out != eut.Connected {
						peer.W.EOF()
					}
				}
				go run(p.Cli, p.Srv, &p.CRes)
				go run(p.Srv, p.Cli, &p.SRes)
				hs.Wait()
			}
			if b := p.Broken(); b != "" {
				badf("connection %d: %s", i+1, b)
				return
			}
			got := CfgRes{OK: p.Both()}
			if got.OK {
				for _, d := range p.Agree() {
					badf("connection %d: %s", i+1, d)
				}
				st := p.Cli.C.ConnectionState()
				got.PSK, got.Proto = st.UsingPSK, st.NextProto
				got.Suite = map[mint.CipherSuite]string{mint.TLS_AES_128_GCM_SHA256: "a", mint.TLS_AES_256_GCM_SHA384: "b"}[st.CipherSuite.Suite]
				if nonblocking {
					for _, d := range p.Exchange("together") {
						badf("connection %d: %s", i+1, d)
					}
				}
			}
			for _, a := range x.All {
				if !a.OK && !got.OK || a == got {
					return
				}
			}
			badf("connection %d: outcome %+v (client %s server %s), alone it would be one of %+v", i+1, got, p.CRes, p.SRes, x.All)
		}(i)
	}
	wg.Add(1)
	go func() { // Clone is safe while connections run
		defer wg.Done()
		<-start
		for i := range cfg {
			cfg[i].Clone()
		}
	}()
	close(start)
	wg.Wait()
	for i := range cfg {
		if d := set[i].check(cfg[i]); d != "" {
			badf("Config %d: %s", i+1, d)
		}
	}
	return
}

// Side tells whether an object is a client Config.
func (k CfgCase) Side(i int) bool { return k.Fin[i].Nm != "" }

// CloneCase is a case of CloneFields.tla.
type CloneCase struct {
	Set   []string       `json:"set"`
	Later string         `json:"later"`
	Copy  bool           `json:"copy"`
	A     map[string]int `json:"a"`
	B     map[string]int `json:"b"`
}

func (k CloneCase) String() string {
	s := k.Set
	if len(s) > 2 {
		s = []string{"all"}
	}
	return fmt.Sprintf("set %v, later %s copy=%v", s, k.Later, k.Copy)
}

type cfgStub struct{ n int }

func (*cfgStub) Generate(*mint.Conn) ([]byte, error)                   { return nil, nil }
func (*cfgStub) Validate(*mint.Conn, []byte) bool                      { return true }
func (*cfgStub) NewToken(b []byte) ([]byte, error)                     { return b, nil }
func (*cfgStub) DecodeToken(b []byte) ([]byte, error)                  { return b, nil }
func (*cfgStub) Send(mint.HandshakeType, *mint.ExtensionList) error    { return nil }
func (*cfgStub) Receive(mint.HandshakeType, *mint.ExtensionList) error { return nil }
func (*cfgStub) Get(string) (p mint.PreSharedKey, ok bool)             { return }
func (*cfgStub) Put(string, mint.PreSharedKey)                         {}
func (*cfgStub) Size() int                                             { return 1 }

// fieldValue makes setting i (1 or 2) of a field; ok is false for a type it does not know.
func fieldValue(t reflect.Type, i int) (v reflect.Value, ok bool) {
	v = reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(true)
		return v, true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(6 + i))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(6 + i))
	case reflect.String:
		v.SetString(fmt.Sprint("value ", i))
	case reflect.Slice:
		v.Set(reflect.MakeSlice(t, i, i))
		for j := 0; j < i; j++ {
			if x, ok := fieldValue(t.Elem(), i); ok {
				v.Index(j).Set(x)
			}
		}
	case reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
	case reflect.Func:
		v.Set(reflect.MakeFunc(t, func(a []reflect.Value) (o []reflect.Value) {
			for j := 0; j < t.NumOut(); j++ {
				o = append(o, reflect.Zero(t.Out(j)))
			}
			return
		}))
	case reflect.Interface:
		for _, x := range []interface{}{&cfgStub{i}, &eut.KeyLog{}} {
			if reflect.TypeOf(x).Implements(t) {
				v.Set(reflect.ValueOf(x))
				return v, true
			}
		}
		return v, false
	default:
		return v, false
	}
	return v, true
}

// RunClone compares a clone with its original.
func RunClone(k CloneCase) (bad []string) {
	badf := func(f string, a ...interface{}) { bad = append(bad, fmt.Sprintf(f, a...)) }
	defer func() {
		if r := recover(); r != nil {
			badf("panic: %v", r)
		}
	}()
	m := &mint.Config{}
	vals := map[string]reflect.Value{}
	val := func(f string, i int) reflect.Value {
		key := fmt.Sprint(f, i)
		if v, ok := vals[key]; ok {
			return v
		}
		x := reflect.ValueOf(m).Elem().FieldByName(f)
		if i == 0 {
			return reflect.Zero(x.Type())
		}
		v, ok := fieldValue(x.Type(), i)
		if !ok {
			return reflect.Value{}
		}
		vals[key] = v
		return v
	}
	put := func(c *mint.Config, f string, i int) {
		if v := val(f, i); v.IsValid() {
			reflect.ValueOf(c).Elem().FieldByName(f).Set(v)
		}
	}
	for _, f := range k.Set {
		put(m, f, 1)
	}
	cl := m.Clone()
	if cl == nil || cl == m {
		return []string{"Clone does not return a new Config"}
	}
	for f := range k.B {
		if !FieldEqual(f, reflect.ValueOf(cl).Elem().FieldByName(f), reflect.ValueOf(m).Elem().FieldByName(f)) {
			badf("field %s is not carried over", f)
		}
	}
	if k.Copy {
		put(cl, k.Later, 2)
	} else {
		put(m, k.Later, 2)
	}
	for f, i := range k.A {
		if v := val(f, i); v.IsValid() && !FieldEqual(f, reflect.ValueOf(m).Elem().FieldByName(f), v) {
			badf("field %s of the original has changed", f)
		}
	}
	for f, i := range k.B {
		if v := val(f, i); v.IsValid() && !FieldEqual(f, reflect.ValueOf(cl).Elem().FieldByName(f), v) {
			badf("field %s of the clone has changed", f)
		}
	}
	return
}
