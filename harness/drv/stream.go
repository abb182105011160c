package drv

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// StreamStep is one action of Stream.tla.
type StreamStep struct {
	A  string `json:"a"`
	X  string `json:"x"`
	N  string `json:"n"`
	I  int    `json:"i"`
	St string `json:"st"`
	Rd []int  `json:"rd"`
	Ku int    `json:"ku"`
}

// StreamEnd is the predicted end of one side.
type StreamEnd struct {
	St string `json:"st"`
	Rd []int  `json:"rd"`
	Ku int    `json:"ku"`
	Wr []int  `json:"wr"`
}

// StreamCase is a behaviour of Stream.tla.
type StreamCase struct {
	H []StreamStep `json:"h"`
	C StreamEnd    `json:"c"`
	S StreamEnd    `json:"s"`
}

func (k StreamCase) String() string {
	s := ""
	for _, h := range k.H {
		s += h.A + h.N
		if h.A == "A" {
			s += fmt.Sprint(h.I)
		}
		s += "(" + h.X + ") "
	}
	return s
}

// group is what the endpoint put on the wire for one record of the specification.
type group struct {
	recs  [][]byte
	fin   bool
	cut   bool // the stream ends inside this record
	chunk int  // data: id of the chunk
}

type streamSide struct {
	e      *eut.EUT
	net    []*group
	old    []*group
	chunks map[int][]byte
	n      int    // chunks written
	got    []byte // delivered by Read
	kus    int    // KeyUpdates this side has sealed
	ended  bool   // Read reported an error or end of stream
	eof    bool
	closed bool
	tail   []byte // bytes of a group that an attack stopped in the middle
}

// StreamRun drives one connected pair through a behaviour.
type StreamRun struct {
	P    *Pair
	Tr   *eut.Tracer
	side map[string]*streamSide
	rng  *rand.Rand
	Bad  []string
	trAt int
}

func (r *StreamRun) badf(f string, a ...interface{}) { r.Bad = append(r.Bad, fmt.Sprintf(f, a...)) }

// StreamModes are the ways the pair gets connected.
var StreamModes = []string{"psk", "psk384", "cert", "cauth", "early", "early384", "cookie", "dhe"}

var streamCookies = func() mint.CookieProtector {
	c, err := mint.NewDefaultCookieProtector()
	if err != nil {
		panic(err)
	}
	return c
}()

// StreamConfigs returns the configurations of a mode.
func StreamConfigs(mode string) (cc, sc *mint.Config) {
	pki := eut.ThePKI()
	cc = &mint.Config{NonBlocking: true, Time: eut.Clock, ServerName: Host, RootCAs: pki.CA.Pool, Groups: []mint.NamedGroup{mint.X25519}}
	sc = &mint.Config{NonBlocking: true, Time: eut.Clock, Certificates: []*mint.Certificate{pki.Ident("p256", "good", Host).Mint()}, Groups: []mint.NamedGroup{mint.X25519}}
	suite := mint.TLS_AES_128_GCM_SHA256
	if mode == "psk384" || mode == "early384" {
		suite = mint.TLS_AES_256_GCM_SHA384
	}
	switch mode {
	case "psk", "psk384", "early", "early384", "dhe":
		psk := PSKFor(suite, "stream psk", true)
		cc.PSKs = &mint.PSKMapCache{Host: psk}
		sc.PSKs = &mint.PSKMapCache{fmt.Sprintf("%x", psk.Identity): psk}
		cc.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeKE}
		if mode == "dhe" {
			cc.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE}
		}
		if mode == "early" || mode == "early384" {
			cc.AllowEarlyData, sc.AllowEarlyData = true, true
		}
	case "cauth":
		sc.RequireClientAuth = true
		cc.Certificates = []*mint.Certificate{pki.Ident("p256", "good", "client").Mint()}
	case "cookie":
		sc.RequireCookie, sc.CookieProtector = true, streamCookies
	}
	return
}

// NewStreamRun connects a pair.  segment splits all transport reads at random.
func NewStreamRun(mode string, rng *rand.Rand, segment bool) *StreamRun {
	cc, sc := StreamConfigs(mode)
	r := &StreamRun{Tr: &eut.Tracer{}, rng: rng}
	r.Tr.Attach(cc, true)
	r.Tr.Attach(sc, false)
	r.P = NewPair(cc, sc)
	early := cc.AllowEarlyData
	if early {
		r.P.CRes = r.P.Cli.Step()
		if n, err, o, note := r.P.Cli.Write([]byte("early")); n != 5 || err != nil || o != "" {
			r.badf("early Write: %d %v %s%s", n, err, o, note)
		}
	}
	r.P.Handshake()
	if b := r.P.Broken(); b != "" || !r.P.Both() {
		r.badf("the pair does not connect (%s): client %s server %s", mode, r.P.CRes, r.P.SRes)
		return r
	}
	if early {
		if rr := r.P.Srv.ReadAll(100); string(rr.Data) != "early" || rr.Err != nil {
			r.badf("early data: %s", rr)
		}
		r.P.Move()
	}
	if segment {
		f := func(n int) int {
			switch rng.Intn(4) {
			case 0:
				return 1
			case 1:
				return n
			}
			return 1 + rng.Intn(n)
		}
		r.P.Cli.W.Split, r.P.Srv.W.Split = f, f
	}
	r.side = map[string]*streamSide{"c": {e: r.P.Cli, chunks: map[int][]byte{}}, "s": {e: r.P.Srv, chunks: map[int][]byte{}}}
	r.trAt = len(r.Tr.Events())
	return r
}

func peerOf(x string) string {
	if x == "c" {
		return "s"
	}
	return "c"
}

func (r *StreamRun) chunk(x string, id, n int) []byte {
	b := make([]byte, n)
	v := uint32(id)*2654435761 + uint32(x[0])*40503
	for i := range b {
		v = v*1664525 + 1013904223
		b[i] = byte(v >> 24)
	}
	return b
}

// countKU updates the number of KeyUpdates each side sealed.
func (r *StreamRun) countKU() {
	ev := r.Tr.Events()
	for _, e := range ev[r.trAt:] {
		if e.Op == "seal" && e.Type == ref.RHandshake && e.Msg == ref.TKU {
			r.side[e.Side].kus++
		}
	}
	r.trAt = len(ev)
}

func (r *StreamRun) size(z string) int {
	switch z {
	case "z":
		return 0
	case "L":
		return []int{16384, 16385, 32768, 40000}[r.rng.Intn(4)]
	}
	return 1 + r.rng.Intn(200)
}

func (r *StreamRun) take(x string, chunk int, one bool) {
	s := r.side[x]
	out := s.e.W.Take()
	if len(out) == 0 {
		return
	}
	if one {
		for _, o := range out {
			s.net = append(s.net, &group{recs: [][]byte{o}})
		}
		return
	}
	s.net = append(s.net, &group{recs: out, chunk: chunk})
}

// Do performs one step and compares what is visible.
func (r *StreamRun) Do(h StreamStep) {
	s := r.side[h.X]
	switch h.A {
	case "W":
		s.n++
		b := r.chunk(h.X, s.n, r.size(h.N))
		s.chunks[s.n] = b
		n, err, o, note := s.e.Write(b)
		if o != "" || err != nil || n != len(b) {
			r.badf("%s: Write of %d bytes: %d %v %s%s", h.X, len(b), n, err, o, note)
			return
		}
		r.take(h.X, s.n, false)
	case "K0", "K1":
		var err error
		o, note := s.e.Guard(func() { err = s.e.C.SendKeyUpdate(h.A == "K1") })
		if o != "" || err != nil {
			r.badf("%s: SendKeyUpdate: %v %s%s", h.X, err, o, note)
			return
		}
		r.take(h.X, 0, true)
	case "C":
		o, note := s.e.Guard(func() { s.e.C.Close() })
		if o != "" {
			r.badf("%s: Close: %s%s", h.X, o, note)
			return
		}
		s.closed = true
		for _, b := range s.e.W.Take() {
			s.net = append(s.net, &group{recs: [][]byte{b}, fin: true})
		}
		s.net = append(s.net, &group{fin: true})
	case "R":
		r.read(h.X)
		r.compare(h.X, h.St, h.Rd, h.Ku, false)
	case "A":
		r.attack(h)
	}
}

// attack works on what x has sent.
func (r *StreamRun) attack(h StreamStep) {
	s := r.side[h.X]
	i := h.I - 1
	if i >= len(s.net) || s.net[i].fin {
		r.badf("driver: nothing to attack at %d", h.I)
		return
	}
	g := s.net[i]
	insert := func(at int, n *group) {
		s.net = append(s.net[:at:at], append([]*group{n}, s.net[at:]...)...)
	}
	switch h.N {
	case "alter":
		n := &group{chunk: g.chunk}
		k := r.rng.Intn(len(g.recs))
		for j, b := range g.recs {
			c := append([]byte{}, b...)
			if j == k {
				switch r.rng.Intn(6) {
				case 0: // content type of the header
					c[0] ^= 1 << uint(r.rng.Intn(8))
				case 1: // one byte more, or less
					c = append(c, 0)
					setLen(c, 5)
				case 2:
					c = c[:len(c)-1]
					setLen(c, 5)
				case 3: // the tag
					c[len(c)-1-r.rng.Intn(16)] ^= 1 << uint(r.rng.Intn(8))
				default:
					c[5+r.rng.Intn(len(c)-5)] ^= 1 << uint(r.rng.Intn(8))
				}
			}
			n.recs = append(n.recs, c)
		}
		s.net[i] = n
	case "drop":
		s.net = append(s.net[:i:i], s.net[i+1:]...)
	case "dup":
		insert(i, g)
	case "swap":
		s.net[i], s.net[i+1] = s.net[i+1], s.net[i]
	case "forge":
		t := []byte{ref.RApp, ref.RApp, ref.RAlert, ref.RHandshake}[r.rng.Intn(4)]
		body := ref.Rnd(20 + r.rng.Intn(60))
		switch t {
		case ref.RAlert:
			body = []byte{1, 0}
		case ref.RHandshake:
			body = ref.Msg(ref.TKU, []byte{byte(r.rng.Intn(2))})
		}
		insert(i, &group{recs: [][]byte{(&ref.W{}).U8(int(t)).U16(0x303).V16(body).B}})
	case "old":
		insert(i, s.old[len(s.old)-1])
	case "refl":
		o := r.side[peerOf(h.X)]
		all := append(append([]*group{}, o.old...), o.net...)
		var c []*group
		for _, a := range all {
			if len(a.recs) > 0 {
				c = append(c, a)
			}
		}
		insert(i, c[r.rng.Intn(len(c))])
	case "trunc":
		n := &group{cut: true, chunk: g.chunk}
		k := r.rng.Intn(len(g.recs))
		n.recs = append(n.recs, g.recs[:k]...)
		n.recs = append(n.recs, g.recs[k][:r.rng.Intn(len(g.recs[k]))])
		s.net = append(s.net[:i:i], n, &group{fin: true})
	}
}

// read moves everything the peer sent and reads all of it.
func (r *StreamRun) read(x string) {
	s, y := r.side[x], r.side[peerOf(x)]
	if s.closed {
		return
	}
	end := false
	for _, g := range y.net {
		for _, b := range g.recs {
			s.e.W.Put(b)
		}
		if g.fin {
			end = true
			s.e.W.EOF()
			break
		}
		y.old = append(y.old, g)
	}
	y.net = nil
	buf := []int{1, 2, 7, 100, 1000, 16384, 20000, 100000}[r.rng.Intn(8)]
	rr := s.e.ReadAll(buf)
	if rr.Out != "" {
		r.badf("%s: Read: %s %s", x, rr.Out, rr.Note)
		return
	}
	s.got = append(s.got, rr.Data...)
	if rr.Err != nil {
		s.ended, s.eof = true, rr.EOF
	}
	// after an error only the continuation of the stream may follow
	if all := r.all(peerOf(x)); !bytes.HasPrefix(all, s.got) {
		r.badf("%s has read %s, which is not a prefix of what was written (%s)", x, brief(s.got), brief(all))
	}
	if end && rr.Err == nil {
		r.badf("%s: Read does not report the end of the transport", x)
	}
	if !s.ended {
		r.take(x, 0, true)
	} else {
		s.e.W.Take()
	}
	r.countKU()
}

// compare checks what x has read against the specification.
func (r *StreamRun) compare(x, st string, rd []int, ku int, last bool) {
	s, y := r.side[x], r.side[peerOf(x)]
	var want []byte
	for _, id := range rd {
		want = append(want, y.chunks[id]...)
	}
	switch st {
	case "ok":
		if !bytes.Equal(s.got, want) {
			r.badf("%s has read %s, expected %s", x, brief(s.got), brief(want))
		}
		if s.ended {
			r.badf("%s: Read fails although nothing is wrong", x)
		}
	case "end", "err":
		if !s.ended {
			r.badf("%s: Read does not report an error (got %s, expected %s)", x, brief(s.got), brief(want))
		}
		// an attack in the middle of a chunk of several records lets its beginning through
		if len(s.got) < len(want) || !bytes.Equal(s.got[:len(want)], want) {
			r.badf("%s has read %s, expected at least %s", x, brief(s.got), brief(want))
		}
		return // what else it sends is not specified
	case "closed":
		return
	}
	if s.kus != ku {
		r.badf("%s has sent %d KeyUpdates, expected %d", x, s.kus, ku)
	}
}

// all is everything x has written.
func (r *StreamRun) all(x string) []byte {
	var b []byte
	for i := 1; i <= r.side[x].n; i++ {
		b = append(b, r.side[x].chunks[i]...)
	}
	return b
}

func brief(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%x... (%d bytes)", b[:24], len(b))
}

// Run drives the whole behaviour and returns what was wrong.
func (r *StreamRun) Run(k StreamCase) []string {
	if len(r.Bad) > 0 {
		return r.Bad
	}
	attacked := false
	for _, h := range k.H {
		r.Do(h)
		attacked = attacked || h.A == "A" || h.A == "C"
		if len(r.Bad) > 0 {
			return r.Bad
		}
	}
	for i := 0; i < 2 && len(r.Bad) == 0; i++ {
		r.read("c")
		r.read("s")
	}
	if len(r.Bad) > 0 {
		return r.Bad
	}
	r.compare("c", k.C.St, k.C.Rd, k.C.Ku, true)
	r.compare("s", k.S.St, k.S.Rd, k.S.Ku, true)
	if len(r.Bad) > 0 {
		return r.Bad
	}
	// whatever follows, the prefix property stays
	for _, x := range []string{"c", "s"} {
		s := r.side[x]
		if y := r.side[peerOf(x)]; s.ended && !s.closed && !y.closed {
			if len(y.old) > 0 {
				y.net = append(y.net, y.old[len(y.old)-1])
			}
			y.n++
			y.chunks[y.n] = r.chunk(peerOf(x), y.n, 50)
			y.e.Write(y.chunks[y.n])
			r.take(peerOf(x), y.n, false)
			r.read(x)
		}
	}
	if !attacked {
		r.P.Cli.W.Split, r.P.Srv.W.Split = nil, nil
		for _, e := range r.P.Exchange("last") {
			r.badf("%s", e)
		}
	}
	return r.Bad
}

func caseRand() *rand.Rand { return rand.New(rand.NewSource(1)) }
