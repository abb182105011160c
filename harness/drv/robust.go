package drv

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime/debug"
	"strings"
	"time"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// RobustAtk is an attack of Robust.tla.
type RobustAtk struct {
	L string `json:"l"`
	O string `json:"o"`
	P []int  `json:"p"`
}

// RobustCase is a behaviour of Robust.tla.
type RobustCase struct {
	Fl   string `json:"fl"`
	Msgs []struct {
		M string `json:"m"`
		K string `json:"k"`
	} `json:"msgs"`
	Stop int `json:"stop"`
	Prog []struct {
		At int       `json:"at"`
		A  RobustAtk `json:"a"`
	} `json:"prog"`
	Fin  string `json:"fin"`
	Kind string `json:"kind"`
	Gram *Gram  `json:"grammar"`
}

func (k RobustCase) String() string {
	s := k.Fl
	for _, a := range k.Prog {
		s += fmt.Sprintf(" %s:%s.%s", k.Msgs[a.At-1].M, a.A.L, a.A.O)
		if a.A.L == "node" {
			s += fmt.Sprint(a.A.P)
		}
	}
	return fmt.Sprintf("%s then %s after %d", s, k.Fin, k.Stop)
}

// CallRule is a line of the table of Calls.tla.
type CallRule struct {
	St      string `json:"st"`
	Net     string `json:"net"`
	Call    string `json:"call"`
	Allowed []struct {
		R  string `json:"r"`
		St string `json:"st"`
	} `json:"allowed"`
}

func (r CallRule) String() string { return r.St + r.Net + r.Call }

// Contract is the table of Calls.tla.
type Contract map[string]CallRule

var errBroken = errors.New("the transport broke")

type robustRun struct {
	k        RobustCase
	ct       Contract
	grams    map[string]*Gram
	rng      *rand.Rand
	e        *eut.EUT
	p        *ref.Peer
	c        *ClientRun
	s        *ServerRun
	states   map[string]bool
	net      string
	blocking bool
	conn     bool
	over     bool
	progress int // progress reported since the last input
	inBytes  int
	data     []byte
	giveUp   bool // the peer's own computation does not go on
	dgrams   [][]byte
	ended    bool
	calls    []string
	bad      []string
	step     int
	Hit      bool // an attack was carried out
}

func (r *robustRun) badf(f string, a ...interface{}) { r.bad = append(r.bad, fmt.Sprintf(f, a...)) }

// RunRobust executes one case; hung reports an endpoint that does not return.
func RunRobust(k RobustCase, ct Contract, grams map[string]*Gram, rng *rand.Rand) (class string, bad []string, hung bool) {
	r := &robustRun{k: k, ct: ct, grams: grams, rng: rng, net: "open", states: map[string]bool{"hs": true}}
	r.blocking = rng.Intn(3) == 0 && k.Fl != "cearly" && k.Fl != "searly"
	r.start()
	if len(r.bad) == 0 {
		if r.blocking {
			r.runBlocking()
		} else {
			r.runSteps()
		}
	}
	if len(r.bad) == 0 {
		r.finish()
	}
	if len(r.bad) == 0 && !r.blocking && rng.Intn(6) == 0 {
		r.bystander()
	}
	if e := r.e; e != nil {
		hung = e.Dead && len(r.bad) > 0 && strings.Contains(r.bad[0], string(eut.Hung))
		e.W.EOF()
	}
	a := k.Prog[len(k.Prog)-1].A
	class = k.Fl + "/" + a.L + "." + a.O
	if r.blocking {
		class += "/blocking"
	}
	if !r.Hit {
		class = ""
	}
	if len(r.bad) > 0 {
		r.bad[0] = fmt.Sprintf("after %v: %s", r.calls, r.bad[0])
	}
	return class, r.bad, hung
}

func (r *robustRun) start() {
	d := strings.HasPrefix(r.k.Fl[1:], "d")
	if r.k.Fl[0] == 'c' {
		cfg := HsCfg{PSK: "none", ALPN: true, CCert: true, Verify: "roots", Key: "p256", DTLS: d}
		switch r.k.Fl {
		case "chrr", "cearly", "cdpsk":
			cfg.PSK, cfg.CCert = "both", false
			cfg.Early = r.k.Fl == "cearly"
		}
		r.c = newClientRun(cfg, nil, r.blocking)
		if r.c.E.Cfg.PSKs == nil {
			r.c.E.Cfg.PSKs = &mint.PSKMapCache{}
		}
		r.e, r.p = r.c.E, r.c.P
	} else {
		cfg := SrvCfg{Auth: "none", PSK: "known", Key: "p256", DTLS: d}
		switch r.k.Fl {
		case "sauth", "sdauth":
			cfg.Auth = "req"
			cfg.tweak = func(c *mint.Config) { c.NextProtos = []string{"spdy", "http/1.1"} }
		case "scook", "sdcook":
			cfg.Cookie = true
		case "searly":
			cfg.Early = true
		}
		r.s = newServerRun(cfg, nil, r.blocking)
		r.e, r.p = r.s.E, r.s.P
	}
	r.e.W.HangAt = 500
	if !d && r.rng.Intn(4) == 0 {
		r.e.W.MaxRead = 1 + r.rng.Intn(40)
	}
	if r.blocking {
		return
	}
	if r.c != nil {
		res := r.c.Start()
		if res.Out != eut.Progress {
			r.badf("no ClientHello: %s", res)
		}
	} else {
		r.s.E.Step()
	}
}

// call makes one call and holds its result against the contract.
func (r *robustRun) call(api string) string {
	e := r.e
	e.W.Empty = 0
	res := ""
	var out eut.Outcome
	var note string
	switch api {
	case "H":
		x := e.HandshakeOnce()
		out, note = x.Out, x.Note
		switch {
		case x.Out == eut.Connected:
			res = "connected"
		case x.Out == eut.Failed:
			res = "error"
		case x.Alert == mint.AlertWouldBlock:
			res = "block"
		default:
			res = "ok"
		}
	case "R":
		buf := make([]byte, []int{1, 7, 100, 4096, 20000}[r.rng.Intn(5)])
		var n int
		var err error
		out, note = e.Guard(func() { n, err = e.C.Read(buf) })
		r.data = append(r.data, buf[:n]...)
		switch {
		case err == nil || n > 0:
			res = "data"
		case err == mint.AlertWouldBlock:
			res = "block"
		case err == io.EOF:
			res = "end"
		default:
			res = "error"
		}
	default:
		var err error
		out, note = e.Guard(func() {
			switch api {
			case "W":
				_, err = e.C.Write([]byte("some data"))
			case "KU":
				err = e.C.SendKeyUpdate(r.rng.Intn(2) == 0)
			case "X":
				_, err = e.C.ComputeExporter("label", []byte("context"), 32)
				e.C.ConnectionState()
			case "C":
				err = e.C.Close()
			}
		})
		switch {
		case err == nil:
			res = "ok"
		case err == mint.AlertWouldBlock:
			res = "block"
		default:
			res = "error"
		}
	}
	if len(r.calls) < 40 {
		r.calls = append(r.calls, api+"="+res)
	}
	if out == eut.Panicked || out == eut.Hung {
		r.badf("%s: %s %s", api, out, note)
		return "dead"
	}
	next := map[string]bool{}
	for st := range r.states {
		for _, a := range r.ct[st+r.net+api].Allowed {
			if a.R == res {
				next[a.St] = true
			}
		}
	}
	if len(next) == 0 {
		r.badf("%s returns %s in state %v with the transport %s", api, res, keysOf(r.states), r.net)
		return "dead"
	}
	r.states = next
	if res == "ok" || res == "data" {
		r.progress++
		if r.progress > 300+r.inBytes/5 {
			r.badf("%s reports progress again and again without input", api)
			return "dead"
		}
	}
	return res
}

func keysOf(m map[string]bool) (o []string) {
	for k := range m {
		o = append(o, k)
	}
	return
}

// poll calls the endpoint until it needs input or has reported an error.
func (r *robustRun) poll() {
	for len(r.bad) == 0 && !r.over {
		if !r.conn {
			switch r.call("H") {
			case "connected":
				r.conn = true
				if r.c != nil {
					r.c.connd = true
				} else {
					r.s.connd = true
				}
				r.peer(func() {
					if r.c != nil {
						r.c.checkConnected()
					} else {
						r.s.checkConnected("")
					}
				})
			case "block":
				return
			case "error":
				r.over = true
			}
			continue
		}
		before := r.e.W.Pending()
		switch r.call("R") {
		case "block":
			return
		case "error", "end":
			if n := r.e.W.Pending(); r.net == "ended" || n == 0 || n == before {
				r.over = true
				return
			}
		}
	}
}

// peer runs the other side's computations; what the endpoint sent may make no sense to it any more.
func (r *robustRun) peer(f func()) {
	if r.giveUp {
		return
	}
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "robustRun).peer("); i > 0 {
				st = st[:i]
			}
			if i := strings.LastIndex(st, "panic("); i > 0 {
				st = st[i:]
			}
			if strings.Contains(st, "bifurcation/mint.") {
				r.badf("panic: %v\n%s", p, st)
			}
			r.giveUp = true
		}
	}()
	f()
}

// answer processes what the endpoint sent after message m.
func (r *robustRun) answer(m string) {
	if r.over {
		return
	}
	r.peer(func() {
		switch {
		case r.conn:
			rr := eut.RR{Data: r.data}
			if r.c != nil {
				r.c.appIn = r.data
				r.c.afterRead(rr, m)
			} else {
				r.s.appIn = r.data
				r.s.afterRead(rr, m)
			}
			r.data = nil
		case r.c != nil:
			r.c.settle(eut.Res{Out: eut.Progress}, m)
		default:
			if r.blocking {
				r.s.drain()
				if !r.s.neg && m[0] == 'C' && m[1] == 'H' {
					r.s.onHello(m)
				}
			} else {
				r.s.settle(eut.Res{Out: eut.Progress}, m)
			}
		}
	})
}

// supply sends what step i has for the endpoint.
func (r *robustRun) supply(i int) {
	m := r.k.Msgs[i].M
	var atk *RobustAtk
	for j := range r.k.Prog {
		if r.k.Prog[j].At == i+1 {
			atk = &r.k.Prog[j].A
		}
	}
	r.dgrams = nil
	var b []byte
	r.peer(func() {
		if atk != nil {
			r.arm(*atk, r.k.Msgs[i].K, m)
		}
		if r.c != nil {
			b = r.c.Build(m)
		} else {
			b = r.s.Build(m)
		}
	})
	b = append(b, r.p.Flush()...)
	r.p.Mangle, r.p.OnRec, r.p.OnFrag = nil, nil, nil
	if r.p.D != nil {
		r.p.Fragment(0)
	}
	if atk != nil {
		b = r.wire(*atk, b)
	}
	r.progress = 0
	r.inBytes = len(b)
	if r.dgrams != nil {
		for _, d := range r.dgrams {
			r.inBytes += len(d)
			r.e.W.Put(d)
		}
		return
	}
	put(r.e, b)
}

func (r *robustRun) extra() {
	if r.rng.Intn(10) == 0 && len(r.bad) == 0 {
		r.call([]string{"H", "R", "W", "KU", "X"}[r.rng.Intn(5)])
	}
}

func (r *robustRun) runSteps() {
	slow := r.p.D != nil && r.rng.Intn(60) == 0
	for r.step = 0; r.step < r.k.Stop && len(r.bad) == 0 && !r.ended; r.step++ {
		r.supply(r.step)
		if slow {
			time.Sleep(27 * time.Millisecond)
		}
		r.poll()
		r.extra()
		if slow && !r.over && len(r.bad) == 0 {
			time.Sleep(105 * time.Millisecond)
			r.poll()
		}
		r.answer(r.k.Msgs[r.step].M)
	}
	if len(r.bad) == 0 && r.k.Fin == "quiet" && !r.ended {
		r.poll()
		for _, a := range []string{"H", "R", "X", "W", "H", "R"} {
			if len(r.bad) == 0 {
				r.call(a)
			}
		}
		return
	}
	r.endNet()
	r.poll()
	if len(r.bad) == 0 && !r.over {
		r.badf("the transport has ended and the endpoint keeps waiting")
	}
}

func (r *robustRun) endNet() {
	r.net, r.progress = "ended", 0
	if r.k.Fin == "fail" {
		r.e.W.Fail(errBroken)
	} else {
		r.e.W.EOF()
	}
}

func (r *robustRun) runBlocking() {
	r.step = 0
	asked := 0
	last := ""
	r.net = "ended" // a blocking call never reports would-block
	r.e.W.OnEmpty = func() {
		asked++
		if asked > 2000 {
			panic(eut.ErrHang)
		}
		r.peer(func() {
			if last == "" && r.c != nil && !r.conn {
				r.c.drain()
				if err := r.p.RecvCH(); err != nil {
					panic(err)
				}
			}
		})
		if last != "" {
			r.answer(last)
		}
		if r.step < r.k.Stop && !r.ended {
			last = r.k.Msgs[r.step].M
			r.step++
			r.supply(r.step - 1)
			return
		}
		r.progress = 0
		if r.k.Fin == "fail" {
			r.e.W.Fail(errBroken)
		} else {
			r.e.W.EOF()
		}
	}
	r.poll()
	if len(r.bad) == 0 && !r.over {
		r.badf("the transport has ended and the endpoint keeps waiting")
	}
}

// finish uses the connection after its end.
func (r *robustRun) finish() {
	r.e.W.OnEmpty = nil
	if r.blocking && r.net == "ended" {
		r.e.W.EOF()
	}
	if r.over && r.k.Fin != "quiet" {
		r.net = "ended"
		r.e.W.EOF()
	}
	apis := []string{"H", "R", "W", "KU", "X", "H", "R", "C", "H", "R", "W"}
	for i := 0; i < 7 && len(r.bad) == 0; i++ {
		r.call(apis[r.rng.Intn(len(apis))])
	}
}

// bystander: other connections with the same configuration are not affected.
func (r *robustRun) bystander() {
	if r.e.Cfg.UseDTLS {
		return
	}
	pki := eut.ThePKI()
	var p *Pair
	if r.c != nil {
		p = NewPair(r.e.Cfg, &mint.Config{NonBlocking: true, Time: eut.Clock, Certificates: []*mint.Certificate{pki.Ident("p256", "good", Host).Mint()}})
	} else {
		p = NewPair(&mint.Config{NonBlocking: true, Time: eut.Clock, ServerName: Host, RootCAs: pki.CA.Pool,
			Certificates: []*mint.Certificate{pki.Ident("p256", "good", "client").Mint()}}, r.e.Cfg)
	}
	p.Handshake()
	if b := p.Broken(); b != "" {
		r.badf("another connection with the same configuration: %s", b)
	} else if !p.Both() {
		r.badf("another connection with the same configuration does not complete: client %s, server %s", p.CRes, p.SRes)
	} else if bad := p.Exchange("bystander"); len(bad) > 0 {
		r.badf("another connection with the same configuration: %s", bad[0])
	}
}

func (r *robustRun) rb(n int) []byte { b := make([]byte, n); r.rng.Read(b); return b }

// frame is an honest record.
func (r *robustRun) frame(k *ref.Keys, ct byte, pl []byte) []byte {
	f := r.p.OnRec
	r.p.OnRec = nil
	defer func() { r.p.OnRec = f }()
	return r.p.RecordUnder(k, ct, pl)
}

func (r *robustRun) insert(b []byte) {
	r.Hit = true
	r.p.Sent = append(r.p.Sent, b...)
}

// arm prepares the peer so that the message it sends next is attacked.
func (r *robustRun) arm(a RobustAtk, kind, m string) {
	p, rng := r.p, r.rng
	switch a.L {
	case "node":
		g := r.grams[kind]
		if g == nil {
			return
		}
		p.Mangle = func(msg []byte) []byte {
			if len(msg) < 4 || num(msg[1:4]) != len(msg)-4 {
				return msg
			}
			b, ok := nodeMutate(g, msg[4:], a.P, a.O, rng)
			if !ok {
				return msg
			}
			r.Hit = true
			return ref.Msg(int(msg[0]), b)
		}
	case "byte":
		p.Mangle = func(msg []byte) []byte { r.Hit = true; return byteMutate(msg, a.O, rng) }
	case "rec":
		r.armRec(a.O)
	case "ins":
		r.armIns(a.O)
	case "flood":
		r.armFlood(a.O)
	case "dtls":
		r.armDTLS(a.O)
	}
}

func byteMutate(msg []byte, op string, rng *rand.Rand) []byte {
	o := append([]byte{}, msg...)
	if len(o) < 4 {
		return o
	}
	fix := func(b []byte) []byte { return ref.Msg(int(msg[0]), b) }
	switch op {
	case "flip":
		i := rng.Intn(len(o))
		switch rng.Intn(5) {
		case 0:
			o[i] = 0
		case 1:
			o[i] = 0xff
		case 2:
			o[i]++
		case 3:
			o[i]--
		default:
			o[i] ^= 1 << uint(rng.Intn(8))
		}
	case "cut":
		n := rng.Intn(len(o) - 3)
		return fix(o[4 : 4+n])
	case "type":
		o[0] = byte(rng.Intn(256))
		if rng.Intn(2) == 0 {
			ts := []byte{0, 1, 2, 4, 5, 6, 8, 11, 13, 15, 20, 24, 254}
			o[0] = ts[rng.Intn(len(ts))]
		}
	case "hdrlen":
		n := len(o) - 4
		l := []int{0, n - 1, n + 1, n + 4, 0xffff, 0x10000, 0xffffff, n / 2}[rng.Intn(8)]
		if l < 0 {
			l = 1
		}
		o[1], o[2], o[3] = byte(l>>16), byte(l>>8), byte(l)
	case "mix":
		b := o[4:]
		for i, k := 0, 1+rng.Intn(6); i < k && len(b) > 0; i++ {
			at, n := rng.Intn(len(b)), 1+rng.Intn(8)
			if at+n > len(b) {
				n = len(b) - at
			}
			switch rng.Intn(5) {
			case 0:
				b[at] = byte(rng.Intn(256))
			case 1:
				b = append(b[:at:at], b[at+n:]...)
			case 2:
				x := append([]byte{}, b[at:at+n]...)
				b = append(b[:at:at], append(x, b[at:]...)...)
			case 3:
				x := make([]byte, n)
				rng.Read(x)
				b = append(b[:at:at], append(x, b[at:]...)...)
			case 4:
				to := rng.Intn(len(b))
				copy(b[to:], append([]byte{}, b[at:at+n]...))
			}
		}
		return fix(b)
	}
	return o
}

func (r *robustRun) armRec(op string) {
	p, rng := r.p, r.rng
	switch op {
	case "flip", "endcut", "len", "version", "junk": // done on the wire
		return
	}
	done := false
	p.OnRec = func(k *ref.Keys, ct byte, pl []byte) ([]byte, bool) {
		if done {
			return nil, false
		}
		done, r.Hit = true, true
		switch op {
		case "type":
			ts := []byte{0, 1, 19, 20, 21, 22, 23, 24, 25, 26, 255}
			return r.frame(k, ts[rng.Intn(len(ts))], pl), true
		case "inner":
			if k == nil {
				return r.frame(k, ct, append(append([]byte{}, pl...), r.rb(rng.Intn(4))...)), true
			}
			return p.SealInner(k, []byte{23, 22, 21, 0, 25}[rng.Intn(5)], append([]byte{}, pl...)), true
		case "pad":
			n := []int{1, 100, 1000, 16000 - len(pl), 16384 - len(pl), 16385 - len(pl)}[rng.Intn(6)]
			if k == nil || n < 0 || p.D != nil && n > 1000 {
				return r.frame(k, ct, pl), true
			}
			return p.SealInner(k, 23, append(append(append([]byte{}, pl...), ct), make([]byte, n)...)), true
		case "allpad":
			n := []int{0, 1, 2, 16, 1000}[rng.Intn(5)]
			if k == nil {
				return append(r.frame(k, ct, nil), r.frame(k, ct, pl)...), true
			}
			return append(p.SealInner(k, 23, make([]byte, n)), r.frame(k, ct, pl)...), true
		case "short":
			n := rng.Intn(24)
			b := (&ref.W{}).U8(23).U16(0x0303).V16(r.rb(n)).B
			if p.D != nil {
				b = (&ref.W{}).U8(23).U16(0xfefd).U16(rng.Intn(5)).Raw(r.rb(6)).V16(r.rb(n)).B
			}
			return append(b, r.frame(k, ct, pl)...), true
		case "split":
			i := rng.Intn(len(pl) + 1)
			mid := []byte{21, 22, 23, 20, 24, 25}[rng.Intn(6)]
			b := r.frame(k, ct, pl[:i])
			b = append(b, r.frame(k, mid, r.rb(rng.Intn(5)))...)
			return append(b, r.frame(k, ct, pl[i:])...), true
		case "clear":
			return r.frame(nil, ct, pl), true
		case "twice":
			b := r.frame(k, ct, pl)
			return append(b, b...), true
		case "shift":
			return r.frame(k, ct, pl[rng.Intn(len(pl)+1):]), true
		}
		return nil, false
	}
}

func (r *robustRun) armIns(op string) {
	p, rng := r.p, r.rng
	f := func(ct byte, b []byte) { r.insert(r.frame(p.Out, ct, b)) }
	switch op {
	case "empty.hs":
		f(ref.RHandshake, nil)
	case "empty.app":
		f(ref.RApp, nil)
	case "empty.alert":
		f(ref.RAlert, nil)
	case "empty.ccs":
		f(20, nil)
	case "ccs":
		r.insert(r.frame(nil, 20, []byte{1}))
	case "ack":
		f(ref.RAck, r.rb(rng.Intn(20)))
	case "alert":
		f(ref.RAlert, r.rb(rng.Intn(5)))
	case "unknown":
		f(byte(26+rng.Intn(230)), r.rb(rng.Intn(50)))
	case "hs.partial":
		f(ref.RHandshake, r.rb(1+rng.Intn(13)))
	case "hs.huge":
		f(ref.RHandshake, append([]byte{byte(rng.Intn(30)), 0xff, 0xff, 0xff}, r.rb(rng.Intn(100))...))
	case "hs.zero":
		f(ref.RHandshake, p.HSFrame(ref.Msg(rng.Intn(30), nil)))
	case "app":
		f(ref.RApp, r.rb(rng.Intn(100)))
	case "full":
		f([]byte{22, 23, 21}[rng.Intn(3)], r.rb(16384))
	case "over":
		f([]byte{22, 23, 21}[rng.Intn(3)], r.rb(16385+rng.Intn(300)))
	case "random":
		b := r.rb(1 + rng.Intn(200))
		if rng.Intn(2) == 0 {
			b[0] = 20 + b[0]%6
		}
		r.insert(b)
		r.dgrams = [][]byte{b}
	}
}

func (r *robustRun) armFlood(op string) {
	p, rng := r.p, r.rng
	n := 150 + rng.Intn(250)
	for i := 0; i < n; i++ {
		switch op {
		case "empty.hs":
			r.insert(r.frame(p.Out, ref.RHandshake, nil))
		case "empty.app":
			r.insert(r.frame(p.Out, ref.RApp, nil))
		case "hs.zero":
			r.insert(r.frame(p.Out, ref.RHandshake, p.HSFrame(ref.Msg(0, nil))))
		case "ku0", "ku1":
			r.insert(r.frame(p.Out, ref.RHandshake, p.HSFrame(ref.Msg(ref.TKU, []byte{op[2] - '0'}))))
			if r.conn && p.Out != nil {
				p.Out = p.Alg.Next(p.Out)
			}
		case "nst":
			r.insert(r.frame(p.Out, ref.RHandshake, p.HSFrame((&ref.NST{Lifetime: 100, AgeAdd: 1, Nonce: []byte{byte(i)}, Ticket: r.rb(1 + rng.Intn(40))}).Msg())))
		case "warn":
			r.insert(r.frame(p.Out, ref.RAlert, []byte{1, 90}))
		case "app1":
			r.insert(r.frame(p.Out, ref.RApp, []byte{1}))
		case "garbage":
			r.insert(r.frame(nil, byte(20+rng.Intn(7)), r.rb(rng.Intn(40))))
		default:
			i = n
		}
	}
	switch op {
	case "again":
		k := 20
		p.OnRec = func(key *ref.Keys, ct byte, pl []byte) ([]byte, bool) {
			r.Hit = true
			var b []byte
			for i := 0; i < k; i++ {
				b = append(b, r.frame(key, ct, pl)...)
			}
			return b, true
		}
	case "onebyte":
		if p.D != nil {
			r.Hit = true
			p.Fragment(1)
			return
		}
		p.OnRec = func(key *ref.Keys, ct byte, pl []byte) ([]byte, bool) {
			r.Hit = true
			var b []byte
			for i := range pl {
				b = append(b, r.frame(key, ct, pl[i:i+1])...)
			}
			return b, true
		}
	}
}

func (r *robustRun) armDTLS(op string) {
	p, rng := r.p, r.rng
	f := func(ct byte, b []byte) { r.insert(r.frame(p.Out, ct, b)) }
	ack := func(nums ...uint64) []byte {
		w := &ref.W{}
		for _, n := range nums {
			w.U32(uint32(n >> 32)).U32(uint32(n))
		}
		return (&ref.W{}).V16(w.B).B
	}
	switch op {
	case "ack.empty":
		f(ref.RAck, ack())
		return
	case "ack.odd":
		f(ref.RAck, (&ref.W{}).V16(r.rb(1+rng.Intn(30))).B)
		return
	case "ack.len":
		b := ack(rng.Uint64(), 3)
		b[rng.Intn(2)] = byte(rng.Intn(256))
		f(ref.RAck, b[:rng.Intn(len(b)+1)])
		return
	case "ack.unknown":
		f(ref.RAck, ack(rng.Uint64(), rng.Uint64()))
		return
	case "ack.many":
		var ns []uint64
		for i := 0; i < 2000; i++ {
			ns = append(ns, uint64(rng.Intn(5))<<48|uint64(rng.Intn(3000)))
		}
		f(ref.RAck, ack(ns...))
		return
	case "ack.all", "ack.future":
		var ns []uint64
		for e := uint64(0); e < 5; e++ {
			for i := uint64(0); i < 60; i++ {
				x := i
				if op == "ack.future" {
					x += 1 << 40
				}
				ns = append(ns, e<<48|x)
			}
		}
		f(ref.RAck, ack(ns...))
		return
	case "multi", "tail":
		return
	}
	frag := func(k *ref.Keys, typ byte, total, seq, off int, l int, body []byte) []byte {
		return r.frame(k, ref.RHandshake, (&ref.W{}).U8(int(typ)).U24(total).U16(seq).U24(off).U24(l).Raw(body).B)
	}
	p.OnFrag = func(k *ref.Keys, m []byte, seq int) ([]byte, bool) {
		r.Hit = true
		t, body := m[0], m[4:]
		n := len(body)
		h := n / 2
		whole := func() []byte { return frag(k, t, n, seq, 0, n, body) }
		var b []byte
		switch op {
		case "total":
			o := []int{n + 1, n - 1, 0, 0xffffff, 2 * n, h}[rng.Intn(6)]
			if o < 0 {
				o = 7
			}
			if rng.Intn(2) == 0 {
				b = append(frag(k, t, n, seq, 0, h, body[:h]), frag(k, t, o, seq, h, n-h, body[h:])...)
			} else {
				b = append(frag(k, t, o, seq, h, n-h, body[h:]), frag(k, t, n, seq, 0, h, body[:h])...)
			}
			return append(b, whole()...), true
		case "over":
			d := 1 + rng.Intn(100)
			b = frag(k, t, n, seq, h, n-h+d, append(append([]byte{}, body[h:]...), r.rb(d)...))
			b = append(b, frag(k, t, n, seq, n+rng.Intn(1000), 1, []byte{0})...)
			return append(b, whole()...), true
		case "hole":
			a, c := n/3, 2*n/3
			b = append(frag(k, t, n, seq, 0, a, body[:a]), frag(k, t, n, seq, c, n-c, body[c:])...)
			return append(b, frag(k, t, n, seq, a, c-a, body[a:c])...), true
		case "zerofrag":
			for i := 0; i < 5; i++ {
				b = append(b, frag(k, t, n, seq, rng.Intn(n+1), 0, nil)...)
			}
			return append(b, whole()...), true
		case "huge":
			for i := 0; i < 3; i++ {
				b = append(b, frag(k, t, 0xffffff, seq, []int{0, 0xfffff0, 1000}[rng.Intn(3)], 5, r.rb(5))...)
			}
			return append(b, whole()...), true
		case "future":
			for i := 0; i < 3; i++ {
				b = append(b, frag(k, byte(rng.Intn(26)), n, seq+1+[]int{0, 1, 2, 100, 60000}[rng.Intn(5)], 0, n, body)...)
			}
			return append(b, whole()...), true
		case "past":
			for i := 0; i < 3; i++ {
				b = append(b, frag(k, t, n, seq-1-rng.Intn(3), 0, n, body)...)
			}
			return append(b, whole()...), true
		case "overlap":
			for i := 0; i < 6 && n > 0; i++ {
				o := rng.Intn(n)
				l := rng.Intn(n - o + 1)
				x := body[o : o+l]
				if rng.Intn(2) == 0 {
					x = r.rb(l)
				}
				b = append(b, frag(k, t, n, seq, o, l, x)...)
			}
			return append(b, whole()...), true
		case "epoch":
			x := []int{0, 1, 2, 3, 4, 5, 100, 65535}[rng.Intn(8)]
			pl := (&ref.W{}).U8(int(t)).U24(n).U16(seq).U24(0).U24(n).Raw(body).B
			return append(k.DTLSRecord(x, uint64(rng.Intn(1000)), ref.RHandshake, pl), whole()...), true
		case "number":
			x := []uint64{1<<48 - 1, 1<<48 - 2, 1 << 47, 1 << 32, 1<<32 - 1}[rng.Intn(5)]
			pl := (&ref.W{}).U8(int(t)).U24(n).U16(seq).U24(0).U24(n).Raw(body).B
			e := 0
			if k != nil {
				e = 2 + rng.Intn(2)
			}
			return append(k.DTLSRecord(e, x, ref.RHandshake, pl), whole()...), true
		case "hdr":
			x := (&ref.W{}).U8(int(t)).U24(n).U16(seq).U24(0).U24(n).Raw(body).B
			b = r.frame(k, ref.RHandshake, x[:rng.Intn(13)])
			return append(b, whole()...), true
		case "dup":
			b = whole()
			return append(b, b...), true
		case "tiny", "reverse":
			var fs [][]byte
			sz := 1
			if op == "reverse" || n > 1200 {
				sz = n/5 + 1
			}
			for o := 0; o < n; o += sz {
				l := sz
				if o+l > n {
					l = n - o
				}
				fs = append(fs, frag(k, t, n, seq, o, l, body[o:o+l]))
			}
			if op == "reverse" {
				for i := len(fs) - 1; i >= 0; i-- {
					b = append(b, fs[i]...)
				}
			} else {
				b = bytes.Join(fs, nil)
			}
			return b, true
		}
		return nil, false
	}
}

// wire attacks the bytes that carry the message.
func (r *robustRun) wire(a RobustAtk, b []byte) []byte {
	rng := r.rng
	h := 5
	if r.p.D != nil {
		h = 13
	}
	if a.L == "dtls" && (a.O == "multi" || a.O == "tail") {
		r.Hit = true
		d := append([]byte{}, b...)
		if a.O == "multi" {
			d = append(d, b...)
			if len(b) > 0 {
				d = append(d, b[:rng.Intn(len(b))]...)
			}
			if rng.Intn(2) == 0 {
				r.dgrams = [][]byte{d, b}
				return b
			}
			r.dgrams = [][]byte{b, d}
			return b
		}
		d = append(d, r.rb(1+rng.Intn(14))...)
		r.dgrams = [][]byte{d[:rng.Intn(len(d)+1)], d}
		return b
	}
	if r.dgrams != nil { // random bytes first
		if r.p.D != nil {
			r.dgrams = append(r.dgrams, ref.SplitDTLS(b[len(r.dgrams[0]):])...)
			return b
		}
		r.dgrams = nil
		return b
	}
	if a.L != "rec" || len(b) < h {
		return b
	}
	o := append([]byte{}, b...)
	switch a.O {
	case "flip":
		i := rng.Intn(len(o))
		if rng.Intn(3) == 0 {
			i = rng.Intn(h)
		}
		o[i] ^= 1 << uint(rng.Intn(8))
	case "endcut":
		o = o[:rng.Intn(len(o))]
		r.ended = true
	case "len":
		l := []int{0, 1, 16, 17, len(o) - h - 1, len(o) - h + 1, 16384, 16385, 16640, 16641, 65535}[rng.Intn(11)]
		o[h-2], o[h-1] = byte(l>>8), byte(l)
		if rng.Intn(2) == 0 && l > len(o)-h {
			o = append(o, r.rb(l-(len(o)-h))...)
		}
		if r.p.D != nil {
			r.dgrams = [][]byte{o, b}
		}
	case "version":
		rng.Read(o[1:3])
	case "junk":
		rng.Read(o[h:])
	default:
		return b
	}
	r.Hit = true
	return o
}
