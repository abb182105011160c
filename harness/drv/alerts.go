package drv

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// AlertItem is something the peer sends (Alerts.tla).
type AlertItem struct {
	K string `json:"k"`
	L int    `json:"l"`
	D int    `json:"d"`
}

// AlertStep is a step of a behaviour of Alerts.tla with the state after it.
type AlertStep struct {
	A   string      `json:"a"`
	X   interface{} `json:"x"`
	Rd  int         `json:"rd"`
	Out []struct {
		T string `json:"t"`
		G int    `json:"g"`
	} `json:"out"`
	Blk  bool `json:"blk"`
	Term struct {
		K string `json:"k"`
		D int    `json:"d"`
	} `json:"term"`
}

// AlertCase is a behaviour of Alerts.tla.
type AlertCase struct {
	Mode struct {
		Role string `json:"role"`
		DTLS bool   `json:"dtls"`
	} `json:"mode"`
	Steps []AlertStep `json:"steps"`
}

func (s AlertStep) item() AlertItem {
	m := s.X.(map[string]interface{})
	return AlertItem{m["k"].(string), int(m["l"].(float64)), int(m["d"].(float64))}
}

func (k AlertCase) String() string {
	s := k.Mode.Role
	if k.Mode.DTLS {
		s += " (DTLS)"
	}
	for _, st := range k.Steps {
		s += " " + st.A
		if st.A == "P" {
			x := st.item()
			s += "." + x.K
			if x.K == "alert" || x.K == "plain" {
				s += fmt.Sprintf("%d/%d", x.L, x.D)
			}
		}
	}
	return s
}

const alertChunk = 6 // bytes of a data chunk, delivered in two halves

// alertRun hides which side is under test.
type alertRun struct {
	k    AlertCase
	e    *eut.EUT
	p    *ref.Peer
	sent []byte
	got  []byte
	outN int
	gone bool // the endpoint sent a fatal alert
	last mint.Alert
	bad  []string
}

func (r *alertRun) badf(f string, a ...interface{}) { r.bad = append(r.bad, fmt.Sprintf(f, a...)) }

// ConnectRef brings an endpoint of the given role to its connected state.
func ConnectRef(role string, dtls bool) (*eut.EUT, *ref.Peer, []string) {
	if role == "client" {
		c := NewClientRun(HsCfg{PSK: "ke", Verify: "roots", Key: "p256", DTLS: dtls})
		c.Start()
		for _, m := range []string{"SH.psk_ke", "EE", "Fin"} {
			if st, note := c.Do(m); st != "wait" && st != "CONNECTED" {
				return nil, nil, []string{m + ": " + st + " " + note}
			}
		}
		return c.E, c.P, c.Bad
	}
	s := NewServerRun(SrvCfg{Auth: "none", PSK: "known", Key: "p256", DTLS: dtls})
	s.Start()
	for _, m := range []string{"CH.pskkens", "Fin"} {
		if st, note := s.Do(m); st != "wait" && st != "CONNECTED" {
			return nil, nil, []string{m + ": " + st + " " + note}
		}
	}
	return s.E, s.P, s.Bad
}

// RunAlerts executes one behaviour and returns what was wrong.
func RunAlerts(k AlertCase, rng *rand.Rand) []string {
	r := &alertRun{k: k}
	var bad []string
	r.e, r.p, bad = ConnectRef(k.Mode.Role, k.Mode.DTLS)
	if len(bad) > 0 {
		panic("cannot connect: " + bad[0])
	}
	if !k.Mode.DTLS && rng.Intn(4) == 0 {
		r.e.W.MaxRead = 1 + rng.Intn(7)
	}
	for i := range k.Steps {
		if !r.step(i, rng) || len(r.bad) > 0 {
			break
		}
	}
	r.e.W.EOF()
	return r.bad
}

func (r *alertRun) send(x AlertItem) {
	p := r.p
	switch x.K {
	case "data":
		b := []byte(fmt.Sprintf("data%02d", len(r.sent)/alertChunk))
		r.sent = append(r.sent, b...)
		p.Send(ref.RApp, b)
	case "alert":
		p.Send(ref.RAlert, []byte{byte(x.L), byte(x.D)})
	case "short":
		p.Send(ref.RAlert, []byte{2})
	case "long":
		p.Send(ref.RAlert, []byte{2, 40, 0})
	case "empty":
		p.Send(ref.RAlert, nil)
	case "plain":
		p.Sent = append(p.Sent, p.PlainRecord(ref.RAlert, []byte{byte(x.L), byte(x.D)})...)
	case "ku0", "ku1":
		p.Send(ref.RHandshake, ref.Msg(ref.TKU, []byte{x.K[2] - '0'}))
		p.Out = p.Alg.Next(p.Out)
	case "nst":
		p.Send(ref.RHandshake, (&ref.NST{Lifetime: 100, AgeAdd: 1, Nonce: []byte{1}, Ticket: []byte("tick")}).Msg())
	case "bad":
		p.Send(ref.RHandshake, ref.Msg(ref.TEE, []byte{0, 0}))
	case "badrec":
		b := p.RecordUnder(p.Out.Clone(), ref.RAlert, []byte{1, 0})
		b[len(b)-1] ^= 1
		p.Sent = append(p.Sent, b...)
	case "ack":
		if p.D == nil {
			p.Send(ref.RAck, []byte{0, 0})
		} else { // an ACK is fine in DTLS
			b := p.RecordUnder(p.Out.Clone(), ref.RAck, []byte{0, 0})
			b[len(b)-1] ^= 1
			p.Sent = append(p.Sent, b...)
		}
	default:
		panic("unknown item " + x.K)
	}
	put(r.e, p.Flush())
}

// step executes step i; false ends the behaviour.
func (r *alertRun) step(i int, rng *rand.Rand) bool {
	st := r.k.Steps[i]
	what := fmt.Sprintf("step %d (%s)", i+1, st.A)
	switch st.A {
	case "P":
		r.send(st.item())
	case "W":
		b := []byte("written by the application")
		n, err, o, note := r.e.Write(b)
		if o != "" || err != nil || n != len(b) {
			r.badf("%s: Write: %d %v %s %s", what, n, err, o, note)
		}
	case "K":
		var err error
		if o, note := r.e.Guard(func() { err = r.e.C.SendKeyUpdate(false) }); o != "" || err != nil {
			r.badf("%s: SendKeyUpdate: %v %s %s", what, err, o, note)
		}
	case "Rh":
		var n int
		var err error
		buf := make([]byte, alertChunk/2)
		if o, note := r.e.Guard(func() { n, err = r.e.C.Read(buf) }); o != "" {
			r.badf("%s: Read %s %s", what, o, note)
			return false
		}
		r.got = append(r.got, buf[:n]...)
		if err == mint.AlertWouldBlock {
			err = nil
		}
		if !r.end(what, st, err) {
			return false
		}
	case "Ra":
		rr := r.e.ReadAll([]int{4096, alertChunk, alertChunk / 2, 1}[rng.Intn(4)])
		if rr.Out != "" {
			r.badf("%s: Read %s %s", what, rr.Out, rr.Note)
			return false
		}
		r.got = append(r.got, rr.Data...)
		if !r.end(what, st, rr.Err) {
			return false
		}
	}
	return r.output(what, st)
}

// end compares what reading returned with the specification.
func (r *alertRun) end(what string, st AlertStep, err error) bool {
	want := st.Rd * alertChunk / 2
	if want > len(r.sent) {
		panic("specification delivers more than was sent")
	}
	if !bytes.Equal(r.got, r.sent[:want]) {
		r.badf("%s: %q was delivered so far, expected %q", what, trunc(r.got), trunc(r.sent[:want]))
		return false
	}
	r.last = mint.AlertNoAlert
	if a, ok := err.(mint.Alert); ok {
		r.last = a
	}
	isEOF := err != nil && err.Error() == "EOF"
	switch st.Term.K {
	case "none":
		if err != nil {
			r.badf("%s: Read reports %v, nothing has ended the stream", what, err)
		}
	case "eof":
		if !isEOF {
			r.badf("%s: Read reports %v after close_notify, expected end of stream", what, err)
		}
	case "alert":
		if st.Term.D >= 253 { // not representable: any error
			if err == nil || isEOF {
				r.badf("%s: Read reports %v after a fatal alert %d", what, err, st.Term.D)
			}
		} else if r.last != mint.Alert(st.Term.D) || err == nil {
			r.badf("%s: Read reports %v after a fatal alert %d", what, err, st.Term.D)
		}
	case "ended":
		if err == nil {
			r.badf("%s: Read does not report the end of the stream", what)
		}
	case "local":
		if err == nil || isEOF {
			r.badf("%s: Read reports %v, expected an error", what, err)
		}
	case "err":
		// in DTLS such a record may be dropped
		if isEOF || err == nil && !r.k.Mode.DTLS {
			r.badf("%s: Read reports %v for a record that is not authentic", what, err)
		}
		return false
	}
	return len(r.bad) == 0
}

// output compares what the endpoint wrote with the specification.
func (r *alertRun) output(what string, st AlertStep) bool {
	p := r.p
	p.Feed(r.e.W.TakeBytes())
	for {
		rec, err := p.NextRecord()
		if err == ref.ErrMore {
			if p.RawPending() > 0 {
				r.badf("%s: the endpoint wrote a partial record", what)
			}
			break
		}
		if err != nil {
			r.badf("%s: record that does not open under the current keys: %v", what, err)
			return false
		}
		if !rec.Enc {
			r.badf("%s: unprotected record of type %d", what, rec.Type)
			return false
		}
		if r.gone {
			r.badf("%s: record of type %d after a fatal alert", what, rec.Type)
			return false
		}
		switch rec.Type {
		case ref.RAlert:
			if len(rec.Payload) != 2 {
				r.badf("%s: alert of %d bytes", what, len(rec.Payload))
				return false
			}
			l, d := rec.Payload[0], rec.Payload[1]
			if st.Term.K != "local" && st.Term.K != "ended" {
				r.badf("%s: alert %d/%d without a reason", what, l, d)
				return false
			}
			if d == 0 && st.Term.K == "ended" && (l == 1 || l == 2) {
				continue
			}
			if l != 2 {
				r.badf("%s: error alert %d with level %d", what, d, l)
			}
			if mint.Alert(d) != r.last {
				r.badf("%s: alert %d was sent, Read reports %v", what, d, r.last)
			}
			r.gone = true
		case ref.RApp, ref.RHandshake:
			t := "app"
			if rec.Type == ref.RHandshake {
				t = "ku"
			}
			if r.outN >= len(st.Out) || st.Out[r.outN].T != t {
				r.badf("%s: unexpected record of type %d", what, rec.Type)
				return false
			}
			r.outN++
			if t == "ku" {
				m := rec.Payload
				if p.D != nil && len(m) == 13 {
					m = append(append([]byte{}, m[:4]...), m[12])
				}
				if !bytes.Equal(m, ref.Msg(ref.TKU, []byte{0})) {
					r.badf("%s: handshake record %x, expected a key update", what, trunc(rec.Payload))
					return false
				}
				p.TookHS(rec)
				p.In = p.Alg.Next(p.In)
			}
		default:
			r.badf("%s: record of type %d", what, rec.Type)
			return false
		}
	}
	if r.outN != len(st.Out) {
		r.badf("%s: the endpoint wrote %d records, expected %d", what, r.outN, len(st.Out))
	}
	return len(r.bad) == 0
}

// AlertHsCase is a behaviour of AlertsHs.tla.
type AlertHsCase struct {
	Fl   string   `json:"fl"`
	Pos  int      `json:"pos"`
	Msgs []string `json:"msgs"`
	A    struct {
		L int `json:"l"`
		D int `json:"d"`
		N int `json:"n"`
	} `json:"a"`
	Res string `json:"res"`
}

func (k AlertHsCase) String() string {
	return fmt.Sprintf("%s after %v: alert %d/%d of %d bytes", k.Fl, k.Msgs[:k.Pos], k.A.L, k.A.D, k.A.N)
}

func alertFlight(fl string) (*HsCfg, *SrvCfg) {
	d := len(fl) > 1 && fl[1] == 'd'
	if fl[0] == 'c' {
		c := &HsCfg{PSK: "none", ALPN: true, CCert: true, Verify: "roots", Key: "p256", DTLS: d}
		switch fl {
		case "cpsk", "cearly", "cdpsk":
			c.PSK, c.CCert = "both", false
			c.Early = fl == "cearly"
		}
		return c, nil
	}
	s := &SrvCfg{Auth: "none", PSK: "known", Key: "p256", DTLS: d}
	switch fl {
	case "sauth", "scook", "sdauth":
		s.Auth = "req"
	}
	s.Cookie = fl == "scook" || fl == "sdcook"
	s.Early = fl == "searly"
	return nil, s
}

// RunAlertHs executes one case and returns what was wrong.
func RunAlertHs(k AlertHsCase, rng *rand.Rand) []string {
	cc, sc := alertFlight(k.Fl)
	var e *eut.EUT
	var p *ref.Peer
	var do func(string) (string, string)
	var bad *[]string
	if cc != nil {
		r := NewClientRun(*cc)
		r.Start()
		e, p, do, bad = r.E, r.P, r.Do, &r.Bad
	} else {
		r := NewServerRun(*sc)
		r.Start()
		e, p, do, bad = r.E, r.P, r.Do, &r.Bad
	}
	for _, m := range k.Msgs[:k.Pos] {
		if st, note := do(m); st != "wait" {
			return []string{m + ": " + st + " " + note}
		}
	}
	if len(*bad) > 0 {
		return *bad
	}
	body := make([]byte, k.A.N)
	for i := range body {
		switch i {
		case 0:
			body[i] = byte(k.A.L)
		case 1:
			body[i] = byte(k.A.D)
		default:
			body[i] = byte(rng.Intn(256))
		}
	}
	p.Send(ref.RAlert, body)
	put(e, p.Flush())
	res := e.Step()
	var out []string
	if res.Out == eut.Panicked || res.Out == eut.Hung {
		return []string{res.String()}
	}
	switch k.Res {
	case "open":
		return nil
	case "alert":
		if res.Out != eut.Failed || k.A.D < 253 && res.Alert != mint.Alert(k.A.D) {
			out = append(out, fmt.Sprintf("fatal alert %d during the handshake, Handshake: %v", k.A.D, res))
		}
	case "fail":
		if res.Out != eut.Failed {
			out = append(out, fmt.Sprintf("Handshake: %v", res))
		}
	}
	if len(out) == 0 {
		if again := e.HandshakeOnce(); again.Out != eut.Failed {
			out = append(out, fmt.Sprintf("the next Handshake call: %v", again))
		}
	}
	e.W.EOF()
	return out
}

// SentAlert is an alert an endpoint put on the wire.
type SentAlert struct {
	Body  []byte
	Plain bool
}

// sentAlerts finds the alerts among records, opening them with the given secrets.
func sentAlerts(p *ref.Peer, chunks [][]byte, secrets ...[]byte) (out []SentAlert, bad string) {
	hdr, epoch := 5, false
	if p.D != nil {
		hdr, epoch = 13, true
	}
	for _, w := range chunks {
		for len(w) >= hdr {
			n := hdr + int(w[hdr-2])<<8 + int(w[hdr-1])
			if n > len(w) {
				return out, "a partial record"
			}
			rec := w[:n]
			w = w[n:]
			clear := rec[0] != ref.RApp
			if epoch {
				clear = rec[3] == 0 && rec[4] == 0
			}
			if clear {
				if rec[0] == ref.RAlert {
					out = append(out, SentAlert{rec[hdr:], true})
				}
				continue
			}
			opened := false
			for _, s := range secrets {
				if s == nil || opened {
					continue
				}
				if ct, body, ok := p.OpenAny(s, rec); ok {
					opened = true
					if ct == ref.RAlert {
						out = append(out, SentAlert{body, false})
					}
				}
			}
			if !opened {
				return out, fmt.Sprintf("a record of %d bytes that opens under none of the keys of the handshake", len(rec))
			}
		}
		if len(w) > 0 {
			return out, "a partial record"
		}
	}
	return out, ""
}

func judgeAlerts(as []SentAlert, reported mint.Alert, plainOK, protOK bool) string {
	seen := false
	for _, a := range as {
		if len(a.Body) != 2 {
			return fmt.Sprintf("alert record of %d bytes: %x", len(a.Body), trunc(a.Body))
		}
		l, d := a.Body[0], a.Body[1]
		if a.Plain && !plainOK {
			return fmt.Sprintf("unprotected alert %d/%d although keys are in use", l, d)
		}
		if !a.Plain && !protOK {
			return fmt.Sprintf("protected alert %d/%d before there are keys", l, d)
		}
		if l != 2 && d != 0 && d != 90 && d != 100 {
			return fmt.Sprintf("error alert %d with level %d", d, l)
		}
		if l != 1 && l != 2 {
			return fmt.Sprintf("alert %d with level %d", d, l)
		}
		seen = seen || mint.Alert(d) == reported
	}
	if len(as) > 0 && !seen {
		return fmt.Sprintf("alert %d was sent, the API reports %d (%v)", as[0].Body[1], reported, reported)
	}
	return ""
}

// CheckAlerts judges the alerts a client sent when message m in phase ph made it fail.
func (r *ClientRun) CheckAlerts(ph string) string {
	var sec [][]byte
	if s := r.P.S; s != nil {
		sec = append(sec, s.CHS, s.CAP)
	}
	if r.P.In != nil {
		sec = append(sec, r.P.In.Secret)
	}
	early := false
	if r.P.Early != nil {
		sec = append(sec, r.P.Early.Secret)
		early = true
	}
	as, bad := sentAlerts(r.P, r.E.W.Take(), sec...)
	if bad != "" {
		return "the endpoint wrote " + bad
	}
	_ = early
	return judgeAlerts(as, r.LastAlert, ph == "WAIT_SH", true)
}

// CheckAlerts judges the alerts a server sent when message m in phase ph made it fail.
func (r *ServerRun) CheckAlerts(ph string) string {
	var sec [][]byte
	if s := r.P.S; s != nil {
		sec = append(sec, s.SHS, s.SAP)
	}
	if r.P.In != nil {
		sec = append(sec, r.P.In.Secret)
	}
	start := ph == "WAIT_CH" || ph == "WAIT_CH2"
	as, bad := sentAlerts(r.P, r.E.W.Take(), sec...)
	if bad != "" {
		return "the endpoint wrote " + bad
	}
	return judgeAlerts(as, r.LastAlert, start, !start)
}
