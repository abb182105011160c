package drv

import (
	"fmt"
	"math/rand"

	"verifharness/eut"
	"verifharness/ref"
)

// FrameCase is a behaviour of Framing.tla.
type FrameCase struct {
	Fl   string   `json:"fl"`
	API  string   `json:"api"`
	Seg  string   `json:"seg"`
	Recs [][2]int `json:"recs"`
	Hist []struct {
		R  int    `json:"r"`
		St string `json:"st"`
	} `json:"hist"`
	St string `json:"st"`
}

func (k FrameCase) String() string {
	return fmt.Sprintf("%s/%s/%s/%v", k.Fl, k.API, k.Seg, k.Recs)
}

type frameFlight struct {
	msgs  []string
	wait  map[int]bool // message index (from 0) that needs an answer
	cli   *HsCfg
	srv   *SrvCfg
	early bool
}

var frameFlights = map[string]frameFlight{
	"cpsk":   {msgs: []string{"SH.psk_dhe", "EE", "Fin"}, cli: &HsCfg{PSK: "both", Key: "p256", Verify: "ok"}},
	"ccert":  {msgs: []string{"SH.dhe", "EE.alpn", "Cert.good", "CV.ok", "Fin"}, cli: &HsCfg{PSK: "none", ALPN: true, Key: "rsa", Verify: "ok"}},
	"ccr":    {msgs: []string{"SH.dhe", "EE", "CR", "Cert.inter", "CV.ok", "Fin"}, cli: &HsCfg{PSK: "none", CCert: true, Key: "p256", Verify: "cbok"}},
	"chrr":   {msgs: []string{"HRR", "SH.psk_ke", "EE", "Fin"}, wait: map[int]bool{0: true}, cli: &HsCfg{PSK: "ke", Key: "p256", Verify: "ok"}},
	"cearly": {msgs: []string{"SH.psk_dhe", "EE.early", "Fin"}, cli: &HsCfg{PSK: "both", Early: true, Key: "p384", Verify: "ok"}, early: true},
	"sfull":  {msgs: []string{"CH.full", "Fin"}, wait: map[int]bool{0: true}, srv: &SrvCfg{Auth: "none", PSK: "none", Key: "p256"}},
	"spsk":   {msgs: []string{"CH.psk", "Fin"}, wait: map[int]bool{0: true}, srv: &SrvCfg{Auth: "none", PSK: "known", Key: "p256"}},
	"sauth":  {msgs: []string{"CH.full", "Cert.good", "CV.ok", "Fin"}, wait: map[int]bool{0: true}, srv: &SrvCfg{Auth: "cbok", PSK: "none", Key: "rsa"}},
	"sempty": {msgs: []string{"CH.full", "Cert.empty", "Fin"}, wait: map[int]bool{0: true}, srv: &SrvCfg{Auth: "any", PSK: "none", Key: "p256"}},
	"scook":  {msgs: []string{"CH.full", "CH.full", "Fin"}, wait: map[int]bool{0: true, 1: true}, srv: &SrvCfg{Auth: "none", PSK: "none", Cookie: true, Key: "p256"}},
	"searly": {msgs: []string{"CH.early", "EOED", "Fin"}, wait: map[int]bool{0: true}, srv: &SrvCfg{Auth: "none", PSK: "known", Early: true, Key: "p256"}, early: true},
}

// frameRun hides which side is under test.
type frameRun struct {
	e      *eut.EUT
	p      *ref.Peer
	c      *ClientRun
	s      *ServerRun
	rng    *rand.Rand
	k      FrameCase
	fl     frameFlight
	bad    []string
	carry  []byte
	blk    bool
	result chan eut.Res
}

func (r *frameRun) badf(f string, a ...interface{}) { r.bad = append(r.bad, fmt.Sprintf(f, a...)) }
func (r *frameRun) build(m string) []byte {
	if r.c != nil {
		return r.c.Build(m)
	}
	return r.s.Build(m)
}
func (r *frameRun) settle(res eut.Res, m string) (string, string) {
	if r.c != nil {
		return r.c.settle(res, m)
	}
	return r.s.settle(res, m)
}
func (r *frameRun) observe(m string) (string, string) {
	if r.c != nil {
		return r.c.Observe(m)
	}
	return r.s.Observe(m)
}
func (r *frameRun) afterRead(rr eut.RR, m string) (string, string) {
	if r.c != nil {
		return r.c.afterRead(rr, m)
	}
	return r.s.afterRead(rr, m)
}
func (r *frameRun) inner() []string {
	if r.c != nil {
		return r.c.Bad
	}
	return r.s.Bad
}

const frameUnits = 3

// RunFraming executes one case and returns what was wrong.
func RunFraming(k FrameCase, rng *rand.Rand) []string {
	fl, ok := frameFlights[k.Fl]
	if !ok {
		panic("unknown flight " + k.Fl)
	}
	if k.API == "block" && k.Fl == "cearly" {
		k.API = "late" // a blocking client cannot write before it completes
	}
	r := &frameRun{rng: rng, k: k, fl: fl, blk: k.API == "block"}
	if fl.cli != nil {
		r.c = newClientRun(*fl.cli, nil, r.blk)
		r.e, r.p = r.c.E, r.c.P
	} else {
		r.s = newServerRun(*fl.srv, nil, r.blk)
		r.e, r.p = r.s.E, r.s.P
	}
	r.segment()
	r.run()
	if len(r.bad) == 0 && len(r.inner()) > 0 {
		r.bad = r.inner()
	}
	r.e.W.EOF()
	return r.bad
}

func (r *frameRun) segment() {
	switch r.k.Seg {
	case "byte":
		r.e.W.MaxRead = 1
	case "rnd":
		r.e.W.Split = func(n int) int { return 1 + r.rng.Intn(n) }
	}
}

func (r *frameRun) start() bool {
	if !r.blk {
		if r.c != nil {
			res := r.c.Start()
			if res.Out != eut.Progress {
				r.badf("start: %s", res)
			}
		} else if res := r.s.Start(); res.Out != eut.Progress {
			r.badf("start: %s", res)
		}
		return len(r.bad) == 0
	}
	r.result = make(chan eut.Res, 1)
	go func() {
		res := r.e.Step()
		r.result <- res
		r.e.W.Stop()
	}()
	if !r.e.W.WaitIdle() {
		r.badf("start: Handshake returned %s without any input", <-r.result)
		return false
	}
	if r.c != nil {
		r.c.drain()
		if err := r.p.RecvCH(); err != nil {
			r.badf("ClientHello: %v", err)
			return false
		}
		r.c.checkCH()
	}
	return true
}

func (r *frameRun) run() {
	if !r.start() {
		return
	}
	hist := map[int]string{}
	for _, h := range r.k.Hist {
		hist[h.R] = h.St
	}
	mi, ri := 0, 0
	for mi < len(r.fl.msgs) {
		// the messages up to the next one that needs an answer
		end := mi
		for end < len(r.fl.msgs)-1 && !r.fl.wait[end] {
			end++
		}
		var held []ref.Held
		r.p.Hold = &held
		var before []byte
		for _, m := range r.fl.msgs[mi : end+1] {
			if m == "EOED" {
				// early data precedes it
				r.p.Hold = nil
				before = append(before, r.build("Early")...)
				r.p.Hold = &held
			}
			r.build(m)
		}
		r.p.Hold = nil
		if len(held) != end+1-mi {
			panic(fmt.Sprintf("flight %s: %d messages held", r.k.Fl, len(held)))
		}
		cuts := make([][2]int, len(held)) // inner boundaries
		for i, h := range held {
			n := len(h.Payload)
			a := 1 + r.rng.Intn(2)
			b := a + 1 + r.rng.Intn(n-1-a)
			if r.rng.Intn(4) == 0 && n > 5 {
				b = 4
			}
			cuts[i] = [2]int{a, b}
		}
		if len(before) > 0 {
			r.e.W.Put(before)
		}
		base := mi * frameUnits
		for ; ri < len(r.k.Recs) && r.k.Recs[ri][1] <= (end+1)*frameUnits; ri++ {
			from, to := r.k.Recs[ri][0]-base-1, r.k.Recs[ri][1]-base-1
			var pl []byte
			for u := from; u <= to; u++ {
				i, x := u/frameUnits, u%frameUnits
				m := held[i].Payload
				b := []int{0, cuts[i][0], cuts[i][1], len(m)}
				pl = append(pl, m[b[x]:b[x+1]]...)
			}
			rec := r.p.RecordUnder(held[from/frameUnits].Keys, ref.RHandshake, pl)
			done := ri == len(r.k.Recs)-1
			last := r.k.Recs[ri][1] == (end+1)*frameUnits
			name := r.fl.msgs[end]
			if !last {
				name = "part"
			}
			if !r.deliver(rec, ri+1, hist, name, last || done, done) {
				return
			}
		}
		if ri >= len(r.k.Recs) && r.k.Recs[ri-1][1] < (end+1)*frameUnits {
			return // failed in the middle, as expected
		}
		mi = end + 1
	}
	if r.k.St == "CONNECTED" && len(r.bad) == 0 {
		r.post()
	}
}

// quiet checks that a would-block result is justified and that polling again changes nothing.
func (r *frameRun) quiet(when string) {
	if n := r.e.W.Pending(); n != 0 {
		r.badf("%s: would block with %d bytes unread", when, n)
	}
	r.p.Feed(r.e.W.TakeBytes())
	for i := 0; i < 2; i++ {
		res := r.e.HandshakeOnce()
		if res.Out != eut.Progress || int(res.Alert) != 254 {
			r.badf("%s: polling again gives %s (%d)", when, res, int(res.Alert))
		}
	}
	if w := r.e.W.Take(); len(w) != 0 {
		r.badf("%s: polling without input wrote %d records", when, len(w))
	}
}

// deliver transports one record and calls the endpoint as the case says.
func (r *frameRun) deliver(rec []byte, n int, hist map[int]string, name string, sync, done bool) bool {
	when := fmt.Sprintf("record %d of %d", n, len(r.k.Recs))
	if r.k.Seg == "join" && !sync {
		// the transport merges this record with the next
		cut := r.rng.Intn(len(rec))
		r.carry = append(r.carry, rec...)
		if r.k.API == "poll" && hist[n] == "wait" {
			r.e.W.Put(r.carry[:len(r.carry)-len(rec)+cut])
			r.carry = append([]byte{}, rec[cut:]...)
			if res := r.e.Step(); res.Out != eut.Progress {
				r.badf("%s: %s in the middle of a record", when, res)
				return false
			}
			r.quiet(when)
		}
		return len(r.bad) == 0
	}
	data := append(r.carry, rec...)
	r.carry = nil
	if r.k.API == "poll" && !r.blk {
		switch r.k.Seg {
		case "byte", "rnd":
			step := 1
			for len(data) > 1 {
				if r.k.Seg == "rnd" {
					step = 1 + r.rng.Intn(len(data)-1)
				} else if len(data) > 40 {
					step = 1 + r.rng.Intn(20)
				} else {
					step = 1
				}
				r.e.W.Put(data[:step])
				data = data[step:]
				if res := r.e.Step(); res.Out != eut.Progress {
					r.badf("%s: %s although the record is incomplete", when, res)
					return false
				}
				if r.rng.Intn(8) == 0 {
					r.quiet(when)
				}
			}
		}
	}
	r.e.W.Put(data)
	want, polled := hist[n]
	if !polled {
		return true // late or blocking: not called yet
	}
	if r.blk {
		var res eut.Res
		if r.e.W.WaitIdle() {
			res = eut.Res{Out: eut.Progress, Alert: 254}
			if done {
				r.badf("%s: a blocking Handshake waits for more input, specification %s", when, want)
				return false
			}
		} else {
			res = <-r.result
		}
		return r.judge(when, want, name, func() (string, string) { return r.settle(res, name) })
	}
	return r.judge(when, want, name, func() (string, string) { return r.observe(name) })
}

func (r *frameRun) judge(when, want, name string, f func() (string, string)) bool {
	got, note := f()
	if got != want {
		r.badf("%s: specification %s, endpoint %s %s", when, want, got, note)
		return false
	}
	if len(r.inner()) > 0 {
		return false
	}
	if got == "wait" && !r.blk {
		r.quiet(when)
	}
	return len(r.bad) == 0
}

// post exchanges application data under the same segmentation.
func (r *frameRun) post() {
	var b []byte
	for i := 0; i < 2; i++ {
		b = append(b, r.build("App")...)
	}
	r.e.W.Put(b)
	if r.blk {
		r.e.W.EOF()
		rr := r.e.ReadAll(1 + r.rng.Intn(40))
		got, note := r.afterRead(rr, "App")
		if got != "CLOSED" {
			r.badf("application data: %s %s", got, note)
		}
		return
	}
	if got, note := r.observe("App"); got != "CONNECTED" {
		r.badf("application data: %s %s", got, note)
	}
}
