package drv

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// ReadCase is a behaviour of Reads.tla.
type ReadCase struct {
	Mode struct {
		Role string `json:"role"`
		DTLS bool   `json:"dtls"`
	} `json:"mode"`
	Steps []struct {
		A   string `json:"a"`
		Tot int    `json:"tot"`
	} `json:"steps"`
}

func (k ReadCase) String() string {
	s := k.Mode.Role
	if k.Mode.DTLS {
		s += " (DTLS)"
	}
	for _, x := range k.Steps {
		s += " " + x.A
	}
	return s
}

type readRun struct {
	k    ReadCase
	e    *eut.EUT
	p    *ref.Peer
	rng  *rand.Rand
	fly  [][]byte // in flight
	all  []byte   // data sent
	ends []int    // where each data item ends in all
	got  []byte
	bad  []string
}

func (r *readRun) badf(f string, a ...interface{}) { r.bad = append(r.bad, fmt.Sprintf(f, a...)) }

func (r *readRun) push() { r.fly = append(r.fly, r.p.Flush()) }

func (r *readRun) data() []byte {
	n := []int{1, 3, 50, 1000, 16384}[r.rng.Intn(5)]
	if r.k.Mode.DTLS && n > 1000 {
		n = 1000
	}
	b := make([]byte, n)
	r.rng.Read(b)
	r.all = append(r.all, b...)
	r.ends = append(r.ends, len(r.all))
	return b
}

func (r *readRun) send(k string) {
	p := r.p
	nst := func(t string) []byte {
		return (&ref.NST{Lifetime: 100, AgeAdd: 1, Nonce: []byte{1}, Ticket: []byte(t)}).Msg()
	}
	switch k {
	case "d":
		p.Send(ref.RApp, r.data())
	case "e":
		p.Send(ref.RApp, nil)
	case "p":
		b := r.data()
		pad := r.rng.Intn(300)
		if len(b)+pad > 16384 {
			pad = 16384 - len(b)
		}
		if r.k.Mode.DTLS {
			p.Send(ref.RApp, b)
		} else {
			p.Sent = append(p.Sent, p.Out.Seal(ref.RApp, b, pad)...)
		}
	case "w":
		p.Send(ref.RAlert, []byte{1, 90})
	case "k0", "k1":
		p.Send(ref.RHandshake, ref.Msg(ref.TKU, []byte{k[1] - '0'}))
		p.Out = p.Alg.Next(p.Out)
	case "n":
		p.Send(ref.RHandshake, nst("tick"))
	case "nn":
		p.Send(ref.RHandshake, append(nst("tick"), nst("tock")...))
	case "o":
		p.Sent = append(p.Sent, p.PlainRecord(ref.RAlert, []byte{2, 40})...)
	default:
		panic("unknown item " + k)
	}
	r.push()
}

func (r *readRun) deliver(full bool) {
	n := len(r.fly)
	if n == 0 {
		return
	}
	last := r.fly[n-1]
	for _, b := range r.fly[:n-1] {
		put(r.e, b)
	}
	if full {
		put(r.e, last)
		r.fly = nil
		return
	}
	cut := 0
	if !r.k.Mode.DTLS {
		cut = r.rng.Intn(len(last))
		put(r.e, last[:cut])
	}
	r.fly = [][]byte{last[cut:]}
}

// have is how many bytes have completely arrived.
func (r *readRun) have(tot int) int {
	if tot == 0 {
		return 0
	}
	return r.ends[tot-1]
}

// read calls Read once; avail says whether it must return data.
func (r *readRun) read(size, have int) {
	buf := make([]byte, size)
	var n int
	var err error
	if o, note := r.e.Guard(func() { n, err = r.e.C.Read(buf) }); o != "" {
		r.badf("Read %s %s", o, note)
		return
	}
	r.got = append(r.got, buf[:n]...)
	if len(r.got) > have || !bytes.HasPrefix(r.all, r.got) {
		r.badf("Read returned %d bytes that are not the continuation of what was sent", n)
		return
	}
	switch {
	case size == 0:
		if n != 0 || err != nil && err != mint.AlertWouldBlock {
			r.badf("Read without room reports %d, %v", n, err)
		}
	case len(r.got)-n < have:
		if n == 0 || err != nil {
			r.badf("Read reports %d, %v with %d bytes of data available", n, err, have-len(r.got))
		}
	default:
		if n != 0 || err != mint.AlertWouldBlock {
			r.badf("Read reports %d, %v although everything was read", n, err)
		}
		if p := r.e.W.Pending(); p != 0 {
			r.badf("Read would block with %d bytes of input left", p)
		}
	}
}

// RunReads executes one behaviour on a non-blocking endpoint.
func RunReads(k ReadCase, rng *rand.Rand) (string, []string) {
	r := &readRun{k: k, rng: rng}
	var bad []string
	r.e, r.p, bad = ConnectRef(k.Mode.Role, k.Mode.DTLS)
	if len(bad) > 0 {
		panic("cannot connect: " + bad[0])
	}
	if !k.Mode.DTLS && rng.Intn(3) == 0 {
		r.e.W.MaxRead = 1 + rng.Intn(7)
	}
	r.e.W.Take()
	for i, s := range k.Steps {
		have := r.have(s.Tot)
		switch s.A[0] {
		case 'S':
			r.send(s.A[1:])
		case 'D', 'd':
			r.deliver(s.A == "D")
		case 'R':
			r.read([]int{1, 2, 100, 16384, 40000}[rng.Intn(5)], have)
		case 'Z':
			r.read(0, have)
		case 'H':
			before := r.e.W.Pending()
			if x := r.e.HandshakeOnce(); x.Out != eut.Connected {
				r.badf("Handshake reports %s", x)
			}
			if n := r.e.W.Pending(); n != before {
				r.badf("Handshake took %d bytes of input on a connected endpoint", before-n)
			}
		}
		if len(r.bad) > 0 {
			return "", []string{fmt.Sprintf("step %d (%s): %s", i+1, s.A, r.bad[0])}
		}
	}
	// in the end everything arrives
	r.deliver(true)
	for i := 0; len(r.got) < len(r.all) && len(r.bad) == 0; i++ {
		r.read(40000, len(r.all))
	}
	if len(r.bad) == 0 {
		r.read(10, len(r.all))
	}
	r.e.W.EOF()
	return fmt.Sprintf("%s/dtls=%v", k.Mode.Role, k.Mode.DTLS), r.bad
}
