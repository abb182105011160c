package drv

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// ReasmCase is a behaviour of Reasm.tla.
type ReasmCase struct {
	What  string `json:"what"`
	Units int    `json:"units"`
	Frags []struct {
		Off  int  `json:"off"`
		Len  int  `json:"len"`
		Done bool `json:"done"`
	} `json:"frags"`
}

func (k ReasmCase) String() string {
	var b strings.Builder
	b.WriteString(k.What)
	for _, f := range k.Frags {
		fmt.Fprintf(&b, " %d+%d", f.Off, f.Len)
	}
	return b.String()
}

// joinHS reassembles the first handshake message in some cleartext datagrams and returns the datagrams that follow it.
func joinHS(ds [][]byte) (typ, seq int, body []byte, rest [][]byte, err error) {
	if len(ds) == 0 || len(ds[0]) < 25 || ds[0][0] != ref.RHandshake {
		return 0, 0, nil, nil, fmt.Errorf("no cleartext handshake datagram")
	}
	typ, seq = int(ds[0][13]), int(ds[0][17])<<8|int(ds[0][18])
	n := int(ds[0][14])<<16 | int(ds[0][15])<<8 | int(ds[0][16])
	body = make([]byte, n)
	got := 0
	for i, d := range ds {
		if len(d) < 25 || d[0] != ref.RHandshake || dgEpoch(d) != 0 || int(d[17])<<8|int(d[18]) != seq {
			rest = ds[i:]
			break
		}
		got += copy(body[int(d[19])<<16|int(d[20])<<8|int(d[21]):], d[25:])
	}
	if got != n {
		err = fmt.Errorf("message of %d bytes in fragments of %d", n, got)
	}
	return
}

// dtlsFragment is a cleartext handshake fragment in its own record.
func dtlsFragment(num uint64, typ, seq, total, off int, body []byte) []byte {
	hs := (&ref.W{}).U8(typ).U24(total).U16(seq).U24(off).V24(body).B
	w := &ref.W{}
	w.U8(ref.RHandshake).U16(0xfefd)
	w.B = binary.BigEndian.AppendUint64(w.B, num)
	return w.V16(hs).B
}

// RunReasm executes a behaviour of Reasm.tla.  It has to run in a Bubble.
func RunReasm(k ReasmCase, rng *rand.Rand) (bad []string) {
	mode := map[string]string{"ch": "psk", "bigch": "bigch", "sh": "psk", "hrr": "cookie", "bighrr": "bigcookie"}[k.What]
	cc, sc := DtlsConfigs(mode)
	r := &dtlsRun{p: NewPair(cc, sc), net: map[string][][]byte{}, seen: map[string]map[string]bool{"c": {}, "s": {}}, lens: map[string]int{}, got: map[string][]byte{}}
	r.poll("s")
	r.poll("c")
	flight := r.sent("c")
	to, from := "s", "c"
	if k.What != "ch" && k.What != "bigch" {
		for _, d := range flight {
			r.p.Srv.W.Put(d)
		}
		r.poll("s")
		flight = r.sent("s")
		to, from = "c", "s"
	}
	if len(r.bad) > 0 {
		return r.bad
	}
	typ, seq, body, rest, err := joinHS(flight)
	if err != nil {
		r.badf("%s", err)
		return r.bad
	}
	cut := []int{0, len(body)}
	for len(cut) < k.Units+1 {
		c := 1 + rng.Intn(len(body)-1)
		dup := false
		for _, x := range cut {
			dup = dup || x == c
		}
		if !dup {
			cut = append(cut, c)
		}
	}
	sort.Ints(cut)
	num := uint64(rng.Intn(5))
	recs := map[uint64]bool{}
	put := func(off, n int) {
		num += uint64(1 + rng.Intn(3))
		recs[num] = true
		r.end(to).W.Put(dtlsFragment(num, typ, seq, len(body), cut[off], body[cut[off]:cut[off+n]]))
		r.poll(to)
	}
	done := false
	for i, f := range k.Frags {
		put(f.Off, f.Len)
		out := r.sent(to)
		done = len(out) > 0 || to == "c" && r.p.CRes.Out == eut.Progress && clientMoved(r.p.Cli)
		if len(r.bad) > 0 {
			return r.bad
		}
		if done != f.Done {
			r.badf("fragment %d: message complete %v, specification %v", i, done, f.Done)
			return r.bad
		}
	}
	if !done {
		// an acknowledgement names exactly what has arrived
		if rng.Intn(2) == 0 {
			time.Sleep(DtlsTick)
			r.poll(to)
			out := r.sent(to)
			if to == "c" && len(out) > 1 {
				out = out[:1] // the timer of the ClientHello has been stopped
			}
			if len(out) != 1 || out[0][0] != ref.RAck {
				r.badf("no acknowledgement of an unfinished message (%d datagrams)", len(out))
				return r.bad
			}
			b := out[0][13:]
			got := map[uint64]bool{}
			if len(b) < 2 || len(b)%8 != 2 || int(b[0])<<8|int(b[1]) != len(b)-2 {
				r.badf("acknowledgement %x", b)
				return r.bad
			}
			for b = b[2:]; len(b) > 0; b = b[8:] {
				got[binary.BigEndian.Uint64(b)] = true
			}
			if fmt.Sprint(got) != fmt.Sprint(recs) {
				r.badf("acknowledgement of %v, received %v", got, recs)
				return r.bad
			}
		}
		r.net[to] = nil
		// the rest arrives
		for _, u := range rng.Perm(k.Units) {
			put(u, 1)
		}
		if o := r.sent(to); len(o) == 0 && !(to == "c" && clientMoved(r.p.Cli)) {
			r.badf("the message is still not complete after all fragments")
			return r.bad
		}
	}
	// whatever arrives now is old
	if rng.Intn(2) == 0 {
		put(0, k.Units)
		if o := r.sent(to); len(o) > 0 {
			r.net[to] = r.net[to][:len(r.net[to])-len(o)]
			r.badf("an old message is answered with %d datagrams", len(o))
			return r.bad
		}
	}
	r.net[from] = rest
	for i := 0; i < 10 && len(r.bad) == 0; i++ {
		for _, w := range []string{"c", "s"} {
			for _, d := range r.net[w] {
				o := map[string]string{"c": "s", "s": "c"}[w]
				r.end(o).W.Put(d)
				r.poll(o)
			}
			r.net[w] = nil
		}
		r.sent("c")
		r.sent("s")
	}
	if len(r.bad) > 0 {
		return r.bad
	}
	if !r.p.Both() {
		r.badf("does not complete: client %s server %s", r.p.CRes, r.p.SRes)
		return r.bad
	}
	return append(append(r.bad, r.p.Agree()...), r.p.Exchange("after reassembly")...)
}

// clientMoved reports that a client has left the state in which it waits for a ServerHello.
func clientMoved(e *eut.EUT) bool { return e.C.GetHsState() != mint.StateClientWaitSH }
