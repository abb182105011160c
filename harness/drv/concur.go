package drv

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/bifurcation/mint"

	"verifharness/eut"
	"verifharness/ref"
)

// ConcurCase is a final state of Concur.tla.
type ConcurCase struct {
	A   string   `json:"a"`
	B   string   `json:"b"`
	Log []string `json:"log"`
}

// Compress removes repetitions of data records of one goroutine.
func (k ConcurCase) Compress() string { return compress(k.Log) }

func compress(l []string) string {
	var o []string
	for _, x := range l {
		if len(o) > 0 && o[len(o)-1] == x && x != "ku" {
			continue
		}
		o = append(o, x)
	}
	return strings.Join(o, " ")
}

func tagged(g byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = g<<4 | byte((i/7+i)%13)
	}
	return b
}

func only(g byte, b []byte) []byte {
	var o []byte
	for _, x := range b {
		if x>>4 == g {
			o = append(o, x)
		}
	}
	return o
}

// Concur lets operation b run while operation a is stopped before its pause-th transport
// write.  It returns the order in which records were protected.
func Concur(mode string, server bool, a, b string, pause int) (order string, r *StreamRun, bad []string) {
	r = NewStreamRun(mode, caseRand(), false)
	if len(r.Bad) > 0 {
		return "", r, r.Bad
	}
	x, y, side := r.P.Cli, r.P.Srv, "c"
	if server {
		x, y, side = r.P.Srv, r.P.Cli, "s"
	}
	badf := func(f string, v ...interface{}) { bad = append(bad, fmt.Sprintf(f, v...)) }
	var incoming []byte
	for _, o := range []string{a, b} {
		if o == "R" {
			y.C.SendKeyUpdate(true)
			m := []byte("incoming " + o)
			y.Write(m)
			incoming = append(incoming, m...)
		}
	}
	r.P.Move()
	at := len(r.Tr.Events())
	var got []byte
	var mu sync.Mutex
	do := func(g byte, op string) {
		switch op {
		case "W", "w":
			d := tagged(g, map[string]int{"W": 40000, "w": 50}[op])
			n, err, o, note := x.Write(d)
			mu.Lock()
			if n != len(d) || err != nil || o != "" {
				badf("Write: %d %v %s%s", n, err, o, note)
			}
			mu.Unlock()
		case "K0", "K1":
			var err error
			o, note := x.Guard(func() { err = x.C.SendKeyUpdate(op == "K1") })
			mu.Lock()
			if err != nil || o != "" {
				badf("SendKeyUpdate: %v %s%s", err, o, note)
			}
			mu.Unlock()
		case "R":
			buf := make([]byte, 100)
			var n int
			var err error
			o, note := x.Guard(func() { n, err = x.C.Read(buf) })
			mu.Lock()
			got = append(got, buf[:n]...)
			if err != nil || o != "" {
				badf("Read: %v %s%s", err, o, note)
			}
			mu.Unlock()
		}
	}
	paused, release := make(chan struct{}), make(chan struct{})
	var cnt int
	var once sync.Once
	var cm sync.Mutex
	x.W.OnWrite = func([]byte) {
		cm.Lock()
		hit := cnt == pause
		cnt++
		cm.Unlock()
		if hit {
			once.Do(func() {
				close(paused)
				<-release
			})
		}
	}
	aDone, bDone := make(chan struct{}), make(chan struct{})
	go func() { do(1, a); close(aDone) }()
	select {
	case <-paused:
	case <-aDone:
	}
	go func() { do(2, b); close(bDone) }()
	select {
	case <-bDone:
	case <-time.After(2 * time.Millisecond):
	}
	close(release)
	for _, ch := range []chan struct{}{aDone, bDone} {
		select {
		case <-ch:
		case <-time.After(eut.CallTimeout):
			badf("the operations deadlock")
			return "", r, bad
		}
	}
	x.W.OnWrite = nil
	if len(bad) > 0 {
		return "", r, bad
	}
	var log []string
	for _, e := range r.Tr.Events()[at:] {
		if e.Side != side || e.Op != "seal" {
			continue
		}
		switch {
		case e.Type == ref.RHandshake && e.Msg == ref.TKU:
			log = append(log, "ku")
		case e.Type == ref.RApp:
			log = append(log, fmt.Sprint(e.Msg>>4))
		default:
			log = append(log, fmt.Sprintf("type%d", e.Type))
		}
	}
	order = compress(log)
	if !bytes.Equal(got, incoming) && len(got) != len(incoming) {
		badf("the readers got %q, sent was %q", got, incoming)
	}
	r.P.Move()
	rr := y.ReadAll(1000)
	if rr.Err != nil || rr.Out != "" {
		badf("the peer cannot read: %s", rr)
		return
	}
	want := 0
	for g, op := range map[byte]string{1: a, 2: b} {
		var d []byte
		switch op {
		case "W":
			d = tagged(g, 40000)
		case "w":
			d = tagged(g, 50)
		}
		want += len(d)
		if !bytes.Equal(only(g, rr.Data), d) {
			badf("the peer does not get what goroutine %d wrote", g)
		}
	}
	if len(rr.Data) != want {
		badf("the peer reads %d bytes, %d were written", len(rr.Data), want)
	}
	r.P.Move()
	for _, e := range r.P.Exchange("afterwards") {
		badf("%s", e)
	}
	return
}

// BlockingPair connects two endpoints in blocking mode over two wires and completes the
// handshake in goroutines.
func BlockingPair(cc, sc *mint.Config) (*Pair, string) {
	cc.NonBlocking, sc.NonBlocking = false, false
	p := NewPair(cc, sc)
	p.Cli.W.OnWrite = func(b []byte) { p.Srv.W.Put(b) }
	p.Srv.W.OnWrite = func(b []byte) { p.Cli.W.Put(b) }
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { p.SRes = p.Srv.HandshakeOnce(); wg.Done() }()
	go func() { p.CRes = p.Cli.HandshakeOnce(); wg.Done() }()
	wg.Wait()
	if !p.Both() {
		return p, fmt.Sprintf("blocking handshake: client %s server %s", p.CRes, p.SRes)
	}
	return p, ""
}

// Stress runs writers, key updaters and readers of both sides concurrently.
func Stress(mode string, seed int64, chunks int) (tr *eut.Tracer, bad []string) {
	cc, sc := StreamConfigs(mode)
	tr = &eut.Tracer{}
	tr.Attach(cc, true)
	tr.Attach(sc, false)
	p, msg := BlockingPair(cc, sc)
	if msg != "" {
		return tr, []string{msg}
	}
	var mu sync.Mutex
	badf := func(f string, v ...interface{}) {
		mu.Lock()
		bad = append(bad, fmt.Sprintf(f, v...))
		mu.Unlock()
	}
	var writers, readers sync.WaitGroup
	for si, x := range []*eut.EUT{p.Cli, p.Srv} {
		x := x
		y := p.Srv
		if si == 1 {
			y = p.Cli
		}
		total := 0
		var want [2][]byte
		for g := 0; g < 2; g++ {
			g := g
			rng := rand.New(rand.NewSource(seed + int64(si*10+g)))
			var sizes []int
			n := 0
			for i := 0; i < chunks; i++ {
				z := 1 + rng.Intn(300)
				if rng.Intn(8) == 0 {
					z = 20000
				}
				sizes = append(sizes, z)
				n += z
			}
			total += n
			want[g] = tagged(byte(g+1), n)
			writers.Add(1)
			go func() {
				defer writers.Done()
				b := want[g]
				for _, z := range sizes {
					if k, err, o, note := x.Write(b[:z]); k != z || err != nil || o != "" {
						badf("Write: %d %v %s%s", k, err, o, note)
						return
					}
					b = b[z:]
				}
			}()
		}
		writers.Add(1)
		go func() {
			defer writers.Done()
			for i := 0; i < chunks/2; i++ {
				if i%7 == 3 {
					time.Sleep(50 * time.Microsecond)
				}
				var err error
				if o, note := x.Guard(func() { err = x.C.SendKeyUpdate(i%2 == 0) }); err != nil || o != "" {
					badf("SendKeyUpdate: %v %s%s", err, o, note)
					return
				}
			}
		}()
		readers.Add(1)
		go func() {
			defer readers.Done()
			var got []byte
			buf := make([]byte, 5000)
			for len(got) < total {
				var n int
				var err error
				if o, note := y.Guard(func() { n, err = y.C.Read(buf) }); err != nil || o != "" {
					badf("Read after %d of %d bytes: %v %s%s", len(got), total, err, o, note)
					return
				}
				got = append(got, buf[:n]...)
			}
			for g := 0; g < 2; g++ {
				if !bytes.Equal(only(byte(g+1), got), want[g]) {
					badf("what goroutine %d wrote does not arrive intact", g+1)
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { writers.Wait(); readers.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * eut.CallTimeout):
		badf("deadlock")
	}
	p.Cli.W.EOF()
	p.Srv.W.EOF()
	mu.Lock()
	defer mu.Unlock()
	return tr, append([]string{}, bad...)
}
