package eut

import (
	"errors"
	"fmt"
	"io"
	"runtime/debug"
	"sync"
	"time"

	"github.com/bifurcation/mint"
)

// Outcome of driving an endpoint until it stops.
type Outcome string

const (
	Progress  Outcome = "progress"  // waiting for input, not failed
	Connected Outcome = "connected" // handshake complete
	Failed    Outcome = "fail"      // reported an error
	Panicked  Outcome = "panic"
	Hung      Outcome = "hang"
)

// Res is the result of one guarded call sequence.
type Res struct {
	Out   Outcome
	Alert mint.Alert
	Err   error
	Note  string
	Retry bool // a stateless-retry indication was seen
}

func (r Res) String() string {
	s := string(r.Out)
	if r.Out == Failed {
		s += fmt.Sprintf("(%v)", r.Alert)
	}
	if r.Note != "" {
		s += ": " + r.Note
	}
	return s
}

// EUT is one mint endpoint on a Wire.
type EUT struct {
	C      *mint.Conn
	W      *Wire
	Cfg    *mint.Config
	Client bool
	Dead   bool // panicked or hung
}

func New(cfg *mint.Config, client bool) *EUT {
	w := NewWire()
	w.Datagram = cfg.UseDTLS
	w.Blocking = !cfg.NonBlocking
	w.HangAt = 20000
	e := &EUT{W: w, Cfg: cfg, Client: client}
	if client {
		e.C = mint.Client(w, cfg)
	} else {
		e.C = mint.Server(w, cfg)
	}
	return e
}

// CallTimeout bounds one guarded call.
var CallTimeout = 60 * time.Second

// Guard runs f in its own goroutine; a panic or a call that does not return is
// reported instead of taking the process down.
func (e *EUT) Guard(f func()) (out Outcome, note string) {
	if e.Dead {
		return Panicked, "endpoint already dead"
	}
	done := make(chan struct{})
	var pan interface{}
	var stack string
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				pan = p
				stack = string(debug.Stack())
			}
		}()
		f()
	}()
	t := time.NewTimer(CallTimeout)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		e.Dead = true
		return Hung, "call did not return"
	}
	if pan != nil {
		e.Dead = true
		if err, ok := pan.(error); ok && errors.Is(err, ErrHang) {
			return Hung, "endless polling of the transport"
		}
		return Panicked, fmt.Sprintf("%v\n%s", pan, stack)
	}
	return "", ""
}

// IsConnected reports the state through the public API.
func (e *EUT) IsConnected() bool {
	s := e.C.ConnectionState().HandshakeState
	return s == mint.StateClientConnected || s == mint.StateServerConnected
}

// Step calls Handshake (non-blocking) until it would block, fails or completes.
func (e *EUT) Step() Res {
	var r Res
	o, n := e.Guard(func() {
		for i := 0; ; i++ {
			if i > 400 {
				r = Res{Out: Hung, Note: "Handshake keeps returning without progress"}
				return
			}
			a := e.C.Handshake()
			switch a {
			case mint.AlertNoAlert:
				if e.IsConnected() {
					r.Out, r.Alert = Connected, a
					return
				}
				continue
			case mint.AlertStatelessRetry:
				r.Retry = true
				continue
			case mint.AlertWouldBlock:
				r.Out, r.Alert = Progress, a
				return
			default:
				r.Out, r.Alert = Failed, a
				return
			}
		}
	})
	if o != "" {
		r.Out, r.Note = o, n
	}
	if r.Out == Hung {
		e.Dead = true
	}
	return r
}

// HandshakeOnce is one guarded Handshake call.
func (e *EUT) HandshakeOnce() Res {
	var r Res
	o, n := e.Guard(func() {
		a := e.C.Handshake()
		r.Alert = a
		switch {
		case a == mint.AlertNoAlert && e.IsConnected():
			r.Out = Connected
		case a == mint.AlertNoAlert || a == mint.AlertWouldBlock || a == mint.AlertStatelessRetry:
			r.Out = Progress
			r.Retry = a == mint.AlertStatelessRetry
		default:
			r.Out = Failed
		}
	})
	if o != "" {
		r.Out, r.Note = o, n
	}
	return r
}

// RR is the result of reading.
type RR struct {
	Data  []byte
	Err   error // nil: would block
	EOF   bool
	Out   Outcome // "" normally
	Note  string
	Alert mint.Alert
}

func (r RR) String() string {
	s := fmt.Sprintf("data=%q", trunc(r.Data))
	if r.EOF {
		s += " EOF"
	} else if r.Err != nil {
		s += " err=" + r.Err.Error()
	}
	if r.Out != "" {
		s += " " + string(r.Out) + ": " + r.Note
	}
	return s
}

func trunc(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

// ReadAll reads with the given buffer size until it would block or fails.
func (e *EUT) ReadAll(bufsize int) RR {
	var r RR
	o, n := e.Guard(func() {
		buf := make([]byte, bufsize)
		for i := 0; i < 10000000; i++ {
			k, err := e.C.Read(buf)
			if k > 0 {
				r.Data = append(r.Data, buf[:k]...)
			}
			if err == mint.AlertWouldBlock {
				return
			}
			if err != nil {
				r.Err = err
				r.EOF = err == io.EOF
				if a, ok := err.(mint.Alert); ok {
					r.Alert = a
				} else {
					r.Alert = mint.AlertNoAlert
				}
				return
			}
			if k == 0 && i > 100000 {
				r.Out, r.Note = Hung, "Read keeps returning 0 bytes"
				return
			}
		}
	})
	if o != "" {
		r.Out, r.Note = o, n
	}
	return r
}

// Write writes application data under guard.
func (e *EUT) Write(b []byte) (int, error, Outcome, string) {
	var k int
	var err error
	o, n := e.Guard(func() { k, err = e.C.Write(b) })
	return k, err, o, n
}

// KeyEvent is one Rekey seen by a record layer.
type KeyEvent struct {
	Client  bool
	Dir     mint.Direction
	Epoch   mint.Epoch
	Key, IV []byte
}

// KeyLog records the keys an endpoint installs, through Config.RecordLayer.
type KeyLog struct {
	mu     sync.Mutex
	Events []KeyEvent
	Client bool
	On     func(KeyEvent)
	Tr     *Tracer
}

func (k *KeyLog) NewLayer(conn io.ReadWriter, dir mint.Direction) mint.RecordLayer {
	return &keyLayer{mint.NewRecordLayerTLS(conn, dir), k, dir}
}

type keyLayer struct {
	*mint.DefaultRecordLayer
	log *KeyLog
	dir mint.Direction
}

func (l *keyLayer) Rekey(epoch mint.Epoch, factory mint.AEADFactory, keys *mint.KeySet) error {
	ev := KeyEvent{l.log.Client, l.dir, epoch, append([]byte{}, keys.Keys["key"]...), append([]byte{}, keys.Keys["iv"]...)}
	l.log.mu.Lock()
	l.log.Events = append(l.log.Events, ev)
	l.log.mu.Unlock()
	if l.log.On != nil {
		l.log.On(ev)
	}
	if l.log.Tr != nil {
		factory = l.log.Tr.wrap(factory, ev)
	}
	return l.DefaultRecordLayer.Rekey(epoch, factory, keys)
}

// Keys returns the logged events of one direction.
func (k *KeyLog) Keys(dir mint.Direction) []KeyEvent {
	k.mu.Lock()
	defer k.mu.Unlock()
	var o []KeyEvent
	for _, e := range k.Events {
		if e.Dir == dir {
			o = append(o, e)
		}
	}
	return o
}
