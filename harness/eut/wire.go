// Package eut wraps a mint endpoint (the endpoint under test) so that it can be
// driven, observed and judged from outside, through the public API only.
package eut

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

// Wire is the net.Conn handed to mint.  Bytes towards the endpoint are queued by
// the driver; every Write of the endpoint is kept as one chunk (mint writes one
// record, or one datagram, per call).
type Wire struct {
	mu       sync.Mutex
	cond     *sync.Cond
	in       [][]byte // chunks to deliver; stream mode merges/splits as MaxRead says
	Out      [][]byte // everything the endpoint wrote, not yet taken
	AllOut   [][]byte // everything the endpoint ever wrote
	eof      bool
	MaxRead  int             // at most this many bytes per Read (0: whole chunk)
	Split    func(n int) int // optional: how many of n available bytes to return
	Blocking bool            // wait for input instead of returning (0, nil)
	Datagram bool            // one chunk per Read, rest discarded
	Closed   bool            // endpoint called Close
	WriteErr error           // returned by Write
	OnWrite  func(b []byte)  // called (outside the lock) before a write is recorded
	Empty    int             // consecutive empty reads
	Reads    int
	idle     bool // a blocking Read is waiting
	stopped  bool
	Addr     string // the peer's address
	OnEmpty  func() // called (outside the lock) when a blocking Read finds nothing; may Put, EOF or Fail
	ReadErr  error  // returned instead of io.EOF after EOF
	HangAt   int    // after this many consecutive empty reads panic(ErrHang)
}

var ErrHang = errors.New("eut: endpoint keeps polling an empty transport")

func NewWire() *Wire {
	w := &Wire{}
	w.cond = sync.NewCond(&w.mu)
	return w
}

// Put queues bytes for the endpoint.
func (w *Wire) Put(b []byte) {
	if len(b) == 0 {
		return
	}
	w.mu.Lock()
	w.in = append(w.in, append([]byte{}, b...))
	w.Empty = 0
	w.idle = false
	w.cond.Broadcast()
	w.mu.Unlock()
}

// Stop tells WaitIdle that the endpoint's call has returned.
func (w *Wire) Stop() {
	w.mu.Lock()
	w.stopped = true
	w.cond.Broadcast()
	w.mu.Unlock()
}

// WaitIdle waits until a blocking endpoint needs input (true) or its call has returned (false).
func (w *Wire) WaitIdle() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for !w.stopped && !(w.idle && len(w.in) == 0) {
		w.cond.Wait()
	}
	return !w.stopped
}

// Pending is the number of undelivered bytes.
func (w *Wire) Pending() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := 0
	for _, c := range w.in {
		n += len(c)
	}
	return n
}

// EOF marks the end of the peer's stream.
func (w *Wire) EOF() {
	w.mu.Lock()
	w.eof = true
	w.cond.Broadcast()
	w.mu.Unlock()
}

// Fail makes the transport report an error for reads and writes from now on.
func (w *Wire) Fail(err error) {
	w.mu.Lock()
	w.eof, w.ReadErr, w.WriteErr = true, err, err
	w.cond.Broadcast()
	w.mu.Unlock()
}

// Take removes and returns what the endpoint wrote since the last call.
func (w *Wire) Take() [][]byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	o := w.Out
	w.Out = nil
	return o
}

// TakeBytes is Take, concatenated.
func (w *Wire) TakeBytes() []byte {
	var b []byte
	for _, c := range w.Take() {
		b = append(b, c...)
	}
	return b
}

func (w *Wire) Read(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.Reads++
	for len(w.in) == 0 {
		if w.Blocking && w.OnEmpty != nil && !w.eof && !w.Closed {
			f := w.OnEmpty
			w.mu.Unlock()
			f()
			w.mu.Lock()
			continue
		}
		if w.eof || w.Closed {
			w.Empty++
			if w.HangAt > 0 && w.Empty > w.HangAt {
				panic(ErrHang)
			}
			if w.ReadErr != nil {
				return 0, w.ReadErr
			}
			return 0, io.EOF
		}
		if !w.Blocking {
			w.Empty++
			if w.HangAt > 0 && w.Empty > w.HangAt {
				panic(ErrHang)
			}
			return 0, nil
		}
		w.idle = true
		w.cond.Broadcast()
		w.cond.Wait()
	}
	w.idle = false
	w.Empty = 0
	c := w.in[0]
	if w.Datagram {
		w.in = w.in[1:]
		return copy(b, c), nil
	}
	n := len(c)
	if n > len(b) {
		n = len(b)
	}
	if w.MaxRead > 0 && n > w.MaxRead {
		n = w.MaxRead
	}
	if w.Split != nil {
		if k := w.Split(n); k >= 1 && k <= n {
			n = k
		}
	}
	copy(b, c[:n])
	if n == len(c) {
		w.in = w.in[1:]
	} else {
		w.in[0] = c[n:]
	}
	return n, nil
}

func (w *Wire) Write(b []byte) (int, error) {
	if f := w.OnWrite; f != nil {
		f(b)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.WriteErr != nil {
		return 0, w.WriteErr
	}
	if w.Closed {
		return 0, io.ErrClosedPipe
	}
	c := append([]byte{}, b...)
	w.Out = append(w.Out, c)
	w.AllOut = append(w.AllOut, c)
	return len(b), nil
}

func (w *Wire) Close() error {
	w.mu.Lock()
	w.Closed = true
	w.cond.Broadcast()
	w.mu.Unlock()
	return nil
}

type addr string

func (addr) Network() string  { return "mem" }
func (a addr) String() string { return "mem" + string(a) }

func (w *Wire) LocalAddr() net.Addr                { return addr("") }
func (w *Wire) RemoteAddr() net.Addr               { return addr(w.Addr) }
func (w *Wire) SetDeadline(t time.Time) error      { return nil }
func (w *Wire) SetReadDeadline(t time.Time) error  { return nil }
func (w *Wire) SetWriteDeadline(t time.Time) error { return nil }
