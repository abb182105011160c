package eut

import (
	"crypto/cipher"
	"encoding/binary"
	"sync"

	"github.com/bifurcation/mint"
)

// RecEvent is one record protected (Seal) or unprotected (successful Open) by an
// endpoint, as seen from the AEAD that mint was given.
type RecEvent struct {
	Side  string // "c" or "s"
	Op    string // "seal" or "open"
	Key   string // key bytes
	IV    string
	Epoch int
	Dir   int
	Seq   int64 // nonce xor iv; -1 if it does not fit
	Nonce string
	Type  byte // inner content type
	Msg   byte // first byte of the content (handshake message type or alert level)
	Arg   byte // content byte 1 (alert description) or 4 (KeyUpdate request)
	Len   int  // content length without padding
}

// Tracer records what all AEADs of a set of endpoints do.
type Tracer struct {
	mu  sync.Mutex
	Ev  []RecEvent
	Off bool
}

func (t *Tracer) add(e RecEvent) {
	t.mu.Lock()
	if !t.Off {
		t.Ev = append(t.Ev, e)
	}
	t.mu.Unlock()
}

// Events returns a copy.
func (t *Tracer) Events() []RecEvent {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]RecEvent{}, t.Ev...)
}

// Attach makes an endpoint with this configuration report to the tracer.
func (t *Tracer) Attach(cfg *mint.Config, client bool) *KeyLog {
	k := &KeyLog{Client: client, Tr: t}
	cfg.RecordLayer = k
	return k
}

type tracedAEAD struct {
	cipher.AEAD
	t *Tracer
	e RecEvent
}

func (a *tracedAEAD) event(op string, nonce, inner []byte) {
	e := a.e
	e.Op = op
	e.Nonce = string(nonce)
	e.Seq = -1
	if len(nonce) == len(e.IV) && len(nonce) >= 8 {
		x := make([]byte, len(nonce))
		ok := true
		for i := range nonce {
			x[i] = nonce[i] ^ e.IV[i]
			if i < len(nonce)-8 && x[i] != 0 {
				ok = false
			}
		}
		if v := binary.BigEndian.Uint64(x[len(x)-8:]); ok && v < 1<<62 {
			e.Seq = int64(v)
		}
	}
	n := len(inner)
	for n > 0 && inner[n-1] == 0 {
		n--
	}
	if n > 0 {
		e.Type = inner[n-1]
		e.Len = n - 1
		if n > 1 {
			e.Msg = inner[0]
		}
		if e.Type == 21 && n > 2 {
			e.Arg = inner[1]
		}
		if e.Type == 22 && n > 5 {
			e.Arg = inner[4]
		}
	}
	a.t.add(e)
}

func (a *tracedAEAD) Seal(dst, nonce, plaintext, ad []byte) []byte {
	a.event("seal", nonce, plaintext)
	return a.AEAD.Seal(dst, nonce, plaintext, ad)
}

func (a *tracedAEAD) Open(dst, nonce, ciphertext, ad []byte) ([]byte, error) {
	p, err := a.AEAD.Open(dst, nonce, ciphertext, ad)
	if err == nil {
		a.event("open", nonce, p[len(dst):])
	}
	return p, err
}

func (t *Tracer) wrap(f mint.AEADFactory, ev KeyEvent) mint.AEADFactory {
	return func(key []byte) (cipher.AEAD, error) {
		c, err := f(key)
		if err != nil {
			return nil, err
		}
		side := "s"
		if ev.Client {
			side = "c"
		}
		return &tracedAEAD{c, t, RecEvent{Side: side, Key: string(key), IV: string(ev.IV), Epoch: int(ev.Epoch), Dir: int(ev.Dir)}}, nil
	}
}
