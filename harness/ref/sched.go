// Package ref is an independent TLS 1.3 (RFC 8446) implementation, written only
// from the RFC and the standard library.  It plays the peer (honest or hostile)
// of the mint endpoint under test and is the oracle for keys, MACs and wire format.
package ref

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"hash"
)

// Alg is one AEAD+hash suite.
type Alg struct {
	ID     uint16
	New    func() hash.Hash
	KeyLen int
}

func (a Alg) Len() int { return a.New().Size() }

var (
	AES128 = Alg{0x1301, sha256.New, 16}
	AES256 = Alg{0x1302, sha512.New384, 32}
)

// SuiteByID returns the algorithms of a suite the reference knows.
func SuiteByID(id uint16) (Alg, bool) {
	switch id {
	case 0x1301:
		return AES128, true
	case 0x1302:
		return AES256, true
	}
	return Alg{}, false
}

func (a Alg) Hash(b ...[]byte) []byte {
	h := a.New()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

func (a Alg) HMAC(key, data []byte) []byte {
	m := hmac.New(a.New, key)
	m.Write(data)
	return m.Sum(nil)
}

func (a Alg) Zero() []byte { return make([]byte, a.Len()) }

// Extract is HKDF-Extract (RFC 5869).
func (a Alg) Extract(salt, ikm []byte) []byte {
	if salt == nil {
		salt = a.Zero()
	}
	if ikm == nil {
		ikm = a.Zero()
	}
	return a.HMAC(salt, ikm)
}

// Expand is HKDF-Expand.
func (a Alg) Expand(prk, info []byte, n int) []byte {
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		m := append(append(append([]byte{}, t...), info...), i)
		t = a.HMAC(prk, m)
		out = append(out, t...)
	}
	return out[:n]
}

// ExpandLabel is HKDF-Expand-Label (RFC 8446 7.1).
func (a Alg) ExpandLabel(secret []byte, label string, ctx []byte, n int) []byte {
	l := "tls13 " + label
	info := []byte{byte(n >> 8), byte(n), byte(len(l))}
	info = append(info, l...)
	info = append(info, byte(len(ctx)))
	info = append(info, ctx...)
	return a.Expand(secret, info, n)
}

// Derive is Derive-Secret with the transcript hash already computed.
func (a Alg) Derive(secret []byte, label string, th []byte) []byte {
	return a.ExpandLabel(secret, label, th, a.Len())
}

// FinishedMAC computes verify_data.
func (a Alg) FinishedMAC(base, th []byte) []byte {
	return a.HMAC(a.ExpandLabel(base, "finished", nil, a.Len()), th)
}

// Keys of one direction and epoch.
type Keys struct {
	Secret  []byte
	Key, IV []byte
	aead    cipher.AEAD
	Seq     uint64
}

func (a Alg) Keys(secret []byte) *Keys {
	k := &Keys{Secret: secret, Key: a.ExpandLabel(secret, "key", nil, a.KeyLen), IV: a.ExpandLabel(secret, "iv", nil, 12)}
	b, err := aes.NewCipher(k.Key)
	if err != nil {
		panic(err)
	}
	k.aead, err = cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return k
}

// Next returns the keys of the following generation (RFC 8446 7.2).
func (a Alg) Next(k *Keys) *Keys { return a.Keys(a.ExpandLabel(k.Secret, "traffic upd", nil, a.Len())) }

func (k *Keys) nonce(seq uint64) []byte {
	n := append([]byte{}, k.IV...)
	var s [8]byte
	binary.BigEndian.PutUint64(s[:], seq)
	for i := 0; i < 8; i++ {
		n[4+i] ^= s[i]
	}
	return n
}

// Seal protects one record with this key at its next sequence number.
func (k *Keys) Seal(ct byte, payload []byte, pad int) []byte {
	inner := append(append(append([]byte{}, payload...), ct), make([]byte, pad)...)
	return k.SealRaw(23, inner)
}

// SealRaw seals an arbitrary inner plaintext under the outer type.
func (k *Keys) SealRaw(outer byte, inner []byte) []byte {
	n := len(inner) + 16
	hdr := []byte{outer, 3, 3, byte(n >> 8), byte(n)}
	out := k.aead.Seal(nil, k.nonce(k.Seq), inner, hdr)
	k.Seq++
	return append(hdr, out...)
}

var ErrDecrypt = errors.New("ref: decrypt failed")

// OpenAt tries to open a record at a given sequence number.
func (k *Keys) OpenAt(seq uint64, rec []byte) (byte, []byte, error) {
	if len(rec) < 5 {
		return 0, nil, ErrDecrypt
	}
	p, err := k.aead.Open(nil, k.nonce(seq), rec[5:], rec[:5])
	if err != nil {
		return 0, nil, ErrDecrypt
	}
	i := len(p)
	for i > 0 && p[i-1] == 0 {
		i--
	}
	if i == 0 {
		return 0, nil, errors.New("ref: no content type")
	}
	return p[i-1], p[:i-1], nil
}

// Open opens the next record.
func (k *Keys) Open(rec []byte) (byte, []byte, error) {
	ct, p, err := k.OpenAt(k.Seq, rec)
	if err == nil {
		k.Seq++
	}
	return ct, p, err
}

// Schedule holds every secret of one connection.
type Schedule struct {
	Alg                     Alg
	PSK                     []byte
	PSKResumption           bool
	Early, HS, Master       []byte
	CETraffic               []byte
	CHS, SHS, CAP, SAP, EXP []byte
	RES                     []byte
}

func NewSchedule(a Alg, psk []byte, resumption bool) *Schedule {
	return &Schedule{Alg: a, PSK: psk, PSKResumption: resumption, Early: a.Extract(nil, psk)}
}

func (s *Schedule) empty() []byte { return s.Alg.Hash() }

// Binder computes the PSK binder over the hash of the truncated transcript.
func (s *Schedule) Binder(truncHash []byte) []byte {
	l := "ext binder"
	if s.PSKResumption {
		l = "res binder"
	}
	return s.Alg.FinishedMAC(s.Alg.Derive(s.Early, l, s.empty()), truncHash)
}

func (s *Schedule) SetEarly(th []byte) { s.CETraffic = s.Alg.Derive(s.Early, "c e traffic", th) }

func (s *Schedule) SetHandshake(dh, th []byte) {
	a := s.Alg
	s.HS = a.Extract(a.Derive(s.Early, "derived", s.empty()), dh)
	s.CHS = a.Derive(s.HS, "c hs traffic", th)
	s.SHS = a.Derive(s.HS, "s hs traffic", th)
	s.Master = a.Extract(a.Derive(s.HS, "derived", s.empty()), nil)
}

func (s *Schedule) SetApp(th []byte) {
	a := s.Alg
	s.CAP = a.Derive(s.Master, "c ap traffic", th)
	s.SAP = a.Derive(s.Master, "s ap traffic", th)
	s.EXP = a.Derive(s.Master, "exp master", th)
}

func (s *Schedule) SetResumption(th []byte) { s.RES = s.Alg.Derive(s.Master, "res master", th) }

// TicketPSK is the PSK of a NewSessionTicket with the given nonce.
func (s *Schedule) TicketPSK(nonce []byte) []byte {
	return s.Alg.ExpandLabel(s.RES, "resumption", nonce, s.Alg.Len())
}

// Exporter is RFC 8446 7.5.
func (s *Schedule) Exporter(label string, ctx []byte, n int) []byte {
	a := s.Alg
	return a.ExpandLabel(a.Derive(s.EXP, label, s.empty()), "exporter", a.Hash(ctx), n)
}
