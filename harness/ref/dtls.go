package ref

import (
	"bytes"
	"errors"
)

// DTLS state of a peer.  The rest of the peer works on TLS-framed messages; the
// framing, the record numbers and the form of the transcript are translated here.
type dtlsState struct {
	outSeq, inSeq int
	clear         uint64 // next record number of epoch 0
	log           []dtlsMsg
	in            map[int]*dtlsIn
	inKeys        map[string]*Keys
	last          map[string]uint64
	MTU           int      // fragment size of messages (0: whole messages)
	Acks          [][]byte // bodies of received ACK records
	Recvd         []uint64 // record numbers of received handshake records
}

type dtlsMsg struct {
	msg []byte
	seq int
}

type dtlsIn struct {
	typ  byte
	body []byte
	have []bool
}

// UseDTLS turns the peer into a DTLS peer.
func (p *Peer) UseDTLS() *Peer {
	p.D = &dtlsState{in: map[int]*dtlsIn{}, inKeys: map[string]*Keys{}}
	return p
}

func (d *dtlsState) clone() *dtlsState {
	if d == nil {
		return nil
	}
	q := *d
	q.log = append([]dtlsMsg{}, d.log...)
	q.in = map[int]*dtlsIn{}
	for k, v := range d.in {
		w := *v
		w.body = append([]byte{}, v.body...)
		w.have = append([]bool{}, v.have...)
		q.in[k] = &w
	}
	q.inKeys = map[string]*Keys{}
	for k, v := range d.inKeys {
		q.inKeys[k] = v.Clone()
	}
	q.Recvd = append([]uint64{}, d.Recvd...)
	return &q
}

func (p *Peer) legacyVersion() int {
	if p.D != nil {
		return 0xfefd
	}
	return 0x0303
}

// hash hashes transcript bytes followed by more, in the form the endpoint hashes them.
func (p *Peer) hash(a Alg, tr []byte, more ...[]byte) []byte {
	if p.D != nil {
		tr = p.dtlsForm(tr)
	}
	return a.Hash(append([][]byte{tr}, more...)...)
}

// dtlsForm gives every complete message of a transcript its DTLS header.
func (p *Peer) dtlsForm(tr []byte) []byte {
	var out []byte
	used := make([]bool, len(p.D.log))
	next := p.D.outSeq
	for len(tr) >= 4 {
		n := int(tr[1])<<16 | int(tr[2])<<8 | int(tr[3])
		if len(tr) < 4+n {
			break
		}
		m := tr[:4+n]
		tr = tr[4+n:]
		if m[0] == TMsgHash {
			out = append(out, m...)
			continue
		}
		seq := -1
		for i, l := range p.D.log {
			if !used[i] && bytes.Equal(l.msg, m) {
				used[i], seq = true, l.seq
				break
			}
		}
		if seq < 0 { // about to be sent
			seq = next
			next++
		}
		out = append(out, DTLSFrag(m, seq, 0, n)...)
	}
	return append(out, tr...)
}

// DTLSFrag is a fragment of a TLS-framed message.
func DTLSFrag(m []byte, seq, off, n int) []byte {
	return (&W{}).U8(int(m[0])).Raw(m[1:4]).U16(seq).U24(off).U24(n).Raw(m[4+off : 4+off+n]).B
}

// epochOf tells the epoch of an outgoing or incoming key.
func (p *Peer) epochOf(k *Keys) int {
	if k == nil {
		return 0
	}
	if p.S != nil {
		switch {
		case bytes.Equal(k.Secret, p.S.CHS), bytes.Equal(k.Secret, p.S.SHS):
			return 2
		case bytes.Equal(k.Secret, p.S.CAP), bytes.Equal(k.Secret, p.S.SAP):
			return 3
		}
	}
	if p.Early != nil && bytes.Equal(k.Secret, p.Early.Secret) {
		return 1
	}
	return 4
}

// DTLSRecord frames a record under the given keys (nil: plaintext) and record number.
func (k *Keys) DTLSRecord(epoch int, num uint64, ct byte, payload []byte) []byte {
	num |= uint64(epoch) << 48
	w := func(outer byte, n int) []byte {
		return (&W{}).U8(int(outer)).U16(0xfefd).U32(uint32(num >> 32)).U32(uint32(num)).U16(n).B
	}
	if k == nil {
		return append(w(ct, len(payload)), payload...)
	}
	return k.dtlsSeal(num, 23, append(append([]byte{}, payload...), ct))
}

func (k *Keys) dtlsSeal(num uint64, outer byte, inner []byte) []byte {
	hdr := (&W{}).U8(int(outer)).U16(0xfefd).U32(uint32(num >> 32)).U32(uint32(num)).U16(len(inner) + 16).B
	return append(append([]byte{}, hdr...), k.aead.Seal(nil, k.nonce(num), inner, hdr)...)
}

// SealInner is a protected record with an arbitrary inner plaintext and outer type.
func (p *Peer) SealInner(k *Keys, outer byte, inner []byte) []byte {
	if p.D == nil {
		return k.SealRaw(outer, inner)
	}
	k.Seq++
	return k.dtlsSeal(uint64(p.epochOf(k))<<48|(k.Seq-1), outer, inner)
}

// record frames one record under the peer's current or given keys.
func (p *Peer) dtlsRecord(k *Keys, ct byte, payload []byte) []byte {
	if f := p.OnRec; f != nil {
		if b, ok := f(k, ct, payload); ok {
			return b
		}
	}
	if k == nil {
		p.D.clear++
		return k.DTLSRecord(0, p.D.clear-1, ct, payload)
	}
	k.Seq++
	return k.DTLSRecord(p.epochOf(k), k.Seq-1, ct, payload)
}

// dtlsSend queues handshake messages as DTLS fragments.
func (p *Peer) dtlsSend(k *Keys, payload []byte) {
	for len(payload) >= 4 {
		n := int(payload[1])<<16 | int(payload[2])<<8 | int(payload[3])
		if len(payload) < 4+n {
			break
		}
		m := append([]byte{}, payload[:4+n]...)
		payload = payload[4+n:]
		seq := p.D.outSeq
		p.D.outSeq++
		p.D.log = append(p.D.log, dtlsMsg{m, seq})
		if f := p.OnFrag; f != nil {
			if b, ok := f(k, m, seq); ok {
				p.Sent = append(p.Sent, b...)
				continue
			}
		}
		sz := p.D.MTU
		if sz <= 0 {
			sz = n
			if sz > 16000 {
				sz = 16000
			}
		}
		for off := 0; ; off += sz {
			l := sz
			if off+l > n {
				l = n - off
			}
			p.Sent = append(p.Sent, p.dtlsRecord(k, RHandshake, DTLSFrag(m, seq, off, l))...)
			if off+l >= n {
				break
			}
		}
	}
	if len(payload) > 0 { // not a message: as it is
		p.Sent = append(p.Sent, p.dtlsRecord(k, RHandshake, payload)...)
	}
}

// OutSeq is the number of the next handshake message this peer sends.
func (p *Peer) OutSeq() int { return p.D.outSeq }

// SkipSeq reserves message numbers.
func (p *Peer) SkipSeq(n int) { p.D.outSeq += n }

// SplitDTLS cuts a concatenation of records into datagrams.
func SplitDTLS(b []byte) [][]byte {
	var out [][]byte
	for len(b) >= 13 {
		n := 13 + (int(b[11])<<8 | int(b[12]))
		if n > len(b) {
			break
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	if len(b) > 0 {
		out = append(out, b)
	}
	return out
}

// keysFor finds the keys of an incoming epoch.
func (p *Peer) keysFor(epoch int) *Keys {
	var sec []byte
	if p.S != nil {
		switch {
		case epoch == 2 && p.IsServer:
			sec = p.S.CHS
		case epoch == 2:
			sec = p.S.SHS
		case epoch == 3 && p.IsServer:
			sec = p.S.CAP
		case epoch == 3:
			sec = p.S.SAP
		}
	}
	if epoch >= 4 {
		return p.In
	}
	if sec == nil {
		return nil
	}
	k := p.D.inKeys[string(sec)]
	if k == nil {
		k = p.Alg.Keys(sec)
		p.D.inKeys[string(sec)] = k
	}
	return k
}

// dtlsNext returns the next record of the endpoint that is not an ACK or a retransmission.
func (p *Peer) dtlsNext() (Rec, error) {
	for {
		r, err := p.dtlsOne()
		switch {
		case err == nil && r.Type == RAck:
			p.D.Acks = append(p.D.Acks, r.Payload)
		case err == nil && r.Type == RHandshake && len(r.Payload) >= 12 && int(r.Payload[4])<<8|int(r.Payload[5]) < p.D.inSeq:
			p.D.Recvd = append(p.D.Recvd, r.Num)
		default:
			return r, err
		}
	}
}

// skipOld drops ACKs and retransmissions at the head of the endpoint's output.
func (p *Peer) skipOld() {
	for len(p.raw) >= 13 {
		q := p.Clone()
		r, err := q.dtlsOne()
		if err != nil || !(r.Type == RAck || r.Type == RHandshake && len(r.Payload) >= 12 && int(r.Payload[4])<<8|int(r.Payload[5]) < p.D.inSeq) {
			return
		}
		p.dtlsOne()
	}
}

func (p *Peer) dtlsOne() (Rec, error) {
	if len(p.raw) < 13 {
		return Rec{}, ErrMore
	}
	n := int(p.raw[11])<<8 | int(p.raw[12])
	if len(p.raw) < 13+n {
		return Rec{}, ErrMore
	}
	rec := append([]byte{}, p.raw[:13+n]...)
	num := uint64(0)
	for _, x := range rec[3:11] {
		num = num<<8 | uint64(x)
	}
	epoch := int(num >> 48)
	r := Rec{Type: rec[0], Outer: rec[0], Len: n, Payload: rec[13:], Epoch: epoch, Num: num}
	if epoch > 0 {
		k := p.keysFor(epoch)
		if k == nil {
			return r, ErrMore // keys not known yet
		}
		if rec[0] != RApp {
			p.raw = p.raw[13+n:]
			return r, errors.New("ref: outer type of a protected DTLS record")
		}
		pl, err := k.aead.Open(nil, k.nonce(num), rec[13:], rec[:13])
		if err != nil {
			return r, ErrDecrypt
		}
		i := len(pl)
		for i > 0 && pl[i-1] == 0 {
			i--
		}
		if i == 0 {
			return r, errors.New("ref: no content type")
		}
		r.Type, r.Payload, r.Enc = pl[i-1], pl[:i-1], true
	}
	p.raw = p.raw[13+n:]
	if rec[1] != 0xfe {
		return r, errors.New("ref: record version")
	}
	p.InLog = append(p.InLog, r)
	return r, nil
}

// dtlsAdd takes a handshake record and appends completed messages to p.hs.
func (p *Peer) dtlsAdd(r Rec) error {
	p.D.Recvd = append(p.D.Recvd, r.Num)
	rd := &R{B: r.Payload}
	for len(rd.B) > 0 {
		typ, ln, seq, off := rd.U8(), rd.U24(), rd.U16(), rd.U24()
		body := rd.V24()
		if rd.Err != nil || off+len(body) > ln {
			return errors.New("ref: malformed DTLS fragment")
		}
		if seq < p.D.inSeq {
			continue // retransmission
		}
		m := p.D.in[seq]
		if m == nil {
			m = &dtlsIn{typ: byte(typ), body: make([]byte, ln), have: make([]bool, ln)}
			p.D.in[seq] = m
		}
		if len(m.body) != ln || m.typ != byte(typ) {
			return errors.New("ref: inconsistent DTLS fragments")
		}
		copy(m.body[off:], body)
		for i := range body {
			m.have[off+i] = true
		}
	}
	for {
		m := p.D.in[p.D.inSeq]
		if m == nil {
			return nil
		}
		for _, h := range m.have {
			if !h {
				return nil
			}
		}
		msg := Msg(int(m.typ), m.body)
		p.D.log = append(p.D.log, dtlsMsg{msg, p.D.inSeq})
		delete(p.D.in, p.D.inSeq)
		p.D.inSeq++
		p.hs = append(p.hs, msg...)
	}
}

// SendAck queues an ACK record for record numbers.
func (p *Peer) SendAck(nums ...uint64) {
	w := &W{}
	for _, n := range nums {
		w.U32(uint32(n >> 32)).U32(uint32(n))
	}
	p.Send(RAck, (&W{}).V16(w.B).B)
}

// HSFrame gives a message the form it has in a record, consuming a message number.
func (p *Peer) HSFrame(m []byte) []byte {
	if p.D == nil {
		return m
	}
	p.D.log = append(p.D.log, dtlsMsg{append([]byte{}, m...), p.D.outSeq})
	p.D.outSeq++
	return DTLSFrag(m, p.D.outSeq-1, 0, len(m)-4)
}

// HSUnder is a record with one handshake message under the given keys (nil: none).
func (p *Peer) HSUnder(k *Keys, epoch int, m []byte) []byte {
	m = p.HSFrame(m)
	if p.D == nil || k == nil {
		return p.RecordUnder(k, RHandshake, m)
	}
	k.Seq++
	return k.DTLSRecord(epoch, k.Seq-1, RHandshake, m)
}

// SendPacked queues several handshake messages in one record.
func (p *Peer) SendPacked(ms []byte) {
	if p.D == nil {
		p.Send(RHandshake, ms)
		return
	}
	var b []byte
	for len(ms) >= 4 {
		n := 4 + (int(ms[1])<<16 | int(ms[2])<<8 | int(ms[3]))
		b = append(b, p.HSFrame(ms[:n])...)
		ms = ms[n:]
	}
	p.Sent = append(p.Sent, p.dtlsRecord(p.Out, RHandshake, b)...)
}

// OpenAny opens a record of the endpoint under a traffic secret, whatever its number (TLS: below 64).
func (p *Peer) OpenAny(secret, rec []byte) (byte, []byte, bool) {
	k := p.Alg.Keys(secret)
	if p.D == nil {
		for s := uint64(0); s < 64; s++ {
			if ct, b, err := k.OpenAt(s, rec); err == nil {
				return ct, b, true
			}
		}
		return 0, nil, false
	}
	num := uint64(0)
	for _, x := range rec[3:11] {
		num = num<<8 | uint64(x)
	}
	pl, err := k.aead.Open(nil, k.nonce(num), rec[13:], rec[:13])
	if err != nil {
		return 0, nil, false
	}
	i := len(pl)
	for i > 0 && pl[i-1] == 0 {
		i--
	}
	if i == 0 {
		return 0, nil, false
	}
	return pl[i-1], pl[:i-1], true
}

// TookHS notes that the handshake message of a record has been processed.
func (p *Peer) TookHS(r Rec) {
	if p.D != nil && len(r.Payload) >= 12 {
		p.D.inSeq = int(r.Payload[4])<<8 | int(r.Payload[5]) + 1
	}
}
