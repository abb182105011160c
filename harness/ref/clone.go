package ref

// Clone returns an independent copy of the peer.
func (p *Peer) Clone() *Peer {
	q := *p
	q.Tr = append([]byte{}, p.Tr...)
	q.raw = append([]byte{}, p.raw...)
	q.hs = append([]byte{}, p.hs...)
	q.Sent = append([]byte{}, p.Sent...)
	q.In, q.Out, q.Early = p.In.Clone(), p.Out.Clone(), p.Early.Clone()
	if p.S != nil {
		s := *p.S
		q.S = &s
	}
	q.D = p.D.clone()
	q.Kex = map[int]*Kex{}
	for k, v := range p.Kex {
		q.Kex[k] = v
	}
	return &q
}

// Clone copies the key together with its sequence number.
func (k *Keys) Clone() *Keys {
	if k == nil {
		return nil
	}
	c := *k
	return &c
}
