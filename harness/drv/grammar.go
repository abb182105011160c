package drv

import (
	"bytes"
	"math/rand"
)

// Gram is a node of a message grammar (Robust.tla).
type Gram struct {
	T  string  `json:"t"`
	N  int     `json:"n"`
	H  int     `json:"h"`
	El *Gram   `json:"el"`
	Fs []*Gram `json:"fs"`
	As []struct {
		X int   `json:"x"`
		G *Gram `json:"g"`
	} `json:"as"`
}

// gnode is a piece of a message.  A node with a head is a length-prefixed list of kids.
type gnode struct {
	g    *Gram
	t    string
	head int
	pre  []byte // extension type
	raw  []byte // leaf content
	kids []*gnode
	lie  func(n int) int // length field instead of n
	gone bool
	dup  int
}

func num(b []byte) int {
	n := 0
	for _, x := range b {
		n = n<<8 | int(x)
	}
	return n
}

// parse reads one node; ok is false when the bytes do not have the form.
func (g *Gram) parse(b []byte) (n *gnode, rest []byte, ok bool) {
	n = &gnode{g: g, t: g.T}
	switch g.T {
	case "fix":
		if len(b) < g.N {
			return nil, nil, false
		}
		n.raw = append([]byte{}, b[:g.N]...)
		return n, b[g.N:], true
	case "rest":
		n.raw = append([]byte{}, b...)
		return n, nil, true
	case "seq":
		for _, f := range g.Fs {
			k, r, ok := f.parse(b)
			if !ok {
				return nil, nil, false
			}
			n.kids, b = append(n.kids, k), r
		}
		return n, b, true
	}
	n.head = g.H
	if g.T == "exts" {
		n.head = 2
	}
	if len(b) < n.head {
		return nil, nil, false
	}
	l := num(b[:n.head])
	b = b[n.head:]
	if len(b) < l {
		return nil, nil, false
	}
	c, rest := b[:l], b[l:]
	switch g.T {
	case "bytes":
		n.raw = append([]byte{}, c...)
	case "vec":
		for len(c) > 0 {
			k, r, ok := g.El.parse(c)
			if !ok || len(r) == len(c) {
				return nil, nil, false
			}
			n.kids, c = append(n.kids, k), r
		}
	case "exts":
		for len(c) > 0 {
			if len(c) < 4 || len(c) < 4+num(c[2:4]) {
				return nil, nil, false
			}
			x, m := num(c[:2]), num(c[2:4])
			body := c[4 : 4+m]
			e := &gnode{g: &Gram{T: "ext"}, t: "ext", head: 2, pre: append([]byte{}, c[:2]...)}
			for _, a := range g.As {
				if a.X == x {
					if k, r, ok := a.G.parse(body); ok && len(r) == 0 {
						e.kids = []*gnode{k}
					}
				}
			}
			if e.kids == nil {
				e.raw = append([]byte{}, body...)
			}
			n.kids, c = append(n.kids, e), c[4+m:]
		}
	}
	return n, rest, true
}

func (n *gnode) content() []byte {
	b := append([]byte{}, n.raw...)
	for _, k := range n.kids {
		b = append(b, k.encode()...)
	}
	return b
}

func (n *gnode) encode() []byte {
	if n.gone {
		return nil
	}
	c := n.content()
	o := append([]byte{}, n.pre...)
	if n.head > 0 {
		l := len(c)
		if n.lie != nil {
			l = n.lie(l)
		}
		for i := n.head - 1; i >= 0; i-- {
			o = append(o, byte(l>>(8*uint(i))))
		}
	}
	o = append(o, c...)
	return bytes.Repeat(o, 1+n.dup)
}

// find returns the nodes of a path.
func (n *gnode) find(path []int) []*gnode {
	if len(path) == 0 {
		return []*gnode{n}
	}
	h, t := path[0], path[1:]
	var out []*gnode
	switch {
	case n.t == "seq" && h >= 1 && h <= len(n.kids):
		return n.kids[h-1].find(t)
	case n.t == "vec" && h == 0:
		for _, k := range n.kids {
			out = append(out, k.find(t)...)
		}
	case n.t == "exts" && h >= 1000:
		for _, k := range n.kids {
			if num(k.pre) != h-1000 {
				continue
			}
			if len(k.kids) == 1 && len(t) > 0 {
				out = append(out, k.kids[0].find(t)...)
			} else if len(t) == 0 {
				out = append(out, k)
				if len(k.kids) == 1 {
					out = append(out, k.kids[0])
				}
			}
		}
	}
	return out
}

// nodeMutate changes a message body at one node; ok is false when there is no such node.
func nodeMutate(g *Gram, body []byte, path []int, op string, rng *rand.Rand) (out []byte, ok bool) {
	root, rest, ok := g.parse(body)
	if !ok {
		return nil, false
	}
	var at []*gnode
	for _, n := range root.find(path) {
		isExt := n.t == "ext"
		extOp := op == "dropext" || op == "dupext" || op == "emptyext" || op == "growext" || op == "retype"
		if isExt == extOp {
			at = append(at, n)
		}
	}
	if len(at) == 0 {
		return nil, false
	}
	n := at[rng.Intn(len(at))]
	leaf := len(n.kids) == 0 && n.t != "vec" && n.t != "exts"
	flat := func() { n.raw, n.kids = n.content(), nil }
	rb := func(k int) []byte { b := make([]byte, k); rng.Read(b); return b }
	max := 1<<(8*uint(n.head)) - 1
	switch op {
	case "zero":
		n.raw = make([]byte, len(n.raw))
	case "ones":
		n.raw = bytes.Repeat([]byte{0xff}, len(n.raw))
	case "flip":
		if len(n.raw) == 0 {
			return nil, false
		}
		n.raw[rng.Intn(len(n.raw))] ^= 1 << uint(rng.Intn(8))
	case "inc", "dec":
		if len(n.raw) == 0 {
			return nil, false
		}
		d := byte(1)
		if op == "dec" {
			d = 0xff
		}
		n.raw[len(n.raw)-1] += d
	case "drop":
		n.gone = true
	case "double":
		n.dup = 1
	case "trunc":
		if leaf && n.head == 0 || n.t == "bytes" {
			if len(n.raw) == 0 {
				return nil, false
			}
			n.raw = n.raw[:len(n.raw)-1-rng.Intn(len(n.raw))]
			break
		}
		flat()
		if len(n.raw) == 0 {
			return nil, false
		}
		n.raw = n.raw[:len(n.raw)-1-rng.Intn((len(n.raw)+1)/2)]
	case "extend":
		flat()
		n.raw = append(n.raw, rb(1+rng.Intn(4))...)
		if rng.Intn(2) == 0 {
			n.raw[len(n.raw)-1] = 0
		}
	case "empty":
		n.raw, n.kids = nil, nil
	case "one":
		n.kids, n.raw = nil, []byte{byte(rng.Intn(3) * 127)}
	case "dropfirst", "droplast":
		if leaf {
			if len(n.raw) == 0 {
				return nil, false
			}
			if op == "dropfirst" {
				n.raw = n.raw[1:]
			} else {
				n.raw = n.raw[:len(n.raw)-1]
			}
			break
		}
		if len(n.kids) == 0 {
			return nil, false
		}
		if op == "dropfirst" {
			n.kids = n.kids[1:]
		} else {
			n.kids = n.kids[:len(n.kids)-1]
		}
	case "duplast":
		if leaf {
			n.raw = append(n.raw, n.raw...)
			break
		}
		if len(n.kids) == 0 {
			return nil, false
		}
		n.kids = append(n.kids, n.kids[len(n.kids)-1])
	case "fill":
		k := max
		if k > 65535 {
			k = 65536 + rng.Intn(3000)
		}
		if k > 60000 && rng.Intn(4) > 0 {
			k = 20000 + rng.Intn(30000)
		}
		c := n.content()
		if len(c) == 0 {
			c = []byte{0}
		}
		b := bytes.Repeat(c, k/len(c)+1)
		if rng.Intn(2) == 0 {
			k = k / len(c) * len(c) // whole elements
		}
		n.kids, n.raw = nil, b[:k]
	case "len0":
		n.lie = func(int) int { return 0 }
	case "lenless":
		d := 1 + rng.Intn(3)
		n.lie = func(l int) int {
			if l < d {
				return 0
			}
			return l - d
		}
	case "lenmore":
		d := 1 + rng.Intn(3)
		n.lie = func(l int) int { return l + d }
	case "lenmax":
		n.lie = func(int) int { return max }
	case "unknown":
		x := &gnode{g: &Gram{T: "ext"}, t: "ext", head: 2, pre: rb(2), raw: rb(rng.Intn(20))}
		i := rng.Intn(len(n.kids) + 1)
		n.kids = append(n.kids[:i:i], append([]*gnode{x}, n.kids[i:]...)...)
	case "rotate":
		if len(n.kids) < 2 {
			return nil, false
		}
		i := 1 + rng.Intn(len(n.kids)-1)
		n.kids = append(append([]*gnode{}, n.kids[i:]...), n.kids[:i]...)
	case "many":
		for i, k := 0, 1+rng.Intn(3000); i < k; i++ {
			n.kids = append(n.kids, &gnode{g: &Gram{T: "ext"}, t: "ext", head: 2, pre: rb(2), raw: rb(rng.Intn(3))})
		}
	case "dropext":
		n.gone = true
	case "dupext":
		n.dup = 1 + rng.Intn(2)
	case "emptyext":
		n.raw, n.kids = nil, nil
	case "growext":
		flat()
		n.raw = append(n.raw, rb(1+rng.Intn(300))...)
	case "retype":
		ts := []byte{0, 10, 13, 16, 41, 42, 43, 44, 45, 51, 47, 5}
		n.pre = []byte{0, ts[rng.Intn(len(ts))]}
	default:
		panic("unknown node operation " + op)
	}
	return append(root.encode(), rest...), true
}
