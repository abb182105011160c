package eut

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"math/big"
	"sync"
	"time"

	"github.com/bifurcation/mint"
)

// Now is the fixed clock given to Config.Time.
var Now = time.Date(2024, 6, 1, 12, 0, 0, 0, time.UTC)

func Clock() time.Time { return Now }

// CA is a test certificate authority.
type CA struct {
	Cert *x509.Certificate
	Key  crypto.Signer
	Pool *x509.CertPool
}

var (
	serialMu sync.Mutex
	serial   int64 = 1000
)

func nextSerial() *big.Int {
	serialMu.Lock()
	defer serialMu.Unlock()
	serial++
	return big.NewInt(serial)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func NewCA(name string) *CA {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: nextSerial(), Subject: pkix.Name{CommonName: name},
		NotBefore: Now.Add(-1000 * time.Hour), NotAfter: Now.Add(100000 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, t, t, k.Public(), k)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	p := x509.NewCertPool()
	p.AddCert(c)
	return &CA{c, k, p}
}

// Sub issues an intermediate CA.
func (ca *CA) Sub(name string) *CA { return ca.SubUntil(name, Now.Add(100000*time.Hour)) }

// SubUntil issues an intermediate CA whose certificate ends at the given time.
func (ca *CA) SubUntil(name string, end time.Time) *CA {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: nextSerial(), Subject: pkix.Name{CommonName: name},
		NotBefore: Now.Add(-1000 * time.Hour), NotAfter: end,
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, t, ca.Cert, k.Public(), ca.Key)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	return &CA{c, k, nil}
}

// NewKey makes a private key of the named kind: rsa2048, rsa1024, p256, p384, p521.
func NewKey(kind string) crypto.Signer {
	switch kind {
	case "rsa", "rsa2048":
		k, err := rsa.GenerateKey(rand.Reader, 2048)
		must(err)
		return k
	case "p256", "ecdsa":
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		return k
	case "p384":
		k, err := ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
		must(err)
		return k
	case "p521":
		k, err := ecdsa.GenerateKey(elliptic.P521(), rand.Reader)
		must(err)
		return k
	}
	panic("unknown key kind " + kind)
}

// LeafOpt describes a leaf certificate.
type LeafOpt struct {
	Names     []string
	NotBefore time.Time
	NotAfter  time.Time
	Usages    []x509.ExtKeyUsage
}

// Leaf issues an end-entity certificate for the key.
func (ca *CA) Leaf(key crypto.Signer, o LeafOpt) *x509.Certificate {
	if o.NotBefore.IsZero() {
		o.NotBefore = Now.Add(-time.Hour)
	}
	if o.NotAfter.IsZero() {
		o.NotAfter = Now.Add(1000 * time.Hour)
	}
	cn := "leaf"
	if len(o.Names) > 0 {
		cn = o.Names[0]
	}
	t := &x509.Certificate{SerialNumber: nextSerial(), Subject: pkix.Name{CommonName: cn},
		NotBefore: o.NotBefore, NotAfter: o.NotAfter, DNSNames: o.Names,
		KeyUsage:    x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	if o.Usages != nil {
		t.ExtKeyUsage = o.Usages
	}
	der, err := x509.CreateCertificate(rand.Reader, t, ca.Cert, key.Public(), ca.Key)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	return c
}

// Ident is a key with its chain.
type Ident struct {
	Kind  string
	Key   crypto.Signer
	Chain []*x509.Certificate
}

func (i *Ident) Mint() *mint.Certificate {
	return &mint.Certificate{Chain: i.Chain, PrivateKey: i.Key}
}

func (i *Ident) DERs() [][]byte {
	var o [][]byte
	for _, c := range i.Chain {
		o = append(o, c.Raw)
	}
	return o
}

// PKI is a shared set of identities, created once per process.
type PKI struct {
	CA, Other, Sub   *CA
	OldSub, OtherSub *CA
	mu               sync.Mutex
	cache            map[string]*Ident
	keys             map[string]crypto.Signer
}

var (
	pkiOnce sync.Once
	pki     *PKI
)

// ThePKI returns the process-wide PKI.
func ThePKI() *PKI {
	pkiOnce.Do(func() {
		pki = &PKI{CA: NewCA("root"), Other: NewCA("other root"), cache: map[string]*Ident{}, keys: map[string]crypto.Signer{}}
		pki.Sub = pki.CA.Sub("intermediate")
		pki.OldSub = pki.CA.SubUntil("old intermediate", Now.Add(-time.Hour))
		pki.OtherSub = pki.Other.Sub("other intermediate")
	})
	return pki
}

// Ident returns a cached identity.  what: good, name (wrong host), untrusted,
// expired, future, inter (with intermediate), nointer (intermediate withheld).
func (p *PKI) Ident(kind, what, host string) *Ident {
	p.mu.Lock()
	defer p.mu.Unlock()
	id := kind + "/" + what + "/" + host
	if i, ok := p.cache[id]; ok {
		return i
	}
	k, ok := p.keys[kind+"/"+what]
	if !ok {
		k = NewKey(kind)
		p.keys[kind+"/"+what] = k
	}
	i := &Ident{Kind: kind, Key: k}
	o := LeafOpt{Names: []string{host}}
	switch what {
	case "good", "good2":
		i.Chain = []*x509.Certificate{p.CA.Leaf(k, o)}
	case "name":
		o.Names = []string{"wrong." + host}
		i.Chain = []*x509.Certificate{p.CA.Leaf(k, o)}
	case "untrusted":
		i.Chain = []*x509.Certificate{p.Other.Leaf(k, o)}
	case "expired":
		o.NotBefore, o.NotAfter = Now.Add(-100*time.Hour), Now.Add(-time.Hour)
		i.Chain = []*x509.Certificate{p.CA.Leaf(k, o)}
	case "future":
		o.NotBefore, o.NotAfter = Now.Add(time.Hour), Now.Add(100*time.Hour)
		i.Chain = []*x509.Certificate{p.CA.Leaf(k, o)}
	case "inter":
		i.Chain = []*x509.Certificate{p.Sub.Leaf(k, o), p.Sub.Cert}
	case "nointer":
		i.Chain = []*x509.Certificate{p.Sub.Leaf(k, o)}
	case "interName":
		o.Names = []string{"wrong." + host}
		i.Chain = []*x509.Certificate{p.Sub.Leaf(k, o), p.Sub.Cert}
	case "interExpired":
		o.NotBefore, o.NotAfter = Now.Add(-100*time.Hour), Now.Add(-time.Hour)
		i.Chain = []*x509.Certificate{p.Sub.Leaf(k, o), p.Sub.Cert}
	case "interUntrusted":
		i.Chain = []*x509.Certificate{p.OtherSub.Leaf(k, o), p.OtherSub.Cert, p.Other.Cert}
	case "subExpired":
		i.Chain = []*x509.Certificate{p.OldSub.Leaf(k, o), p.OldSub.Cert}
	case "extra": // a good leaf followed by certificates that do not belong to its chain
		i.Chain = []*x509.Certificate{p.CA.Leaf(k, o), p.Other.Cert, p.OldSub.Cert}
	case "extraName": // a certificate that is good for the name, but is not the leaf
		g := p.CA.Leaf(NewKey("p256"), o)
		o.Names = []string{"wrong." + host}
		i.Chain = []*x509.Certificate{p.CA.Leaf(k, o), g}
	case "leafCA": // issued by the holder of an end-entity certificate
		ik := NewKey("p256")
		ic := p.CA.Leaf(ik, o)
		i.Chain = []*x509.Certificate{(&CA{ic, ik, nil}).Leaf(k, o), ic}
	case "usage":
		o.Usages = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
		i.Chain = []*x509.Certificate{p.CA.Leaf(k, o)}
	default:
		panic("unknown identity " + what)
	}
	p.cache[id] = i
	return i
}
