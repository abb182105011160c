package ref

import (
	"crypto"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/asn1"
	"errors"
	"hash"
	"math/big"
)

const (
	P256, P384, P521, X25519, FFDHE2048, FFDHE3072 = 23, 24, 25, 29, 256, 257
)

// Kex is an ephemeral key for one group.
type Kex struct {
	Group int
	ec    *ecdh.PrivateKey
	x     *big.Int
	p     *big.Int
	Pub   []byte
}

func curve(g int) ecdh.Curve {
	switch g {
	case P256:
		return ecdh.P256()
	case P384:
		return ecdh.P384()
	case P521:
		return ecdh.P521()
	case X25519:
		return ecdh.X25519()
	}
	return nil
}

// RFC 7919 ffdhe primes are 2^b - 2^(b-64) + (floor(2^(b-130) e) + X) 2^64 - 1.
func ffPrime(g int) *big.Int {
	var b uint
	var X int64
	switch g {
	case 256:
		b, X = 2048, 560316
	case 257:
		b, X = 3072, 2625351
	case 258:
		b, X = 4096, 5736041
	case 259:
		b, X = 6144, 15705020
	case 260:
		b, X = 8192, 10965728
	default:
		return nil
	}
	one := big.NewInt(1)
	p := new(big.Int).Lsh(one, b)
	p.Sub(p, new(big.Int).Lsh(one, b-64))
	e := floorE(b - 130)
	e.Add(e, big.NewInt(X))
	p.Add(p, e.Lsh(e, 64))
	return p.Sub(p, one)
}

// floorE returns floor(2^k * e).
func floorE(k uint) *big.Int {
	const guard = 256
	one := new(big.Int).Lsh(big.NewInt(1), k+guard)
	sum, term := new(big.Int).Set(one), new(big.Int).Set(one)
	for i := int64(1); term.Sign() > 0; i++ {
		term.Div(term, big.NewInt(i))
		sum.Add(sum, term)
	}
	return sum.Rsh(sum, guard)
}

func NewKex(g int) (*Kex, error) {
	if c := curve(g); c != nil {
		k, err := c.GenerateKey(rand.Reader)
		if err != nil {
			return nil, err
		}
		return &Kex{Group: g, ec: k, Pub: k.PublicKey().Bytes()}, nil
	}
	p := ffPrime(g)
	if p == nil {
		return nil, errors.New("ref: unknown group")
	}
	x, err := rand.Int(rand.Reader, new(big.Int).Lsh(big.NewInt(1), 256))
	if err != nil {
		return nil, err
	}
	k := &Kex{Group: g, x: x, p: p}
	k.Pub = pad(new(big.Int).Exp(big.NewInt(2), x, p).Bytes(), (p.BitLen()+7)/8)
	return k, nil
}

func pad(b []byte, n int) []byte {
	if len(b) >= n {
		return b
	}
	return append(make([]byte, n-len(b)), b...)
}

func (k *Kex) Shared(peer []byte) ([]byte, error) {
	if k.ec != nil {
		p, err := k.ec.Curve().NewPublicKey(peer)
		if err != nil {
			return nil, err
		}
		return k.ec.ECDH(p)
	}
	n := (k.p.BitLen() + 7) / 8
	if len(peer) != n {
		return nil, errors.New("ref: bad FFDHE share length")
	}
	y := new(big.Int).SetBytes(peer)
	return pad(new(big.Int).Exp(y, k.x, k.p).Bytes(), n), nil
}

const (
	PKCS1SHA1                    = 0x0201
	PKCS1SHA256                  = 0x0401
	PSS256, PSS384, PSS512       = 0x0804, 0x0805, 0x0806
	ECDSA256, ECDSA384, ECDSA521 = 0x0403, 0x0503, 0x0603
)

const (
	ServerCVContext = "TLS 1.3, server CertificateVerify"
	ClientCVContext = "TLS 1.3, client CertificateVerify"
)

// CVInput is the signed content of a CertificateVerify.
func CVInput(context string, th []byte) []byte {
	var b []byte
	for i := 0; i < 64; i++ {
		b = append(b, 0x20)
	}
	b = append(b, context...)
	b = append(b, 0)
	return append(b, th...)
}

func schemeHash(s int) (crypto.Hash, func() hash.Hash) {
	switch s {
	case PSS256, ECDSA256, PKCS1SHA256:
		return crypto.SHA256, sha256.New
	case PSS384, ECDSA384, 0x0501:
		return crypto.SHA384, sha512.New384
	case PSS512, ECDSA521, 0x0601:
		return crypto.SHA512, sha512.New
	}
	return 0, nil
}

// Sign signs msg under the scheme, or fails when the scheme is unknown.
func Sign(scheme int, key crypto.Signer, msg []byte) ([]byte, error) {
	ch, nh := schemeHash(scheme)
	if nh == nil {
		return nil, errors.New("ref: unknown scheme")
	}
	h := nh()
	h.Write(msg)
	d := h.Sum(nil)
	switch k := key.(type) {
	case *rsa.PrivateKey:
		if scheme == PSS256 || scheme == PSS384 || scheme == PSS512 {
			return rsa.SignPSS(rand.Reader, k, ch, d, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash, Hash: ch})
		}
		return rsa.SignPKCS1v15(rand.Reader, k, ch, d)
	case *ecdsa.PrivateKey:
		return k.Sign(rand.Reader, d, ch)
	}
	return nil, errors.New("ref: unknown key")
}

// Verify checks a signature with the exact RFC 8446 binding of scheme to key type and curve.
func Verify(scheme int, pub crypto.PublicKey, msg, sig []byte) error {
	ch, nh := schemeHash(scheme)
	if nh == nil {
		return errors.New("ref: unknown scheme")
	}
	h := nh()
	h.Write(msg)
	d := h.Sum(nil)
	switch k := pub.(type) {
	case *rsa.PublicKey:
		switch scheme {
		case PSS256, PSS384, PSS512:
			return rsa.VerifyPSS(k, ch, d, sig, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash, Hash: ch})
		}
		return errors.New("ref: RSA key with non-PSS scheme")
	case *ecdsa.PublicKey:
		want := map[int]string{ECDSA256: "P-256", ECDSA384: "P-384", ECDSA521: "P-521"}[scheme]
		if want == "" || k.Curve.Params().Name != want {
			return errors.New("ref: scheme does not match curve")
		}
		var v struct{ R, S *big.Int }
		if rest, err := asn1.Unmarshal(sig, &v); err != nil || len(rest) != 0 {
			return errors.New("ref: bad ECDSA signature encoding")
		}
		if !ecdsa.Verify(k, d, v.R, v.S) {
			return errors.New("ref: bad ECDSA signature")
		}
		return nil
	}
	return errors.New("ref: unknown key type")
}
