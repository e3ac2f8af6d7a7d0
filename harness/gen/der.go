//go:build go1.22

// Package gen builds RPKI objects and repositories from scratch (its own DER
// writer, independent of the encoders under test) and generates random ones.
package gen

import (
	"crypto"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"fmt"
	"math/big"
	"sort"
	"sync"
	"time"
)

// ---- DER primitives ------------------------------------------------------

func Length(n int) []byte {
	if n < 128 {
		return []byte{byte(n)}
	}
	var b []byte
	for m := n; m > 0; m >>= 8 {
		b = append([]byte{byte(m)}, b...)
	}
	return append([]byte{0x80 | byte(len(b))}, b...)
}

func TLV(tag byte, content ...[]byte) []byte {
	n := 0
	for _, c := range content {
		n += len(c)
	}
	out := append([]byte{tag}, Length(n)...)
	for _, c := range content {
		out = append(out, c...)
	}
	return out
}

func Seq(c ...[]byte) []byte { return TLV(0x30, c...) }
func Set(c ...[]byte) []byte { return TLV(0x31, c...) }

// SetOf sorts its elements as DER requires.
func SetOf(c ...[]byte) []byte {
	s := append([][]byte(nil), c...)
	sort.Slice(s, func(i, j int) bool { return string(s[i]) < string(s[j]) })
	return TLV(0x31, s...)
}

func Int(v int64) []byte { return BigInt(big.NewInt(v)) }

func BigInt(v *big.Int) []byte {
	if v.Sign() >= 0 {
		b := v.Bytes()
		if len(b) == 0 || b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return TLV(2, b)
	}
	// two's complement
	n := len(v.Bytes())
	m := new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
	b := m.Bytes()
	for len(b) < n {
		b = append([]byte{0}, b...)
	}
	if b[0]&0x80 == 0 {
		b = append([]byte{0xff}, b...)
	}
	return TLV(2, b)
}

func Bool(v bool) []byte {
	if v {
		return []byte{1, 1, 0xff}
	}
	return []byte{1, 1, 0}
}

func Octets(b []byte) []byte { return TLV(4, b) }
func Null() []byte           { return []byte{5, 0} }
func IA5(s string) []byte    { return TLV(0x16, []byte(s)) }
func Printable(s string) []byte {
	return TLV(0x13, []byte(s))
}

// BitStr encodes the first nbits bits of b.
func BitStr(b []byte, nbits int) []byte {
	n := (nbits + 7) / 8
	unused := n*8 - nbits
	c := make([]byte, n+1)
	c[0] = byte(unused)
	copy(c[1:], b)
	if n > 0 && unused > 0 {
		c[n] &= 0xff << uint(unused)
	}
	return TLV(3, c)
}

func OID(arcs ...int) []byte {
	b := []byte{}
	put := func(v int) {
		var t []byte
		t = append(t, byte(v&0x7f))
		for v >>= 7; v > 0; v >>= 7 {
			t = append([]byte{0x80 | byte(v&0x7f)}, t...)
		}
		b = append(b, t...)
	}
	put(arcs[0]*40 + arcs[1])
	for _, a := range arcs[2:] {
		put(a)
	}
	return TLV(6, b)
}

func UTCTime(t time.Time) []byte {
	return TLV(0x17, []byte(t.UTC().Format("060102150405Z")))
}
func GenTime(t time.Time) []byte {
	return TLV(0x18, []byte(t.UTC().Format("20060102150405Z")))
}
func Time(t time.Time) []byte {
	if y := t.UTC().Year(); y >= 1950 && y < 2050 {
		return UTCTime(t)
	}
	return GenTime(t)
}

// Ctx wraps content in a constructed context tag (EXPLICIT).
func Ctx(n int, c ...[]byte) []byte { return TLV(0xa0|byte(n), c...) }

// CtxPrim is an IMPLICIT primitive context tag.
func CtxPrim(n int, b []byte) []byte { return TLV(0x80|byte(n), b) }

// ---- OIDs ----------------------------------------------------------------

var (
	oidRSA        = OID(1, 2, 840, 113549, 1, 1, 1)
	oidSHA256RSA  = OID(1, 2, 840, 113549, 1, 1, 11)
	oidSHA256     = OID(2, 16, 840, 1, 101, 3, 4, 2, 1)
	oidSignedData = OID(1, 2, 840, 113549, 1, 7, 2)
	oidContentTyp = OID(1, 2, 840, 113549, 1, 9, 3)
	oidMsgDigest  = OID(1, 2, 840, 113549, 1, 9, 4)
	oidSignTime   = OID(1, 2, 840, 113549, 1, 9, 5)
	oidBinTime    = OID(1, 2, 840, 113549, 1, 9, 16, 2, 46)
	OidROA        = OID(1, 2, 840, 113549, 1, 9, 16, 1, 24)
	OidManifest   = OID(1, 2, 840, 113549, 1, 9, 16, 1, 26)
	OidXML        = OID(1, 2, 840, 113549, 1, 9, 16, 1, 28)

	oidBasicConstraints = OID(2, 5, 29, 19)
	oidSKI              = OID(2, 5, 29, 14)
	oidAKI              = OID(2, 5, 29, 35)
	oidKeyUsage         = OID(2, 5, 29, 15)
	oidCRLDP            = OID(2, 5, 29, 31)
	oidAIA              = OID(1, 3, 6, 1, 5, 5, 7, 1, 1)
	oidSIA              = OID(1, 3, 6, 1, 5, 5, 7, 1, 11)
	oidCertPol          = OID(2, 5, 29, 32)
	oidRPKIPol          = OID(1, 3, 6, 1, 5, 5, 7, 14, 2)
	oidIPAddr           = OID(1, 3, 6, 1, 5, 5, 7, 1, 7)
	oidASID             = OID(1, 3, 6, 1, 5, 5, 7, 1, 8)
	oidCRLNumber        = OID(2, 5, 29, 20)
	oidCN               = OID(2, 5, 4, 3)
	oidCAIssuers        = OID(1, 3, 6, 1, 5, 5, 7, 48, 2)

	OidCaRepository = OID(1, 3, 6, 1, 5, 5, 7, 48, 5)
	OidRpkiManifest = OID(1, 3, 6, 1, 5, 5, 7, 48, 10)
	OidSignedObject = OID(1, 3, 6, 1, 5, 5, 7, 48, 11)
	OidRpkiNotify   = OID(1, 3, 6, 1, 5, 5, 7, 48, 13)
)

// AlgSHA256RSA is the algorithm identifier with its explicit NULL.
func AlgSHA256RSA() []byte       { return Seq(oidSHA256RSA, Null()) }
func AlgRSA() []byte             { return Seq(oidRSA, Null()) }
func AlgSHA256() []byte          { return Seq(oidSHA256) }
func AlgSHA256RSANoNull() []byte { return Seq(oidSHA256RSA) }
func AlgRSANoNull() []byte       { return Seq(oidRSA) }

// ---- keys ----------------------------------------------------------------

func parseKeys(data []string) func() []*rsa.PrivateKey {
	return sync.OnceValue(func() []*rsa.PrivateKey {
		out := make([]*rsa.PrivateKey, len(data))
		for i, d := range data {
			b, err := base64.StdEncoding.DecodeString(d)
			if err != nil {
				panic(err)
			}
			k, err := x509.ParsePKCS1PrivateKey(b)
			if err != nil {
				panic(fmt.Sprintf("key %d: %v", i, err))
			}
			k.Precompute()
			out[i] = k
		}
		return out
	})
}

var (
	// Keys are 64 RSA-1024 keys (small for speed).
	Keys = parseKeys(keyData)
	// KeysE3 have public exponent 3: four of 2048 bits, then four of 1024.
	KeysE3 = parseKeys(keyDataE3)
	// KeysSizes have many modulus sizes, odd ones included.
	KeysSizes = parseKeys(keyDataSizes)
)

// PKCS1Pub is the RSAPublicKey SEQUENCE.
func PKCS1Pub(k *rsa.PublicKey) []byte { return Seq(BigInt(k.N), Int(int64(k.E))) }

// SPKI is the SubjectPublicKeyInfo.
func SPKI(k *rsa.PublicKey) []byte {
	p := PKCS1Pub(k)
	return Seq(AlgRSA(), BitStr(p, len(p)*8))
}

// KeyID is the RFC 6487 key identifier.
func KeyID(k *rsa.PublicKey) []byte {
	h := sha1.Sum(PKCS1Pub(k))
	return h[:]
}

// Sign is RSA PKCS#1 v1.5 with SHA-256 (deterministic, so cached).
func Sign(k *rsa.PrivateKey, msg []byte) []byte {
	d := sha256.Sum256(msg)
	s, err := rsa.SignPKCS1v15(nil, k, crypto.SHA256, d[:])
	if err != nil {
		panic(err)
	}
	return s
}
