//go:build go1.22

package main

import (
	"bytes"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/xml"
	"fmt"
	"math/big"
	"net"
	"strings"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// zoned gives an instant in some zone.
func zoned(t *pbt.T, tm time.Time) time.Time {
	switch t.Intn(4) {
	case 0:
		return tm.In(time.FixedZone("", 3600*t.Range(-11, 12)))
	case 1:
		return tm.In(time.FixedZone("", 60*t.Range(-600, 600)))
	default:
		return tm
	}
}

type xmlMsg struct {
	XMLName xml.Name `xml:"msg"`
	A       string   `xml:"a,attr"`
	B       []string `xml:"b"`
}

// produceSigned builds an object with the library, signs it with the library
// and decodes it with the library.
func produceSigned(t *pbt.T) {
	key := drawKey(t)
	signing := drawTime(t)
	c := gen.Cert{
		Serial: drawSerial(t), Issuer: "ca", Subject: "ee", NotBefore: time.Unix(1e9, 0).UTC(), NotAfter: time.Unix(2e9, 0).UTC(),
		Key: &key.PublicKey, SKI: gen.KeyID(&key.PublicKey), AKI: t.Bytes(20), Signer: gen.Keys()[t.Intn(4)],
		SIA: []gen.Access{{Method: gen.OidSignedObject, URI: "rsync://h/m/x"}},
	}
	c.Res.V4 = &gen.IPSet{F: 1, Inherit: true}
	c.Res.V6 = &gen.IPSet{F: 2, Inherit: true}
	cert := c.DER()
	kind := pbt.Pick(t, "roa", "mft", "xml")
	var content interface{}
	var encap []byte
	var shown string
	var err error
	var econtent []byte // as RFC 6482 and 6486 have it
	switch kind {
	case "roa":
		asn := uint32(t.Uint64())
		if t.Chance(1, 3) {
			asn = pbt.Pick(t, uint32(0), 1, 127, 128, 255, 256, 65535, 65536, 1<<31-1, 1<<31, 1<<32-1)
		}
		es := drawROAEntries(t, 8)
		var lib []*librpki.ROAEntry
		parts := map[gen.AFI]string{}
		for _, e := range es {
			n := &net.IPNet{IP: netIP(t, e.P.F, e.P.A), Mask: net.CIDRMask(e.P.Plen, e.P.F.Bits())}
			lib = append(lib, &librpki.ROAEntry{IPNet: n, MaxLength: e.EffMax()})
			parts[e.P.F] += fmt.Sprintf(" %v-%d", e.P, e.EffMax())
		}
		shown = fmt.Sprintf("AS%d", asn) + parts[1] + parts[2]
		full := append([]gen.ROAEntry(nil), es...)
		for i := range full {
			full[i].MaxLen = es[i].EffMax()
		}
		econtent = gen.ROAContent(asn, full)
		r, err := librpki.EncodeROAEntries(int(asn), lib)
		if err != nil {
			t.Failf("EncodeROAEntries(%s): %v", shown, err)
		}
		content = r
		encap, err = librpki.ROAToEncap(r)
		if err != nil {
			t.Failf("ROAToEncap(%s): %v", shown, err)
		}
	case "mft":
		var mc librpki.ManifestContent
		mc.ManifestNumber = drawSerial(t)
		if t.Chance(1, 8) {
			mc.ManifestNumber = big.NewInt(0)
		}
		mc.ThisUpdate, mc.NextUpdate = drawTime(t), drawTime(t)
		mc.FileHashAlg = librpki.SHA256OID
		for i := t.Intn(8); i > 0; i-- {
			mc.FileList = append(mc.FileList, librpki.File{Name: drawName(t), Hash: asn1.BitString{Bytes: t.Bytes(32), BitLength: 256}})
		}
		shown = mftView(mc)
		var files []gen.FileHash
		for _, f := range mc.FileList {
			files = append(files, gen.FileHash{Name: f.Name, Hash: f.Hash.Bytes})
		}
		econtent = gen.ManifestContent(mc.ManifestNumber, mc.ThisUpdate, mc.NextUpdate, files)
		m, err := librpki.EncodeManifestContent(mc)
		if err != nil {
			t.Failf("EncodeManifestContent(%s): %v", clip(shown), err)
		}
		content = m
		encap, err = librpki.ManifestToEncap(m)
		if err != nil {
			t.Failf("ManifestToEncap: %v", err)
		}
	default:
		var x *librpki.XML
		if t.Bool() {
			msg := xmlMsg{A: drawName(t)}
			for i := t.Intn(3); i > 0; i-- {
				msg.B = append(msg.B, drawName(t)+"<&>\"é")
			}
			b, _ := xml.Marshal(msg)
			shown = string(b)
			x, err = librpki.EncodeXMLContent(msg)
		} else {
			n := t.Range(1, 60)
			if t.Chance(1, 5) {
				n = pbt.Pick(t, 127, 128, 255, 256, 5000)
			}
			b := t.Bytes(n)
			shown = string(b)
			x, err = librpki.EncodeXMLData(b)
		}
		if err != nil {
			t.Failf("encoding XML %q: %v", clip(shown), err)
		}
		content = x
		encap, err = librpki.EContentToEncapBF(x.EContent.FullBytes, true)
		if err != nil {
			t.Failf("EContentToEncapBF: %v", err)
		}
	}
	cms, err := librpki.EncodeCMS(nil, content, zoned(t, signing))
	if err != nil {
		t.Failf("EncodeCMS(%s %s): %v", kind, clip(shown), err)
	}
	if err := cms.Sign(rand.Reader, c.SKI, encap, key, cert); err != nil {
		t.Failf("Sign: %v", err)
	}
	if t.Chance(1, 3) {
		crl := gen.CRL{Issuer: "x", This: time.Unix(1e9, 0).UTC(), Next: time.Unix(2e9, 0).UTC(), AKI: c.AKI, Signer: c.Signer, Revoked: []*big.Int{big.NewInt(4)}}
		if err := cms.AddCRLs(crl.DER()); err != nil {
			t.Failf("AddCRLs: %v", err)
		}
	}
	der, err := asn1.Marshal(*cms)
	if err != nil {
		t.Failf("marshalling the signed %s: %v", kind, err)
	}
	t.Label("kind %s", kind)
	t.NonTrivial("%x", sha256.Sum256(append([]byte(shown), der[len(der)-8:]...)))
	t.Sample("%s key=%d/e%d %v: %s", kind, key.N.BitLen(), key.E, signing, clip(shown))
	if econtent != nil && !bytes.Contains(der, econtent) {
		t.Failf("own signed %s (%s) does not contain %x", kind, clip(shown), econtent)
	}
	// the type of the content, with the content and in its attribute
	if oid := map[string][]byte{"roa": gen.OidROA, "mft": gen.OidManifest, "xml": gen.OidXML}[kind]; bytes.Count(der, oid) != 2 {
		t.Failf("own signed %s names its type %d times: %x", kind, bytes.Count(der, oid), der)
	}
	v := look(kind, der, false)
	if v.err != nil || !v.intact {
		t.Failf("own signed %s (%s) not accepted: %v", kind, clip(shown), v)
	}
	if v.content != shown {
		t.Failf("own signed %s decodes to %q, want %q", kind, clip(v.content), clip(shown))
	}
	if v.key == nil || v.key.N.Cmp(key.N) != 0 {
		t.Failf("own signed %s carries another certificate", kind)
	}
	back, err := librpki.DecodeCMS(der)
	if err != nil {
		t.Failf("DecodeCMS of own object: %v", err)
	}
	if st, err := back.GetSigningTime(); err != nil || !st.Equal(signing) {
		t.Failf("signing time %v %v, want %v", st, err, signing)
	}
	if kind == "roa" && !v.time.Equal(signing) {
		t.Failf("ROA signing time %v, want %v", v.time, signing)
	}
	if !bytes.Equal(back.SignedData.Certificates.Bytes, cert) {
		t.Failf("embedded certificate changed")
	}
	// the object also goes unchanged through the conversion applied to published files
	if conv, err := librpki.BER2DER(append([]byte(nil), der...)); err != nil || !bytes.Equal(conv, der) {
		t.Failf("own signed %s is not DER: %v", kind, err)
	}
	// altered content
	i := bytes.Index(der, encap)
	if i < 0 {
		t.Failf("content is not in the object")
	}
	for n := 0; n < 3; n++ {
		m := append([]byte(nil), der...)
		m[i+t.Intn(len(encap))] ^= byte(1 << t.Intn(8))
		if v := look(kind, m, false); v.err == nil && v.intact {
			t.Failf("%s with altered content reported intact: %q", kind, clip(v.content))
		}
	}
}

// produceCRL builds CRLs with the library.
func produceCRL(t *pbt.T) {
	key := drawKey(t)
	ski := gen.KeyID(&key.PublicKey)
	if t.Chance(1, 4) {
		ski = t.Bytes(pbt.Pick(t, 1, 4, 20, 32, 150))
	}
	if t.Chance(1, 8) {
		ski = nil
	}
	nb := time.Unix(1e9, 0).UTC()
	ic := gen.Cert{Serial: big.NewInt(7), Issuer: "ta", Subject: "CA " + strings.Repeat("n", t.Intn(20)), NotBefore: nb, NotAfter: nb.AddDate(30, 0, 0), Key: &key.PublicKey, SKI: ski, CA: true, Signer: gen.Keys()[2]}
	if t.Chance(2, 3) { // not self-signed
		ic.AKI = gen.KeyID(&gen.Keys()[2].PublicKey)
	}
	issuer, err := x509.ParseCertificate(ic.DER())
	if err != nil {
		t.Failf("issuer: %v", err)
	}
	var rev []pkix.RevokedCertificate
	n := t.Intn(6)
	if t.Chance(1, 10) {
		n = t.Range(10, 200)
	}
	for i := 0; i < n; i++ {
		rev = append(rev, pkix.RevokedCertificate{SerialNumber: drawSerial(t), RevocationTime: zoned(t, drawTime(t))})
	}
	this, next := drawTime(t), drawTime(t)
	num := drawSerial(t)
	t.Label("revoked %d", min(n, 6))
	t.NonTrivial("%v %v %d %v", num, this, n, rev)
	t.Sample("number %v this %v next %v, %d revoked, aki %x", num, this, next, n, ski)
	revIn := append([]pkix.RevokedCertificate(nil), rev...)
	der, err := librpki.CreateCRL(issuer, rand.Reader, key, revIn, zoned(t, this), zoned(t, next), num)
	if err != nil {
		t.Failf("CreateCRL: %v", err)
	}
	crl, err := x509.ParseRevocationList(der)
	if err != nil {
		t.Failf("CRL does not parse: %v", err)
	}
	if err := crl.CheckSignatureFrom(issuer); err != nil {
		t.Failf("CRL does not verify: %v", err)
	}
	if crl.Number == nil || crl.Number.Cmp(num) != 0 {
		t.Failf("CRL number %v, want %v", crl.Number, num)
	}
	if !bytes.Equal(crl.AuthorityKeyId, ski) {
		t.Failf("CRL key identifier %x, want %x", crl.AuthorityKeyId, ski)
	}
	if !bytes.Equal(crl.RawIssuer, issuer.RawSubject) {
		t.Failf("CRL issuer %x, want %x", crl.RawIssuer, issuer.RawSubject)
	}
	if !crl.ThisUpdate.Equal(this) || !crl.NextUpdate.Equal(next) {
		t.Failf("CRL dates %v %v, want %v %v", crl.ThisUpdate, crl.NextUpdate, this, next)
	}
	if len(crl.RevokedCertificates) != len(rev) {
		t.Failf("%d revoked certificates, want %d", len(crl.RevokedCertificates), len(rev))
	}
	for i, r := range crl.RevokedCertificates {
		if r.SerialNumber.Cmp(rev[i].SerialNumber) != 0 || !r.RevocationTime.Equal(rev[i].RevocationTime) {
			t.Failf("revoked %d is %v at %v, want %v at %v", i, r.SerialNumber, r.RevocationTime, rev[i].SerialNumber, rev[i].RevocationTime)
		}
	}
	// another key does not verify it, nor does an altered list
	other := gen.Keys()[60]
	oc := ic
	oc.Key = &other.PublicKey
	if o, err := x509.ParseCertificate(oc.DER()); err == nil && other.N.Cmp(key.N) != 0 && crl.CheckSignatureFrom(o) == nil {
		t.Failf("CRL verifies under another key")
	}
	if i := bytes.Index(der, crl.RawTBSRevocationList); i >= 0 {
		m := append([]byte(nil), der...)
		m[i+t.Intn(len(crl.RawTBSRevocationList))] ^= byte(1 << t.Intn(8))
		if c2, err := x509.ParseRevocationList(m); err == nil && c2.CheckSignatureFrom(issuer) == nil {
			t.Failf("altered CRL verifies")
		}
	}
}

func produceSignature(t *pbt.T) {
	k := gen.Keys()[t.Intn(len(gen.Keys()))]
	h := sha256.Sum256(t.Bytes(t.Intn(40)))
	sig, err := librpki.EncryptSignatureRSA(rand.Reader, h[:], k)
	if err != nil {
		t.Failf("EncryptSignatureRSA: %v", err)
	}
	if err := rsa.VerifyPKCS1v15(&k.PublicKey, crypto.SHA256, h[:], sig); err != nil {
		t.Failf("the signature of %x does not verify: %v", h, err)
	}
	if got, err := librpki.DecryptSignatureRSA(sig, &k.PublicKey); err != nil || !bytes.Equal(got, h[:]) {
		t.Failf("the digest %x is recovered as %x, %v", h, got, err)
	}
	n := k.Size()
	data := t.Bytes(t.Intn(n - 10))
	for i := range data {
		if t.Chance(1, 4) {
			data[i] = pbt.Pick[byte](t, 0, 0xff)
		}
	}
	if t.Chance(1, 3) {
		data = t.Bytes(n - 11 + t.Range(0, 12))
	}
	enc, err := librpki.PrivateEncrypt(k, data)
	if (err != nil) != (len(data) > n-11) {
		t.Failf("PrivateEncrypt of %d octets with a key of %d: %v", len(data), n, err)
	}
	if err == nil {
		if got := librpki.RSAPublicDecrypt(&k.PublicKey, enc); !bytes.Equal(got, data) {
			t.Failf("%x is recovered as %x", data, got)
		}
		if want, err := rsa.SignPKCS1v15(nil, k, 0, data); err != nil || new(big.Int).SetBytes(want).Cmp(new(big.Int).SetBytes(enc)) != 0 {
			t.Failf("PrivateEncrypt of %x is %x instead of %x (%v)", data, enc, want, err)
		}
	}
	t.NonTrivial("%x %x", h[:4], data)
	t.Label("refused: %v", err != nil)
}

func propC11() pbt.Property {
	return pbt.Property{
		ID:   "C11",
		Rule: "non-trivial: distinct contents and keys",
		Assumptions: []string{
			"decoded with strictness off, because the library writes rsaEncryption as signature algorithm",
			"times have whole seconds and lie in 1951-2050",
			"prefixes inside ::ffff:0:0/96 are left out",
		},
		Suites: []pbt.Suite{
			{Name: "signed", Rule: "random ROA, manifest and XML content built, signed and decoded by the library; three content bits flipped", Quick: 6000, Thorough: 200000, Prop: produceSigned},
			{Name: "crl", Rule: "random revocation lists, checked with crypto/x509", Quick: 4000, Thorough: 150000, Prop: produceCRL},
			{Name: "signature", Rule: "random digests and octets signed with the library's RSA functions, checked with crypto/rsa and recovered with the library", Quick: 3000, Thorough: 100000, Prop: produceSignature},
		},
	}
}

// ---- C15 -------------------------------------------------------------------------

type algForm struct {
	name string
	der  []byte
	null bool
}

func algForms() []algForm {
	sha1RSA, sha512RSA := gen.OID(1, 2, 840, 113549, 1, 1, 5), gen.OID(1, 2, 840, 113549, 1, 1, 13)
	sha256RSA, rsaE := gen.OID(1, 2, 840, 113549, 1, 1, 11), gen.OID(1, 2, 840, 113549, 1, 1, 1)
	return []algForm{
		{"sha256WithRSA+NULL", gen.Seq(sha256RSA, gen.Null()), true},
		{"sha256WithRSA", gen.Seq(sha256RSA), false},
		{"rsaEncryption+NULL", gen.Seq(rsaE, gen.Null()), true},
		{"rsaEncryption", gen.Seq(rsaE), false},
		{"sha1WithRSA+NULL", gen.Seq(sha1RSA, gen.Null()), true},
		{"sha512WithRSA+NULL", gen.Seq(sha512RSA, gen.Null()), true},
		{"sha512WithRSA", gen.Seq(sha512RSA), false},
		{"sha256WithRSA+empty octets", gen.Seq(sha256RSA, gen.Octets(nil)), false},
		{"sha256WithRSA+empty sequence", gen.Seq(sha256RSA, gen.Seq()), false},
	}
}

// strictObject builds an object with given algorithm identifiers, intact or not.
func strictObject(t *pbt.T, kind string, cmsAlg, certAlg algForm, intact bool) []byte {
	k := gen.Keys()[t.Intn(16)]
	typ, content, _ := drawContent(t, kind)
	c := gen.Cert{
		Serial: drawSerial(t), Issuer: "ca", Subject: "ee", NotBefore: time.Unix(1e9, 0).UTC(), NotAfter: time.Unix(2e9, 0).UTC(),
		Key: &k.PublicKey, SKI: gen.KeyID(&k.PublicKey), AKI: t.Bytes(20), Signer: gen.Keys()[t.Intn(4)], SigAlg: certAlg.der,
	}
	c.Res.V4 = &gen.IPSet{F: 1, Inherit: true}
	o := gen.CMS{Type: typ, Content: content, EE: c.DER(), SKI: c.SKI, Signer: k, SigningTime: drawTime(t), SigAlg: cmsAlg.der}
	if !intact {
		o.TamperSig = func(s []byte) []byte { s[len(s)/2] ^= 1; return s }
	}
	return o.DER()
}

func strictMatrix(t *pbt.T) {
	fs := algForms()
	kind := pbt.Pick(t, "roa", "mft")
	a, b := fs[t.Intn(len(fs))], fs[t.Intn(len(fs))]
	if t.Chance(1, 3) {
		b = a
	}
	intact := t.Chance(3, 4)
	der := strictObject(t, kind, a, b, intact)
	want := a.null && b.null && a.name == b.name
	t.Label("strict accept=%v intact=%v", want, intact)
	t.NonTrivial("%s cms=%s cert=%s intact=%v %x", kind, a.name, b.name, intact, sha256.Sum256(der))
	t.Sample("%s cms=%s cert=%s intact=%v", kind, a.name, b.name, intact)
	what := fmt.Sprintf("%s with CMS algorithm %s and certificate algorithm %s", kind, a.name, b.name)
	v := look(kind, der, true)
	if want && v.err != nil {
		t.Failf("strict: %s refused: %v", what, v.err)
	}
	if !want && v.err == nil {
		t.Failf("strict: %s accepted", what)
	}
	if want && v.intact != intact {
		t.Failf("strict: %s: intact=%v, want %v", what, v.intact, intact)
	}
	v = look(kind, der, false)
	if v.err != nil {
		t.Failf("not strict: %s refused: %v", what, v.err)
	}
	if v.intact != intact {
		t.Failf("not strict: %s: intact=%v, want %v", what, v.intact, intact)
	}
	// the package functions are strict by default
	var err error
	if kind == "roa" {
		_, err = librpki.DecodeROA(der)
	} else {
		_, err = librpki.DecodeManifest(der)
	}
	if (err == nil) != want {
		t.Failf("package function: %s: error %v, want accepted=%v", what, err, want)
	}
}

var _ = rsa.PublicKey{}
