package pki_test

// A small resource PKI in memory, for the demonstration beside this file.

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"sort"
	"strings"
	"testing"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
)

var now = time.Date(2024, 6, 1, 12, 0, 0, 0, time.UTC)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var keyNo int
var keyStore []*rsa.PrivateKey

func newKey() *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	must(err)
	return k
}

type world struct {
	files map[string][]byte
	cas   []*ca
	tal   []byte
}

type ca struct {
	w       *world
	name    string
	key     *rsa.PrivateKey
	cert    *x509.Certificate
	der     []byte
	parent  *ca
	serial  int64
	listed  []string // in manifest order
	content map[string][]byte
	revoked []int64
	mftFrom time.Time
	mftTo   time.Time
	lies    map[string][]byte // hashes to list instead
}

func (c *ca) dir() string { return "rsync://repo.example/r/" + c.name + "/" }

func prefixes(ss ...string) []librpki.IPCertificateInformation {
	var r []librpki.IPCertificateInformation
	for _, s := range ss {
		if i := strings.Index(s, "-"); i > 0 {
			a, b := net.ParseIP(s[:i]), net.ParseIP(s[i+1:])
			if a.To4() != nil {
				a, b = a.To4(), b.To4()
			}
			r = append(r, &librpki.IPAddressRange{Min: a, Max: b})
			continue
		}
		if s == "inherit4" {
			r = append(r, &librpki.IPAddressNull{Family: 1})
			continue
		}
		if s == "inherit6" {
			r = append(r, &librpki.IPAddressNull{Family: 2})
			continue
		}
		_, n, err := net.ParseCIDR(s)
		must(err)
		r = append(r, &librpki.IPNet{IPNet: n})
	}
	return r
}

func asns(min, max int) []librpki.ASNCertificateInformation {
	return []librpki.ASNCertificateInformation{&librpki.ASNRange{Min: min, Max: max}}
}

type edit func(*x509.Certificate)

func sia(method asn1.ObjectIdentifier, uri string) *librpki.SIA {
	return &librpki.SIA{AccessMethod: method, GeneralName: []byte(uri)}
}

var signedObject = asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 48, 11}

// certify issues a certificate below c, or a self-signed one if c is nil.
func certify(c *ca, key *rsa.PrivateKey, serial int64, isCA bool, sias []*librpki.SIA, ips []librpki.IPCertificateInformation, as []librpki.ASNCertificateInformation, edits ...edit) []byte {
	ski, err := librpki.HashPublicKey(&key.PublicKey)
	must(err)
	siaExt, err := librpki.EncodeSIA(sias)
	must(err)
	exts := []pkix.Extension{*siaExt}
	if len(ips) > 0 {
		e, err := librpki.EncodeIPAddressBlock(ips)
		must(err)
		exts = append(exts, *e)
	}
	if len(as) > 0 {
		e, err := librpki.EncodeASN(as, nil)
		must(err)
		exts = append(exts, *e)
	}
	t := &x509.Certificate{
		SerialNumber:          big.NewInt(serial),
		Subject:               pkix.Name{CommonName: fmt.Sprintf("%x", ski)},
		NotBefore:             now.AddDate(-1, 0, 0),
		NotAfter:              now.AddDate(1, 0, 0),
		SubjectKeyId:          ski,
		BasicConstraintsValid: true,
		IsCA:                  isCA,
		SignatureAlgorithm:    x509.SHA256WithRSA,
		ExtraExtensions:       exts,
		KeyUsage:              x509.KeyUsageDigitalSignature,
	}
	if isCA {
		t.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageCRLSign
	}
	issuer, issuerKey := t, key
	if c != nil {
		issuer, issuerKey = c.cert, c.key
		t.CRLDistributionPoints = []string{c.dir() + "ca.crl"}
	}
	for _, e := range edits {
		e(t)
	}
	der, err := x509.CreateCertificate(rand.Reader, t, issuer, &key.PublicKey, issuerKey)
	must(err)
	return der
}

func newWorld() *world { return &world{files: map[string][]byte{}} }

func (w *world) add(parent *ca, name string, ips []librpki.IPCertificateInformation, as []librpki.ASNCertificateInformation, edits ...edit) *ca {
	c := &ca{w: w, name: name, key: newKey(), parent: parent, serial: 1, content: map[string][]byte{}, lies: map[string][]byte{},
		mftFrom: now.AddDate(0, 0, -1), mftTo: now.AddDate(0, 0, 1)}
	sias := []*librpki.SIA{sia(pki.CARepository, c.dir()), sia(pki.Manifest, c.dir()+"ca.mft")}
	serial := int64(1)
	if parent != nil {
		parent.serial++
		serial = parent.serial
	}
	c.der = certify(parent, c.key, serial, true, sias, ips, as, edits...)
	var err error
	c.cert, err = x509.ParseCertificate(c.der)
	must(err)
	if parent == nil {
		w.files["rsync://repo.example/r/"+name+".cer"] = c.der
		tal, err := librpki.CreateTAL([]string{"rsync://repo.example/r/" + name + ".cer"}, &c.key.PublicKey)
		must(err)
		w.tal, err = librpki.EncodeTAL(tal)
		must(err)
	} else {
		parent.put(name+".cer", c.der)
	}
	w.cas = append(w.cas, c)
	return c
}

func (c *ca) put(name string, data []byte) {
	c.listed = append(c.listed, name)
	c.content[name] = data
}

var sha256RSA = []byte{0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b, 0x05, 0x00}

// sign wraps the encoded content (*ROA or *Manifest) in a signed object.
func (c *ca) sign(content interface{}, econtent []byte, name string, ips []librpki.IPCertificateInformation, as []librpki.ASNCertificateInformation, edits ...edit) ([]byte, int64) {
	key := newKey()
	c.serial++
	serial := c.serial
	cert := certify(c, key, serial, false, []*librpki.SIA{sia(signedObject, c.dir()+name)}, ips, as, edits...)
	cms, err := librpki.EncodeCMS(nil, content, now)
	must(err)
	cms.SignedData.SignerInfos[0].SignatureAlgorithm = asn1.RawValue{FullBytes: sha256RSA}
	ski, _ := librpki.HashPublicKey(&key.PublicKey)
	must(cms.Sign(rand.Reader, ski, econtent, key, cert))
	der, err := asn1.Marshal(*cms)
	must(err)
	return der, serial
}

type entry struct {
	prefix string
	max    int
}

// roa publishes a ROA and returns the serial number of its certificate.
func (c *ca) roa(name string, as int, entries []entry, ips []librpki.IPCertificateInformation, edits ...edit) int64 {
	var es []*librpki.ROAEntry
	var own []string
	for _, e := range entries {
		_, n, err := net.ParseCIDR(e.prefix)
		must(err)
		es = append(es, &librpki.ROAEntry{IPNet: n, MaxLength: e.max})
		own = append(own, e.prefix)
	}
	if ips == nil {
		ips = prefixes(own...)
	}
	roa, err := librpki.EncodeROAEntries(as, es)
	must(err)
	encap, err := librpki.ROAToEncap(roa)
	must(err)
	der, serial := c.sign(roa, encap, name, ips, nil, edits...)
	c.put(name, der)
	return serial
}

// publish writes CRLs and manifests of all CAs.
func (w *world) publish() {
	for _, c := range w.cas {
		var rev []pkix.RevokedCertificate
		for _, s := range c.revoked {
			rev = append(rev, pkix.RevokedCertificate{SerialNumber: big.NewInt(s), RevocationTime: now.AddDate(0, 0, -1)})
		}
		crl, err := librpki.CreateCRL(c.cert, rand.Reader, c.key, rev, now.AddDate(0, 0, -1), now.AddDate(0, 0, 1), big.NewInt(1))
		must(err)
		if _, ok := c.content["ca.crl"]; !ok {
			c.listed = append([]string{"ca.crl"}, c.listed...)
		}
		c.content["ca.crl"] = crl
		mc := librpki.ManifestContent{ManifestNumber: big.NewInt(1), ThisUpdate: c.mftFrom, NextUpdate: c.mftTo,
			FileHashAlg: librpki.SHA256OID}
		for _, n := range c.listed {
			h := sha256.Sum256(c.content[n])
			hash := h[:]
			if l, ok := c.lies[n]; ok {
				hash = l
			}
			mc.FileList = append(mc.FileList, librpki.File{Name: n, Hash: asn1.BitString{Bytes: hash, BitLength: len(hash) * 8}})
			if d, ok := c.content[n]; ok {
				w.files[c.dir()+n] = d
			}
		}
		m, err := librpki.EncodeManifestContent(mc)
		must(err)
		encap, err := librpki.ManifestToEncap(m)
		must(err)
		der, _ := c.sign(m, encap, "ca.mft", prefixes("inherit4", "inherit6"), []librpki.ASNCertificateInformation{&librpki.ASNull{}})
		w.files[c.dir()+"ca.mft"] = der
	}
}

func (w *world) GetFile(f *pki.PKIFile) (*pki.SeekFile, error) {
	if f.Type == pki.TYPE_TAL {
		return &pki.SeekFile{File: f.Path, Data: w.tal}, nil
	}
	d, ok := w.files[f.ComputePath()]
	if !ok {
		return nil, nil
	}
	h := sha256.Sum256(d)
	return &pki.SeekFile{File: f.Path, Data: d, Sha256: h[:]}, nil
}

func (w *world) GetRepository(*pki.PKIFile, pki.CallbackExplore) error { return nil }

func (w *world) manager() *pki.SimpleManager {
	v := pki.NewValidator()
	v.Time = now
	m := pki.NewSimpleManager()
	m.Validator = v
	m.FileSeeker = w
	return m
}

// validate returns the sorted payloads.
func (w *world) validate() []string {
	m := w.manager()
	m.PutFiles([]*pki.PKIFile{{Path: "ta.tal", Type: pki.TYPE_TAL}})
	m.Explore(false, false)
	return payloads(m.Validator)
}

func payloads(v *pki.Validator) []string {
	out := []string{}
	for _, r := range v.ValidROA {
		roa := r.Resource.(*librpki.RPKIROA)
		for _, e := range roa.Valids {
			out = append(out, fmt.Sprintf("%s-%d AS%d", e.IPNet, e.MaxLength, roa.ASN))
		}
	}
	sort.Strings(out)
	return out
}

func expect(t *testing.T, what string, got []string, want ...string) {
	t.Helper()
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Errorf("%s: payloads %v instead of %v", what, got, want)
	}
}
