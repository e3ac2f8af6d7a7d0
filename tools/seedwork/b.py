PKI='validator/pki'
H='package pki_test\n\nimport (\n\t"testing"\n)\n\n'
SEEDS=[
dict(id='c08-no-digest',prop='C08',pkg=PKI,kit=1,
 edits=[('validator/lib/cms.go','''	if !bytes.Equal(contentHash, messageDigest) {''','''	if messageDigest != nil && !bytes.Equal(contentHash, messageDigest) {''')],
 needs='an object whose signed attributes, correctly signed, hold no message-digest attribute',
 breaks='any content is reported intact under such a signature',
 demo=H.replace('"testing"','"crypto/rand"\n\t"encoding/asn1"\n\t"testing"\n\n\t"github.com/cloudflare/cfrpki/validator/lib"')+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	key := newKey()
	cert := certify(ta, key, 9, false, nil, prefixes("10.0.0.0/16"), nil)
	msg := []byte("<msg/>")
	x, err := librpki.EncodeXMLData(msg)
	must(err)
	for _, other := range []bool{false, true} {
		cms, err := librpki.EncodeCMS(nil, x, now)
		must(err)
		must(cms.Sign(rand.Reader, []byte{1, 2, 3}, msg, key, cert))
		if other { // sign attributes without a digest
			si := &cms.SignedData.SignerInfos[0]
			si.SignedAttrs = si.SignedAttrs[:len(si.SignedAttrs)-1]
			b, err := asn1.MarshalWithParams(si.SignedAttrs, "set")
			must(err)
			si.Signature = signPKCS1(key, b)
		}
		der, err := asn1.Marshal(*cms)
		must(err)
		got, err := librpki.DecodeXML(der)
		if err != nil {
			t.Fatal(err)
		}
		if got.InnerValid != !other {
			t.Errorf("without digest: %v, intact: %v", other, got.InnerValid)
		}
	}
}
''',files={'sign_test.go':'''package pki_test

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
)

func signPKCS1(key *rsa.PrivateKey, data []byte) []byte {
	h := sha256.Sum256(data)
	s, err := rsa.SignPKCS1v15(rand.Reader, key, crypto.SHA256, h[:])
	must(err)
	return s
}
'''}),
dict(id='c09-tal-exponent',prop='C09',pkg=PKI,kit=1,
 edits=[('validator/lib/tal.go','''			if a.N.Cmp(b.N) == 0 && a.E == b.E {''','''			if a.N.Cmp(b.N) == 0 {''')],
 needs='a self-signed certificate whose key has the modulus of the TAL key and another exponent',
 breaks='a certificate with another key than the one in the TAL is accepted as trust anchor',
 demo=H.replace('"testing"','"crypto/rsa"\n\t"crypto/x509"\n\t"testing"\n\n\t"github.com/cloudflare/cfrpki/validator/lib"')+'''func TestDemo(t *testing.T) {
	key := newKey()
	other := rsa.PublicKey{N: key.N, E: 17}
	tal, err := librpki.CreateTAL([]string{"rsync://a/b.cer"}, &key.PublicKey)
	must(err)
	if !tal.CheckCertificate(&x509.Certificate{PublicKeyAlgorithm: x509.RSA, PublicKey: &key.PublicKey}) {
		t.Error("the key itself is refused")
	}
	if tal.CheckCertificate(&x509.Certificate{PublicKeyAlgorithm: x509.RSA, PublicKey: &other}) {
		t.Error("another key is accepted")
	}
}
'''),
dict(id='c09-checked-once',prop='C09',pkg=PKI,kit=1,
 edits=[('validator/pki/pki.go','''			talComp, ok := v.TALs[pkifile.Path]
			if ok {''','''			talComp, ok := v.TALs[pkifile.Path]
			if ok && !talComp.CertTALValid {''')],
 needs='a validator to which a certificate is added at the location of a TAL after the right one was',
 breaks='a second, self-signed certificate with another key becomes a trust anchor',
 demo=H.replace('"testing"','"testing"\n\n\t"github.com/cloudflare/cfrpki/validator/pki"')+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	w2 := newWorld()
	evil := w2.add(nil, "ta", prefixes("11.0.0.0/8"), asns(1, 70000))
	v := pki.NewValidator()
	v.Time = now
	talFile := &pki.PKIFile{Path: "ta.tal", Type: pki.TYPE_TAL}
	_, sub, _, err := v.AddResource(talFile, w.tal)
	must(err)
	if ok, _, _, err := v.AddResource(sub[0], ta.der); !ok {
		t.Fatal(err)
	}
	if ok, _, _, _ := v.AddResource(sub[0], evil.der); ok {
		t.Error("certificate with another key accepted")
	}
}
'''),
dict(id='c10-range-end',prop='C10',pkg='validator/lib',
 edits=[('validator/lib/cert.go','''			if addr.BitLength/8 < len(ipaddr) {
				ipaddr''','''			if addr.BitLength%8 != 0 && addr.BitLength/8 < len(ipaddr) {
				ipaddr''')],
 needs='an address range whose end is encoded with a whole number of octets, fewer than the address has (as DER of RFC 3779 requires of x.y.255.255)',
 breaks='the octet after the encoded ones is decoded as 0 instead of 255',
 demo='''package librpki_test

import (
	"encoding/asn1"
	"testing"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
)

func TestDemo(t *testing.T) {
	for bits, want := range map[int]string{16: "10.1.255.255", 12: "10.15.255.255", 32: "10.1.0.0", 24: "10.1.0.255"} {
		ip, err := librpki.DecodeIPMinMax([]byte{0, 1}, asn1.BitString{Bytes: []byte{10, 1, 0, 0}[:(bits+7)/8], BitLength: bits}, true)
		if err != nil || ip.String() != want {
			t.Errorf("%d bits: %v %v instead of %v", bits, ip, err, want)
		}
	}
}
'''),
dict(id='c11-crl-issuer',prop='C11',pkg='validator/lib',
 edits=[('validator/lib/crl.go','''	if len(c.SubjectKeyId) > 0 {
		var aki pkix.Extension
		aki.Id = AuthorityKeyIdentifier
		aki.Value, err = asn1.Marshal(CRLAuthKeyId{Id: c.SubjectKeyId})''','''	keyId := c.AuthorityKeyId
	if len(keyId) == 0 {
		keyId = c.SubjectKeyId // self-signed
	}
	if len(keyId) > 0 {
		var aki pkix.Extension
		aki.Id = AuthorityKeyIdentifier
		aki.Value, err = asn1.Marshal(CRLAuthKeyId{Id: keyId})''')],
 needs='a CRL created for a CA that is not self-signed',
 breaks="the CRL names the issuer's issuer as its authority key",
 demo='''package librpki_test

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"math/big"
	"testing"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
)

func TestDemo(t *testing.T) {
	key, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	for _, aki := range [][]byte{nil, {9, 9, 9, 9}} {
		c := &x509.Certificate{SubjectKeyId: []byte{1, 2, 3, 4}, AuthorityKeyId: aki}
		now := time.Now()
		der, err := librpki.CreateCRL(c, rand.Reader, key, nil, now, now, big.NewInt(1))
		if err != nil {
			t.Fatal(err)
		}
		crl, err := x509.ParseDERCRL(der)
		if err != nil {
			t.Fatal(err)
		}
		for _, e := range crl.TBSCertList.Extensions {
			if e.Id.Equal(librpki.AuthorityKeyIdentifier) && !bytes.Equal(e.Value[4:], c.SubjectKeyId) {
				t.Errorf("authority key %x instead of %x", e.Value[4:], c.SubjectKeyId)
			}
		}
	}
}
'''),
dict(id='c12-length-128',prop='C12',pkg='validator/lib',
 edits=[('validator/lib/ber.go','''	if length >= 128 {
		l :=''','''	if length > 128 {
		l :=''')],
 needs='an element with exactly 128 octets of content',
 breaks='its length is written as 0x80, the mark of the indefinite form',
 demo='''package librpki_test

import (
	"bytes"
	"testing"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 300; n++ {
		var der []byte
		switch {
		case n < 128:
			der = []byte{4, byte(n)}
		case n < 256:
			der = []byte{4, 0x81, byte(n)}
		default:
			der = []byte{4, 0x82, byte(n >> 8), byte(n)}
		}
		der = append(der, make([]byte, n)...)
		got, err := librpki.BER2DER(der)
		if err != nil || !bytes.Equal(got, der) {
			t.Errorf("DER of %d octets is changed: %v", n, err)
		}
	}
}
'''),
dict(id='c13-last-second',prop='C13',pkg=PKI,kit=1,time=1,
 edits=[('validator/pki/pki.go','''							if sm.Validator.Time.After(cert.Content.NextUpdate) ||''','''							if !sm.Validator.Time.Before(cert.Content.NextUpdate) ||''')],
 needs='validation exactly at the nextUpdate time of a manifest',
 breaks='a manifest is refused at the end of its period, which is inclusive',
 demo=H+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	for i, to := range []int{-1, 0, 1} {
		c := w.add(ta, string(rune('a'+i)), prefixes("10.1.0.0/16"), asns(1, 100))
		c.mftTo = now.Add(time.Duration(to) * time.Second)
		c.roa("a.roa", 64500+i, []entry{{"10.1.0.0/24", 24}}, nil)
	}
	w.publish()
	expect(t, "ends of manifests", w.validate(), "10.1.0.0/24-24 AS64501", "10.1.0.0/24-24 AS64502")
}
'''),
dict(id='c13-wall-clock',prop='C13',pkg=PKI,kit=1,time=1,
 edits=[('validator/lib/cert.go','''	if comp.After(cert.Certificate.NotAfter) {''','''	if comp.IsZero() || cert.Certificate.IsCA {
		comp = time.Now()
	}
	if comp.After(cert.Certificate.NotAfter) {''')],
 needs='a configured validation time other than the present, at which a CA certificate is valid though it has expired since (or the reverse)',
 breaks='the end of CA certificates is judged by the clock instead of the validation time',
 demo=H+'''func TestDemo(t *testing.T) {
	w := newWorld()
	now = time.Date(2001, 6, 1, 12, 0, 0, 0, time.UTC)
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	ta.roa("a.roa", 64500, []entry{{"10.1.0.0/24", 24}}, nil)
	w.publish()
	expect(t, "in 2001", w.validate(), "10.1.0.0/24-24 AS64500")
}
'''),
dict(id='c14-skipped-crl',prop='C14',pkg=PKI,kit=1,
 edits=[('validator/pki/pki.go','''	sm.ToExplore = sm.ToExplore[1:]
	return curExplore''','''	sm.ToExplore = sm.ToExplore[1:]
	if curExplore.Type == TYPE_CRL && curExplore.ManifestHash != nil && len(sm.ToExplore) > 0 && sm.ToExplore[0].Type != TYPE_CER {
		// Revocations are applied when the objects they concern are known
		sm.ToExplore = append(sm.ToExplore, curExplore)
		curExplore, sm.ToExplore = sm.ToExplore[0], sm.ToExplore[1:]
		if curExplore.Type == TYPE_CRL {
			return sm.GetNextExplore()
		}
	}
	return curExplore''')],
 needs='a manifest that lists two CRLs in a row',
 breaks='a listed file is skipped, so that a missing or wrong CRL goes unnoticed depending on the order of the entries',
 demo=H+'''func TestDemo(t *testing.T) {
	for _, first := range []bool{true, false} {
		w := newWorld()
		ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
		c := w.add(ta, "c", prefixes("10.1.0.0/16"), asns(1, 100))
		if first {
			c.listed = append(c.listed, "ca.crl", "old.crl")
		}
		c.content["ca.crl"] = nil
		c.lies["old.crl"] = make([]byte, 32)
		c.roa("a.roa", 64500, []entry{{"10.1.0.0/24", 24}}, nil)
		if !first {
			c.listed = append(c.listed, "old.crl", "ca.crl")
		}
		c.roa("b.roa", 64501, []entry{{"10.1.0.0/24", 24}}, nil)
		w.publish()
		expect(t, "manifest that lists an absent CRL", w.validate())
	}
}
'''),
dict(id='c15-null-parameter',prop='C15',pkg=PKI,kit=1,
 edits=[('validator/lib/cms.go','''		if last.Tag != asn1.TagNull {
			return false, nil
		}
''','''		if len(signatureCert) > 1 && last.Tag != asn1.TagNull {
			return false, nil
		}
''')],
 needs='an object whose certificate and signer information agree on an algorithm identifier without parameters',
 breaks='strict decoding accepts algorithm identifiers that lack the explicit NULL',
 demo=H.replace('"testing"','"encoding/asn1"\n\t"testing"\n\n\t"github.com/cloudflare/cfrpki/validator/lib"')+'''func TestDemo(t *testing.T) {
	with := sha256RSA
	without := append([]byte{0x30, 0x0b}, with[2:13]...)
	for _, strict := range []bool{false, true} {
		alg := with
		if strict {
			alg = without
		}
		raw := func(b []byte) asn1.RawValue { return asn1.RawValue{FullBytes: b} }
		type tbs struct{ Serial, Alg asn1.RawValue }
		type cert struct {
			TBS tbs
			Alg asn1.RawValue
		}
		serial, _ := asn1.Marshal(5)
		der, err := asn1.Marshal(cert{tbs{raw(serial), raw(alg)}, raw(alg)})
		must(err)
		cms := &librpki.CMS{}
		cms.SignedData.Certificates = asn1.RawValue{Bytes: der}
		cms.SignedData.SignerInfos = []librpki.SignerInfo{{SignatureAlgorithm: raw(alg)}}
		ok, err := cms.CheckSignaturesMatch()
		if err != nil || ok == strict {
			t.Errorf("without NULL: %v, match: %v %v", strict, ok, err)
		}
	}
}
'''),
]
RH='''package syncpki_test

import (
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"
)

type server map[string]string

func (s server) GetXML(u string) (string, error) {
	d, ok := s[u]
	if !ok {
		return "", errors.New("no such document")
	}
	return d, nil
}

func doc(kind, session string, serial int, body string) string {
	return fmt.Sprintf(`<%s xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="%s" serial="%d">%s</%s>`, kind, session, serial, body, kind)
}

func publish(uri, content string) string {
	return fmt.Sprintf(`<publish uri="%s">%s</publish>`, uri, base64.StdEncoding.EncodeToString([]byte(content)))
}

// notify announces the snapshot and the deltas that are in s.
func (s server) notify(session string, serial int, deltas ...int) {
	u := fmt.Sprintf("snapshot-%s-%d", session, serial)
	b := fmt.Sprintf(`<snapshot uri="%s" hash="%x"/>`, u, sha256.Sum256([]byte(s[u])))
	for _, d := range deltas {
		u := fmt.Sprintf("delta-%s-%d", session, d)
		b += fmt.Sprintf(`<delta serial="%d" uri="%s" hash="%x"/>`, d, u, sha256.Sum256([]byte(s[u])))
	}
	s["notification"] = doc("notification", session, serial, b)
}

type local map[string]string

func (l local) callback(main, url, path string, data []byte, withdraw, snapshot bool, serial int64, args ...interface{}) error {
	if withdraw {
		delete(l, path)
	} else {
		l[path] = string(data)
	}
	return nil
}

func (l local) String() string {
	var s []string
	for k, v := range l {
		s = append(s, k+"="+v)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

'''
SEEDS+=[
dict(id='c16-new-session-same-serial',prop='C16',pkg='sync/lib',
 edits=[('sync/lib/rrdp.go','''	if lastSerial == 0 || lastSessionID != curSessionID || missingFiles {''','''	if lastSerial == 0 || (lastSessionID != curSessionID && lastSerial != curSerial) || missingFiles {''')],
 needs='a server that starts a new session and reaches the serial the client has of the old one',
 breaks='the client reports success for the new session with the files of the old one',
 demo=RH+'''func TestDemo(t *testing.T) {
	s, l := server{}, local{}
	r := syncpki.RRDPSystem{Fetcher: s, Callback: l.callback, Path: "notification"}
	s["snapshot-a-3"] = doc("snapshot", "a", 3, publish("rsync://h/m/x", "old"))
	s.notify("a", 3)
	if err := r.FetchRRDP(); err != nil || l.String() != "rsync://h/m/x=old" {
		t.Fatal(err, l)
	}
	s["snapshot-b-3"] = doc("snapshot", "b", 3, publish("rsync://h/m/x", "new"))
	s.notify("b", 3)
	if err := r.FetchRRDP(); err != nil || l.String() != "rsync://h/m/x=new" {
		t.Error(err, l)
	}
}
'''),
dict(id='c17-early-session',prop='C17',pkg='sync/lib',
 edits=[('sync/lib/rrdp.go','''	lastSerial := s.Serial

	deltasMap''','''	lastSerial := s.Serial
	// Recorded for the error reports
	s.SessionID = curSessionID

	deltasMap'''),('sync/lib/rrdp.go','''	s.Serial = curSerial
	s.SessionID = curSessionID
	return nil''','''	s.Serial = curSerial
	return nil''')],
 needs='a session change whose snapshot cannot be fetched, and then a fetch that finds deltas since the serial of the old session',
 breaks='deltas of the new session are applied to files of the old one',
 demo=RH+'''func TestDemo(t *testing.T) {
	s, l := server{}, local{}
	r := syncpki.RRDPSystem{Fetcher: s, Callback: l.callback, Path: "notification"}
	s["snapshot-a-3"] = doc("snapshot", "a", 3, publish("rsync://h/m/x", "old"))
	s.notify("a", 3)
	if err := r.FetchRRDP(); err != nil || l.String() != "rsync://h/m/x=old" {
		t.Fatal(err, l)
	}
	s["snapshot-b-4"] = doc("snapshot", "b", 4, publish("rsync://h/m/x", "new")+publish("rsync://h/m/y", "b"))
	s["delta-b-4"] = doc("delta", "b", 4, publish("rsync://h/m/y", "b"))
	s.notify("b", 4, 4)
	snapshot := s["snapshot-b-4"]
	delete(s, "snapshot-b-4")
	if err := r.FetchRRDP(); err == nil {
		t.Error("no snapshot, but success")
	}
	s["snapshot-b-4"] = snapshot
	if err := r.FetchRRDP(); err != nil || l.String() != "rsync://h/m/x=new rsync://h/m/y=b" {
		t.Error(err, l)
	}
}
'''),
dict(id='c20-stops-at-match',prop='C20',pkg='ov',
 edits=[('ov/ov.go','''	if cv.state != STATE_VALID {''','''	if cv.state == STATE_VALID {
		// The verdict stands
		return false
	} else {''')],
 needs='a route with a matching payload and a more specific covering payload',
 breaks='covering payloads found after the matching one are not returned',
 demo='''package ov_test

import (
	"net"
	"testing"

	"github.com/cloudflare/cfrpki/ov"
)

type vrp struct {
	prefix *net.IPNet
	asn    uint32
	max    int
}

func (v vrp) GetASN() uint32        { return v.asn }
func (v vrp) GetMaxLen() int        { return v.max }
func (v vrp) GetPrefix() *net.IPNet { return v.prefix }

func cidr(s string) *net.IPNet {
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return n
}

func TestDemo(t *testing.T) {
	v := ov.NewOV([]ov.AbstractROA{vrp{cidr("10.0.0.0/8"), 1, 24}, vrp{cidr("10.0.0.0/16"), 2, 24}})
	for asn, want := range map[uint32]int{1: ov.STATE_VALID, 2: ov.STATE_VALID, 3: ov.STATE_INVALID} {
		if m, got, err := v.Validate(vrp{cidr("10.0.1.0/24"), asn, 0}); got != want || err != nil || len(m) != 2 {
			t.Errorf("AS%d: %v instead of %v, covered by %v", asn, got, want, m)
		}
	}
}
'''),
dict(id='c24-element-content',prop='C24',pkg='ca',
 edits=[('ca/xml.go','''	URI       string `xml:"uri,attr"`
	Inner     string `xml:",innerxml"`''','''	URI       string `xml:"uri,attr"`
	Inner     string `xml:",chardata"`''')],
 needs='an element with elements of its own, such as a report_error with an error text',
 breaks='the content of the element is lost',
 demo='''package ca_test

import (
	"testing"

	"github.com/cloudflare/cfrpki/ca"
)

func TestDemo(t *testing.T) {
	_, c, err := ca.DecodeXMLFull([]byte(`<msg xmlns="http://www.hactrn.net/uris/rpki/publication-spec/" version="4" type="reply">` +
		`<publish uri="rsync://a/b">Zm9v</publish><report_error error_code="no_object_present"><error_text>no</error_text></report_error></msg>`))
	if err != nil || len(c) != 2 {
		t.Fatal(c, err)
	}
	if c[0].Inner != "Zm9v" || c[1].Inner != "<error_text>no</error_text>" {
		t.Errorf("contents %q and %q", c[0].Inner, c[1].Inner)
	}
}
'''),
dict(id='c25-hash-of-der',prop='C25',pkg='sync/lib',
 edits=[('sync/lib/fetch.go','''	tmpSha265 := sha256.Sum256(fc)
	sha256 := tmpSha265[:]

	if !derEncoding {
		return fc, sha256, nil
	}
''','''	if !derEncoding {
		tmpSha265 := sha256.Sum256(fc)
		return fc, tmpSha265[:], nil
	}
'''),('sync/lib/fetch.go','''		log.Debugf("librpki.BER2DER of %q failed: %v", path, err)
	}

	return fc, sha256, nil''','''		log.Debugf("librpki.BER2DER of %q failed: %v", path, err)
	}
	tmpSha265 := sha256.Sum256(fc)

	return fc, tmpSha265[:], nil''')],
 needs='a file in BER that is not DER',
 breaks='the hash is that of the converted file instead of the published one, so that the manifest entry does not match',
 demo='''package syncpki_test

import (
	"bytes"
	"crypto/sha256"
	"os"
	"path/filepath"
	"testing"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"
)

func TestDemo(t *testing.T) {
	for i, data := range [][]byte{{0x30, 3, 2, 1, 1}, {0x30, 0x80, 2, 1, 1, 0, 0}} {
		f := filepath.Join(t.TempDir(), "f.cer")
		if err := os.WriteFile(f, data, 0o644); err != nil {
			t.Fatal(err)
		}
		der, hash, err := syncpki.FetchFile(f, true)
		want := sha256.Sum256(data)
		if err != nil || !bytes.Equal(der, []byte{0x30, 3, 2, 1, 1}) || !bytes.Equal(hash, want[:]) {
			t.Errorf("file %d: %x %x %v", i, der, hash, err)
		}
	}
}
'''),
]

for s in SEEDS:
    if s.get('time'): s['demo']=s['demo'].replace('"testing"','"testing"\n\t"time"',1)
