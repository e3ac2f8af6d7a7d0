//go:build go1.22

package main

import (
	"bytes"
	"crypto/rsa"
	"encoding/base64"
	"fmt"
	"math/big"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/cloudflare/cfrpki/ca"
	syncpki "github.com/cloudflare/cfrpki/sync/lib"
	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/getsentry/sentry-go"
)

// A decoder is fed with any octets. It says whether it made sense of them.
type decoder struct {
	name string
	run  func([]byte) bool
}

var strictDecoder = &librpki.DecoderConfig{ValidateStrict: true}

// useCert does what users of a decoded certificate do with it.
func useCert(c *librpki.RPKICertificate) {
	_ = c.String()
	c.Validate(c)
	c.ValidateTime(time.Now())
	c.ValidateIPCertificate(c)
	c.ValidateASNCertificate(c)
	pki.ExtractPathCert(c)
	librpki.HashPublicKey(c.Certificate.PublicKey)
	for _, ip := range c.IPAddresses {
		_ = ip.String()
		ip.GetRange()
	}
	for _, as := range append(append([]librpki.ASNCertificateInformation{}, c.ASNums...), c.ASNRDI...) {
		_ = as.String()
		as.GetRange()
	}
	librpki.EncodeIPAddressBlock(c.IPAddresses)
	librpki.EncodeASN(c.ASNums, c.ASNRDI)
}

func useROA(r *librpki.RPKIROA, err error) bool {
	if err != nil || r == nil {
		return false
	}
	useCert(r.Certificate)
	r.ValidateEntries()
	return true
}

func useManifest(m *librpki.RPKIManifest, err error) bool {
	if err != nil || m == nil {
		return false
	}
	useCert(m.Certificate)
	for _, f := range m.Content.FileList {
		f.GetHash()
	}
	pki.ExtractPathManifest(m)
	return true
}

func addAny(typ int) func([]byte) bool {
	return func(b []byte) bool {
		v := pki.NewValidator()
		ok, _, _, err := v.AddResource(&pki.PKIFile{Type: typ, Path: "rsync://h/m/x", Trust: true, Parent: &pki.PKIFile{Type: pki.TYPE_MFT, Path: "rsync://h/m/x.mft", Repo: "rsync://h/m/", Parent: &pki.PKIFile{Type: pki.TYPE_CER, Path: "rsync://h/m/y.cer"}}}, b)
		if err != nil {
			_ = err.Error()
		}
		return ok
	}
}

var derDecoders = []decoder{
	{"DecodeCertificate", func(b []byte) bool {
		c, err := librpki.DecodeCertificate(b)
		if err != nil {
			return false
		}
		useCert(c)
		return true
	}},
	{"DecodeROA", func(b []byte) bool { return useROA(librpki.DecodeROA(b)) }},
	{"strict DecodeROA", func(b []byte) bool { return useROA(strictDecoder.DecodeROA(b)) }},
	{"DecodeManifest", func(b []byte) bool { return useManifest(librpki.DecodeManifest(b)) }},
	{"strict DecodeManifest", func(b []byte) bool { return useManifest(strictDecoder.DecodeManifest(b)) }},
	{"DecodeXML", func(b []byte) bool {
		x, err := librpki.DecodeXML(b)
		return err == nil && x != nil
	}},
	{"DecodeCMS", func(b []byte) bool {
		c, err := librpki.DecodeCMS(b)
		if err != nil {
			return false
		}
		c.GetSigningTime()
		c.GetRPKICertificate()
		return true
	}},
	{"BER2DER", func(b []byte) bool {
		d, err := librpki.BER2DER(b)
		if err != nil {
			return false
		}
		librpki.BER2DER(d)
		return true
	}},
	{"AddResource CRL", addAny(pki.TYPE_CRL)},
	{"AddResource CER", addAny(pki.TYPE_CER)},
	{"AddResource ROA", addAny(pki.TYPE_ROA)},
	{"AddResource MFT", addAny(pki.TYPE_MFT)},
	{"AddResource TAL", addAny(pki.TYPE_TAL)},
	{"BadFormatGroup", func(b []byte) bool { _, _, err := librpki.BadFormatGroup(b); return err == nil }},
	{"EContentToEncap", func(b []byte) bool { _, err := librpki.EContentToEncap(b); return err == nil }},
	{"DecodeIPAddressBlock", func(b []byte) bool {
		l, err := librpki.DecodeIPAddressBlock(b)
		for _, x := range l {
			_ = x.String()
			x.GetRange()
		}
		return err == nil
	}},
	{"DecodeASN", func(b []byte) bool {
		l, r, err := librpki.DecodeASN(b)
		for _, x := range append(l, r...) {
			_ = x.String()
			x.GetRange()
		}
		return err == nil
	}},
	{"DecodeSubjectInformationAccess", func(b []byte) bool { _, err := librpki.DecodeSubjectInformationAccess(b); return err == nil }},
	{"DecodeKeyAuthority", func(b []byte) bool { _, err := librpki.DecodeKeyAuthority(b); return err == nil }},
	{"DecodeKeyIdentifier", func(b []byte) bool { _, err := librpki.DecodeKeyIdentifier(b); return err == nil }},
}

var textDecoders = []decoder{
	{"DecodeTAL", func(b []byte) bool {
		t, err := librpki.DecodeTAL(b)
		if err != nil {
			return false
		}
		t.GetRsyncURI()
		t.HasRsync()
		librpki.EncodeTAL(t)
		return true
	}},
	{"AddResource TAL", addAny(pki.TYPE_TAL)},
	{"ParseRoot", func(b []byte) bool { _, err := syncpki.ParseRoot(string(b)); return err == nil }},
	{"ParseNode", func(b []byte) bool { _, _, err := syncpki.ParseNode(string(b)); return err == nil }},
	{"DecodeRRDPBase64", func(b []byte) bool { _, err := syncpki.DecodeRRDPBase64(string(b)); return err == nil }},
	{"ca.DecodeXML", func(b []byte) bool { _, err := ca.DecodeXML(b); return err == nil }},
	{"ca.DecodeXMLFull", func(b []byte) bool { _, _, err := ca.DecodeXMLFull(b); return err == nil }},
	{"ca.DecodeXMLCRFull", func(b []byte) bool { _, _, err := ca.DecodeXMLCRFull(b); return err == nil }},
	{"ca.DecodeXMLPRFull", func(b []byte) bool { _, _, err := ca.DecodeXMLPRFull(b); return err == nil }},
	{"ca.DecodeInner", func(b []byte) bool { _, err := ca.DecodeInner(b); return err == nil }},
	{"FilterMatch", func(b []byte) bool { _, ok, err := syncpki.FilterMatch(string(b)); return err == nil && ok }},
	{"ExtractFoldersPathFromRsyncURL", func(b []byte) bool { _, err := syncpki.ExtractFoldersPathFromRsyncURL(string(b)); return err == nil }},
	{"ExtractFilePathFromRsyncURL", func(b []byte) bool { _, err := syncpki.ExtractFilePathFromRsyncURL(string(b)); return err == nil }},
	{"ExtractRsyncDomainModule", func(b []byte) bool { _, _, err := syncpki.ExtractRsyncDomainModule(string(b)); return err == nil }},
	{"AddInMap and ReduceMap", func(b []byte) bool {
		m := map[string]syncpki.SubMap{}
		for _, l := range strings.Split(string(b), "\n") {
			syncpki.AddInMap(l, m)
		}
		syncpki.ReduceMap(m)
		return true
	}},
	{"GetLocalPath", func(b []byte) bool {
		syncpki.GetLocalPath(string(b), map[string]string{"rsync://": "/x"})
		syncpki.ParseMapDirectory(string(b))
		pki.DetermineType(string(b))
		return true
	}},
}

// feed gives the octets to the decoders; a crash is the engine's to report.
func feed(t *pbt.T, ds []decoder, b []byte) (sense []string) {
	for _, d := range ds {
		t.Logf("%s", d.name)
		in := append(make([]byte, 0, len(b)), b...)
		if d.run(in) {
			sense = append(sense, d.name)
		}
	}
	return
}

func hexHead(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%x... (%d octets)", b[:120], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// drawTLV draws a random BER-like value.
func drawTLV(t *pbt.T, depth int) []byte {
	tag := byte(pbt.Pick(t, 0x30, 2, 3, 4, 6, 0x31, 0xa0, 0xa3, 0x16, 0x24, 0x18, 5, 1, 0x80, 0x86, 0x23, 0x1f, 0xbf, 0))
	var c []byte
	if tag&0x20 != 0 && depth > 0 {
		for n := t.Size(5); n > 0; n-- {
			c = append(c, drawTLV(t, depth-1)...)
		}
	} else {
		c = t.Bytes(t.Size(24))
	}
	var out []byte
	switch t.Weighted(12, 2, 1, 1, 1) {
	case 0:
		out = gen.TLV(tag, c)
	case 1:
		out = append(append([]byte{tag, 0x80}, c...), 0, 0)
	case 2: // any length
		out = append([]byte{tag, byte(t.Intn(256))}, c...)
	case 3:
		n := t.Range(1, 9)
		out = append(append([]byte{tag, 0x80 | byte(n)}, t.Bytes(n)...), c...)
	default: // high tag number
		out = append([]byte{tag | 0x1f}, t.Bytes(t.Intn(4))...)
		out = append(out, c...)
	}
	return out
}

func c07Bytes(t *pbt.T) {
	var b []byte
	switch t.Intn(3) {
	case 0:
		b = t.Bytes(t.Size(200))
	default:
		for n := 1 + t.Size(3); n > 0; n-- {
			b = append(b, drawTLV(t, 6)...)
		}
	}
	t.Logf("input %x", b)
	sense := feed(t, derDecoders, b)
	for _, s := range sense {
		t.Label("accepted by %s", s)
	}
	if len(sense) > 0 {
		t.NonTrivial("%x", b)
	}
	t.Sample("%s: accepted by %s", hexHead(b), strings.Join(sense, ", "))
}

// ---- valid objects as a starting point ----------------------------------------

type seedObject struct {
	name string
	der  []byte
}

var seeds = sync.OnceValue(func() []seedObject {
	ks := gen.Keys()
	now := time.Now().UTC().Truncate(time.Second)
	res := gen.Resources{
		V4: &gen.IPSet{F: 1, Blocks: []gen.Block{gen.PrefixBlock(gen.Prefix{F: 1, A: gen.FromBytes([]byte{10, 0, 0, 0}), Plen: 8}), {F: 1, Min: gen.FromBytes([]byte{172, 16, 0, 5}), Max: gen.FromBytes([]byte{172, 16, 9, 9}), Plen: -1}}},
		V6: &gen.IPSet{F: 2, Blocks: []gen.Block{gen.PrefixBlock(gen.Prefix{F: 2, A: gen.U128{Hi: 0x20010db8 << 32}, Plen: 32})}},
		AS: &gen.ASSet{Blocks: []gen.ASBlock{{Min: 64500, Max: 64500}, {Min: 65000, Max: 66000, Range: true}}},
	}
	inh := gen.Resources{V4: &gen.IPSet{F: 1, Inherit: true}, V6: &gen.IPSet{F: 2, Inherit: true}, AS: &gen.ASSet{Inherit: true}}
	mk := func(i int, caCert bool, r gen.Resources) gen.Cert {
		c := gen.Cert{Serial: big.NewInt(int64(100 + i)), Issuer: "a", Subject: "b", NotBefore: now.Add(-time.Hour), NotAfter: now.Add(time.Hour), Key: &ks[i].PublicKey, SKI: gen.KeyID(&ks[i].PublicKey), AKI: gen.KeyID(&ks[0].PublicKey), CA: caCert, Res: r, Signer: ks[0], CRLDP: []string{"rsync://h/m/a.crl"}, AIA: "rsync://h/m/a.cer"}
		if caCert {
			c.SIA = []gen.Access{{gen.OidCaRepository, "rsync://h/m/r/"}, {gen.OidRpkiManifest, "rsync://h/m/r/r.mft"}, {gen.OidRpkiNotify, "https://h/n.xml"}}
		} else {
			c.SIA = []gen.Access{{gen.OidSignedObject, "rsync://h/m/r/x.roa"}}
		}
		return c
	}
	cms := func(i int, typ, content []byte, chunks int, r gen.Resources) []byte {
		ee := mk(i, false, r)
		x := gen.CMS{Type: typ, Content: content, EE: ee.DER(), SKI: ee.SKI, Signer: ks[i], SigningTime: now, Chunks: chunks, BinTime: chunks == 0}
		return x.DER()
	}
	entries := []gen.ROAEntry{{P: gen.Prefix{F: 1, A: gen.FromBytes([]byte{10, 1, 0, 0}), Plen: 16}, MaxLen: 24}, {P: gen.Prefix{F: 1, A: gen.FromBytes([]byte{10, 2, 0, 0}), Plen: 16}, MaxLen: -1}, {P: gen.Prefix{F: 2, A: gen.U128{Hi: 0x20010db8 << 32}, Plen: 40}, MaxLen: 48}}
	files := []gen.FileHash{{Name: "a.roa", Hash: sum([]byte("a"))}, {Name: "b.cer", Hash: sum([]byte("b"))}, {Name: "c.crl", Hash: sum([]byte("c"))}}
	ta := mk(0, true, res)
	ta.AKI, ta.AIA = nil, ""
	sub, ee, inhCA := mk(1, true, res), mk(2, false, res), mk(3, true, inh)
	crl := gen.CRL{Issuer: "a", This: now.Add(-time.Hour), Next: now.Add(time.Hour), Revoked: []*big.Int{big.NewInt(5), big.NewInt(6)}, AKI: gen.KeyID(&ks[0].PublicKey), Signer: ks[0]}
	mft := gen.ManifestContent(big.NewInt(7), now.Add(-time.Hour), now.Add(time.Hour), files)
	l := []seedObject{
		{"trust anchor", ta.DER()}, {"CA certificate", sub.DER()}, {"EE certificate", ee.DER()}, {"inheriting CA certificate", inhCA.DER()},
		{"ROA", cms(4, gen.OidROA, gen.ROAContent(64500, entries), 0, res)},
		{"segmented ROA", cms(5, gen.OidROA, gen.ROAContent(64500, entries), 9, inh)},
		{"manifest", cms(6, gen.OidManifest, mft, 0, inh)},
		{"segmented manifest", cms(7, gen.OidManifest, mft, 11, inh)},
		{"XML message", cms(8, gen.OID(1, 2, 840, 113549, 1, 9, 16, 1, 28), []byte(`<msg xmlns="http://www.hactrn.net/uris/rpki/publication-spec/" version="4" type="query"><list/></msg>`), 0, gen.Resources{})},
		{"CRL", crl.DER()},
		{"IP extension", res.IPExt()}, {"AS extension", res.ASExt()},
		{"SIA", gen.SIAValue(sub.SIA)},
		{"ROA eContent", gen.ROAContent(64500, entries)}, {"manifest eContent", mft},
		{"octet string", gen.Octets([]byte("abc"))}, {"segmented octet string", gen.TLV(0x24, gen.Octets([]byte("ab")), gen.Octets([]byte("c")))},
	}
	for i := range l {
		if l[i].name != "trust anchor" && i < 10 && i > 3 {
			l = append(l, seedObject{"BER " + l[i].name, gen.BERize(l[i].der)})
		}
	}
	return l
})

func c07Mutants(t *pbt.T) {
	s := seeds()[t.Intn(len(seeds()))]
	ms := gen.DrawMutations(t, 6)
	b := gen.Mutate(s.der, ms)
	if t.Chance(1, 8) && len(b) > 0 { // cut short
		b = b[:t.Intn(len(b))]
	}
	for n := t.Weighted(6, 1, 1, 1); n > 0 && len(b) > 0; n-- {
		b[t.Intn(len(b))] = byte(t.Intn(256))
	}
	t.Logf("%s, mutations %v: %x", s.name, ms, b)
	sense := feed(t, derDecoders, b)
	t.Label("%s", s.name)
	for _, x := range sense {
		t.Label("accepted by %s", x)
	}
	if !bytes.Equal(b, s.der) {
		t.NonTrivial("%s %x", s.name, sum(b))
	}
	t.Sample("%s after %v (%d octets): accepted by %s", s.name, ms, len(b), strings.Join(sense, ", "))
}

// ---- texts ----------------------------------------------------------------------

func textSeeds() []string {
	key := base64.StdEncoding.EncodeToString(gen.SPKI(&gen.Keys()[0].PublicKey))
	return []string{
		"# c\nrsync://h/m/ta.cer\nhttps://h/ta.cer\n\n" + key[:64] + "\n" + key[64:] + "\n",
		"rsync://h/m/ta.cer\r\n\r\n" + key + "\r\n",
		`<notification xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="9df4b597-af9e-4dca-bdda-719cce2c4e28" serial="3"><snapshot uri="https://h/s.xml" hash="AB"/><delta serial="3" uri="https://h/3.xml" hash="CD"/></notification>`,
		`<snapshot xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="9df4b597-af9e-4dca-bdda-719cce2c4e28" serial="2"><publish uri="rsync://h/m/a.roa">AAECAw==</publish></snapshot>`,
		`<delta xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="9df4b597-af9e-4dca-bdda-719cce2c4e28" serial="3"><publish uri="rsync://h/m/a.roa" hash="AB">AAECAw==</publish><withdraw uri="rsync://h/m/b.roa" hash="CD"/></delta>`,
		`<msg xmlns="http://www.hactrn.net/uris/rpki/publication-spec/" version="4" type="query"><publish tag="a" uri="rsync://h/m/a">AAEC</publish><withdraw tag="" uri="rsync://h/m/b" hash="00"/><list/></msg>`,
		`<msg xmlns="http://www.hactrn.net/uris/rpki/publication-spec/" version="4" type="reply"><report_error error_code="x" tag="a"><error_text xml:lang="en">T</error_text><failed_pdu><publish tag="a" uri="b">AA==</publish></failed_pdu></report_error><success/></msg>`,
		`<child_request xmlns="http://www.hactrn.net/uris/rpki/rpki-setup/" version="1" child_handle="Bob"><child_bpki_ta>AAAA</child_bpki_ta></child_request>`,
		`<parent_response xmlns="http://www.hactrn.net/uris/rpki/rpki-setup/" version="1" service_uri="http://h/" child_handle="Bob" parent_handle="Alice"><parent_bpki_ta>AAAA</parent_bpki_ta><offer/><referral referrer="a">AA</referral></parent_response>`,
		"-rw-r--r--          1,234 2020/01/02 03:04:05 a/b.roa",
		"drwxr-xr-x          4,096 2020/01/02 03:04:05 .",
		"rsync://h/m/a/b.cer", "rsync://h:873/m/", "rsync://", "rsync://h", "/x/y", "a=b,c=d", "AAECAw==", " A A E C \n Aw= =",
	}
}

var textBits = []string{"<", ">", "\"", "'", "&", "&lt;", "&#0;", "&#x10ffff;", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version=\"1.0\" encoding=\"x\"?>", "<?xml version=\"1.1\"?>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "&b;", "\n", "\r\n", "\r", "\x00", "\xff", "\t", " ", "rsync://", "https://", "//", "/", "../", "..", ":", "%", "%2e%2e%2f", "@", "[", "]", "#", "=", "-1", "18446744073709551616", "99999999999999999999", "xmlns=\"\"", "</", "/>", "<publish uri=\"rsync://h/m/x\">", "</publish>", "<withdraw/>", "<snapshot/>", "<delta/>", "hash=\"\"", "serial=\"\"", "é", "\u2028", "A", "==", "!", "M", "\xed\xa0\x80"}

func drawText(t *pbt.T) (string, string) {
	ss := textSeeds()
	i := t.Intn(len(ss) + 1)
	var s string
	if i < len(ss) {
		s = ss[i]
	} else {
		for n := t.Size(20); n > 0; n-- {
			s += textBits[t.Intn(len(textBits))]
		}
	}
	for n := t.Size(6); n > 0; n-- {
		p := t.Intn(len(s) + 1)
		q := p + t.Intn(len(s)-p+1)
		switch t.Intn(6) {
		case 0:
			s = s[:p] + textBits[t.Intn(len(textBits))] + s[p:]
		case 1:
			if q > p+20 && t.Bool() {
				q = p + 20
			}
			s = s[:p] + s[q:]
		case 2:
			s = s[:p]
		case 3:
			if p < len(s) {
				s = s[:p] + string([]byte{byte(t.Intn(256))}) + s[p+1:]
			}
		case 4:
			k := 1 + t.Size(100)
			if (q-p)*k < 1<<15 {
				s = s[:p] + strings.Repeat(s[p:q], k) + s[q:]
			}
		default:
			o := ss[t.Intn(len(ss))]
			s = s[:p] + o[t.Intn(len(o)):] + s[q:]
		}
		if len(s) > 1<<16 {
			s = s[:1<<16]
		}
	}
	name := "random"
	if i < len(ss) {
		name = strings.Fields(ss[i])[0]
	}
	return name, s
}

func c07Text(t *pbt.T) {
	name, s := drawText(t)
	t.Logf("input %q", s)
	sense := feed(t, textDecoders, []byte(s))
	for _, x := range sense {
		t.Label("accepted by %s", x)
	}
	t.Label("%s", name)
	t.NonTrivial("%x", sum([]byte(s)))
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	t.Sample("%q: accepted by %s", s, strings.Join(sense, ", "))
}

// ---- size -----------------------------------------------------------------------

const (
	heapBase   = 128 << 20
	heapFactor = 2000
)

// heapGrowth is about how much more memory f has the process hold.
func heapGrowth(f func()) int64 {
	held := func() int64 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int64(m.HeapSys - m.HeapReleased)
	}
	debug.FreeOSMemory()
	before := held()
	f()
	return held() - before
}

func rep(b []byte, n int) []byte { return bytes.Repeat(b, n) }

// big inputs: n is the size aimed at.
var bigDER = []struct {
	name string
	mk   func(t *pbt.T, n int) []byte
}{
	{"indefinite nesting", func(t *pbt.T, n int) []byte { return rep([]byte{byte(pbt.Pick(t, 0x24, 0x30, 0xa0)), 0x80}, n/2) }},
	{"closed indefinite nesting", func(t *pbt.T, n int) []byte {
		return append(rep([]byte{byte(pbt.Pick(t, 0x24, 0x30, 0xa0)), 0x80}, n/4), make([]byte, n/4*2)...)
	}},
	{"definite nesting", func(t *pbt.T, n int) []byte {
		tag := byte(pbt.Pick(t, 0x24, 0x30, 0xa0))
		// innermost first, written backwards
		var rev []byte
		l := 0
		for l < n {
			h := gen.Length(l)
			for i := len(h) - 1; i >= 0; i-- {
				rev = append(rev, h[i])
			}
			rev = append(rev, tag)
			l += 1 + len(h)
		}
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		return rev
	}},
	{"many empty values", func(t *pbt.T, n int) []byte { return gen.Seq(rep([]byte{byte(pbt.Pick(t, 5, 0x30, 4, 0x24)), 0}, n/2)) }},
	{"many segments", func(t *pbt.T, n int) []byte { return gen.TLV(0x24, rep([]byte{4, 1, 'x'}, n/3)) }},
	{"huge claimed length", func(t *pbt.T, n int) []byte {
		return append([]byte{byte(pbt.Pick(t, 0x30, 4, 0x24, 3, 2)), 0x84, 0x7f, 0xff, 0xff, byte(t.Intn(256))}, rep([]byte{0x30, 0x84, 0x7f, 0xff, 0xff, 0}, n/6)...)
	}},
	{"many address blocks", func(t *pbt.T, n int) []byte {
		return gen.Seq(gen.Seq(gen.Octets([]byte{0, 1}), gen.Seq(rep(gen.BitStr([]byte{10}, 8), n/5))))
	}},
	{"many address families", func(t *pbt.T, n int) []byte {
		return gen.Seq(rep(gen.Seq(gen.Octets([]byte{0, 1}), gen.Seq(gen.BitStr([]byte{10}, 8))), n/13))
	}},
	{"many AS ranges", func(t *pbt.T, n int) []byte {
		return gen.Seq(gen.Ctx(0, gen.Seq(rep(gen.Seq(gen.Int(5), gen.Int(9)), n/8))))
	}},
	{"large integer", func(t *pbt.T, n int) []byte { return gen.TLV(2, rep([]byte{0x7f}, n)) }},
	{"large OID", func(t *pbt.T, n int) []byte { return gen.TLV(6, rep([]byte{0x01}, n)) }},
	{"large OID arc", func(t *pbt.T, n int) []byte { return gen.TLV(6, append(rep([]byte{0xff}, n), 1)) }},
	{"large bit string", func(t *pbt.T, n int) []byte { return gen.TLV(3, append([]byte{0}, rep([]byte{0xaa}, n)...)) }},
	{"many accesses", func(t *pbt.T, n int) []byte {
		return gen.Seq(rep(gen.Seq(gen.OidCaRepository, gen.GeneralNameURI("x")), n/15))
	}},
}

var bigText = []struct {
	name string
	mk   func(t *pbt.T, n int) []byte
}{
	{"nested elements", func(t *pbt.T, n int) []byte { return rep([]byte("<a>"), n/3) }},
	{"closed nested elements", func(t *pbt.T, n int) []byte { return append(rep([]byte("<a>"), n/7), rep([]byte("</a>"), n/7)...) }},
	{"nested failed_pdu", func(t *pbt.T, n int) []byte {
		return []byte(`<msg xmlns="http://www.hactrn.net/uris/rpki/publication-spec/" version="4" type="reply">` + strings.Repeat("<report_error><failed_pdu>", n/26))
	}},
	{"many elements", func(t *pbt.T, n int) []byte {
		return []byte(`<snapshot xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="a" serial="2">` + strings.Repeat(`<publish uri="a">AA==</publish>`, n/31) + `</snapshot>`)
	}},
	{"many deltas", func(t *pbt.T, n int) []byte {
		return []byte(`<notification xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="a" serial="2"><snapshot uri="a" hash="b"/>` + strings.Repeat(`<delta serial="1" uri="b" hash="c"/>`, n/35) + `</notification>`)
	}},
	{"long base64", func(t *pbt.T, n int) []byte {
		return []byte(`<snapshot xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="a" serial="2"><publish uri="a">` + strings.Repeat("QUJD\n", n/5) + `</publish></snapshot>`)
	}},
	{"many attributes", func(t *pbt.T, n int) []byte {
		return []byte("<msg " + strings.Repeat(`a="b" `, n/6) + "/>")
	}},
	{"many lines", func(t *pbt.T, n int) []byte { return rep([]byte("rsync://h/a\n"), n/12) }},
	{"many blank lines", func(t *pbt.T, n int) []byte { return rep([]byte("\r\n"), n/2) }},
	{"many key lines", func(t *pbt.T, n int) []byte { return append([]byte("rsync://h/a\n\n"), rep([]byte("A\n"), n/2)...) }},
	{"long line", func(t *pbt.T, n int) []byte { return rep([]byte("A"), n) }},
	{"entities", func(t *pbt.T, n int) []byte {
		return []byte(`<!DOCTYPE a [<!ENTITY b "` + strings.Repeat("c", n/4) + `">]><msg>` + strings.Repeat("&b;", n/4) + "</msg>")
	}},
	{"many path components", func(t *pbt.T, n int) []byte { return append([]byte("rsync://h/"), rep([]byte("a/"), n/2)...) }},
	{"comments", func(t *pbt.T, n int) []byte { return rep([]byte("#\n"), n/2) }},
}

// within places a value where an object of the kind expects it.
func within(t *pbt.T, v []byte) (string, []byte) {
	ks := gen.Keys()
	c := gen.Cert{Serial: big.NewInt(1), Issuer: "a", Subject: "b", NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<31, 0), Key: &ks[0].PublicKey, SKI: gen.KeyID(&ks[0].PublicKey), AKI: gen.KeyID(&ks[0].PublicKey), Signer: ks[0]}
	object := func(typ []byte) []byte {
		o := gen.CMS{Type: typ, Content: v, EE: c.DER(), SKI: c.SKI, Signer: ks[0], SigningTime: time.Unix(1000, 0)}
		return o.DER()
	}
	switch t.Intn(9) {
	case 0:
		return "alone", v
	case 1:
		c.RawIPExt = v
		return "as a certificate's IP extension", c.DER()
	case 2:
		c.RawASExt = v
		return "as a certificate's AS extension", c.DER()
	case 3:
		c.RawSIAExt = v
		return "as a certificate's SIA", c.DER()
	case 4:
		return "as a ROA's content", object(gen.OidROA)
	case 5:
		return "as a manifest's content", object(gen.OidManifest)
	case 6:
		return "as a ROA's address blocks", func() []byte { v = gen.Seq(gen.Int(5), v); return object(gen.OidROA) }()
	case 7:
		o := gen.CMS{Type: gen.OidROA, Content: gen.ROAContent(5, nil), EE: c.DER(), SKI: c.SKI, Signer: ks[0], SigningTime: time.Unix(1000, 0), SignerInfosRaw: v}
		return "as signer infos", o.DER()
	}
	return "as a manifest's file list", func() []byte {
		v = gen.Seq(gen.Int(5), gen.GenTime(time.Unix(0, 0)), gen.GenTime(time.Unix(1<<31, 0)), gen.OID(2, 16, 840, 1, 101, 3, 4, 2, 1), v)
		return object(gen.OidManifest)
	}()
}

func c07Size(t *pbt.T) {
	max := 1 << 15
	if t.Thorough {
		max = 1 << 17
	}
	n := 1 << t.Intn(10)
	if t.Bool() {
		n = t.Range(max/2, max)
	}
	var what string
	var b []byte
	var ds []decoder
	if t.Bool() {
		k := bigDER[t.Intn(len(bigDER))]
		where := ""
		where, b = within(t, k.mk(t, n))
		what, ds = k.name+" "+where, derDecoders
	} else {
		k := bigText[t.Intn(len(bigText))]
		b = k.mk(t, n)
		what, ds = k.name, textDecoders
	}
	t.Logf("%s, %d octets: %s", what, len(b), hexHead(b))
	run := func(d decoder) {
		t0 := time.Now()
		d.run(append([]byte(nil), b...))
		if dt := time.Since(t0); dt > 30*time.Second {
			t.Failf("%s took %s for %d octets (%s)", d.name, dt, len(b), what)
		}
	}
	lim := int64(heapBase + heapFactor*len(b))
	grown := heapGrowth(func() {
		for _, d := range ds {
			run(d)
		}
	})
	if grown > lim {
		for _, d := range ds {
			if g := heapGrowth(func() { run(d) }); g > lim {
				t.Failf("%s needs %d octets of memory for an input of %d (%s)", d.name, g, len(b), what)
			}
		}
		t.Failf("the decoders need %d octets of memory for an input of %d (%s)", grown, len(b), what)
	}
	t.Label("%s", what)
	t.NonTrivial("%s %d", what, len(b))
	t.Sample("%s, %d octets: the process grew by %d octets at most", what, len(b), grown)
}

// ---- repositories ---------------------------------------------------------------

var oddKeys = sync.OnceValue(func() [][]byte {
	p256 := gen.Seq(gen.Seq(gen.OID(1, 2, 840, 10045, 2, 1), gen.OID(1, 2, 840, 10045, 3, 1, 7)), gen.BitStr(append([]byte{4}, p256point()...), 65*8))
	ed := gen.Seq(gen.Seq(gen.OID(1, 3, 101, 112)), gen.BitStr(bytes.Repeat([]byte{7}, 32), 256))
	dsa := gen.Seq(gen.Seq(gen.OID(1, 2, 840, 10040, 4, 1), gen.Seq(gen.Int(23), gen.Int(11), gen.Int(2))), gen.BitStr(gen.Int(5), 24))
	x25519 := gen.Seq(gen.Seq(gen.OID(1, 3, 101, 110)), gen.BitStr(bytes.Repeat([]byte{9}, 32), 256))
	unknown := gen.Seq(gen.Seq(gen.OID(1, 2, 3, 4)), gen.BitStr([]byte{1, 2, 3}, 24))
	rsaOf := func(n, e *big.Int) []byte {
		b := gen.Seq(gen.BigInt(n), gen.BigInt(e))
		return gen.Seq(gen.AlgRSA(), gen.BitStr(b, len(b)*8))
	}
	n := gen.Keys()[0].N
	return [][]byte{p256, ed, dsa, x25519, unknown, rsaOf(big.NewInt(1), big.NewInt(1)), rsaOf(big.NewInt(4), big.NewInt(3)), rsaOf(n, big.NewInt(1)), rsaOf(n, big.NewInt(2)), rsaOf(n, big.NewInt(1<<31-1)), rsaOf(new(big.Int).Lsh(n, 3000), big.NewInt(65537)), rsaOf(new(big.Int).Neg(n), big.NewInt(3)), rsaOf(big.NewInt(0), big.NewInt(3)), gen.Seq(gen.AlgRSA(), gen.BitStr(nil, 0))}
})

// p256point is the generator of the curve.
func p256point() []byte {
	b, _ := new(big.Int).SetString("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c2964fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5", 16)
	return b.Bytes()
}

// tbsEdit draws a change of a TBSCertificate: of one of its parts, or of all.
func tbsEdit(t *pbt.T) (string, func([]byte) []byte) {
	ms := gen.DrawMutations(t, 3)
	part := t.Intn(12)
	if t.Chance(1, 6) {
		k := oddKeys()[t.Intn(len(oddKeys()))]
		return "another kind of key", func(b []byte) []byte {
			l, ok := gen.ParseDER(b, 0)
			if !ok || len(l) != 1 || len(l[0].Kids) < 8 {
				return b
			}
			l[0].Kids[6] = &gen.Node{Raw: k}
			return l[0].Bytes()
		}
	}
	return fmt.Sprintf("certificate part %d %v", part, ms), func(b []byte) []byte {
		l, ok := gen.ParseDER(b, 0)
		if !ok || len(l) != 1 || len(l[0].Kids) < 8 || part > 10 {
			return gen.Mutate(b, ms)
		}
		n := l[0].Kids[1+part%7]
		if part > 6 { // an extension
			exts := l[0].Kids[7].Kids[0].Kids
			n = exts[ms[0].At%len(exts)]
			if len(n.Kids) > 1 && part > 7 {
				n = n.Kids[len(n.Kids)-1]
			}
		}
		n.Raw = gen.Mutate(n.Bytes(), ms)
		return l[0].Bytes()
	}
}

// hurtSigned publishes malformed content under a correct signature. It
// returns what it did and which payloads may be lost.
func hurtSigned(t *pbt.T, tr *gen.Tree) (string, func(gen.Payload) bool) {
	c := tr.CAs[t.Intn(len(tr.CAs))]
	below := func(x *gen.CANode) func(gen.Payload) bool {
		return func(p gen.Payload) bool { return p.ROA.CA == x || p.ROA.CA.Below(x) }
	}
	ms := gen.DrawMutations(t, 4)
	change := func(b []byte) []byte { return gen.Mutate(b, ms) }
	what, ee := tbsEdit(t)
	switch t.Intn(8) {
	case 0, 1: // a ROA
		if len(c.ROAs) == 0 {
			return "", nil
		}
		r := c.ROAs[t.Intn(len(c.ROAs))]
		mine := func(p gen.Payload) bool { return p.ROA == r }
		k := t.Intn(5)
		if k != 1 {
			what = fmt.Sprint(ms)
		}
		r.CMSEdit = func(o *gen.CMS) {
			switch k {
			case 0:
				o.Content = change(o.Content)
			case 1:
				o.EE = gen.Resign(o.EE, c.Key, ee)
			case 2:
				o.ExtraAttrs = append(o.ExtraAttrs, gen.Attr{OID: o.Type, Value: change(gen.Seq(gen.Int(1), gen.OID(1, 2, 3)))})
			case 3:
				o.SignerSID = change(gen.CtxPrim(0, o.SKI))
			default:
				o.SigAlg = change(gen.AlgSHA256RSA())
			}
		}
		return fmt.Sprintf("ca%d: ROA %s with a changed %s (%s)", c.ID, r.Name, [...]string{"content", "certificate", "signed attribute", "signer", "algorithm"}[k], what), mine
	case 2, 3: // the certificate of a subordinate CA
		if len(c.Kids) == 0 {
			return "", nil
		}
		k := c.Kids[t.Intn(len(c.Kids))]
		k.File.Edit = func(b []byte) []byte {
			if d, err := librpki.BER2DER(b); err == nil {
				b = d
			}
			return gen.Resign(b, c.Key, ee)
		}
		return fmt.Sprintf("ca%d: certificate of ca%d changed (%s)", c.ID, k.ID, what), below(k)
	case 4: // the manifest
		k := t.Intn(3)
		c.MftEdit = func(o *gen.CMS) {
			switch k {
			case 0:
				o.Content = change(o.Content)
			case 1:
				o.EE = gen.Resign(o.EE, c.Key, ee)
			default:
				o.ExtraAttrs = append(o.ExtraAttrs, gen.Attr{OID: o.Type, Value: change(gen.Seq(gen.Int(1)))})
			}
		}
		return fmt.Sprintf("ca%d: manifest with changed %d (%v %s)", c.ID, k, ms, what), below(c)
	case 5: // the CRL
		c.CRLFile.Edit = func(b []byte) []byte {
			if d, err := librpki.BER2DER(b); err == nil {
				b = d
			}
			return gen.Resign(b, c.Key, change)
		}
		return fmt.Sprintf("ca%d: CRL with changes %v", c.ID, ms), below(c)
	case 6: // an unsigned or unknown file of any name and content
		s := seeds()[t.Intn(len(seeds()))]
		x := &gen.ExtraFile{File: gen.File{Name: fmt.Sprintf("odd%d%s", t.Intn(1000), pbt.Pick(t, ".roa", ".cer", ".crl", ".mft", ".tal", "", ".gbr"))}, Data: change(s.der)}
		for _, y := range c.Extra {
			if y.Name == x.Name {
				return "", nil
			}
		}
		c.Extra = append(c.Extra, x)
		return fmt.Sprintf("ca%d: %s made of a %s with changes %v", c.ID, x.Name, s.name, ms), func(p gen.Payload) bool { return false }
	}
	// any file, any edit
	var f *gen.File
	var hit func(gen.Payload) bool
	switch k := t.Intn(4); {
	case k == 0 && len(c.ROAs) > 0:
		r := c.ROAs[t.Intn(len(c.ROAs))]
		f, hit = &r.File, func(p gen.Payload) bool { return p.ROA == r }
	case k == 1 && len(c.Kids) > 0:
		x := c.Kids[t.Intn(len(c.Kids))]
		f, hit = &x.File, below(x)
	case k == 2:
		f, hit = &c.MftFile, below(c)
	default:
		f, hit = &c.CRLFile, below(c)
	}
	f.Edit = change
	return fmt.Sprintf("ca%d: a file with changes %v", c.ID, ms), hit
}

// validateLoud validates like the programs do, with errors reported.
func validateLoud(t *pbt.T, tr *gen.Tree, h how) *result {
	files := map[string][]byte{}
	for k, v := range tr.Files {
		files[k] = v
	}
	out := &result{counts: map[payload]int{}, paths: map[string]int{}}
	for i, tal := range tr.TALs {
		files[fmt.Sprintf("tal:%d", i)] = tal
		v := pki.NewValidator()
		v.Time = h.Time
		v.DecoderConfig.ValidateStrict = h.StrictCMS
		sm := pki.NewSimpleManager()
		sm.Validator = v
		sm.FileSeeker = &memory{files: files, absent: h.absent}
		sm.StrictManifests, sm.StrictHash = h.StrictManifests, h.StrictHash
		sm.Log = quiet{}
		sm.ReportErrors = true
		done := make(chan interface{}, 1)
		go func() {
			defer func() { done <- recover() }()
			for err := range sm.Errors {
				if err == nil {
					continue
				}
				_ = err.Error()
				if s, ok := err.(interface{ SetSentryScope(*sentry.Scope) }); ok {
					s.SetSentryScope(sentry.NewScope())
				}
				if s, ok := err.(interface{ StackTrace() []pki.Frame }); ok {
					s.StackTrace()
				}
			}
		}()
		sm.AddInitial([]*pki.PKIFile{{Path: fmt.Sprintf("tal:%d", i), Type: pki.TYPE_TAL}})
		n := sm.Explore(h.dirs, false)
		sm.Close()
		if p := <-done; p != nil {
			t.Failf("reporting an error crashes: %v", p)
		}
		if n > 20000 {
			t.Failf("%d files were explored of a repository of %d", n, len(files))
		}
		out.add(v, sm)
	}
	return out
}

func c07Repository(t *pbt.T) {
	o := gen.TreeOpts{TAs: 2, CAs: 5, ROAs: 3, Depth: 4, SimpleName: true}
	tr := gen.DrawTree(t, o)
	var whats []string
	var hits []func(gen.Payload) bool
	for n := t.Range(1, 4); n > 0; n-- {
		if w, h := hurtSigned(t, tr); w != "" {
			whats = append(whats, w)
			hits = append(hits, h)
			t.Label("%s", strings.SplitN(strings.SplitN(w, ": ", 2)[1], " with", 2)[0])
		}
	}
	if len(whats) == 0 {
		t.Discard()
	}
	tr.Build(0)
	h := strict(tr)
	if t.Chance(1, 3) {
		h.StrictManifests, h.StrictHash, h.StrictCMS = t.Bool(), t.Bool(), t.Bool()
	}
	h.absent = t.Bool()
	ps := tr.Model(h.Settings)
	logTree(t, tr, h)
	t.Logf("%s", strings.Join(whats, "; "))
	b := newBounds()
	kept, lost := 0, 0
	for _, p := range ps {
		hit := false
		for _, f := range hits {
			hit = hit || f(p)
		}
		if hit {
			lost++
			continue
		}
		if p.V == gen.Yes {
			kept++
		}
		b.add(payloadOf(p.VRP), p.V)
	}
	out := validateLoud(t, tr, h)
	checkMin(t, "with malformed content elsewhere", out.counts, b, ps)
	t.NonTrivial("%v", whats)
	t.Sample("%s; %s; %d payloads to keep, %d at stake, %d output", shape(tr), strings.Join(whats, "; "), kept, lost, out.total())
}

// c07Graph: publication points that refer to each other in any way.
func c07Graph(t *pbt.T) {
	ks := gen.Keys()
	now := time.Now().UTC().Truncate(time.Second)
	n := t.Range(1, 6)
	if t.Thorough {
		n = t.Range(1, 10)
	}
	all := gen.Resources{V4: &gen.IPSet{F: 1, Blocks: []gen.Block{gen.PrefixBlock(gen.Prefix{F: 1, Plen: 0})}}, V6: &gen.IPSet{F: 2, Blocks: []gen.Block{gen.PrefixBlock(gen.Prefix{F: 2, Plen: 0})}}, AS: &gen.ASSet{Blocks: []gen.ASBlock{{Min: 0, Max: 1<<32 - 1, Range: true}}}}
	inh := gen.Resources{V4: &gen.IPSet{F: 1, Inherit: true}, V6: &gen.IPSet{F: 2, Inherit: true}, AS: &gen.ASSet{Inherit: true}}
	type node struct {
		key      int // its key
		issuer   int // node whose key signs it
		dir, mft int // publication point it names
		res      gen.Resources
		caFlag   bool
	}
	ns := make([]node, n)
	for i := range ns {
		ns[i] = node{key: t.Intn(n), issuer: t.Intn(n), dir: t.Intn(n), mft: t.Intn(n), res: pbt.Pick(t, inh, all), caFlag: true}
		if t.Chance(2, 3) {
			ns[i].key = i
		}
		if t.Chance(2, 3) {
			ns[i].dir, ns[i].mft = i, i
		}
	}
	ns[0] = node{key: 0, issuer: 0, dir: ns[0].dir, mft: ns[0].mft, res: all, caFlag: true}
	if t.Bool() {
		ns[0].dir, ns[0].mft = 0, 0
	}
	dir := func(i int) string { return fmt.Sprintf("rsync://h/m/%d/", i) }
	mft := func(i int) string { return fmt.Sprintf("%s%d.mft", dir(ns[i].dir), ns[i].mft) }
	files := map[string][]byte{}
	cert := func(i int) []byte {
		x := ns[i]
		p := ns[x.issuer]
		c := gen.Cert{Serial: big.NewInt(int64(i + 1)), Issuer: fmt.Sprint("n", x.issuer), Subject: fmt.Sprint("n", i), NotBefore: now.Add(-time.Hour), NotAfter: now.Add(time.Hour),
			Key: &ks[x.key].PublicKey, SKI: gen.KeyID(&ks[x.key].PublicKey), AKI: gen.KeyID(&ks[p.key].PublicKey), CA: true, Res: x.res, Signer: ks[p.key],
			SIA: []gen.Access{{gen.OidCaRepository, dir(x.dir)}, {gen.OidRpkiManifest, mft(i)}}, CRLDP: []string{dir(x.dir) + "c.crl"}}
		return c.DER()
	}
	var lists []string
	nfiles := t.Range(0, 2*n)
	var entry = make([][]string, n) // of each point
	for k := 0; k < nfiles; k++ {
		at, what := t.Intn(n), t.Intn(n)
		name := fmt.Sprintf("%d-%d.cer", what, t.Intn(2))
		files[dir(at)+name] = cert(what)
		entry[at] = append(entry[at], name)
	}
	for i := range entry { // files of other kinds and of other points
		for k := t.Weighted(3, 2, 1, 1); k > 0; k-- {
			switch t.Intn(6) {
			case 0:
				entry[i] = append(entry[i], fmt.Sprintf("%d.mft", t.Intn(n)))
			case 1:
				entry[i] = append(entry[i], fmt.Sprintf("./%d.mft", t.Intn(n)))
			case 2:
				entry[i] = append(entry[i], "c.crl")
			case 3:
				entry[i] = append(entry[i], fmt.Sprintf("/%d-0.cer", t.Intn(n)))
			case 4:
				entry[i] = append(entry[i], "", ".", "/", "ta.cer")
			default:
				if len(entry[i]) > 0 {
					entry[i] = append(entry[i], entry[i][t.Intn(len(entry[i]))])
				}
			}
		}
	}
	for i := range ns {
		crl := gen.CRL{Issuer: fmt.Sprint("n", i), This: now.Add(-time.Hour), Next: now.Add(time.Hour), AKI: gen.KeyID(&ks[ns[i].key].PublicKey), Signer: ks[ns[i].key]}
		files[dir(i)+"c.crl"] = crl.DER()
	}
	for i, x := range ns {
		var fl []gen.FileHash
		for _, e := range entry[x.dir] {
			d, ok := files[dir(x.dir)+e]
			if !ok {
				d = []byte(e)
			}
			fl = append(fl, gen.FileHash{Name: e, Hash: sum(d)})
		}
		k := ks[20+i]
		ee := gen.Cert{Serial: big.NewInt(int64(1000 + i)), Issuer: fmt.Sprint("n", i), Subject: "m", NotBefore: now.Add(-time.Hour), NotAfter: now.Add(time.Hour), Key: &k.PublicKey, SKI: gen.KeyID(&k.PublicKey), AKI: gen.KeyID(&ks[x.key].PublicKey), Res: inh, Signer: ks[x.key]}
		o := gen.CMS{Type: gen.OidManifest, Content: gen.ManifestContent(big.NewInt(1), now.Add(-time.Hour), now.Add(time.Hour), fl), EE: ee.DER(), SKI: ee.SKI, Signer: k, SigningTime: now}
		files[mft(i)] = o.DER()
		lists = append(lists, fmt.Sprintf("n%d key %d issuer %d at %s lists %v", i, x.key, x.issuer, mft(i), entry[x.dir]))
	}
	files["rsync://h/m/ta.cer"] = cert(0)
	files["tal"] = []byte("rsync://h/m/ta.cer\n\n" + base64.StdEncoding.EncodeToString(gen.SPKI(&ks[0].PublicKey)) + "\n")
	t.Logf("%s", strings.Join(lists, "\n"))
	v := pki.NewValidator()
	v.Time = now
	sm := pki.NewSimpleManager()
	sm.Validator = v
	mem := &memory{files: files}
	sm.FileSeeker = mem
	sm.StrictManifests, sm.StrictHash = t.Bool(), t.Bool()
	sm.Log = quiet{}
	sm.AddInitial([]*pki.PKIFile{{Path: "tal", Type: pki.TYPE_TAL}})
	invalidToo := t.Bool()
	c := sm.Explore(t.Chance(1, 3), invalidToo)
	refs := 0
	for _, e := range entry {
		refs += len(e) + 2
	}
	t.NonTrivial("%v", lists)
	t.Label("explored %d+", c/10*10)
	t.Sample("%d CAs, %d references: %d files explored, %d read, %d valid; %s", n, refs, c, mem.gets, len(v.ValidObjects), strings.Join(lists, "; "))
	if lim := 100 + 20*(refs+n)*(n+2); c > lim {
		t.Failf("%d files were explored, with %d references between %d CAs", c, refs, n)
	}
}

// c07Large: long chains, long manifests and long resource lists are finished
// in reasonable time.
func c07Large(t *pbt.T) {
	ks := gen.Keys()
	now := time.Now().UTC().Truncate(time.Second)
	files := map[string][]byte{}
	depth, width, nres := 1, 1, 1
	scale := 1
	if t.Thorough {
		scale = 4
	}
	switch t.Intn(3) {
	case 0:
		depth = t.Range(20, 31)
	case 1:
		width = t.Range(500, 3000*scale)
	default:
		nres = t.Range(200, 1500*scale)
		depth = t.Range(1, 10)
	}
	same := t.Bool() // the file list repeats one name
	all := gen.Resources{V4: &gen.IPSet{F: 1, Blocks: []gen.Block{gen.PrefixBlock(gen.Prefix{F: 1, Plen: 0})}}, AS: &gen.ASSet{Blocks: []gen.ASBlock{{Min: 0, Max: 1<<32 - 1, Range: true}}}}
	inh := gen.Resources{V4: &gen.IPSet{F: 1, Inherit: true}, AS: &gen.ASSet{Inherit: true}}
	long := gen.Resources{V4: &gen.IPSet{F: 1}, AS: &gen.ASSet{}}
	for i := 0; i < nres; i++ {
		long.V4.Blocks = append(long.V4.Blocks, gen.PrefixBlock(gen.Prefix{F: 1, A: gen.FromBytes([]byte{10, byte(i >> 8), byte(i), 0}), Plen: 24}))
		long.AS.Blocks = append(long.AS.Blocks, gen.ASBlock{Min: uint32(2 * i), Max: uint32(2 * i)})
	}
	var prev *rsa.PrivateKey
	total := 0
	for d := 0; d <= depth; d++ {
		k := ks[d]
		dir := fmt.Sprintf("rsync://h/m/%d/", d)
		signer, aki := k, []byte(nil)
		res := inh
		if prev != nil {
			signer, aki = prev, gen.KeyID(&prev.PublicKey)
		} else {
			res = all
		}
		if nres > 1 && d > 0 {
			res = long
		}
		c := gen.Cert{Serial: big.NewInt(int64(d + 1)), Issuer: "i", Subject: "s", NotBefore: now.Add(-time.Hour), NotAfter: now.Add(time.Hour), Key: &k.PublicKey, SKI: gen.KeyID(&k.PublicKey), AKI: aki, CA: true, Res: res, Signer: signer,
			SIA: []gen.Access{{gen.OidCaRepository, dir}, {gen.OidRpkiManifest, dir + "m.mft"}}}
		at := "rsync://h/m/ta.cer"
		if d > 0 {
			at = fmt.Sprintf("rsync://h/m/%d/sub.cer", d-1)
		}
		files[at] = c.DER()
		prev = k
	}
	for d := 0; d <= depth; d++ {
		k, mk := ks[d], ks[32+d]
		dir := fmt.Sprintf("rsync://h/m/%d/", d)
		var fl []gen.FileHash
		if d < depth {
			fl = append(fl, gen.FileHash{Name: "sub.cer", Hash: sum(files[dir+"sub.cer"])})
		}
		for i := 0; i < width && width > 1; i++ {
			name := fmt.Sprintf("f%d.gbr", i)
			if same {
				name = "f.gbr"
			}
			files[dir+name] = []byte("x")
			fl = append(fl, gen.FileHash{Name: name, Hash: sum([]byte("x"))})
		}
		total += len(fl)
		ee := gen.Cert{Serial: big.NewInt(int64(1000 + d)), Issuer: "s", Subject: "m", NotBefore: now.Add(-time.Hour), NotAfter: now.Add(time.Hour), Key: &mk.PublicKey, SKI: gen.KeyID(&mk.PublicKey), AKI: gen.KeyID(&k.PublicKey), Res: inh, Signer: k}
		o := gen.CMS{Type: gen.OidManifest, Content: gen.ManifestContent(big.NewInt(1), now.Add(-time.Hour), now.Add(time.Hour), fl), EE: ee.DER(), SKI: ee.SKI, Signer: mk, SigningTime: now}
		files[dir+"m.mft"] = o.DER()
	}
	files["tal"] = []byte("rsync://h/m/ta.cer\n\n" + base64.StdEncoding.EncodeToString(gen.SPKI(&ks[0].PublicKey)) + "\n")
	v := pki.NewValidator()
	v.Time = now
	sm := pki.NewSimpleManager()
	sm.Validator = v
	sm.FileSeeker = &memory{files: files}
	sm.Log = quiet{}
	sm.AddInitial([]*pki.PKIFile{{Path: "tal", Type: pki.TYPE_TAL}})
	t.Logf("chain of %d, %d files per manifest (one name: %v), %d resources", depth, width, same, nres)
	t0 := time.Now()
	n := sm.Explore(false, false)
	dt := time.Since(t0)
	cas := 0
	for _, o := range v.ValidObjects {
		if o.Type == pki.TYPE_CER {
			cas++
		}
	}
	if dt > 60*time.Second {
		t.Failf("%s for %d listed files", dt, total)
	}
	if cas != depth+1 {
		t.Failf("%d of %d CA certificates are valid", cas, depth+1)
	}
	t.NonTrivial("%d %d %d %v", depth, width, nres, same)
	t.Sample("chain of %d, %d files per manifest (one name: %v), %d resources: %d files explored in %s", depth, width, same, nres, n, dt.Round(time.Millisecond))
}

func propC07() pbt.Property {
	return pbt.Property{
		ID:   "C07",
		Rule: "a case is non-trivial when the input is not a valid object as it stands (bytes: when some decoder accepts it); signature: the input, or the faults",
		Setup: func() error {
			librpki.DefaultDecoderConfig.ValidateStrict = false
			seeds()

			return nil
		},
		Suites: []pbt.Suite{
			{Name: "bytes", Rule: "random octets and random TLV trees (any tags, definite, indefinite and wrong lengths) through every DER and BER decoder: a value or an error", Quick: 40000, Thorough: 2000000, Isolate: true, Hang: 60 * time.Second, Prop: c07Bytes},
			{Name: "mutants", Rule: "valid certificates, ROAs, manifests, CRLs, XML messages and extension values in DER and BER after 1-6 structural changes (tags, lengths, contents, deleted, doubled, moved and nested parts, extreme values) through every decoder and everything done with a decoded object", Quick: 20000, Thorough: 1000000, Isolate: true, Hang: 60 * time.Second, Prop: c07Mutants},
			{Name: "text", Rule: "TALs, RRDP documents, publication and setup messages, rsync listings and URIs after random edits through every text decoder", Quick: 20000, Thorough: 1000000, Isolate: true, Hang: 60 * time.Second, Prop: c07Text},
			{Name: "size", Rule: "inputs of up to 32 KB (thorough: 128 KB) made of nested, repeated or oversized parts, alone and inside signed objects: the memory held grows by at most 128 MB plus 2000 octets per octet of input, and no decoder takes more than 30 s", Quick: 700, Thorough: 6000, Workers: 1, Isolate: true, Hang: 120 * time.Second, Prop: c07Size},
			{Name: "repository", Rule: "repositories with 1-4 objects whose contents, certificates, attributes or lists are malformed but correctly signed and listed (or any file edited), errors formatted as the programs do: validation ends, and everything else is still output", Quick: 3000, Thorough: 100000, Isolate: true, Hang: 120 * time.Second, Prop: c07Repository},
			{Name: "graph", Rule: "1-10 CAs that list each other's certificates, manifests and themselves in any way, with shared keys, directories and manifests: exploration ends after a number of files bounded by the references", Quick: 2500, Thorough: 60000, Isolate: true, Hang: 120 * time.Second, Prop: c07Graph},
			{Name: "large", Rule: "chains of 31 CAs, manifests of thousands of entries, certificates with thousands of resources: validated completely within a minute", Quick: 12, Thorough: 60, Workers: 4, Isolate: true, Hang: 180 * time.Second, Prop: c07Large},
		},
	}
}
