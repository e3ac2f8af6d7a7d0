//go:build go1.22

package main

import (
	"bytes"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"fmt"
	"math/big"
	"strings"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

func drawURI(t *pbt.T, i int) string {
	scheme := pbt.Pick(t, "rsync://", "https://", "rsync://", "http://")
	return scheme + pbt.Pick(t, "rpki.example", "h:8873", "a.b.c.example", "xn--q.example") + "/" + pbt.Pick(t, "ta/", "", "a/b/c/") + fmt.Sprintf("root%d", i) + pbt.Pick(t, ".cer", ".cer", "", "%20.cer", "#x.cer")
}

// drawModulus is a number of the size of an RSA modulus.
func drawModulus(t *pbt.T) *big.Int {
	if t.Bool() {
		ks := gen.Keys()
		return ks[t.Intn(len(ks))].N
	}
	bits := pbt.Pick(t, 512, 1024, 2048, 3072, 4096, 8192, 0)
	if bits == 0 {
		bits = t.Range(500, 4200)
	}
	b := t.Bytes((bits + 7) / 8)
	b[0] |= 1
	if bits%8 == 0 {
		b[0] |= 0x80
	}
	b[len(b)-1] |= 1
	return new(big.Int).SetBytes(b)
}

// writeTAL writes a TAL as RFC 8630 allows it.
func writeTAL(t *pbt.T, uris []string, spki []byte) []byte {
	nl := pbt.Pick(t, "\n", "\r\n")
	var b strings.Builder
	for i := t.Weighted(3, 1, 1, 1); i > 0; i-- {
		b.WriteString("#" + pbt.Pick(t, "", " a comment", "#", " rsync://not.an/uri", " "+strings.Repeat("c", t.Intn(200))) + nl)
	}
	for _, u := range uris {
		b.WriteString(u + nl)
	}
	b.WriteString(nl)
	k := base64.StdEncoding.EncodeToString(spki)
	w := pbt.Pick(t, 64, 76, len(k), 1, 4, 0)
	if w == 0 {
		w = 1 + t.Intn(100)
	}
	for i := 0; i < len(k); i += w {
		j := i + w
		if j > len(k) {
			j = len(k)
		}
		b.WriteString(k[i:j])
		if j < len(k) || t.Bool() {
			b.WriteString(nl)
		}
	}
	if t.Chance(1, 6) {
		b.WriteString(nl)
	}
	return []byte(b.String())
}

func sameTAL(t *pbt.T, what string, tal *librpki.RPKITAL, uris []string, key *rsa.PublicKey) {
	if strings.Join(tal.URI, "\n") != strings.Join(uris, "\n") || len(tal.URI) != len(uris) {
		t.Failf("%s: URIs %q, want %q", what, tal.URI, uris)
	}
	var k *rsa.PublicKey
	switch x := tal.PublicKey.(type) {
	case *rsa.PublicKey:
		k = x
	case rsa.PublicKey:
		k = &x
	}
	if k == nil || k.N.Cmp(key.N) != 0 || k.E != key.E {
		t.Failf("%s: key %v, want %v", what, tal.PublicKey, key)
	}
	if !tal.OID.Equal(librpki.RSA) || tal.Algorithm != x509.RSA {
		t.Failf("%s: algorithm %v %v", what, tal.OID, tal.Algorithm)
	}
}

func c09Codec(t *pbt.T) {
	key := &rsa.PublicKey{N: drawModulus(t), E: pbt.Pick(t, 65537, 3, 17, 1<<31-1, 257)}
	var uris []string
	for i := t.Range(1, 4); i > 0; i-- {
		uris = append(uris, drawURI(t, i))
	}
	text := writeTAL(t, uris, gen.SPKI(key))
	t.Logf("%q", text)
	tal, err := librpki.DecodeTAL(append([]byte(nil), text...))
	if err != nil {
		t.Failf("DecodeTAL: %v", err)
	}
	sameTAL(t, "decoded", tal, uris, key)
	// the location: the first rsync URI
	want := ""
	for _, u := range uris {
		if strings.HasPrefix(u, "rsync://") {
			want = u
			break
		}
	}
	if tal.HasRsync() != (want != "") {
		t.Failf("HasRsync of %q: %v", uris, tal.HasRsync())
	}
	if got := tal.GetRsyncURI(); want != "" && got != want {
		t.Failf("GetRsyncURI of %q: %q", uris, got)
	} else if !strings.HasPrefix(got, "rsync://") {
		t.Failf("GetRsyncURI of %q: %q", uris, got)
	}
	enc := func(x *librpki.RPKITAL) []byte {
		var b []byte
		var err error
		if t.Bool() {
			b, err = librpki.EncodeTAL(x)
		} else {
			b, err = librpki.EncodeTALSize(x, pbt.Pick(t, 0, 1, 4, 63, 64, 65, 76, 10000, t.Range(1, 500)))
		}
		if err != nil {
			t.Failf("EncodeTAL: %v", err)
		}
		return b
	}
	again, err := librpki.DecodeTAL(enc(tal))
	if err != nil {
		t.Failf("DecodeTAL of the encoded TAL: %v", err)
	}
	sameTAL(t, "decoded, encoded and decoded", again, uris, key)
	var pub interface{} = key
	if t.Bool() {
		pub = *key
	}
	made, err := librpki.CreateTAL(uris, pub)
	if err != nil {
		t.Failf("CreateTAL: %v", err)
	}
	b := enc(made)
	t.Logf("encoded: %q", b)
	again, err = librpki.DecodeTAL(b)
	if err != nil {
		t.Failf("DecodeTAL of the created TAL: %v", err)
	}
	sameTAL(t, "created, encoded and decoded", again, uris, key)
	t.NonTrivial("%d bits, %d URIs, crlf %v", key.N.BitLen()/64, len(uris), bytes.Contains(text, []byte("\r")))
	t.Sample("%d URIs, %d bit key, exponent %d, %d octets", len(uris), key.N.BitLen(), key.E, len(text))
}

// c09Key compares TAL keys with certificates' keys.
func c09Key(t *pbt.T) {
	ks := gen.Keys()
	a := ks[t.Intn(len(ks))]
	b := a
	same := t.Chance(1, 3)
	what := "same key"
	if !same {
		switch t.Intn(3) {
		case 0:
			b = ks[t.Intn(len(ks))]
			same = b == a
			what = "other key"
		case 1:
			b = sameModulus(t, a)
			if t.Bool() {
				b = &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: a.N, E: a.E ^ 1<<uint(t.Range(1, 30))}}
			}
			what = "other exponent"
		case 2: // another modulus
			b = &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: new(big.Int).Xor(a.N, new(big.Int).Lsh(big.NewInt(1), uint(1+t.Intn(a.N.BitLen()-2)))), E: a.E}}
			what = "one bit of the modulus"
		}
	}
	ct := gen.Cert{Serial: gen.Serial(t), Subject: "ta", Issuer: "ta", NotBefore: chainTime, NotAfter: chainTime.AddDate(1, 0, 0), Key: &b.PublicKey, SKI: gen.KeyID(&b.PublicKey), CA: true, Signer: a}
	c, err := librpki.DecodeCertificate(ct.DER())
	if err != nil {
		t.Discard() // not a key the decoder takes
	}
	tal, err := librpki.DecodeTAL(writeTAL(t, []string{"rsync://h/ta/root.cer"}, gen.SPKI(&a.PublicKey)))
	if err != nil {
		t.Failf("DecodeTAL: %v", err)
	}
	made, err := librpki.CreateTAL([]string{"rsync://h/ta/root.cer"}, &a.PublicKey)
	if err != nil {
		t.Failf("CreateTAL: %v", err)
	}
	for i, x := range []*librpki.RPKITAL{tal, made} {
		if got := x.CheckCertificate(c.Certificate); got != same {
			t.Failf("CheckCertificate (%s, created %v): %v, want %v", what, i == 1, got, same)
		}
	}
	t.NonTrivial("%s", what)
	t.Label("%s", what)
	t.Sample("%s", what)
}

// sameModulus is a key with the same modulus and another exponent.
func sameModulus(t *pbt.T, k *rsa.PrivateKey) *rsa.PrivateKey {
	one := big.NewInt(1)
	phi := new(big.Int).Mul(new(big.Int).Sub(k.Primes[0], one), new(big.Int).Sub(k.Primes[1], one))
	for e := 3 + 2*t.Intn(40); ; e += 2 {
		d := new(big.Int).ModInverse(big.NewInt(int64(e)), phi)
		if d == nil || e == k.E {
			continue
		}
		n := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: k.N, E: e}, D: d, Primes: k.Primes}
		n.Precompute()
		return n
	}
}

// c09Tree puts right and wrong certificates at the TALs' locations.
func c09Tree(t *pbt.T) {
	o := treeOpts(t)
	o.MinROAs = 1
	o.TAs = 3
	tr := gen.DrawTree(t, o)
	type edit struct {
		a   *gen.TANode
		raw func(d time.Duration) []byte
	}
	var edits []edit
	var kinds []string
	for i, a := range tr.TAs {
		a := a
		if t.Chance(2, 3) { // another way of writing the same TAL
			a.TALText = func(uri string, spki []byte) string {
				uris := []string{uri}
				for k := t.Intn(3); k > 0; k-- {
					x := fmt.Sprintf("https://other.example/%d.cer", k)
					if t.Bool() {
						uris = append([]string{x}, uris...)
					} else {
						uris = append(uris, pbt.Pick(t, x, fmt.Sprintf("rsync://other.example/%d.cer", k)))
					}
				}
				return string(writeTAL(t, uris, spki))
			}
		}
		mk := func(kind string, v gen.Tri, ed func(c *gen.Cert)) {
			a.V = v
			kinds = append(kinds, kind)
			tr.Faults = append(tr.Faults, fmt.Sprintf("TA %d: %s", i, kind))
			edits = append(edits, edit{a, func(d time.Duration) []byte {
				c := a.CA.CertOf(d)
				ed(&c)
				return c.DER()
			}})
		}
		other := tr.CAs[t.Intn(len(tr.CAs))]
		switch t.Intn(12) {
		case 0, 1: // as it is
		case 2:
			mk("names its own key as the issuer's", gen.Yes, func(c *gen.Cert) { c.AKI = c.SKI })
		case 3:
			k := sameModulus(t, a.CA.Key)
			mk("same modulus, other exponent", gen.No, func(c *gen.Cert) {
				c.Key, c.Signer = &k.PublicKey, k
				c.SKI = gen.KeyID(&k.PublicKey)
			})
		case 4:
			k := sameModulus(t, a.CA.Key)
			mk("same modulus, other exponent, claims the key identifier", gen.No, func(c *gen.Cert) { c.Key, c.Signer = &k.PublicKey, k })
		case 5:
			if other.Key == a.CA.Key {
				continue
			}
			mk("right key, signed by another CA", gen.No, func(c *gen.Cert) {
				c.Signer, c.AKI, c.Issuer = other.Key, gen.KeyID(&other.Key.PublicKey), other.Subject
			})
		case 6:
			if other == a.CA {
				continue
			}
			mk("another CA's certificate", gen.No, func(c *gen.Cert) { *c = other.CertOf(0) })
		case 7:
			k := tr.NextKey()
			if k == nil {
				continue
			}
			mk("self-signed with another key", gen.No, func(c *gen.Cert) {
				c.Key, c.Signer, c.SKI = &k.PublicKey, k, gen.KeyID(&k.PublicKey)
			})
		case 8:
			k := tr.NextKey()
			if k == nil {
				continue
			}
			mk("self-signed with another key under the right key identifier", gen.No, func(c *gen.Cert) { c.Key, c.Signer = &k.PublicKey, k })
		default:
			fs := gen.Of(gen.Faults(), gen.Anchor)
			f := fs[t.Intn(len(fs))]
			if c, s := f.Apply(t, tr); c != nil {
				tr.Faults = append(tr.Faults, s)
				kinds = append(kinds, f.Kind)
			}
		}
	}
	for _, e := range edits {
		e.a.RawCert = e.raw(0)
	}
	tr.Build(0)
	h := strict(tr)
	drawMode(t, tr, &h)
	ps := tr.Model(h.Settings)
	no, _, yes := verdicts(ps)
	logTree(t, tr, h)
	for _, x := range tr.TALs {
		t.Logf("TAL %q", x)
	}
	out := validate(tr, h)
	for _, k := range kinds {
		t.Label("%s", k)
	}
	if no > 0 || yes > 0 {
		t.NonTrivial("%s|%v", kindSig(kinds), yes > 0)
	}
	t.Sample("%s; %s; %d payloads due, %d not", shape(tr), strings.Join(tr.Faults, ", "), yes, no)
	b := boundsOf(ps)
	checkMax(t, "output", out.counts, b, ps)
	checkMin(t, "output", out.counts, b, ps)
}

// c09History gives one validator several certificates for the location of a
// TAL, as happens when a location is fetched again or from several places.
func c09History(t *pbt.T) {
	ks := gen.Keys()
	first := t.Intn(len(ks))
	v := pki.NewValidator()
	v.Time = chainTime
	type anchor struct {
		file  *pki.PKIFile
		key   *rsa.PrivateKey
		valid bool
		name  string
	}
	var as []*anchor
	for i := t.Range(1, 3); i > 0; i-- {
		a := &anchor{key: ks[(first+i)%len(ks)], name: fmt.Sprintf("rsync://h/ta/%d.cer", i)}
		talFile := &pki.PKIFile{Path: fmt.Sprintf("tal:%d", i), Type: pki.TYPE_TAL}
		_, sub, _, err := v.AddResource(talFile, writeTAL(t, []string{a.name}, gen.SPKI(&a.key.PublicKey)))
		if err != nil || len(sub) != 1 || sub[0].ComputePath() != a.name {
			t.Failf("TAL %s: %v %v", a.name, sub, err)
		}
		a.file = sub[0]
		as = append(as, a)
	}
	full := gen.Resources{V4: &gen.IPSet{F: 1, Blocks: []gen.Block{gen.PrefixBlock(gen.Prefix{F: 1})}}}
	var sig []string
	wrongAfter := false
	for n := t.Range(2, 8); n > 0; n-- {
		a := as[t.Intn(len(as))]
		key := a.key
		ct := gen.Cert{Serial: gen.Serial(t), Subject: "ta", Issuer: "ta", NotBefore: chainTime.AddDate(-1, 0, 0), NotAfter: chainTime.AddDate(1, 0, 0), CA: true, Res: full}
		kind := pbt.Pick(t, "right", "right", "other key", "expired", "other TAL's", "forged")
		want := kind == "right"
		switch kind {
		case "other key":
			key = ks[(first+10+t.Intn(5))%len(ks)]
		case "other TAL's":
			key = as[t.Intn(len(as))].key
			want = key == a.key
		case "expired":
			ct.NotAfter = chainTime.AddDate(0, 0, -1)
		}
		ct.Key, ct.Signer, ct.SKI = &key.PublicKey, key, gen.KeyID(&key.PublicKey)
		if kind == "forged" {
			ct.Signer = ks[(first+20)%len(ks)]
		}
		if t.Bool() {
			ct.AKI = ct.SKI
		}
		before := len(v.ValidObjects)
		ok, _, _, err := v.AddResource(a.file, ct.DER())
		t.Logf("%s: %s certificate: valid %v, %v", a.name, kind, ok, err)
		sig = append(sig, kind)
		if a.valid && !want {
			wrongAfter = true
		}
		switch {
		case !want && ok:
			t.Failf("%s: %s certificate accepted", a.name, kind)
		case !want && len(v.ValidObjects) != before:
			t.Failf("%s: %s certificate refused, but recorded as valid", a.name, kind)
		case want && !a.valid && !ok:
			t.Failf("%s: right certificate refused: %v", a.name, err)
		case want:
			a.valid = true
		}
		for _, b := range as {
			if _, found := v.ValidObjects[string(gen.KeyID(&b.key.PublicKey))]; found != b.valid {
				t.Failf("%s is a trust anchor: %v, want %v", b.name, found, b.valid)
			}
		}
	}
	if wrongAfter {
		t.NonTrivial("%d|%s", len(as), strings.Join(sig, ","))
	}
	t.Sample("%d TALs: %s", len(as), strings.Join(sig, ", "))
}

func propC09() pbt.Property {
	return pbt.Property{
		ID:   "C09",
		Rule: "codec: every case (signature: key size, number of URIs, line ends); key: every case; history: a wrong certificate after the right one; tree: some payload due or forbidden; signature: the substitutions",
		Suites: []pbt.Suite{
			{Name: "codec", Rule: "TALs with comments, 1-4 URIs, LF or CRLF, any base64 width, keys of 500-8192 bits: decoded as written, and preserved by encoding with any line width", Quick: 12000, Thorough: 400000, Prop: c09Codec},
			{Name: "key", Rule: "a certificate with the TAL's key, another key, another exponent or one bit of the modulus changed", Quick: 6000, Thorough: 100000, Prop: c09Key},
			{Name: "history", Rule: "one validator is given up to 8 right, wrong, expired and forged certificates for the locations of 1-3 TALs", Quick: 3000, Thorough: 60000, Prop: c09History},
			{Name: "tree", Rule: "trees of 1-3 trust anchors with right and wrong certificates at the TALs' locations: everything below the right ones and nothing below the others", Quick: 2500, Thorough: 80000, Prop: c09Tree},
		},
	}
}
