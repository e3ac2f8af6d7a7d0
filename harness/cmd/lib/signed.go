//go:build go1.22

package main

import (
	"bytes"
	"crypto"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/big"
	"net"
	"strings"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// ---- a signed object and what decoding it says ------------------------------

type sobj struct {
	kind string // roa, mft, xml
	cms  gen.CMS
	cert gen.Cert
	key  *rsa.PrivateKey
	desc string
}

// view is what the library reports of a signed object.
type view struct {
	err     error
	intact  bool
	content string // decoded payload
	key     *rsa.PublicKey
	time    time.Time
}

func (v view) String() string {
	if v.err != nil {
		return "error: " + v.err.Error()
	}
	return fmt.Sprintf("intact=%v content=%q", v.intact, clip(v.content))
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func roaView(r *librpki.RPKIROA) string {
	var b strings.Builder
	fmt.Fprintf(&b, "AS%d", uint32(r.ASN))
	for _, e := range r.Entries {
		fmt.Fprintf(&b, " %s-%d", showNet(e.IPNet), e.MaxLength)
	}
	return b.String()
}

// showNet formats a prefix by the family its mask tells: net.IPNet prints
// the prefixes of ::ffff:0:0/96 as IPv4 ones.
func showNet(n *net.IPNet) string {
	plen, bits := n.Mask.Size()
	switch {
	case bits == 32 && n.IP.To4() != nil:
		return gen.Prefix{F: 1, A: gen.FromBytes(n.IP.To4()), Plen: plen}.String()
	case bits == 128 && len(n.IP) == 16:
		return gen.Prefix{F: 2, A: gen.FromBytes(n.IP), Plen: plen}.String()
	}
	return fmt.Sprintf("%x/%x", []byte(n.IP), []byte(n.Mask))
}

func mftView(c librpki.ManifestContent) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v %d %d %v", c.ManifestNumber, c.ThisUpdate.Unix(), c.NextUpdate.Unix(), c.FileHashAlg)
	for _, f := range c.FileList {
		fmt.Fprintf(&b, " %q=%x/%d", f.Name, f.Hash.Bytes, f.Hash.BitLength)
	}
	return b.String()
}

// look decodes data (already DER) as the kind given.
func look(kind string, data []byte, strict bool) view {
	cf := &librpki.DecoderConfig{ValidateStrict: strict}
	data = append([]byte(nil), data...)
	var v view
	switch kind {
	case "roa":
		r, err := cf.DecodeROA(data)
		v.err = err
		if err == nil {
			v.intact = r.InnerValid
			if r.InnerValid != (r.InnerValidityError == nil) {
				v.err = fmt.Errorf("InnerValid %v with error %v", r.InnerValid, r.InnerValidityError)
			}
			v.content = roaView(r)
			v.key, _ = r.Certificate.Certificate.PublicKey.(*rsa.PublicKey)
			v.time = r.SigningTime
		}
	case "mft":
		m, err := cf.DecodeManifest(data)
		v.err = err
		if err == nil {
			v.intact = m.InnerValid
			if m.InnerValid != (m.InnerValidityError == nil) {
				v.err = fmt.Errorf("InnerValid %v with error %v", m.InnerValid, m.InnerValidityError)
			}
			v.content = mftView(m.Content)
			v.key, _ = m.Certificate.Certificate.PublicKey.(*rsa.PublicKey)
		}
	case "xml":
		x, err := librpki.DecodeXML(data)
		v.err = err
		if err == nil {
			v.intact = x.InnerValid
			if x.InnerValid != (x.InnerValidityError == nil) {
				v.err = fmt.Errorf("InnerValid %v with error %v", x.InnerValid, x.InnerValidityError)
			}
			v.content = string(x.Content)
			v.key, _ = x.Certificate.Certificate.PublicKey.(*rsa.PublicKey)
		}
	}
	return v
}

// certSerial is the serial number of generated certificates.
func drawSerial(t *pbt.T) *big.Int {
	switch t.Intn(3) {
	case 0:
		return big.NewInt(int64(t.Range(1, 300)))
	case 1:
		return new(big.Int).SetUint64(t.Uint64()>>1 + 1)
	default:
		b := t.Bytes(20)
		b[0] &= 0x7f
		return new(big.Int).Add(new(big.Int).SetBytes(b), big.NewInt(1))
	}
}

// drawKey draws a key of any family kept.
func drawKey(t *pbt.T) *rsa.PrivateKey {
	switch t.Intn(6) {
	case 0, 1, 2:
		k := gen.Keys()
		return k[t.Intn(len(k))]
	case 3, 4:
		k := gen.KeysE3()
		return k[t.Intn(len(k))]
	default:
		k := gen.KeysSizes()
		return k[t.Intn(len(k))]
	}
}

func drawTime(t *pbt.T) time.Time {
	switch t.Intn(8) {
	case 3:
		return time.Date(2262, 4, 11, 23, 47, 17, 0, time.UTC)
	case 4:
		return time.Date(9998, 12, 31, 23, 59, 59, 0, time.UTC)
	case 0:
		return time.Date(1951, 2, 3, 4, 5, 6, 0, time.UTC)
	case 1:
		return time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC)
	case 2:
		return time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC)
	default:
		return time.Unix(int64(t.Intn(2<<30)), 0).UTC()
	}
}

func drawROAEntries(t *pbt.T, max int) []gen.ROAEntry {
	var es []gen.ROAEntry
	for i := t.Range(1, max); i > 0; i-- {
		f := gen.AFI(1 + t.Intn(2))
		p := gen.DrawPrefix(t, f)
		e := gen.ROAEntry{P: p, MaxLen: -1}
		if t.Bool() {
			e.MaxLen = p.Plen + t.Intn(f.Bits()-p.Plen+1)
		}
		es = append(es, e)
	}
	return es
}

func drawName(t *pbt.T) string {
	n := t.Range(1, 12)
	if t.Chance(1, 8) {
		n = pbt.Pick(t, 100, 127, 128, 250)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFXYZ0123456789-_"[t.Intn(47)])
	}
	return b.String() + pbt.Pick(t, ".cer", ".roa", ".crl", ".mft", ".gbr", "")
}

// drawContent draws the kind, its eContent, and how it should be shown.
func drawContent(t *pbt.T, kind string) (typ, content []byte, shown string) {
	switch kind {
	case "roa":
		asn := uint32(t.Uint64())
		if t.Chance(1, 3) {
			asn = pbt.Pick(t, uint32(0), 1, 127, 128, 255, 256, 65535, 65536, 1<<31-1, 1<<31, 1<<32-1)
		}
		es := drawROAEntries(t, 6)
		var b strings.Builder
		fmt.Fprintf(&b, "AS%d", asn)
		for _, f := range []gen.AFI{1, 2} {
			for _, e := range es {
				if e.P.F == f {
					fmt.Fprintf(&b, " %v-%d", e.P, e.EffMax())
				}
			}
		}
		return gen.OidROA, gen.ROAContent(asn, es), b.String()
	case "mft":
		num := drawSerial(t)
		this, next := drawTime(t), drawTime(t)
		var fs []gen.FileHash
		var b strings.Builder
		fmt.Fprintf(&b, "%v %d %d %v", num, this.Unix(), next.Unix(), "2.16.840.1.101.3.4.2.1")
		n := t.Intn(6)
		if t.Chance(1, 10) {
			n = t.Range(20, 60)
		}
		for i := 0; i < n; i++ {
			f := gen.FileHash{Name: drawName(t), Hash: t.Bytes(32)}
			fs = append(fs, f)
			fmt.Fprintf(&b, " %q=%x/256", f.Name, f.Hash)
		}
		return gen.OidManifest, gen.ManifestContent(num, this, next, fs), b.String()
	default:
		n := t.Range(1, 60)
		if t.Chance(1, 6) {
			n = pbt.Pick(t, 127, 128, 255, 256, 1000)
		}
		c := t.Bytes(n)
		if t.Bool() {
			c = []byte("<msg xmlns=\"http://www.hactrn.net/uris/rpki/publication-spec/\" version=\"4\">" + drawName(t) + "</msg>")
		}
		return gen.OidXML, c, string(c)
	}
}

// drawSigned draws a well-formed, correctly signed object.
func drawSigned(t *pbt.T) (*sobj, string) {
	o := &sobj{kind: pbt.Pick(t, "roa", "mft", "xml")}
	o.key = drawKey(t)
	typ, content, shown := drawContent(t, o.kind)
	o.cert = gen.Cert{
		Serial: drawSerial(t), Issuer: "ca", Subject: "ee",
		NotBefore: time.Unix(1e9, 0).UTC(), NotAfter: time.Unix(2e9, 0).UTC(),
		Key: &o.key.PublicKey, SKI: gen.KeyID(&o.key.PublicKey), AKI: t.Bytes(20),
		SIA:    []gen.Access{{Method: gen.OidSignedObject, URI: "rsync://h/m/x.roa"}},
		Signer: gen.Keys()[t.Intn(4)],
	}
	o.cert.Res.V4 = &gen.IPSet{Inherit: true}
	o.cms = gen.CMS{Type: typ, Content: content, SKI: o.cert.SKI, Signer: o.key, EE: o.cert.DER()}
	if t.Chance(5, 6) {
		o.cms.SigningTime = drawTime(t)
		o.cms.BinTime = t.Chance(1, 4)
	}
	if t.Chance(1, 4) && o.kind != "xml" {
		o.cms.Chunks = t.Range(1, 80)
	}
	switch t.Intn(4) {
	case 0:
		o.cms.ExtraAttrs = append(o.cms.ExtraAttrs, gen.Attr{OID: gen.OID(1, 2, 3, 4, t.Intn(400)), Value: gen.Octets(t.Bytes(t.Intn(200)))})
	case 1:
		// enough attributes for a two or three octet length header
		for i := t.Range(1, 4); i > 0; i-- {
			o.cms.ExtraAttrs = append(o.cms.ExtraAttrs, gen.Attr{OID: gen.OID(1, 2, 3, 5, i), Value: gen.Octets(bytes.Repeat([]byte{byte(i)}, pbt.Pick(t, 10, 60, 120, 250, 300)))})
		}
	}
	if t.Chance(1, 3) {
		o.cms.AttrPerm = t.Perm(len(o.cms.Attrs()))
	}
	o.desc = fmt.Sprintf("%s key=%d/e%d attrs=%d chunks=%d", o.kind, o.key.N.BitLen(), o.key.E, len(o.cms.Attrs()), o.cms.Chunks)
	return o, shown
}

func cmsIntact(t *pbt.T) {
	o, shown := drawSigned(t)
	der := o.cms.DER()
	t.Label("kind %s", o.kind)
	t.Label("chunked=%v", o.cms.Chunks > 0)
	t.Label("keybits %d e %d", o.key.N.BitLen(), o.key.E)
	t.NonTrivial("%x", sha256.Sum256(der))
	t.Sample("%s: %s", o.desc, clip(shown))
	v := look(o.kind, der, t.Bool())
	if v.err != nil || !v.intact {
		t.Failf("correctly signed object (%s) refused: %v", o.desc, v)
	}
	if v.content != shown {
		t.Failf("%s decodes to %q, want %q", o.desc, clip(v.content), clip(shown))
	}
	if v.key == nil || v.key.N.Cmp(o.key.N) != 0 || v.key.E != o.key.E {
		t.Failf("%s: certificate of another key", o.desc)
	}
	if o.kind == "roa" && !o.cms.SigningTime.IsZero() && !v.time.Equal(o.cms.SigningTime) {
		t.Failf("%s: signing time %v, want %v", o.desc, v.time, o.cms.SigningTime)
	}
	c, err := librpki.DecodeCMS(der)
	if err != nil {
		t.Failf("DecodeCMS: %v", err)
	}
	st, err := c.GetSigningTime()
	if !o.cms.SigningTime.IsZero() && (err != nil || !st.Equal(o.cms.SigningTime)) {
		t.Failf("%s: GetSigningTime %v %v, want %v", o.desc, st, err, o.cms.SigningTime)
	}
	cert, err := c.GetRPKICertificate()
	if err != nil {
		t.Failf("GetRPKICertificate: %v", err)
	}
	if err := c.Validate(o.cms.Content, cert.Certificate); err != nil {
		t.Failf("%s: Validate of the true content: %v", o.desc, err)
	}
	other := append([]byte(nil), o.cms.Content...)
	other[t.Intn(len(other))] ^= byte(1 << t.Intn(8))
	if err := c.Validate(other, cert.Certificate); err == nil {
		t.Failf("%s: Validate accepts other content", o.desc)
	}
}

// ---- forgeries --------------------------------------------------------------

var digestInfoSHA256 = []byte{0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20}

// rawRSA applies the private operation to a block.
func rawRSA(k *rsa.PrivateKey, em []byte) []byte {
	m := new(big.Int).SetBytes(em)
	m.Mod(m, k.N)
	s := new(big.Int).Exp(m, k.D, k.N)
	return s.FillBytes(make([]byte, (k.N.BitLen()+7)/8))
}

func cubeRoot(n *big.Int) *big.Int {
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), uint(n.BitLen()/3+2))
	for lo.Cmp(hi) < 0 {
		mid := new(big.Int).Add(lo, hi)
		mid.Add(mid, big.NewInt(1)).Rsh(mid, 1)
		c := new(big.Int).Exp(mid, big.NewInt(3), nil)
		if c.Cmp(n) <= 0 {
			lo = mid
		} else {
			hi = mid.Sub(mid, big.NewInt(1))
		}
	}
	return lo
}

// cubeRootMod2 is the cube root of odd n modulo 2^k.
func cubeRootMod2(n *big.Int, k uint) *big.Int {
	x := big.NewInt(1)
	for i := uint(1); i < k; i++ {
		c := new(big.Int).Exp(x, big.NewInt(3), nil)
		c.Xor(c, n)
		if c.Bit(int(i)) == 1 {
			x.SetBit(x, int(i), 1)
		}
	}
	return x
}

// forgePrefixE3 builds a signature whose cube starts with the block given.
func forgePrefixE3(k *rsa.PublicKey, start []byte) []byte {
	size := (k.N.BitLen() + 7) / 8
	hi := new(big.Int).SetBytes(append(append([]byte(nil), start...), bytes.Repeat([]byte{0xff}, size-len(start))...))
	return cubeRoot(hi).FillBytes(make([]byte, size))
}

// forgeSuffixE3 builds a signature whose cube ends with the block given.
func forgeSuffixE3(k *rsa.PublicKey, end []byte) []byte {
	size := (k.N.BitLen() + 7) / 8
	s := cubeRootMod2(new(big.Int).SetBytes(end), uint(len(end)*8))
	b := s.Bytes()
	if len(b) > size {
		return make([]byte, size)
	}
	return s.FillBytes(make([]byte, size))
}

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

// pkcs1Block pads a digest info to the size of the key.
func pkcs1Block(size int, bt byte, di []byte) []byte {
	return cat([]byte{0, bt}, bytes.Repeat([]byte{0xff}, size-3-len(di)), []byte{0}, di)
}

type forgery struct {
	name string
	// apply edits the object before encoding; false: does not apply here.
	apply func(t *pbt.T, o *sobj) bool
}

func editSig(f func(t *pbt.T, o *sobj, sig []byte) []byte) func(*pbt.T, *sobj) bool {
	return func(t *pbt.T, o *sobj) bool {
		o.cms.TamperSig = func(sig []byte) []byte { return f(t, o, append([]byte(nil), sig...)) }
		return true
	}
}

// blockSig signs the attributes with a hand-made block.
func blockSig(f func(t *pbt.T, size int, hash []byte) []byte) func(*pbt.T, *sobj) bool {
	return func(t *pbt.T, o *sobj) bool {
		size := (o.key.N.BitLen() + 7) / 8
		h := sha256.Sum256(gen.SetOf(o.cms.Attrs()...))
		em := f(t, size, h[:])
		if em == nil || len(em) != size {
			return false
		}
		sig := rawRSA(o.key, em)
		o.cms.TamperSig = func([]byte) []byte { return sig }
		return true
	}
}

func e3(f func(t *pbt.T, k *rsa.PublicKey, hash []byte) []byte) func(*pbt.T, *sobj) bool {
	return func(t *pbt.T, o *sobj) bool {
		ks := gen.KeysE3()
		k := ks[t.Intn(len(ks))]
		o.key = k
		o.cert.Key = &k.PublicKey
		o.cert.SKI = gen.KeyID(&k.PublicKey)
		o.cms.SKI = o.cert.SKI
		o.cms.EE = o.cert.DER()
		o.cms.Signer = gen.Keys()[63] // the private key of k is not used
		// vary the attributes until the hash is odd, as the suffix forgery needs
		for i := 0; i < 64; i++ {
			h := sha256.Sum256(gen.SetOf(o.cms.Attrs()...))
			if h[31]&1 == 1 {
				sig := f(t, &k.PublicKey, h[:])
				o.cms.TamperSig = func([]byte) []byte { return sig }
				o.desc += fmt.Sprintf(" forged-key=%d/e3", k.N.BitLen())
				return true
			}
			o.cms.ExtraAttrs = append(o.cms.ExtraAttrs[:0:0], gen.Attr{OID: gen.OID(1, 2, 3, 6), Value: gen.Int(int64(i))})
			o.cms.AttrPerm = nil
		}
		return false
	}
}

var forgeries = []forgery{
	{"content-bit", func(t *pbt.T, o *sobj) bool {
		p, b := t.Intn(len(o.cms.Content)), byte(1<<t.Intn(8))
		o.cms.TamperContent = func(c []byte) []byte { c[p] ^= b; return c }
		return true
	}},
	{"content-replaced", func(t *pbt.T, o *sobj) bool {
		_, other, _ := drawContent(t, o.kind)
		if bytes.Equal(other, o.cms.Content) {
			return false
		}
		o.cms.TamperContent = func(c []byte) []byte { return other }
		return true
	}},
	{"content-appended", func(t *pbt.T, o *sobj) bool {
		x := t.Bytes(t.Range(1, 9))
		if t.Bool() {
			x = gen.Octets(x)
		}
		o.cms.TamperContent = func(c []byte) []byte { return append(c, x...) }
		return true
	}},
	{"content-truncated", func(t *pbt.T, o *sobj) bool {
		n := t.Intn(len(o.cms.Content))
		o.cms.TamperContent = func(c []byte) []byte { return c[:n] }
		return true
	}},
	{"digest-wrong", func(t *pbt.T, o *sobj) bool {
		h := sha256.Sum256(o.cms.Content)
		d := h[:]
		switch t.Intn(6) {
		case 0:
			d[t.Intn(32)] ^= byte(1 << t.Intn(8))
		case 1:
			d = d[:t.Intn(32)]
		case 2:
			d = append(d, t.Bytes(t.Range(1, 8))...)
		case 3:
			x := sha1.Sum(o.cms.Content)
			d = x[:]
		case 4:
			x := sha512.Sum512(o.cms.Content)
			d = x[:]
		default:
			d = t.Bytes(32)
		}
		if d == nil {
			d = []byte{}
		}
		o.cms.Digest = d
		return true
	}},
	{"digest-absent", func(t *pbt.T, o *sobj) bool {
		attrs := o.cms.Attrs()
		var l [][]byte
		mark := gen.OID(1, 2, 840, 113549, 1, 9, 4)
		for _, a := range attrs {
			if !bytes.Contains(a, mark) {
				l = append(l, a)
			}
		}
		set := gen.SetOf(l...)
		o.cms.AttrPerm = nil
		o.cms.TamperAttrs = func([]byte) []byte { return set }
		o.cms.TamperSig = func([]byte) []byte { return gen.Sign(o.key, set) }
		return true
	}},
	{"attrs-none-content-signed", func(t *pbt.T, o *sobj) bool {
		o.cms.AttrPerm = nil
		o.cms.TamperAttrs = func([]byte) []byte { return gen.Set() }
		o.cms.TamperSig = func([]byte) []byte { return gen.Sign(o.key, o.cms.Content) }
		return true
	}},
	{"attr-bit", func(t *pbt.T, o *sobj) bool {
		// flip inside an attribute value: the digest, the time or an extra attribute
		attrs := o.cms.Attrs()
		i := t.Intn(len(attrs))
		if i == 0 {
			i = len(attrs) - 1
		}
		a := attrs[i]
		a[len(a)-1-t.Intn(6)] ^= byte(1 << t.Intn(7))
		set := gen.SetOf(attrs...)
		o.cms.AttrPerm = nil
		o.cms.TamperAttrs = func([]byte) []byte { return set }
		return true
	}},
	{"attr-dropped", func(t *pbt.T, o *sobj) bool {
		attrs := o.cms.Attrs()
		i := t.Intn(len(attrs))
		set := gen.SetOf(append(append([][]byte(nil), attrs[:i]...), attrs[i+1:]...)...)
		o.cms.AttrPerm = nil
		o.cms.TamperAttrs = func([]byte) []byte { return set }
		return true
	}},
	{"attr-added", func(t *pbt.T, o *sobj) bool {
		x := gen.Seq(gen.OID(1, 2, 3, 9, t.Intn(100)), gen.Set(gen.Int(int64(t.Intn(1000)))))
		if t.Bool() {
			x = gen.Seq(gen.OID(1, 2, 840, 113549, 1, 9, 5), gen.Set(gen.Time(drawTime(t))))
		}
		set := gen.SetOf(append(o.cms.Attrs(), x)...)
		o.cms.AttrPerm = nil
		o.cms.TamperAttrs = func([]byte) []byte { return set }
		return true
	}},
	{"content-and-digest-consistent", func(t *pbt.T, o *sobj) bool {
		_, other, _ := drawContent(t, o.kind)
		if bytes.Equal(other, o.cms.Content) {
			return false
		}
		c2 := o.cms
		c2.Content = other
		set := gen.SetOf(c2.Attrs()...)
		o.cms.AttrPerm = nil
		o.cms.TamperContent = func([]byte) []byte { return other }
		o.cms.TamperAttrs = func([]byte) []byte { return set }
		return true
	}},
	{"sig-bit", editSig(func(t *pbt.T, o *sobj, s []byte) []byte {
		s[t.Intn(len(s))] ^= byte(1 << t.Intn(8))
		return s
	})},
	{"sig-truncated", editSig(func(t *pbt.T, o *sobj, s []byte) []byte { return s[:t.Intn(len(s))] })},
	{"sig-extended", editSig(func(t *pbt.T, o *sobj, s []byte) []byte {
		if t.Bool() {
			return append(s, t.Bytes(t.Range(1, 4))...)
		}
		return append(make([]byte, t.Range(1, 3)), s...)
	})},
	{"sig-plus-modulus", editSig(func(t *pbt.T, o *sobj, s []byte) []byte {
		x := new(big.Int).Add(new(big.Int).SetBytes(s), o.key.N)
		return x.Bytes()
	})},
	{"sig-negated", editSig(func(t *pbt.T, o *sobj, s []byte) []byte {
		x := new(big.Int).Sub(o.key.N, new(big.Int).SetBytes(s))
		return x.FillBytes(make([]byte, len(s)))
	})},
	{"sig-constant", editSig(func(t *pbt.T, o *sobj, s []byte) []byte {
		n := len(s)
		switch t.Intn(4) {
		case 0:
			return make([]byte, n)
		case 1:
			b := make([]byte, n)
			b[n-1] = 1
			return b
		case 2:
			return new(big.Int).Sub(o.key.N, big.NewInt(1)).FillBytes(make([]byte, n))
		default:
			return t.Bytes(n)
		}
	})},
	{"sig-over-content", func(t *pbt.T, o *sobj) bool {
		o.cms.TamperSig = func([]byte) []byte { return gen.Sign(o.key, o.cms.Content) }
		return true
	}},
	{"sig-over-implicit-tag", func(t *pbt.T, o *sobj) bool {
		set := gen.SetOf(o.cms.Attrs()...)
		set[0] = 0xa0
		o.cms.TamperSig = func([]byte) []byte { return gen.Sign(o.key, set) }
		return true
	}},
	{"sig-over-unsorted", func(t *pbt.T, o *sobj) bool {
		attrs := o.cms.Attrs()
		p := t.Perm(len(attrs))
		var l [][]byte
		for _, i := range p {
			l = append(l, attrs[i])
		}
		set := gen.Set(l...)
		if bytes.Equal(set, gen.SetOf(attrs...)) {
			return false
		}
		o.cms.AttrPerm = p
		o.cms.TamperSig = func([]byte) []byte { return gen.Sign(o.key, set) }
		return true
	}},
	{"sig-of-another-key", func(t *pbt.T, o *sobj) bool {
		k := drawKey(t)
		if k.N.Cmp(o.key.N) == 0 {
			return false
		}
		o.cms.Signer = k
		return true
	}},
	{"certificate-replaced", func(t *pbt.T, o *sobj) bool {
		k := drawKey(t)
		if k.N.Cmp(o.key.N) == 0 {
			return false
		}
		o.cert.Key = &k.PublicKey // the key identifiers stay those of the true signer
		o.cms.EE = o.cert.DER()
		return true
	}},
	{"sig-sha1", blockOther(crypto.SHA1)},
	{"sig-sha512", blockOther(crypto.SHA512)},
	{"block-no-digestinfo", blockSig(func(t *pbt.T, size int, h []byte) []byte { return pkcs1Block(size, 1, h) })},
	{"block-type", blockSig(func(t *pbt.T, size int, h []byte) []byte {
		return pkcs1Block(size, pbt.Pick(t, byte(0), 2, 3), cat(digestInfoSHA256, h))
	})},
	{"block-trailing", blockSig(func(t *pbt.T, size int, h []byte) []byte {
		n := t.Range(1, size-3-51-2)
		return pkcs1Block(size, 1, cat(digestInfoSHA256, h, t.Bytes(n)))
	})},
	{"block-padding-byte", blockSig(func(t *pbt.T, size int, h []byte) []byte {
		em := pkcs1Block(size, 1, cat(digestInfoSHA256, h))
		em[2+t.Intn(size-3-51)] ^= byte(1 << t.Intn(8))
		return em
	})},
	{"block-short-padding", blockSig(func(t *pbt.T, size int, h []byte) []byte {
		// few ff octets, then the digest info, then free octets
		di := cat(digestInfoSHA256, h)
		n := t.Intn(9)
		em := cat([]byte{0, 1}, bytes.Repeat([]byte{0xff}, n), []byte{0}, di)
		if len(em) >= size {
			return nil
		}
		return append(em, t.Bytes(size-len(em))...)
	})},
	{"block-digestinfo-late", blockSig(func(t *pbt.T, size int, h []byte) []byte {
		di := cat([]byte{0xff, 0}, digestInfoSHA256, h)
		b := append(t.Bytes(size-len(di)), di...)
		b[0] = 0
		if bytes.Equal(b, pkcs1Block(size, 1, cat(digestInfoSHA256, h))) {
			return nil
		}
		return b
	})},
	{"block-digest-truncated", blockSig(func(t *pbt.T, size int, h []byte) []byte {
		n := t.Intn(32)
		di := gen.Seq(gen.Seq(gen.OID(2, 16, 840, 1, 101, 3, 4, 2, 1), gen.Null()), gen.Octets(h[:n]))
		return pkcs1Block(size, 1, di)
	})},
	{"block-other-oid", blockSig(func(t *pbt.T, size int, h []byte) []byte {
		di := gen.Seq(gen.Seq(gen.OID(2, 16, 840, 1, 101, 3, 4, 2, t.Range(2, 9)), gen.Null()), gen.Octets(h))
		return pkcs1Block(size, 1, di)
	})},
	{"block-bare-octets", blockSig(func(t *pbt.T, size int, h []byte) []byte { return pkcs1Block(size, 1, gen.Octets(h)) })},
	{"e3-prefix", e3(func(t *pbt.T, k *rsa.PublicKey, h []byte) []byte {
		di := cat(digestInfoSHA256, h)
		if t.Bool() {
			di = gen.Seq(gen.Seq(gen.OID(1, 2), gen.Null()), gen.Octets(h))
		}
		return forgePrefixE3(k, cat([]byte{0, 1}, bytes.Repeat([]byte{0xff}, t.Range(0, 9)), []byte{0xff, 0}, di))
	})},
	{"e3-suffix", e3(func(t *pbt.T, k *rsa.PublicKey, h []byte) []byte {
		di := cat([]byte{0xff, 0}, digestInfoSHA256, h)
		if t.Bool() {
			di = cat([]byte{0xff, 0}, gen.Seq(gen.Seq(gen.OID(1, 2), gen.Null()), gen.Octets(h)))
		}
		return forgeSuffixE3(k, di)
	})},
	{"no-signer-info", func(t *pbt.T, o *sobj) bool { o.cms.NoSignerInfo = true; return true }},
	{"no-certificate", func(t *pbt.T, o *sobj) bool { o.cms.NoCerts = true; return true }},
	{"sig-of-another-object", func(t *pbt.T, o *sobj) bool {
		// a true signature by the same key, over another object's attributes
		_, other, _ := drawContent(t, o.kind)
		if bytes.Equal(other, o.cms.Content) {
			return false
		}
		c2 := o.cms
		c2.Content, c2.Digest = other, nil
		set := gen.SetOf(c2.Attrs()...)
		o.cms.TamperSig = func([]byte) []byte { return gen.Sign(o.key, set) }
		return true
	}},
}

func blockOther(h crypto.Hash) func(*pbt.T, *sobj) bool {
	return func(t *pbt.T, o *sobj) bool {
		hh := h.New()
		hh.Write(gen.SetOf(o.cms.Attrs()...))
		s, err := rsa.SignPKCS1v15(nil, o.key, h, hh.Sum(nil))
		if err != nil {
			return false
		}
		o.cms.TamperSig = func([]byte) []byte { return s }
		return true
	}
}

func cmsForged(t *pbt.T) {
	o, shown := drawSigned(t)
	f := forgeries[t.Intn(len(forgeries))]
	if !f.apply(t, o) {
		t.Discard()
	}
	der := o.cms.DER()
	t.Label("forgery %s", f.name)
	t.NonTrivial("%s %x", f.name, sha256.Sum256(der))
	t.Sample("%s (%s): %s", f.name, o.desc, clip(shown))
	v := look(o.kind, der, t.Bool())
	if v.err == nil && v.intact {
		t.Failf("forged object (%s, %s) reported intact with content %q", f.name, o.desc, clip(v.content))
	}
}

// cmsMutated edits the encoding anywhere: an object still reported intact must
// have the same content, under the same key.
func cmsMutated(t *pbt.T) {
	o, shown := drawSigned(t)
	der := o.cms.DER()
	m := append([]byte(nil), der...)
	var how []string
	for i := t.Range(1, 3); i > 0; i-- {
		p := t.Intn(len(m))
		switch t.Intn(7) {
		case 0, 1, 2:
			m[p] ^= byte(1 << t.Intn(8))
			how = append(how, fmt.Sprintf("flip@%d", p))
		case 3:
			m[p] = byte(t.Intn(256))
			how = append(how, fmt.Sprintf("set@%d", p))
		case 4:
			m = append(m[:p:p], m[p+1:]...)
			how = append(how, fmt.Sprintf("del@%d", p))
		case 5:
			m = append(m[:p:p], append([]byte{byte(t.Intn(256))}, m[p:]...)...)
			how = append(how, fmt.Sprintf("ins@%d", p))
		default:
			q := t.Intn(len(m))
			m[p], m[q] = m[q], m[p]
			how = append(how, fmt.Sprintf("swap@%d,%d", p, q))
		}
		if len(m) == 0 {
			t.Discard()
		}
	}
	if bytes.Equal(m, der) {
		t.Discard()
	}
	v := look(o.kind, m, t.Bool())
	t.Label("decoded=%v intact=%v", v.err == nil, v.err == nil && v.intact)
	t.NonTrivial("%x", sha256.Sum256(m))
	t.Sample("%s %v -> %v", o.desc, how, v.err == nil && v.intact)
	if v.err != nil || !v.intact {
		return
	}
	if v.content != shown {
		t.Failf("object (%s) altered by %v is intact with content %q, signed was %q", o.desc, how, clip(v.content), clip(shown))
	}
	if v.key == nil || v.key.N.Cmp(o.key.N) != 0 || v.key.E != o.key.E {
		t.Failf("object (%s) altered by %v is intact under another key", o.desc, how)
	}
}

func propC08() pbt.Property {
	return pbt.Property{
		ID:   "C08",
		Rule: "non-trivial: distinct objects; forged and mutated ones always differ from a correctly signed object",
		Assumptions: []string{
			"octets that are neither content, signed attributes, signature nor certificate (versions, digest algorithm lists, unsigned attributes, trailing octets) may be altered without effect",
			"content is compared as decoded (AS number, entries, manifest fields, XML octets)",
		},
		Suites: []pbt.Suite{
			{Name: "intact", Rule: "ROAs, manifests and XML messages of any content, key size, attribute order and segmentation, signed by the generator's own CMS writer: must decode and be intact", Quick: 6000, Thorough: 200000, Prop: cmsIntact},
			{Name: "forged", Rule: fmt.Sprintf("%d forgery classes (content, digest, attributes, signature value, padding blocks, low-exponent, certificate): must not be intact", len(forgeries)), Quick: 12000, Thorough: 400000, Prop: cmsForged},
			{Name: "mutated", Rule: "1-3 byte edits anywhere: intact only with the same content and key", Quick: 15000, Thorough: 600000, Prop: cmsMutated},
		},
	}
}
