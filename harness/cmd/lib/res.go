//go:build go1.22

package main

import (
	"bytes"
	"encoding/asn1"
	"fmt"
	"net"
	"strings"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// ---- drawing resource sets ---------------------------------------------------

func drawIPSet(t *pbt.T, f gen.AFI) *gen.IPSet {
	s := &gen.IPSet{F: f}
	if t.Chance(1, 6) {
		s.Inherit = true
		return s
	}
	for i := t.Range(1, 6); i > 0; i-- {
		b := gen.DrawBlock(t, f)
		if f == 2 && (gen.Mapped(b.Min) || gen.Mapped(b.Max)) {
			continue
		}
		s.Blocks = append(s.Blocks, b)
	}
	if len(s.Blocks) == 0 {
		s.Inherit = true
	}
	return s
}

func drawASSet(t *pbt.T) *gen.ASSet {
	if t.Chance(1, 6) {
		return &gen.ASSet{Inherit: true}
	}
	s := &gen.ASSet{}
	for i := t.Range(1, 6); i > 0; i-- {
		s.Blocks = append(s.Blocks, gen.DrawASBlock(t))
	}
	return s
}

func asSetDER(s *gen.ASSet) []byte {
	if s.Inherit {
		return gen.Null()
	}
	var bl [][]byte
	for _, b := range s.Blocks {
		if b.Range {
			bl = append(bl, gen.Seq(gen.Int(int64(b.Min)), gen.Int(int64(b.Max))))
		} else {
			bl = append(bl, gen.Int(int64(b.Min)))
		}
	}
	return gen.Seq(bl...)
}

// ---- library values -----------------------------------------------------------

// netIP holds an address the way callers do: IPv4 in 4 or 16 octets.
func netIP(t *pbt.T, f gen.AFI, a gen.U128) net.IP {
	ip := net.IP(gen.AddrBytes(f, a))
	if f == 1 && t.Chance(1, 3) {
		return ip.To16()
	}
	return ip
}

func libIP(t *pbt.T, b gen.Block) librpki.IPCertificateInformation {
	if b.Plen >= 0 {
		a := b.Min
		if t.Chance(1, 3) { // host bits set: only the prefix counts
			x := a.Or(gen.DrawU128(t, b.Max.Sub(b.Min)))
			if b.F == 1 || !gen.Mapped(x) {
				a = x
			}
		}
		return &librpki.IPNet{IPNet: &net.IPNet{IP: netIP(t, b.F, a), Mask: net.CIDRMask(b.Plen, b.F.Bits())}}
	}
	return &librpki.IPAddressRange{Min: netIP(t, b.F, b.Min), Max: netIP(t, b.F, b.Max)}
}

func libAS(s *gen.ASSet) []librpki.ASNCertificateInformation {
	if s == nil {
		return nil
	}
	if s.Inherit {
		return []librpki.ASNCertificateInformation{&librpki.ASNull{}}
	}
	var l []librpki.ASNCertificateInformation
	for _, b := range s.Blocks {
		if b.Range {
			l = append(l, &librpki.ASNRange{Min: int(b.Min), Max: int(b.Max)})
		} else {
			l = append(l, &librpki.ASN{ASN: int(b.Min)})
		}
	}
	return l
}

// showIPs writes decoded resources as the generator writes its own.
func showIPs(ips []librpki.IPCertificateInformation) string {
	var l []string
	for _, ip := range ips {
		min, max, inherit := ip.GetRange()
		l = append(l, fmt.Sprintf("f%d %x-%x %v", ip.GetAfi(), []byte(min), []byte(max), inherit))
	}
	return strings.Join(l, ", ")
}

func wantIPs(sets ...*gen.IPSet) string {
	var l []string
	for _, s := range sets {
		if s == nil {
			continue
		}
		if s.Inherit {
			l = append(l, fmt.Sprintf("f%d - true", s.F))
			continue
		}
		for _, b := range s.Blocks {
			l = append(l, fmt.Sprintf("f%d %x-%x false", s.F, gen.AddrBytes(s.F, b.Min), gen.AddrBytes(s.F, b.Max)))
		}
	}
	return strings.Join(l, ", ")
}

func showAS(as []librpki.ASNCertificateInformation) string {
	var l []string
	for _, a := range as {
		min, max, inherit := a.GetRange()
		if inherit {
			l = append(l, "inherit")
		} else {
			l = append(l, fmt.Sprintf("%d-%d", min, max))
		}
	}
	return strings.Join(l, ", ")
}

func wantAS(s *gen.ASSet) string {
	if s == nil {
		return ""
	}
	if s.Inherit {
		return "inherit"
	}
	var l []string
	for _, b := range s.Blocks {
		l = append(l, fmt.Sprintf("%d-%d", b.Min, b.Max))
	}
	return strings.Join(l, ", ")
}

// ipExtForms are the accepted encodings: ranges may be written with minimal or
// full-length ends.
func ipExtForms(sets ...*gen.IPSet) [2][]byte {
	var out [2][]byte
	for k := range out {
		var fams [][]byte
		for _, s := range sets {
			if s == nil {
				continue
			}
			afi := gen.Octets([]byte{0, byte(s.F)})
			if s.Inherit {
				fams = append(fams, gen.Seq(afi, gen.Null()))
				continue
			}
			var bl [][]byte
			for _, b := range s.Blocks {
				if k == 1 && b.Plen < 0 {
					bl = append(bl, b.LongDER())
				} else {
					bl = append(bl, b.DER())
				}
			}
			fams = append(fams, gen.Seq(afi, gen.Seq(bl...)))
		}
		out[k] = gen.Seq(fams...)
	}
	return out
}

func resEncode(t *pbt.T) {
	var v4, v6 *gen.IPSet
	switch t.Intn(3) {
	case 0:
		v4 = drawIPSet(t, 1)
	case 1:
		v6 = drawIPSet(t, 2)
	default:
		v4, v6 = drawIPSet(t, 1), drawIPSet(t, 2)
	}
	// the caller's list: families interleaved, order kept within a family
	var q [2][]librpki.IPCertificateInformation
	for i, s := range []*gen.IPSet{v4, v6} {
		if s == nil {
			continue
		}
		if s.Inherit {
			q[i] = append(q[i], &librpki.IPAddressNull{Family: uint8(s.F)})
		}
		for _, b := range s.Blocks {
			q[i] = append(q[i], libIP(t, b))
		}
	}
	var list []librpki.IPCertificateInformation
	for len(q[0])+len(q[1]) > 0 {
		i := t.Intn(2)
		if len(q[i]) == 0 {
			i = 1 - i
		}
		list = append(list, q[i][0])
		q[i] = q[i][1:]
	}
	t.Label("v4=%v v6=%v", v4 != nil, v6 != nil)
	t.NonTrivial("%v %v", v4, v6)
	t.Sample("v4 %v v6 %v", v4, v6)
	ext, err := librpki.EncodeIPAddressBlock(list)
	if err != nil {
		t.Failf("EncodeIPAddressBlock(%s): %v", showIPs(list), err)
	}
	if !ext.Id.Equal(asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1, 7}) || !ext.Critical {
		t.Failf("extension %v critical=%v", ext.Id, ext.Critical)
	}
	forms := ipExtForms(v4, v6)
	if !bytes.Equal(ext.Value, forms[0]) && !bytes.Equal(ext.Value, forms[1]) {
		t.Failf("v4 %v v6 %v encoded as %x, want %x", v4, v6, ext.Value, forms[0])
	}
	back, err := librpki.DecodeIPAddressBlock(ext.Value)
	if err != nil {
		t.Failf("decoding own encoding of v4 %v v6 %v: %v", v4, v6, err)
	}
	if g, w := showIPs(back), wantIPs(v4, v6); g != w {
		t.Failf("round trip gives %s, want %s", g, w)
	}

	var num, rdi *gen.ASSet
	switch t.Intn(4) {
	case 0, 1:
		num = drawASSet(t)
	case 2:
		rdi = drawASSet(t)
	default:
		num, rdi = drawASSet(t), drawASSet(t)
	}
	aext, err := librpki.EncodeASN(libAS(num), libAS(rdi))
	if err != nil {
		t.Failf("EncodeASN: %v", err)
	}
	if !aext.Id.Equal(asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1, 8}) || !aext.Critical {
		t.Failf("extension %v critical=%v", aext.Id, aext.Critical)
	}
	var parts [][]byte
	if num != nil {
		parts = append(parts, gen.Ctx(0, asSetDER(num)))
	}
	if rdi != nil {
		parts = append(parts, gen.Ctx(1, asSetDER(rdi)))
	}
	if w := gen.Seq(parts...); !bytes.Equal(aext.Value, w) {
		t.Failf("AS %v RDI %v encoded as %x, want %x", num, rdi, aext.Value, w)
	}
	n2, r2, err := librpki.DecodeASN(aext.Value)
	if err != nil {
		t.Failf("decoding own encoding of AS %v RDI %v: %v", num, rdi, err)
	}
	if showAS(n2) != wantAS(num) || showAS(r2) != wantAS(rdi) {
		t.Failf("AS round trip gives %s / %s, want %s / %s", showAS(n2), showAS(r2), wantAS(num), wantAS(rdi))
	}
}

// ---- other encoders -------------------------------------------------------------

// looseDER writes a block with any number of the droppable bits kept, and
// prefixes possibly as ranges.
func looseDER(t *pbt.T, b gen.Block) []byte {
	nb := b.F.Bits()
	if b.Plen >= 0 && t.Chance(2, 3) {
		return gen.BitStr(gen.AddrBytes(b.F, b.Min), b.Plen)
	}
	lo, hi := nb, nb
	for lo > 0 && b.Min.And(gen.HostMask(b.F, lo-1)) == (gen.U128{}) {
		lo--
	}
	for hi > 0 && b.Max.And(gen.HostMask(b.F, hi-1)) == gen.HostMask(b.F, hi-1) {
		hi--
	}
	lo += t.Intn(nb - lo + 1)
	hi += t.Intn(nb - hi + 1)
	return gen.Seq(gen.BitStr(gen.AddrBytes(b.F, b.Min), lo), gen.BitStr(gen.AddrBytes(b.F, b.Max), hi))
}

func drawURI(t *pbt.T) string {
	return pbt.Pick(t, "rsync://", "https://", "http://", "RSYNC://") + drawName(t) + pbt.Pick(t, "", "/", "/a", "/a/b.mft", "/a/")
}

func resDecode(t *pbt.T) {
	var v4, v6 *gen.IPSet
	if t.Chance(3, 4) {
		v4 = drawIPSet(t, 1)
	}
	if t.Chance(3, 4) {
		v6 = drawIPSet(t, 2)
	}
	order := []*gen.IPSet{v4, v6}
	if t.Chance(1, 5) {
		order = []*gen.IPSet{v6, v4}
	}
	var fams [][]byte
	for _, s := range order {
		if s == nil {
			continue
		}
		afi := gen.Octets([]byte{0, byte(s.F)})
		if s.Inherit {
			fams = append(fams, gen.Seq(afi, gen.Null()))
			continue
		}
		var bl [][]byte
		for _, b := range s.Blocks {
			bl = append(bl, looseDER(t, b))
		}
		fams = append(fams, gen.Seq(afi, gen.Seq(bl...)))
	}
	k := gen.Keys()[t.Intn(8)]
	c := gen.Cert{
		Serial: drawSerial(t), Issuer: "a", Subject: "b", NotBefore: time.Unix(1e9, 0).UTC(), NotAfter: time.Unix(2e9, 0).UTC(),
		Key: &k.PublicKey, SKI: t.Bytes(20), AKI: t.Bytes(20), CA: t.Bool(), Signer: gen.Keys()[9],
	}
	if fams != nil {
		c.RawIPExt = gen.Seq(fams...)
	}
	var num, rdi *gen.ASSet
	var parts [][]byte
	if t.Chance(2, 3) {
		num = drawASSet(t)
		parts = append(parts, gen.Ctx(0, asSetDER(num)))
	}
	if t.Chance(1, 3) {
		rdi = drawASSet(t)
		parts = append(parts, gen.Ctx(1, asSetDER(rdi)))
	}
	if parts != nil {
		c.RawASExt = gen.Seq(parts...)
	}
	rrdp, repo := "", ""
	hasRRDP := false
	for i := t.Intn(5); i > 0; i-- {
		var a gen.Access
		a.URI = drawURI(t)
		switch t.Intn(5) {
		case 0:
			a.Method = gen.OidRpkiManifest
		case 1:
			a.Method = gen.OidSignedObject
		case 2:
			a.Method = gen.OidRpkiNotify
			if !hasRRDP {
				rrdp, hasRRDP = a.URI, true
			}
		case 3:
			a.Method = gen.OidCaRepository
			if repo == "" {
				repo = a.URI
			}
		default:
			a.Method = gen.OID(1, 3, 6, 1, 5, 5, 7, 48, t.Range(20, 300))
		}
		c.SIA = append(c.SIA, a)
	}
	der := c.DER()
	t.Label("v4=%v v6=%v as=%v rdi=%v sia=%d", v4 != nil, v6 != nil, num != nil, rdi != nil, len(c.SIA))
	t.NonTrivial("%x", der)
	t.Sample("v4 %v v6 %v as %v rdi %v sia %d", v4, v6, num, rdi, len(c.SIA))
	r, err := librpki.DecodeCertificate(der)
	if err != nil {
		t.Failf("DecodeCertificate (v4 %v v6 %v as %v rdi %v): %v", v4, v6, num, rdi, err)
	}
	if g, w := showIPs(r.IPAddresses), wantIPs(order...); g != w {
		t.Failf("extension %x decodes to %s, want %s", c.RawIPExt, g, w)
	}
	if showAS(r.ASNums) != wantAS(num) || showAS(r.ASNRDI) != wantAS(rdi) {
		t.Failf("AS extension %x decodes to %s / %s, want %s / %s", c.RawASExt, showAS(r.ASNums), showAS(r.ASNRDI), wantAS(num), wantAS(rdi))
	}
	if len(r.SubjectInformationAccess) != len(c.SIA) {
		t.Failf("%d access descriptions, want %d", len(r.SubjectInformationAccess), len(c.SIA))
	}
	for i, s := range r.SubjectInformationAccess {
		oid, _ := asn1.Marshal(s.AccessMethod)
		if !bytes.Equal(oid, c.SIA[i].Method) || string(s.GeneralName) != c.SIA[i].URI {
			t.Failf("access description %d is %v, want %x %s", i, s, c.SIA[i].Method, c.SIA[i].URI)
		}
	}
	if r.HasRRDP() != hasRRDP || r.GetRRDPGeneralName() != rrdp || r.GetRsyncGeneralName() != repo {
		t.Failf("HasRRDP %v %q, rsync %q; want %v %q, %q", r.HasRRDP(), r.GetRRDPGeneralName(), r.GetRsyncGeneralName(), hasRRDP, rrdp, repo)
	}
	if ski, err := librpki.DecodeKeyIdentifier(gen.Octets(c.SKI)); err != nil || !bytes.Equal(ski, c.SKI) {
		t.Failf("DecodeKeyIdentifier: %x %v", ski, err)
	}
	if aki, err := librpki.DecodeKeyAuthority(gen.Seq(gen.CtxPrim(0, c.AKI))); err != nil || !bytes.Equal(aki, c.AKI) {
		t.Failf("DecodeKeyAuthority: %x %v", aki, err)
	}

	// decoded values can be encoded again
	if fams != nil {
		ext, err := librpki.EncodeIPAddressBlock(r.IPAddresses)
		if err != nil {
			t.Failf("encoding decoded resources: %v", err)
		}
		back, err := librpki.DecodeIPAddressBlock(ext.Value)
		if err != nil {
			t.Failf("decoding re-encoded resources %x: %v", ext.Value, err)
		}
		if g, w := showIPs(back), wantIPs(v4, v6); g != w {
			t.Failf("re-encoded resources are %s, want %s", g, w)
		}
	}
	if parts != nil {
		ext, err := librpki.EncodeASN(r.ASNums, r.ASNRDI)
		if err != nil {
			t.Failf("encoding decoded AS resources: %v", err)
		}
		if !bytes.Equal(ext.Value, c.RawASExt) {
			t.Failf("AS extension %x re-encoded as %x", c.RawASExt, ext.Value)
		}
	}
	if len(c.SIA) > 0 {
		var l []*librpki.SIA
		for i := range r.SubjectInformationAccess {
			l = append(l, &r.SubjectInformationAccess[i])
		}
		ext, err := librpki.EncodeSIA(l)
		if err != nil {
			t.Failf("EncodeSIA: %v", err)
		}
		if !ext.Id.Equal(asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1, 11}) || !bytes.Equal(ext.Value, gen.SIAValue(c.SIA)) {
			t.Failf("EncodeSIA gives %v %x, want %x", ext.Id, ext.Value, gen.SIAValue(c.SIA))
		}
		auth := t.Bool()
		u := c.SIA[0].URI
		ie, err := librpki.EncodeInfoAccess(auth, u)
		if err != nil {
			t.Failf("EncodeInfoAccess: %v", err)
		}
		id, m := asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1, 11}, gen.OidSignedObject
		if auth {
			id, m = asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1, 1}, gen.OID(1, 3, 6, 1, 5, 5, 7, 48, 2)
		}
		if !ie.Id.Equal(id) || !bytes.Equal(ie.Value, gen.SIAValue([]gen.Access{{Method: m, URI: u}})) {
			t.Failf("EncodeInfoAccess(%v,%s) = %v %x", auth, u, ie.Id, ie.Value)
		}
	}

	// membership at the ends of each block
	i := 0
	for _, s := range order {
		if s == nil {
			continue
		}
		if s.Inherit {
			for _, f := range []gen.AFI{1, 2} {
				in, chk := r.IPAddresses[i].IsIPInRange(gen.AddrBytes(f, gen.DrawU128(t, gen.U128{Lo: 0xffffffff})))
				if in || chk != (f == s.F) {
					t.Failf("inherit f%d: address of f%d: in=%v parent=%v", s.F, f, in, chk)
				}
			}
			i++
			continue
		}
		for _, b := range s.Blocks {
			one := gen.U128{Lo: 1}
			all := gen.HostMask(b.F, 0)
			pts := []gen.U128{b.Min, b.Max, b.Min.Add(gen.DrawU128(t, b.Max.Sub(b.Min))), gen.DrawU128(t, all)}
			if b.Min != (gen.U128{}) {
				pts = append(pts, b.Min.Sub(one))
			}
			if b.Max != all {
				pts = append(pts, b.Max.Add(one))
			}
			for _, p := range pts {
				in, chk := r.IPAddresses[i].IsIPInRange(gen.AddrBytes(b.F, p))
				want := b.Min.Cmp(p) <= 0 && p.Cmp(b.Max) <= 0
				if in != want || chk {
					t.Failf("%s in %v: %v %v, want %v", gen.Addr(b.F, p), b, in, chk, want)
				}
			}
			other := gen.AFI(3 - int(b.F))
			if in, chk := r.IPAddresses[i].IsIPInRange(gen.AddrBytes(other, gen.DrawU128(t, gen.HostMask(other, 0)))); in || chk {
				t.Failf("address of the other family in %v", b)
			}
			i++
		}
	}
}

func propC10() pbt.Property {
	return pbt.Property{
		ID:   "C10",
		Rule: "non-trivial: distinct resource sets and certificates",
		Assumptions: []string{
			"addresses inside ::ffff:0:0/96 are left out (net.IP cannot represent them apart from IPv4)",
			"ranges may be encoded with minimal or full-length ends, prefixes only minimally",
			"a family is either inherited or listed",
		},
		Suites: []pbt.Suite{
			{Name: "encode", Rule: "any list of blocks of both families, AS numbers, RDIs: encoding equals own DER writer's, decoding gives the list back", Quick: 30000, Thorough: 1500000, Prop: resEncode},
			{Name: "decode", Rule: "certificates written by the generator with minimal and non-minimal range ends: decoded resources, access descriptions, membership at block ends, and re-encoding", Quick: 12000, Thorough: 500000, Prop: resDecode},
		},
	}
}
