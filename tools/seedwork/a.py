PKI='validator/pki'
H='package pki_test\n\nimport (\n\t"testing"\n)\n\n'
SEEDS=[
dict(id='c01-coverage-cache',prop='C01',pkg=PKI,kit=1,
 edits=[('validator/lib/roa.go','''	checkParents := make([]*ROAEntry, 0)
	for _, entry := range entries {
		err, min, max := GetRangeIP(entry.IPNet)
''','''	checkParents := make([]*ROAEntry, 0)
	covered := make(map[string]bool)
	for _, entry := range entries {
		// ROAs often repeat a network with several lengths: look it up once
		if covered[entry.IPNet.IP.String()] {
			valids = append(valids, entry)
			continue
		}
		err, min, max := GetRangeIP(entry.IPNet)
'''),('validator/lib/roa.go','''		if valid {
			valids = append(valids, entry)
		} else if''','''		if valid {
			valids = append(valids, entry)
			covered[entry.IPNet.IP.String()] = true
		} else if''')],
 needs='a ROA that lists a prefix its certificate covers and, after it, a shorter prefix with the same network address',
 breaks='the shorter prefix, outside the certificate, is output as a payload',
 demo=H+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8", "2001:db8::/32"), asns(1, 70000))
	c := w.add(ta, "c", prefixes("10.0.0.0/12"), asns(1, 100))
	c.roa("a.roa", 64500, []entry{{"10.0.0.0/24", 24}, {"10.0.0.0/10", 24}, {"10.1.0.0/16", 16}}, prefixes("10.0.0.0/12"))
	w.publish()
	expect(t, "overclaiming ROA", w.validate(), "10.0.0.0/24-24 AS64500", "10.1.0.0/16-16 AS64500")
}
'''),
dict(id='c02-duplicate-prefix',prop='C02',pkg=PKI,kit=1,
 edits=[('validator/lib/roa.go','''	for _, addrblock := range roacontent.IpAddrBlocks {
		for _, addr''','''	seen := make(map[string]bool)
	for _, addrblock := range roacontent.IpAddrBlocks {
		for _, addr'''),('validator/lib/roa.go','''			re := &ROAEntry{
				IPNet:     ip,
				MaxLength: maxlength,
			}
''','''			// Some CAs list prefixes twice
			if seen[ip.String()] {
				continue
			}
			seen[ip.String()] = true
			re := &ROAEntry{
				IPNet:     ip,
				MaxLength: maxlength,
			}
''')],
 needs='a ROA with the same prefix twice, with different maximum lengths',
 breaks='only the first entry of the prefix is output',
 demo=H+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	ta.roa("a.roa", 64500, []entry{{"10.16.0.0/16", 16}, {"10.16.0.0/16", 24}, {"10.17.0.0/16", 16}}, nil)
	w.publish()
	expect(t, "ROA", w.validate(), "10.16.0.0/16-16 AS64500", "10.16.0.0/16-24 AS64500", "10.17.0.0/16-16 AS64500")
}
'''),
dict(id='c03-two-blocks',prop='C03',pkg=PKI,kit=1,
 edits=[('validator/lib/cert.go','''	for _, ip := range cert.IPAddresses {
		minIn, checkParentMin := ip.IsIPInRange(min)
		maxIn, checkParentMax := ip.IsIPInRange(max)

		if minIn && maxIn {
			return true, false
		}
''','''	var minIn, maxIn bool
	for _, ip := range cert.IPAddresses {
		minHere, checkParentMin := ip.IsIPInRange(min)
		maxHere, checkParentMax := ip.IsIPInRange(max)

		minIn, maxIn = minIn || minHere, maxIn || maxHere
		if minIn && maxIn {
			return true, false
		}
''')],
 needs='a child whose address range starts in one block of its issuer and ends in another one, with a gap between them',
 breaks='the range, which includes addresses the issuer does not hold, is accepted',
 demo=H+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	c := w.add(ta, "c", prefixes("10.1.0.0/16", "10.3.0.0/16"), asns(1, 100))
	d := w.add(c, "d", prefixes("10.1.128.0-10.3.127.255"), asns(1, 100))
	d.roa("a.roa", 64500, []entry{{"10.2.0.0/16", 16}}, nil)
	e := w.add(c, "e", prefixes("10.3.0.0-10.3.127.255"), asns(1, 100))
	e.roa("a.roa", 64501, []entry{{"10.3.1.0/24", 24}}, nil)
	w.publish()
	expect(t, "overclaiming range", w.validate(), "10.3.1.0/24-24 AS64501")
}
'''),
dict(id='c03-family-order',prop='C03',pkg=PKI,kit=1,
 edits=[('validator/lib/cert.go','''		if checkParentMin || checkParentMax {
			return false, true
		}
	}
	return false, false
}

func (cert *RPKICertificate) IsASRangeInCertificate''','''		if checkParentMin || checkParentMax {
			return false, true
		}
		// Extensions are sorted: nothing after this block can contain it
		if bytes.Compare(min, blockMin(ip)) < 0 {
			return false, false
		}
	}
	return false, false
}

func blockMin(ip IPCertificateInformation) net.IP {
	min, _, _ := ip.GetRange()
	return min
}

func (cert *RPKICertificate) IsASRangeInCertificate''')],
 needs='an issuer with IPv4 prefixes whose first octet is above that of the IPv6 prefixes (bytes are compared across families), and an IPv6 child resource',
 breaks='valid IPv6 resources of a certificate, or ROA prefixes, are refused',
 demo=H+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("192.0.0.0/8", "2001:db8::/32"), asns(1, 70000))
	c := w.add(ta, "c", prefixes("2001:db8::/48"), asns(1, 100))
	c.roa("a.roa", 64500, []entry{{"2001:db8::/64", 64}}, nil)
	w.publish()
	expect(t, "IPv6 ROA", w.validate(), "2001:db8::/64-64 AS64500")
}
'''),
dict(id='c04-late-crl-descendants',prop='C04',pkg=PKI,kit=1,
 edits=[('validator/pki/pki.go','''					//v.InvalidateObject(id)
					invalidateList = append(invalidateList, id)
''','''					//v.InvalidateObject(id)
					delete(v.ValidObjects, string(id))
					delete(v.ValidROA, string(id))
					delete(v.ValidCRL, string(id))
					if _, isCert := child.Resource.(*librpki.RPKICertificate); isCert && !invalidated[string(id)] {
						invalidateList = [][]byte{id}
					}
''')],
 needs='a revoked CA with at least two child CAs, and a CRL processed after the descendants',
 breaks='only the last child CA of the revoked CA loses its ROAs',
 demo=H.replace('"testing"','"crypto/x509"\n\t"testing"\n\n\tlibrpki "github.com/cloudflare/cfrpki/validator/lib"\n\t"github.com/cloudflare/cfrpki/validator/pki"')+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	c := w.add(ta, "c", prefixes("10.0.0.0/12"), asns(1, 100))
	d := w.add(c, "d", prefixes("10.1.0.0/16"), asns(1, 100))
	e := w.add(c, "e", prefixes("10.2.0.0/16"), asns(1, 100))
	d.roa("d.roa", 64500, []entry{{"10.1.0.0/24", 24}}, nil)
	e.roa("e.roa", 64501, []entry{{"10.2.0.0/24", 24}}, nil)
	ta.revoked = append(ta.revoked, 2)
	w.publish()
	if c.cert.SerialNumber.Int64() != 2 {
		t.Fatal("serial")
	}
	v := pki.NewValidator()
	v.Time = now
	for i, x := range []*ca{ta, c, d, e} {
		cert, err := librpki.DecodeCertificate(x.der)
		must(err)
		if ok, _, _, err := v.AddCert(cert, i == 0); !ok {
			t.Fatal(err)
		}
	}
	for _, data := range [][]byte{d.content["d.roa"], e.content["e.roa"]} {
		roa, err := librpki.DecodeROA(data)
		must(err)
		if ok, _, err := v.AddROA(nil, roa); !ok {
			t.Fatal(err)
		}
	}
	crl, err := x509.ParseDERCRL(ta.content["ca.crl"])
	must(err)
	if ok, _, _ := v.AddCRL(crl); !ok {
		t.Fatal("CRL")
	}
	expect(t, "revoked CA", payloads(v))
}
'''),
dict(id='c04-revoked-ee',prop='C04',pkg=PKI,kit=1,
 edits=[('validator/pki/pki.go','''	if revoked {
		return NewCertificateErrorRevocation(cert)''','''	if revoked && cert.Certificate.IsCA {
		return NewCertificateErrorRevocation(cert)''')],
 needs='a revoked end-entity certificate whose ROA is still published and listed',
 breaks='ROAs stay valid after their certificate is revoked',
 demo=H+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	s := ta.roa("a.roa", 64500, []entry{{"10.1.0.0/24", 24}}, nil)
	ta.roa("b.roa", 64501, []entry{{"10.2.0.0/24", 24}}, nil)
	ta.revoked = append(ta.revoked, s)
	w.publish()
	expect(t, "revoked ROA", w.validate(), "10.2.0.0/24-24 AS64501")
}
'''),
dict(id='c05-unknown-type',prop='C05',pkg=PKI,kit=1,
 edits=[('validator/pki/pki.go','''				if sm.StrictManifests {
					sm.Inv''','''				// Only the objects used for validation matter
				if sm.StrictManifests && file.Type != TYPE_UNKNOWN {
					sm.Inv''')],
 needs='a listed file that is neither .roa, .cer, .crl nor .mft, and is absent or has another hash',
 breaks='the CA with the inconsistent manifest still publishes its ROAs',
 demo=H+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	c := w.add(ta, "c", prefixes("10.1.0.0/16"), asns(1, 100))
	c.roa("a.roa", 64500, []entry{{"10.1.0.0/24", 24}}, nil)
	c.put("contact.gbr", []byte{0x30, 0})
	c.lies["contact.gbr"] = make([]byte, 32)
	d := w.add(ta, "d", prefixes("10.2.0.0/16"), asns(1, 100))
	d.roa("a.roa", 64501, []entry{{"10.2.0.0/24", 24}}, nil)
	w.publish()
	expect(t, "inconsistent manifest", w.validate(), "10.2.0.0/24-24 AS64501")
}
'''),
dict(id='c05-two-sites',prop='C05',pkg=PKI,kit=1,
 edits=[('validator/pki/pki.go','''	_, hasParentValid := v.ValidObjects[aki]
	parent, hasParent := v.Objects[aki]
	res.Parent = parent

	var valid bool
	if hasParentValid || trust {''','''	parent, hasParent := v.Objects[aki]
	res.Parent = parent

	var valid bool
	if hasParent || trust {'''),('validator/pki/pki.go','''	parent, hasParent := v.ValidObjects[string(aki)]
	if !hasParent {
		return NewCert''','''	parent, hasParent := v.Objects[string(aki)]
	if !hasParent {
		return NewCert''')],
 needs='a faulty manifest entry that stands before the ROAs and child certificates in the listing; either site alone is masked by the other',
 breaks='objects processed after their CA was invalidated are accepted',
 demo=H+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	c := w.add(ta, "c", prefixes("10.1.0.0/16"), asns(1, 100))
	c.roa("a.roa", 64500, []entry{{"10.1.0.0/24", 24}}, nil)
	c.roa("b.roa", 64502, []entry{{"10.1.1.0/24", 24}}, nil)
	c.lies["a.roa"] = make([]byte, 32)
	d := w.add(ta, "d", prefixes("10.2.0.0/16"), asns(1, 100))
	d.roa("a.roa", 64501, []entry{{"10.2.0.0/24", 24}}, nil)
	w.publish()
	expect(t, "inconsistent manifest", w.validate(), "10.2.0.0/24-24 AS64501")
}
'''),
dict(id='c06-newer-certificate',prop='C06',pkg=PKI,kit=1,
 edits=[('validator/pki/pki.go','''		conflictCert, _ := conflict.Resource.(*librpki.RPKICertificate)
		return false''','''		conflictCert, _ := conflict.Resource.(*librpki.RPKICertificate)
		// A renewed certificate with the same key replaces the old one
		if conflictCert != nil && cert.Certificate.NotAfter.After(conflictCert.Certificate.NotAfter) {
			v.InvalidateObject(cert.Certificate.SubjectKeyId)
			delete(v.Objects, ski)
			return v.AddCert(cert, trust)
		}
		return false''')],
 needs='a CA that issues a certificate, with a later end of validity, for the public key of an unrelated CA that was processed before',
 breaks='the payloads of the unrelated CA disappear',
 demo=H.replace('"testing"','"crypto/x509"\n\t"testing"\n\n\t"github.com/cloudflare/cfrpki/validator/lib"\n\t"github.com/cloudflare/cfrpki/validator/pki"')+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	c := w.add(ta, "c", prefixes("10.1.0.0/16"), asns(1, 100))
	c.roa("a.roa", 64500, []entry{{"10.1.0.0/24", 24}}, nil)
	d := w.add(ta, "d", prefixes("10.2.0.0/16"), asns(1, 100))
	// d certifies the key of c
	d.put("x.cer", certify(d, c.key, 77, true, []*librpki.SIA{sia(pki.CARepository, d.dir()), sia(pki.Manifest, d.dir()+"x.mft")},
		prefixes("10.2.0.0/16"), asns(1, 2), func(t *x509.Certificate) { t.NotAfter = t.NotAfter.AddDate(5, 0, 0) }))
	w.publish()
	expect(t, "victim", w.validate(), "10.1.0.0/24-24 AS64500")
}
'''),
]
