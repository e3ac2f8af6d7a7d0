PKI='validator/pki'
H='package pki_test\n\nimport (\n\t"testing"\n)\n\n'
SEEDS=[
dict(id='c07-short-aki',prop='C07',pkg=PKI,kit=1,
 edits=[('validator/pki/pki.go','''			if len(ext.Value) > 4 {
				aki = ext.Value[4:]
			}''','''			aki = ext.Value[4:]''')],
 needs='a CRL whose authority key identifier extension is shorter than four octets',
 breaks='validation of the whole repository crashes on such a CRL',
 demo=H.replace('"testing"','"crypto/rand"\n\t"crypto/x509/pkix"\n\t"math/big"\n\t"testing"\n\n\t"github.com/cloudflare/cfrpki/validator/lib"\n\t"github.com/cloudflare/cfrpki/validator/pki"')+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	ta.roa("a.roa", 5, []entry{{"10.1.0.0/16", 16}}, nil)
	der, err := librpki.CreateCRL(ta.cert, rand.Reader, ta.key, nil, now.AddDate(0, 0, -1), now.AddDate(0, 0, 1), big.NewInt(3))
	must(err)
	_ = der
	for _, v := range [][]byte{{}, {0x30}, {0x30, 0}, {0x30, 1, 0x80}} {
		crl := &pkix.CertificateList{}
		crl.TBSCertList.Extensions = []pkix.Extension{{Id: librpki.AuthorityKeyIdentifier, Value: v}}
		valid, _, _ := pki.NewValidator().AddCRL(crl)
		if valid {
			t.Errorf("%x: valid", v)
		}
	}
}
'''),
dict(id='c07-empty-algorithm',prop='C07',pkg=PKI,kit=1,
 edits=[('validator/lib/cms.go','''		if len(signatureCert) == 0 {
			return false, nil
		}

''','')],
 needs='strict decoding, and a signed object whose embedded certificate has an empty signature algorithm sequence',
 breaks='decoding such an object crashes the validator',
 demo=H.replace('"testing"','"encoding/asn1"\n\t"math/big"\n\t"testing"\n\n\t"github.com/cloudflare/cfrpki/validator/lib"')+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	ta.roa("a.roa", 5, []entry{{"10.1.0.0/16", 16}}, nil)
	cms, err := librpki.DecodeCMS(ta.content["a.roa"])
	must(err)
	type tbs struct {
		Version   int `asn1:"explicit,tag:0"`
		Serial    *big.Int
		Algorithm asn1.RawValue
	}
	type certificate struct {
		TBS       tbs
		Algorithm asn1.RawValue
	}
	empty := asn1.RawValue{FullBytes: []byte{0x30, 0}}
	for i := 0; i < 2; i++ {
		if i == 1 {
			cert := certificate{tbs{2, big.NewInt(4), empty}, empty}
			b, err := asn1.Marshal(cert)
			must(err)
			b, err = asn1.Marshal(asn1.RawValue{Class: 2, Tag: 0, IsCompound: true, Bytes: b})
			must(err)
			cms.SignedData.Certificates = asn1.RawValue{FullBytes: b}
		}
		der, err := asn1.Marshal(*cms)
		must(err)
		conf := &librpki.DecoderConfig{ValidateStrict: true}
		if _, err := conf.DecodeROA(der); (err == nil) != (i == 0) {
			t.Errorf("%d: %v", i, err)
		}
	}
}
'''),
dict(id='c07-nul-length',prop='C07',pkg='validator/lib',
 edits=[('validator/lib/ber.go','''	if len(ber) <= offset {
		return nil, 0, errors.New("ber2der: invalid BER tag length")
	}''','''	if len(ber) < offset {
		return nil, 0, errors.New("ber2der: invalid BER tag length")
	}''')],
 needs='a BER value that ends after an identifier octet',
 breaks='the conversion, and with it reading any such published file, crashes',
 demo='''package librpki_test

import (
	"testing"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
)

func TestDemo(t *testing.T) {
	for _, b := range [][]byte{{0x30}, {0x30, 3, 2, 1, 5}, {0x30, 1, 2}, {0x30, 3, 0x1f, 0x81, 1}, {0x30, 0x80, 2}, {0x30, 0x80, 0}} {
		out, err := librpki.BER2DER(b)
		if (err == nil) != (len(b) == 5 && b[2] == 2) {
			t.Errorf("%x: %x %v", b, out, err)
		}
	}
}
'''),
]
