From f30b4017781f5194421bea9faeba3f727a8ffed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 01/80] fix: refuse truncated or inconsistent BER instead of
 crashing or misreading it

BER2DER indexed past the end of truncated tags and lengths, recursed without
bound, let children run past the end of their definite length parent and
misread empty indefinite length values.
---
 validator/lib/ber.go | 46 +++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/validator/lib/ber.go b/validator/lib/ber.go
index 32c81b5..1c7d8a9 100644
--- a/validator/lib/ber.go
+++ b/validator/lib/ber.go
@@ -64,7 +64,7 @@ func BER2DER(ber []byte) ([]byte, error) {
 	//fmt.Printf("--> ber2der: Transcoding %d bytes\n", len(ber))
 	out := new(bytes.Buffer)
 
-	obj, _, err := readObject(ber, 0)
+	obj, _, err := readObject(ber, 0, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -135,18 +135,30 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 	return
 }
 
-func readObject(ber []byte, offset int) (asn1Object, int, error) {
+// maxBERDepth bounds the nesting, and so the recursion, of readObject.
+const maxBERDepth = 256
+
+func readObject(ber []byte, offset int, depth int) (asn1Object, int, error) {
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
+	if depth > maxBERDepth {
+		return nil, 0, errors.New("ber2der: BER nesting is too deep")
+	}
+	if offset >= len(ber) {
+		return nil, 0, errors.New("ber2der: BER data is truncated")
+	}
 	tagStart := offset
 	b := ber[offset]
 	offset++
 	tag := b & 0x1F // last 5 bits
 	if tag == 0x1F {
 		tag = 0
-		for ber[offset] >= 0x80 {
+		for offset < len(ber) && ber[offset] >= 0x80 {
 			tag = tag*128 + ber[offset] - 0x80
 			offset++
 		}
+		if offset >= len(ber) {
+			return nil, 0, errors.New("ber2der: invalid BER tag")
+		}
 		tag = tag*128 + ber[offset] - 0x80
 		offset++
 	}
@@ -174,6 +186,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		if numberOfBytes > 4 { // int is only guaranteed to be 32bit
 			return nil, 0, errors.New("ber2der: BER tag length too long")
 		}
+		if len(ber)-offset < numberOfBytes {
+			return nil, 0, errors.New("ber2der: BER tag length is truncated")
+		}
 		if numberOfBytes == 4 && (int)(ber[offset]) > 0x7F {
 			return nil, 0, errors.New("ber2der: BER tag length is negative")
 		}
@@ -211,18 +226,15 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 			content:  ber[offset:contentEnd],
 		}
 	} else {
+		// The children of a definite length object may not run past its end.
+		data := ber
+		if !indefinite {
+			data = ber[:contentEnd]
+		}
 		var subObjects []asn1Object
 		for (offset < contentEnd) || indefinite {
-			var subObj asn1Object
-			var err error
-			subObj, offset, err = readObject(ber, offset)
-			if err != nil {
-				return nil, 0, err
-			}
-			subObjects = append(subObjects, subObj)
-
 			if indefinite {
-				terminated, err := isIndefiniteTermination(ber, offset)
+				terminated, err := isIndefiniteTermination(data, offset)
 				if err != nil {
 					return nil, 0, err
 				}
@@ -231,6 +243,14 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 					break
 				}
 			}
+
+			var subObj asn1Object
+			var err error
+			subObj, offset, err = readObject(data, offset, depth+1)
+			if err != nil {
+				return nil, 0, err
+			}
+			subObjects = append(subObjects, subObj)
 		}
 		obj = asn1Structured{
 			tagBytes: ber[tagStart:tagEnd],
@@ -251,5 +271,5 @@ func isIndefiniteTermination(ber []byte, offset int) (bool, error) {
 		return false, errors.New("ber2der: Invalid BER format")
 	}
 
-	return bytes.Index(ber[offset:], []byte{0x0, 0x0}) == 0, nil
+	return ber[offset] == 0x0 && ber[offset+1] == 0x0, nil
 }
-- 
2.43.0


From 937667e7938db46c5a2afc3edc5cb50766092c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 02/80] fix: TAL: accept keys held by value and by reference

CreateTAL stores the key by value and DecodeTAL by reference, so encoding a
decoded TAL and checking a certificate against a created one panicked.
---
 validator/lib/tal.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/validator/lib/tal.go b/validator/lib/tal.go
index 58658e8..65b6985 100644
--- a/validator/lib/tal.go
+++ b/validator/lib/tal.go
@@ -59,12 +59,27 @@ func (tal *RPKITAL) GetURI() string {
 	return uri
 }
 
+// rsaPublicKey returns the RSA key held by value (CreateTAL) or by
+// reference (DecodeTAL, certificates), or nil.
+func rsaPublicKey(key interface{}) *rsa.PublicKey {
+	switch keyc := key.(type) {
+	case *rsa.PublicKey:
+		return keyc
+	case rsa.PublicKey:
+		return &keyc
+	}
+	return nil
+}
+
 func (tal *RPKITAL) CheckCertificate(cert *x509.Certificate) bool {
 	if tal.Algorithm == cert.PublicKeyAlgorithm {
 		switch tal.Algorithm {
 		case x509.RSA:
-			a := tal.PublicKey.(*rsa.PublicKey)
-			b := cert.PublicKey.(*rsa.PublicKey)
+			a := rsaPublicKey(tal.PublicKey)
+			b := rsaPublicKey(cert.PublicKey)
+			if a == nil || b == nil {
+				return false
+			}
 			if a.N.Cmp(b.N) == 0 && a.E == b.E {
 				return true
 			}
@@ -139,8 +154,11 @@ func EncodeTALSize(tal *RPKITAL, split int) ([]byte, error) {
 	var bs asn1.BitString
 	var err error
 	if tal.OID.Equal(RSA) {
-		keyRaw := tal.PublicKey.(rsa.PublicKey)
-		bs, err = BundleRSAPublicKey(keyRaw)
+		keyRaw := rsaPublicKey(tal.PublicKey)
+		if keyRaw == nil {
+			return nil, errors.New("TAL does not contain a RSA key")
+		}
+		bs, err = BundleRSAPublicKey(*keyRaw)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From f1a559a4322aeb205802e02b26764826770b327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 03/80] fix: TAL: encode the key with base64 padding

DecodeTAL (and RFC 8630) expect padded base64, which EncodeTAL left out, so
TALs of most key sizes could not be read back.
---
 validator/lib/tal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/lib/tal.go b/validator/lib/tal.go
index 65b6985..fabee40 100644
--- a/validator/lib/tal.go
+++ b/validator/lib/tal.go
@@ -188,7 +188,7 @@ func EncodeTALSize(tal *RPKITAL, split int) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	key := base64.RawStdEncoding.EncodeToString(keyBytesData)
+	key := base64.StdEncoding.EncodeToString(keyBytesData)
 	if split > 0 {
 		keySplit := make([]string, len(key)/split+1)
 		for i := 0; i < len(key)/split+1; i++ {
-- 
2.43.0


From 2c0de45145051dc027f45b62cb2ff56958ba215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 04/80] fix: CMS: hash the signed attributes with any length of
 header

The SEQUENCE header was cut off as two bytes, so objects with 128 or more
bytes of signed attributes (RFC 6488 binary-signing-time, for one) were
refused, or signed wrongly.
---
 validator/lib/cms.go | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index a1a87a9..f028962 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -149,6 +149,17 @@ type SignedAttributesDigest struct {
 	SignedAttrs []Attribute `asn1:"set"`
 }
 
+// hashSignedAttributes hashes the DER encoding of the signed attributes
+// as a SET OF (RFC 5652, section 5.4).
+func hashSignedAttributes(attrs []Attribute) ([]byte, error) {
+	b, err := asn1.MarshalWithParams(attrs, "set")
+	if err != nil {
+		return nil, err
+	}
+	h := sha256.Sum256(b)
+	return h[:], nil
+}
+
 func DecryptSignatureRSA(signature []byte, pubKey *rsa.PublicKey) ([]byte, error) {
 	dataDecrypted := RSAPublicDecrypt(pubKey, signature)
 	var signDec SignatureDecoded
@@ -228,18 +239,10 @@ func (cms *CMS) Sign(rand io.Reader, ski []byte, encap []byte, priv interface{},
 	}
 	cms.SignedData.SignerInfos[0].SignedAttrs = append(cms.SignedData.SignerInfos[0].SignedAttrs, digestAttribute)
 
-	var sad SignedAttributesDigest
-	sad.SignedAttrs = cms.SignedData.SignerInfos[0].SignedAttrs
-	b, err := asn1.Marshal(sad)
+	signedAttributesHash, err := hashSignedAttributes(cms.SignedData.SignerInfos[0].SignedAttrs)
 	if err != nil {
 		return err
 	}
-	h = sha256.New()
-	if len(b) < 2 {
-		return errors.New("Error with length of signed attributes")
-	}
-	h.Write(b[2:]) // removes the "sequence"
-	signedAttributesHash := h.Sum(nil)
 
 	//signature, err := privKey.Sign(rand, signedAttributesHash, nil)
 	signature, err := EncryptSignatureRSA(rand, signedAttributesHash, privKey)
@@ -348,18 +351,10 @@ func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
 		return errors.New(fmt.Sprintf("CMS digest (%x) and encapsulated digest (%x) are different", contentHash, messageDigest))
 	}
 
-	var sad SignedAttributesDigest
-	sad.SignedAttrs = signedAttributes
-	b, err := asn1.Marshal(sad)
+	signedAttributesHash, err := hashSignedAttributes(signedAttributes)
 	if err != nil {
 		return err
 	}
-	h = sha256.New()
-	if len(b) < 2 {
-		return errors.New("Error with length of signed attributes")
-	}
-	h.Write(b[2:]) // removes the "sequence"
-	signedAttributesHash := h.Sum(nil)
 
 	// Check for public key format (ECDSA?)
 	pubKey, ok := cert.PublicKey.(*rsa.PublicKey)
-- 
2.43.0


From f44a867241af7d91a229e6a0104da6c3c4b42081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 05/80] fix: CMS: check the whole PKCS#1 v1.5 signature block

Looking for the first ff 00 and decoding what follows let signatures be
forged without the private key for keys with a low public exponent.
---
 validator/lib/cms.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index f028962..111a957 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -362,12 +362,9 @@ func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
 		return errors.New("Public key is not RSA")
 	}
 
-	decryptedHash, err := DecryptSignatureRSA(cms.SignedData.SignerInfos[0].Signature, pubKey)
+	err = rsa.VerifyPKCS1v15(pubKey, crypto.SHA256, signedAttributesHash, cms.SignedData.SignerInfos[0].Signature)
 	if err != nil {
-		return errors.New(fmt.Sprintf("CMS signature decoding error: %v", err))
-	}
-	if !bytes.Equal(signedAttributesHash, decryptedHash) {
-		return errors.New(fmt.Sprintf("CMS encrypted digest (%x) and calculated digest (%x) are different", decryptedHash, signedAttributesHash))
+		return errors.New(fmt.Sprintf("CMS signature of the signed attributes (digest %x) is not valid: %v", signedAttributesHash, err))
 	}
 
 	return nil
-- 
2.43.0


From 00deab4f31867a3a28d25de4f13d6ee58b2ad185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 06/80] fix: CMS: do not crash on objects without signer
 information

---
 validator/lib/cms.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index 111a957..6448fb5 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -333,6 +333,9 @@ func (cms *CMS) CheckSignaturesMatch() (bool, error) {
 
 // Won't validate if signedattributes is empty
 func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
+	if len(cms.SignedData.SignerInfos) == 0 {
+		return errors.New("CMS has no signer information")
+	}
 	signedAttributes := cms.SignedData.SignerInfos[0].SignedAttrs
 
 	var messageDigest []byte
@@ -409,6 +412,9 @@ func (cms *CMS) GetRPKICertificate() (*RPKICertificate, error) {
 
 func (cms *CMS) GetSigningTime() (time.Time, error) {
 	var signingTime time.Time
+	if len(cms.SignedData.SignerInfos) == 0 {
+		return signingTime, errors.New("CMS has no signer information")
+	}
 	signedAttributes := cms.SignedData.SignerInfos[0].SignedAttrs
 	for _, sAttr := range signedAttributes {
 		if sAttr.AttrType.Equal(SigningTime) && len(sAttr.AttrValue) > 0 {
-- 
2.43.0


From 7ef9d194bb05343464c967e1e5d9be003c7f9ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 07/80] fix: refuse IP resources of unknown families or
 overlong prefixes

They were decoded to nil prefixes, or nil masks, that crash the validator.
---
 validator/lib/cert.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index fec9fd5..6e4d804 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -252,6 +252,9 @@ func DecodeIP(addrfamily []byte, addr asn1.BitString) (*net.IPNet, error) {
 		if addrfamily[1] == 2 {
 			size = 16
 		}
+		if addr.BitLength > size*8 {
+			return nil, fmt.Errorf("IP prefix length %v is more than %v", addr.BitLength, size*8)
+		}
 		ipaddr := make([]byte, size)
 		copy(ipaddr, addr.Bytes)
 		mask := net.CIDRMask(addr.BitLength, size*8)
@@ -271,6 +274,9 @@ func DecodeIPMinMax(addrfamily []byte, addr asn1.BitString, max bool) (net.IP, e
 		if addrfamily[1] == 2 {
 			size = 16
 		}
+		if addr.BitLength > size*8 {
+			return nil, fmt.Errorf("IP address length %v is more than %v", addr.BitLength, size*8)
+		}
 		ipaddr := make([]byte, size)
 		copy(ipaddr, addr.Bytes)
 		if max {
@@ -328,7 +334,10 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 						return ipaddresses, err
 					}
 
-					a, _ := DecodeIP(ipaddrfam.AddressFamily, addrRange)
+					a, err := DecodeIP(ipaddrfam.AddressFamily, addrRange)
+					if err != nil {
+						return ipaddresses, err
+					}
 					ipaddresses = append(ipaddresses, &IPNet{
 						IPNet: a,
 					})
@@ -344,8 +353,14 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 						return ipaddresses, err
 					}
 
-					a, _ := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Min, false)
+					a, err := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Min, false)
+					if err != nil {
+						return ipaddresses, err
+					}
 					b, err := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Max, true)
+					if err != nil {
+						return ipaddresses, err
+					}
 					ipaddresses = append(ipaddresses, &IPAddressRange{
 						Min: a,
 						Max: b,
-- 
2.43.0


From 5955330e49a1e5edf2e0ba9f3b2885ea7773dae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 08/80] fix: encode IPv4 addresses held in either 4 or 16 bytes

Encoding a decoded IPv4 range panicked, and an IPv4 prefix with a 16-byte
address was written as zero bits.
---
 validator/lib/cert.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index 6e4d804..55d07e7 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -105,14 +105,13 @@ func (ipr *IPAddressRange) GetRange() (net.IP, net.IP, bool) {
 }
 
 func IPToBitString(ip net.IP) asn1.BitString {
-	blen := 32
-	bitsplit := 12
-	if ip.To4() == nil {
-		blen = 128
-		bitsplit = 0
+	blen := 128
+	if ip4 := ip.To4(); ip4 != nil {
+		blen = 32
+		ip = ip4
 	}
 	return asn1.BitString{
-		Bytes:     []byte(ip)[bitsplit:],
+		Bytes:     []byte(ip),
 		BitLength: blen,
 	}
 }
@@ -124,8 +123,12 @@ func IPNetToBitString(ipnet net.IPNet) asn1.BitString {
 		sizeBytes++
 	}
 	prefixBytes := make([]byte, sizeBytes)
-	for i := 0; i < len(ipnet.IP) && i < sizeBytes; i++ {
-		prefixBytes[i] = ipnet.IP[i] & ipnet.Mask[i]
+	ip := ipnet.IP
+	if ip4 := ip.To4(); ip4 != nil && len(ipnet.Mask) == net.IPv4len {
+		ip = ip4
+	}
+	for i := 0; i < len(ip) && i < sizeBytes; i++ {
+		prefixBytes[i] = ip[i] & ipnet.Mask[i]
 	}
 
 	return asn1.BitString{
-- 
2.43.0


From c86ab33621e6b0229a7ec344783392287c92eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 09/80] fix: do not take a negative ROA maximum length as an
 absent one

---
 validator/lib/roa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/lib/roa.go b/validator/lib/roa.go
index 2952d3b..a7e82a9 100644
--- a/validator/lib/roa.go
+++ b/validator/lib/roa.go
@@ -227,7 +227,7 @@ func ConvertROAEntries(roacontent ROAContent) ([]*ROAEntry, int, error) {
 			}
 
 			maxlength := addr.MaxLength
-			if maxlength < 0 {
+			if maxlength == -1 { // absent
 				maxlength, _ = ip.Mask.Size()
 			}
 			//fmt.Printf(" - %v %v\n", ip, err)
-- 
2.43.0


From 0073e54bfbc50c26bbd05d4024a37079340c11fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 10/80] fix: do not crash on a CRL of an unknown issuer

A CRL whose authority key identifier names no known certificate, or that is
referenced by a trust anchor certificate, panicked in AddResource.
---
 validator/pki/pki.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 53ba3df..1309a0a 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -356,6 +356,12 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 			return false, nil, nil, err
 		}
 		valid, res, err := v.AddCRL(crl)
+		if res == nil || res.Parent == nil || res.Parent.File == nil {
+			return false, nil, nil, fmt.Errorf("CRL %s does not have a known issuer", pkifile.Path)
+		}
+		if pkifile.Parent == nil || pkifile.Parent.Parent == nil {
+			return false, nil, nil, fmt.Errorf("CRL %s is not published by a certificate", pkifile.Path)
+		}
 		if pkifile.Parent.Parent.Path != res.Parent.File.Path {
 			return false, nil, nil, fmt.Errorf("CRL %s does not match with the parent %s", pkifile.Path, pkifile.Parent.Parent.Path)
 		}
-- 
2.43.0


From ffa5987c8a79cd016cc821044fce41658ec539e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 11/80] fix: verify that trust anchor certificates are
 correctly self-signed

---
 validator/pki/pki.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 1309a0a..30337b2 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -477,6 +477,10 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	}
 
 	if trust {
+		err = cert.Validate(cert)
+		if err != nil {
+			return NewCertificateErrorParent(cert, cert, err)
+		}
 		return nil
 	}
 
-- 
2.43.0


From 886d8b7298bcda8a669f2706c05117051303fd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 12/80] fix: check resources through every level of inheriting
 issuers

With two or more inheriting certificates in a row the second one was
consulted again and again, and what was left unresolved was accepted: a
certificate could claim any resources.
---
 validator/pki/pki.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 30337b2..3e0db4a 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -509,8 +509,9 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	// Check IPs
 	validIPs, invalidIPs, checkParent := cert.ValidateIPCertificate(parentCert)
 	chain := parent.Parent
+	issuer := parentCert
 	for chain != nil && len(checkParent) > 0 {
-		key := parentCert.Certificate.AuthorityKeyId
+		key := issuer.Certificate.AuthorityKeyId
 		upperCert, found := v.ValidObjects[string(key)]
 		if !found {
 			//return errors.New(fmt.Sprintf("One of the parents (%x) of %x is not valid", key, ski))
@@ -525,14 +526,17 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		validIPs = append(validIPs, validTmp...)
 		invalidIPs = append(invalidIPs, invalidTmp...)
 		checkParent = checkParentTmp
+		issuer = chainCert
 		chain = chain.Parent
 	}
+	invalidIPs = append(invalidIPs, checkParent...) // inherited from nobody
 
 	// Check ASNs
 	validASNs, invalidASNs, checkParentASN := cert.ValidateASNCertificate(parentCert)
 	chain = parent.Parent
+	issuer = parentCert
 	for chain != nil && len(checkParentASN) > 0 {
-		key := parentCert.Certificate.AuthorityKeyId
+		key := issuer.Certificate.AuthorityKeyId
 		upperCert, found := v.ValidObjects[string(key)]
 		if !found {
 			return NewCertificateErrorParent(cert, parentCert, errors.New(fmt.Sprintf("ancestor %x is not valid", key)))
@@ -545,8 +549,10 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		validASNs = append(validASNs, validTmp...)
 		invalidASNs = append(invalidASNs, invalidTmp...)
 		checkParentASN = checkParentTmp
+		issuer = chainCert
 		chain = chain.Parent
 	}
+	invalidASNs = append(invalidASNs, checkParentASN...)
 
 	if len(invalidIPs) > 0 || len(invalidASNs) > 0 {
 		//return errors.New(fmt.Sprintf("%x contains invalid ASNs: %v", ski, invalidsASN))
-- 
2.43.0


From ee9d4304d0d85d623da3812bbdb53be855290006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 13/80] fix: invalidate the manifests of an invalidated
 certificate too

---
 validator/pki/pki.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 3e0db4a..060950d 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -395,6 +395,7 @@ func (v *Validator) InvalidateObject(keyid []byte) {
 		delete(v.ValidObjects, ski)
 		delete(v.ValidROA, ski)
 		delete(v.ValidCRL, ski)
+		delete(v.ValidManifest, ski)
 		invalidated[ski] = true
 
 		if hasCert {
-- 
2.43.0


From b02cb0d95becd5c736ec77958ed04003d5de1704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 14/80] fix: keep issuer and serial number apart in the
 revocation tables

A CA with a key identifier that extends another one's with digits could
revoke the other CA's certificates.
---
 validator/pki/pki.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 060950d..e21f049 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -7,6 +7,7 @@ import (
 	"encoding/asn1"
 	"errors"
 	"fmt"
+	"math/big"
 	"strings"
 	"time"
 
@@ -459,7 +460,7 @@ func (v *Validator) AddCert(cert *librpki.RPKICertificate, trust bool) (bool, []
 	if hasParent && parent != nil && valid {
 		parent.Childs = append(parent.Childs, res)
 
-		v.CertsSerial[aki+cert.Certificate.SerialNumber.String()] = res
+		v.CertsSerial[serialKey(cert.Certificate.AuthorityKeyId, cert.Certificate.SerialNumber)] = res
 	}
 
 	if valid {
@@ -502,7 +503,7 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	}
 
 	// Check presence in revocation lists
-	_, revoked := v.Revoked[string(aki)+cert.Certificate.SerialNumber.String()]
+	_, revoked := v.Revoked[serialKey(aki, cert.Certificate.SerialNumber)]
 	if revoked {
 		return NewCertificateErrorRevocation(cert)
 	}
@@ -650,6 +651,12 @@ func (v *Validator) AddManifest(pkifile *PKIFile, mft *librpki.RPKIManifest) (bo
 	return valid, pathCert, res_mft, err
 }
 
+// serialKey identifies a certificate by its issuer and serial number. Key
+// identifiers have any length: the separator keeps the two parts apart.
+func serialKey(aki []byte, serial *big.Int) string {
+	return fmt.Sprintf("%x/%v", aki, serial)
+}
+
 func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 	var aki []byte
 	for _, ext := range crl.TBSCertList.Extensions {
@@ -686,7 +693,7 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 		} else {
 			v.ValidCRL[string(aki)] = res
 			for _, revoked := range crl.TBSCertList.RevokedCertificates {
-				key := string(aki) + revoked.SerialNumber.String()
+				key := serialKey(aki, revoked.SerialNumber)
 				child, found := v.CertsSerial[key]
 				if found {
 					childConv := child.Resource.(*librpki.RPKICertificate)
-- 
2.43.0


From 6dca0a291bcf21f3b20a4b549e3b420caf8028e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 15/80] fix: revoke every certificate with a revoked serial
 number

Only the last certificate processed with that serial number was.
---
 validator/pki/pki.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index e21f049..ee82db3 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -693,16 +693,14 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 		} else {
 			v.ValidCRL[string(aki)] = res
 			for _, revoked := range crl.TBSCertList.RevokedCertificates {
-				key := serialKey(aki, revoked.SerialNumber)
-				child, found := v.CertsSerial[key]
-				if found {
-					childConv := child.Resource.(*librpki.RPKICertificate)
-					if childConv.Certificate.SerialNumber.Cmp(revoked.SerialNumber) == 0 {
-						v.InvalidateObject(childConv.Certificate.SubjectKeyId)
-					}
+				v.Revoked[serialKey(aki, revoked.SerialNumber)] = true
+			}
+			// Serial numbers may have been used for several certificates
+			for _, child := range parent.Childs {
+				childConv, ok := child.Resource.(*librpki.RPKICertificate)
+				if ok && v.Revoked[serialKey(aki, childConv.Certificate.SerialNumber)] {
+					v.InvalidateObject(childConv.Certificate.SubjectKeyId)
 				}
-
-				v.Revoked[key] = true
 			}
 			parent.Childs = append(parent.Childs, res)
 		}
-- 
2.43.0


From 8da23d687786240740f8a53c2adbce369fd88f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 16/80] fix: judge manifest windows at the validation time

---
 validator/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index ee82db3..31dbd76 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -893,7 +893,7 @@ func (sm *SimpleManager) Explore(notMFT bool, addInvalidChilds bool) int {
 					if ok && res != nil && res.Resource != nil {
 						cert, ok := res.Resource.(*librpki.RPKIManifest)
 						if ok {
-							if time.Now().After(cert.Content.NextUpdate) || time.Now().Before(cert.Content.ThisUpdate) {
+							if sm.Validator.Time.After(cert.Content.NextUpdate) || sm.Validator.Time.Before(cert.Content.ThisUpdate) {
 								sm.InvalidateManifestParent(file, nil)
 							}
 						} else {
-- 
2.43.0


From 72ee1a0b7e82b0615245bcaa3838f80b6d0c92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 17/80] fix: give every validator its own decoder configuration

Setting ValidateStrict on one validator changed it for all of them and for
the package level functions.
---
 validator/pki/pki.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 31dbd76..e56ae51 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -219,6 +219,7 @@ type Validator struct {
 }
 
 func NewValidator() *Validator {
+	decoderConfig := *librpki.DefaultDecoderConfig
 	return &Validator{
 		TALs: make(map[string]*Resource),
 
@@ -239,7 +240,7 @@ func NewValidator() *Validator {
 		ValidManifest: make(map[string]*Resource),
 		Manifest:      make(map[string]*Resource),
 
-		DecoderConfig: librpki.DefaultDecoderConfig,
+		DecoderConfig: &decoderConfig,
 
 		Time: time.Now().UTC(),
 	}
-- 
2.43.0


From a3343e9b1369974a66f80aa1ede09327eb10ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 18/80] fix: do not let an invalid certificate block the valid
 one

Any CA could publish a certificate, however invalid, with the subject key
identifier of another CA and so make the latter's certificate conflict.
---
 validator/pki/pki.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index e56ae51..8ffac7e 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -464,10 +464,12 @@ func (v *Validator) AddCert(cert *librpki.RPKICertificate, trust bool) (bool, []
 		v.CertsSerial[serialKey(cert.Certificate.AuthorityKeyId, cert.Certificate.SerialNumber)] = res
 	}
 
+	// Invalid certificates are not recorded: they must not stand in the way
+	// of the certificate that rightfully has the same key identifier.
 	if valid {
 		v.ValidObjects[ski] = res
+		v.Objects[ski] = res
 	}
-	v.Objects[ski] = res
 
 	return valid, pathCert, res, err
 }
-- 
2.43.0


From a9f5c1f5494a75adc8d35cca438356eb84b06691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 19/80] fix: do not register the certificate of a tampered
 signed object

A tampered copy of a ROA or manifest, published by another CA, made the
real one conflict with its own end-entity certificate.
---
 validator/pki/pki.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 8ffac7e..7cf3066 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -569,9 +569,17 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 }
 
 func (v *Validator) AddROA(pkifile *PKIFile, roa *librpki.RPKIROA) (bool, *Resource, error) {
-	valid, _, res, err := v.AddCert(roa.Certificate, false)
-	if res == nil {
-		return valid, res, errors.New(fmt.Sprintf("Resource is empty: %v", err))
+	var valid bool
+	var res *Resource
+	var err error
+	if roa.InnerValid {
+		valid, _, res, err = v.AddCert(roa.Certificate, false)
+		if res == nil {
+			return valid, res, errors.New(fmt.Sprintf("Resource is empty: %v", err))
+		}
+	} else {
+		// The certificate may belong to another object: do not use it up.
+		res = ObjectToResource(roa.Certificate)
 	}
 	res.File = pkifile
 	res.Type = TYPE_ROACER
@@ -622,9 +630,16 @@ func (v *Validator) AddManifest(pkifile *PKIFile, mft *librpki.RPKIManifest) (bo
 		return false, nil, nil, fmt.Errorf("ExtractPathManifest failed: %v", err)
 	}
 
-	valid, _, res, err := v.AddCert(mft.Certificate, false)
-	if res == nil {
-		return valid, pathCert, res, errors.New(fmt.Sprintf("Resource is empty: %v", err))
+	var valid bool
+	var res *Resource
+	if mft.InnerValid {
+		valid, _, res, err = v.AddCert(mft.Certificate, false)
+		if res == nil {
+			return valid, pathCert, res, errors.New(fmt.Sprintf("Resource is empty: %v", err))
+		}
+	} else {
+		// The certificate may belong to another object: do not use it up.
+		res = ObjectToResource(mft.Certificate)
 	}
 	res.File = pkifile
 	res.Type = TYPE_MFTCER
-- 
2.43.0


From fa633d4a4fb62d88cf3b3de828d1177114b1ec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 20/80] fix: refuse objects of one CA that are published by
 another

A CA that published a copy of another CA's manifest had it processed in
place of the real one, which lost the other CA's whole subtree.
---
 validator/pki/pki.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 7cf3066..71825dc 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -309,6 +309,9 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 			}
 		}
 
+		if err := v.checkPublisher(pkifile, cert); err != nil {
+			return false, nil, nil, err
+		}
 		valid, pathCert, res, err := v.AddCert(cert, pkifile.Trust)
 		if res == nil {
 			return valid, pathCert, res, fmt.Errorf("Resource is empty: %v", err)
@@ -326,6 +329,9 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		if err != nil {
 			return false, nil, nil, err
 		}
+		if err := v.checkPublisher(pkifile, roa.Certificate); err != nil {
+			return false, nil, nil, err
+		}
 		valid, res, err := v.AddROA(pkifile, roa)
 		if res == nil {
 			return valid, nil, res, fmt.Errorf("Resource is empty: %v", err)
@@ -339,6 +345,9 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		if err != nil {
 			return false, nil, nil, err
 		}
+		if err := v.checkPublisher(pkifile, mft.Certificate); err != nil {
+			return false, nil, nil, err
+		}
 		valid, pathCert, res, err := v.AddManifest(pkifile, mft)
 		if res == nil {
 			return valid, nil, res, fmt.Errorf("Resource is empty: %v", err)
@@ -378,6 +387,28 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 	return false, nil, nil, errors.New("Unknown file type")
 }
 
+// checkPublisher refuses objects of one CA that are published by another: a
+// manifest must be issued by the CA that refers to it, and what a manifest
+// lists by the CA that issued the manifest. Otherwise a copy of an object
+// could take the place of the object itself.
+func (v *Validator) checkPublisher(file *PKIFile, cert *librpki.RPKICertificate) error {
+	if file == nil || file.Parent == nil || cert == nil || cert.Certificate == nil {
+		return nil
+	}
+	publisher := file.Parent
+	if publisher.Type == TYPE_MFT && file.ManifestHash != nil {
+		publisher = publisher.Parent
+	}
+	if publisher == nil || publisher.Type != TYPE_CER {
+		return nil
+	}
+	issuer, found := v.ValidObjects[string(cert.Certificate.AuthorityKeyId)]
+	if found && issuer.File != nil && issuer.File != publisher {
+		return fmt.Errorf("%s is published by %s but was issued by %s", file.Path, publisher.Path, issuer.File.Path)
+	}
+	return nil
+}
+
 func (v *Validator) InvalidateObject(keyid []byte) {
 	invalidated := make(map[string]bool)
 	invalidateList := make([][]byte, 1)
-- 
2.43.0


From 5e75f33c5cb4a5bd26e7564d810f4d789b8dd122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 21/80] fix: explore a file for everyone who refers to it

A CA that listed the path of another CA's file on its manifest, with a wrong
hash, had the file skipped when its owner's manifest was processed.
---
 validator/pki/pki.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 71825dc..4c99a3c 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -131,7 +131,7 @@ func (sm *SimpleManager) reportErrorFile(err error, file *PKIFile, seek *SeekFil
 
 func (sm *SimpleManager) PutFiles(fileList []*PKIFile) {
 	for _, file := range fileList {
-		path := file.ComputePath()
+		path := file.exploreKey()
 		_, ok1 := sm.Explored[path]
 		_, ok2 := sm.ToExploreUnique[path]
 		if ok1 || ok2 {
@@ -140,6 +140,7 @@ func (sm *SimpleManager) PutFiles(fileList []*PKIFile) {
 			}
 		} else {
 			sm.ToExploreUnique[path] = true
+			sm.ToExploreUnique[file.ComputePath()] = true
 			sm.ToExplore = append(sm.ToExplore, file)
 		}
 	}
@@ -160,7 +161,7 @@ func (sm *SimpleManager) GetNextExplore() (*PKIFile, bool, error) {
 
 func (sm *SimpleManager) GetNextFile(curExplore *PKIFile) (*SeekFile, error) {
 	path := curExplore.ComputePath()
-	if _, ok := sm.Explored[path]; ok {
+	if _, ok := sm.Explored[curExplore.exploreKey()]; ok {
 		return nil, errors.New(fmt.Sprintf("File %v already explored", path))
 	}
 
@@ -268,6 +269,18 @@ func (f *PKIFile) ComputePath() string {
 	return pathRep
 }
 
+// exploreKey identifies a file to explore: its path and the path of the file
+// that refers to it. What one CA makes of a file, which it may well describe
+// wrongly, must not replace what the file's owner says about it. CRLs that are
+// referenced by many certificates are explored once, if no manifest lists them.
+func (f *PKIFile) exploreKey() string {
+	path := f.ComputePath()
+	if f.Parent == nil || f.Type == TYPE_CRL && f.Parent.Type == TYPE_CER {
+		return path
+	}
+	return path + "\x00" + f.Parent.ComputePath()
+}
+
 func ObjectToResource(data interface{}) *Resource {
 	res := &Resource{
 		Resource: data,
@@ -884,7 +897,7 @@ func (sm *SimpleManager) InvalidateCRLParent(file *PKIFile, crlError error) {
 }
 
 func (sm *SimpleManager) ExploreAdd(file *PKIFile, data *SeekFile, addInvalidChilds bool) {
-	sm.Explored[file.ComputePath()] = true
+	sm.Explored[file.exploreKey()] = true
 	valid, subFiles, res, err := sm.Validator.AddResource(file, data.Data)
 
 	if err != nil {
-- 
2.43.0


From 200392b7923311da0efe1555caefcd631221f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 22/80] fix: CMS: check the digest of the content as it was
 signed

Manifests were hashed after a conversion to DER, and trailing octets of a
ROA's or manifest's content were left out of the hash.
---
 validator/lib/cms.go      | 2 +-
 validator/lib/manifest.go | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index 6448fb5..65061fe 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -396,7 +396,7 @@ func BadFormatGroup(data []byte) ([]byte, bool, error) {
 			}
 		}
 	} else {
-		fullbytes = preTag.FullBytes
+		fullbytes = data
 	}
 
 	return fullbytes, iterations > 1, err
diff --git a/validator/lib/manifest.go b/validator/lib/manifest.go
index abf271e..50b1664 100644
--- a/validator/lib/manifest.go
+++ b/validator/lib/manifest.go
@@ -101,9 +101,12 @@ func (cf *DecoderConfig) DecodeManifest(data []byte) (*RPKIManifest, error) {
 		return nil, err
 	}
 
-	fullbytes, _ = BER2DER(fullbytes)
+	derContent, err := BER2DER(fullbytes)
+	if err != nil {
+		return nil, err
+	}
 	var mc ManifestContent
-	_, err = asn1.Unmarshal(fullbytes, &mc)
+	_, err = asn1.Unmarshal(derContent, &mc)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e9a38705228d98e03fd8b31521263289f76d9963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 23/80] fix: do not take IPv4-mapped IPv6 resources for IPv4
 ones

A certificate holding only 10.0.0.0/8 could pass on ::ffff:10.0.0.0/104, and
an IPv6 block around ::ffff:0:0/96 was not contained in ::/0.
---
 validator/lib/cert.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index 55d07e7..a622dc5 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -49,13 +49,18 @@ func (ipn *IPNet) String() string {
 }
 
 func (ipn *IPNet) IsIPInRange(ip net.IP) (bool, bool) {
-	return ipn.IPNet.Contains(ip), false
+	// The length gives the family: an IPv4-mapped IPv6 address is not IPv4
+	if len(ip) != len(ipn.IPNet.Mask) {
+		return false, false
+	}
+	return ipn.IPNet.IP.Mask(ipn.IPNet.Mask).Equal(ip.Mask(ipn.IPNet.Mask)), false
 }
 
 func (ipn *IPNet) GetAfi() uint8 {
-	if ipn.IPNet.IP.To4() != nil {
+	switch len(ipn.IPNet.Mask) {
+	case net.IPv4len:
 		return 1
-	} else if ipn.IPNet.IP.To16() != nil {
+	case net.IPv6len:
 		return 2
 	}
 	return 0
@@ -152,9 +157,9 @@ func (ipan *IPAddressNull) String() string {
 }
 
 func (ipan *IPAddressNull) IsIPInRange(ip net.IP) (bool, bool) {
-	if ipan.GetAfi() == 1 && ip.To4() != nil {
+	if ipan.GetAfi() == 1 && len(ip) == net.IPv4len {
 		return false, true
-	} else if ipan.GetAfi() == 2 && ip.To4() == nil && ip.To16() != nil {
+	} else if ipan.GetAfi() == 2 && len(ip) == net.IPv6len {
 		return false, true
 	}
 	return false, false
-- 
2.43.0


From e539e5a28c771861e60c21a77707f1cca002f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 24/80] fix: do not accept a key identifier claimed with
 another key

A CA could use the key identifier of another one's certificate or ROA, whose
own object was then refused as conflicting.
---
 validator/pki/pki.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 4c99a3c..3eb2f86 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -525,6 +525,13 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		return NewCertificateErrorValidity(cert, err)
 	}
 
+	// The subject key identifier is how a certificate and what it issued are
+	// found: it cannot be claimed with another key.
+	ski, err := librpki.HashPublicKey(cert.Certificate.PublicKey)
+	if err == nil && !bytes.Equal(ski, cert.Certificate.SubjectKeyId) {
+		return fmt.Errorf("subject key identifier %x does not match the public key (%x)", cert.Certificate.SubjectKeyId, ski)
+	}
+
 	if trust {
 		err = cert.Validate(cert)
 		if err != nil {
-- 
2.43.0


From a8b5a2d13f6095004e453cb9ff9d3d0d2a06c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 25/80] fix: a file that cannot be decoded or found is not a
 failed fetch

FetchFile failed for files BER2DER refuses, so that a listed file that does
not decode took down the whole CA; and the read error was not wrapped, so
that absent files were never recognised as such.
---
 sync/lib/fetch.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index be2fed2..f2eee48 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -2,6 +2,7 @@ package syncpki
 
 import (
 	"crypto/sha256"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"os"
@@ -54,7 +55,7 @@ func ReplacePath(file *pki.PKIFile, replace map[string]string) string {
 func FetchFile(path string, derEncoding bool) ([]byte, []byte, error) {
 	fc, err := ioutil.ReadFile(path)
 	if err != nil {
-		return nil, nil, fmt.Errorf("Unable to read file %q: %v", path, err)
+		return nil, nil, fmt.Errorf("Unable to read file %q: %w", path, err)
 	}
 
 	tmpSha265 := sha256.Sum256(fc)
@@ -64,9 +65,12 @@ func FetchFile(path string, derEncoding bool) ([]byte, []byte, error) {
 		return fc, sha256, nil
 	}
 
-	fc, err = librpki.BER2DER(fc)
-	if err != nil {
-		return nil, nil, fmt.Errorf("librpki.BER2DER failed: %v", err)
+	// A file that cannot be converted is passed on as it is: it was read, and
+	// it is up to its decoder to refuse it.
+	if der, err := librpki.BER2DER(fc); err == nil {
+		fc = der
+	} else {
+		log.Debugf("librpki.BER2DER of %q failed: %v", path, err)
 	}
 
 	return fc, sha256, nil
@@ -93,7 +97,7 @@ func (s *LocalFetch) GetFileConv(file *pki.PKIFile, derEncoding bool) (*pki.Seek
 	log.Debugf("Fetching %v->%v", file.Path, newPath)
 
 	data, sha256, err := FetchFile(newPath, derEncoding)
-	if os.IsNotExist(err) {
+	if errors.Is(err, os.ErrNotExist) {
 		return nil, nil
 	}
 
-- 
2.43.0


From 67d0d0a6c21028cc9b0cc312215eb318a806cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 26/80] fix: map a URI to its directory by its longest matching
 prefix

Every occurrence of every mapped string was replaced, in random order: with
several mappings, or a URI that contains a mapped string twice, the result was
another file's path, and not always the same.
---
 sync/lib/fetch.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index f2eee48..1a62103 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -33,17 +33,29 @@ func (s *LocalFetch) SetRepositories(repositories map[string]time.Time) {
 	s.repositories = repositories
 }
 
+// GetLocalPath replaces the longest matching prefix of the URI.
 func GetLocalPath(pathRep string, replace map[string]string) string {
 	sep := fmt.Sprintf("%c", os.PathSeparator)
 
-	for repKey, repVal := range replace {
-		if !strings.HasSuffix(repVal, sep) {
-			repVal += sep
-		}
+	prefix := longestPrefix(pathRep, replace)
+	if prefix == "" {
+		return pathRep
+	}
+	repVal := replace[prefix]
+	if !strings.HasSuffix(repVal, sep) {
+		repVal += sep
+	}
+	return repVal + pathRep[len(prefix):]
+}
 
-		pathRep = strings.Replace(pathRep, repKey, repVal, -1)
+func longestPrefix(path string, replace map[string]string) string {
+	var prefix string
+	for repKey := range replace {
+		if strings.HasPrefix(path, repKey) && len(repKey) > len(prefix) {
+			prefix = repKey
+		}
 	}
-	return pathRep
+	return prefix
 }
 
 func ReplacePath(file *pki.PKIFile, replace map[string]string) string {
-- 
2.43.0


From a47271fb825cd4d7305ce3385cd0d14a0a6914b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 27/80] fix: list the mapped directory of a repository

GetRepository listed the unmapped URI, joined names without a separator,
read irregular files, and named files so that their path held the
repository twice.
---
 sync/lib/fetch.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index 1a62103..257bb67 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -134,13 +134,16 @@ func (s *LocalFetch) GetFileConv(file *pki.PKIFile, derEncoding bool) (*pki.Seek
 
 func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore) error {
 	newPath := GetLocalPath(file.Repo, s.MapDirectory)
-	files, err := ioutil.ReadDir(file.Repo)
+	if !strings.HasSuffix(newPath, "/") {
+		newPath += "/"
+	}
+	files, err := ioutil.ReadDir(newPath)
 	if err != nil {
-		return fmt.Errorf("Unable to read dir %q: %v", file.Repo, err)
+		return fmt.Errorf("Unable to read dir %q: %v", newPath, err)
 	}
 
 	for _, fileDir := range files {
-		if fileDir == nil || fileDir.IsDir() {
+		if fileDir == nil || !fileDir.Mode().IsRegular() {
 			continue
 		}
 
@@ -165,12 +168,18 @@ func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplo
 			}
 		}
 
+		// Files below a manifest are found relative to its repository.
+		path := fileDir.Name()
+		if file.Type != pki.TYPE_MFT {
+			path = strings.TrimSuffix(file.Repo, "/") + "/" + path
+		}
+
 		callback(
 			&pki.PKIFile{
 				Parent: file,
 				Type:   extension,
 				Repo:   file.Repo,
-				Path:   file.Repo + fileDir.Name(),
+				Path:   path,
 			},
 			&pki.SeekFile{
 				File:   file.Path,
-- 
2.43.0


From 93702cf41dbd2c1e361f548481370ff2474aa6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 28/80] fix: do not read outside the mapped directories

The URIs of certificates may hold parent directories, or name no mapped
directory at all.
---
 sync/lib/fetch.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index 257bb67..48dac49 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -58,6 +58,24 @@ func longestPrefix(path string, replace map[string]string) string {
 	return prefix
 }
 
+// localPath maps the path of a file. What other objects refer to must not lead
+// out of the mapped directories.
+func (s *LocalFetch) localPath(file *pki.PKIFile, path string) (string, error) {
+	prefix := longestPrefix(path, s.MapDirectory)
+	if prefix == "" {
+		if file.Parent != nil && file.Parent.Type != pki.TYPE_TAL {
+			return "", fmt.Errorf("%q is not in a mapped directory", path)
+		}
+		return path, nil
+	}
+	for _, element := range strings.Split(path[len(prefix):], "/") {
+		if element == ".." {
+			return "", fmt.Errorf("path %q contains illegal path element", path)
+		}
+	}
+	return GetLocalPath(path, s.MapDirectory), nil
+}
+
 func ReplacePath(file *pki.PKIFile, replace map[string]string) string {
 	pathRep := file.ComputePath()
 	pathRep = GetLocalPath(pathRep, replace)
@@ -105,7 +123,10 @@ func (s *LocalFetch) GetFile(file *pki.PKIFile) (*pki.SeekFile, error) {
 }
 
 func (s *LocalFetch) GetFileConv(file *pki.PKIFile, derEncoding bool) (*pki.SeekFile, error) {
-	newPath := ReplacePath(file, s.MapDirectory)
+	newPath, err := s.localPath(file, file.ComputePath())
+	if err != nil {
+		return nil, err
+	}
 	log.Debugf("Fetching %v->%v", file.Path, newPath)
 
 	data, sha256, err := FetchFile(newPath, derEncoding)
@@ -133,7 +154,10 @@ func (s *LocalFetch) GetFileConv(file *pki.PKIFile, derEncoding bool) (*pki.Seek
 }
 
 func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore) error {
-	newPath := GetLocalPath(file.Repo, s.MapDirectory)
+	newPath, err := s.localPath(file, file.Repo)
+	if err != nil {
+		return err
+	}
 	if !strings.HasSuffix(newPath, "/") {
 		newPath += "/"
 	}
-- 
2.43.0


From b4643e05eec9ca65b26ca4d92882ce7b429792a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 29/80] fix: report files that cannot be read

The repository of a file on a manifest was looked up by its relative name, and
never found; without a list of repositories every failure meant not found.
---
 sync/lib/fetch.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index 48dac49..2823fbd 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -134,10 +134,11 @@ func (s *LocalFetch) GetFileConv(file *pki.PKIFile, derEncoding bool) (*pki.Seek
 		return nil, nil
 	}
 
-	if err != nil {
-		rsyncBase, _, errExtract := ExtractRsyncDomainModule(file.Path)
+	if err != nil && s.repositories != nil {
+		path := file.ComputePath()
+		rsyncBase, _, errExtract := ExtractRsyncDomainModule(path)
 		if errExtract != nil {
-			log.Errorf("error extracting rsync of %s: %v", file.Path, errExtract)
+			log.Errorf("error extracting rsync of %s: %v", path, errExtract)
 		}
 
 		if _, ok := s.repositories[rsyncBase]; !ok {
-- 
2.43.0


From 072346d7f2ab12f8ad7323f3dc4e997b1239f6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 30/80] fix: do not skip a manifest's second entry for a file

Entries of the same name were explored once whatever their hashes: whether a
wrong hash was noticed depended on the order of the manifest.
---
 validator/pki/pki.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 3eb2f86..93876e6 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -269,16 +269,17 @@ func (f *PKIFile) ComputePath() string {
 	return pathRep
 }
 
-// exploreKey identifies a file to explore: its path and the path of the file
-// that refers to it. What one CA makes of a file, which it may well describe
-// wrongly, must not replace what the file's owner says about it. CRLs that are
+// exploreKey identifies a file to explore: its path, the path of the file that
+// refers to it and the hash it lists. What one CA makes of a file, which it may
+// well describe wrongly, must not replace what the file's owner says about it,
+// nor one entry of a manifest another one with a different hash. CRLs that are
 // referenced by many certificates are explored once, if no manifest lists them.
 func (f *PKIFile) exploreKey() string {
 	path := f.ComputePath()
 	if f.Parent == nil || f.Type == TYPE_CRL && f.Parent.Type == TYPE_CER {
 		return path
 	}
-	return path + "\x00" + f.Parent.ComputePath()
+	return path + "\x00" + f.Parent.ComputePath() + "\x00" + string(f.ManifestHash)
 }
 
 func ObjectToResource(data interface{}) *Resource {
-- 
2.43.0


From d258b92ca9e1a6331ee7919c74ce415098e1c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 31/80] fix: a VRP for AS 0 matches no route

---
 ov/ov.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ov/ov.go b/ov/ov.go
index 8206b67..6958b80 100644
--- a/ov/ov.go
+++ b/ov/ov.go
@@ -70,7 +70,8 @@ func (cv *curValidation) Filter(payload int64) bool {
 	// Specs https://tools.ietf.org/html/rfc6811
 	if cv.state != STATE_VALID {
 		mask, _ := cv.route.GetPrefix().Mask.Size()
-		if cv.route.GetASN() == roa.GetASN() && mask <= roa.GetMaxLen() {
+		// No route originates from AS 0: it is matched by no VRP (RFC 6811 section 2)
+		if cv.route.GetASN() != 0 && cv.route.GetASN() == roa.GetASN() && mask <= roa.GetMaxLen() {
 			cv.state = STATE_VALID
 		} else {
 			cv.state = STATE_INVALID
-- 
2.43.0


From 106e27f2f546cbd8971218673d49baba3a6a0c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 32/80] fix: origin validation: IPv4-mapped IPv6 prefixes are
 IPv6

---
 ov/ov.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ov/ov.go b/ov/ov.go
index 6958b80..b3c86d0 100644
--- a/ov/ov.go
+++ b/ov/ov.go
@@ -41,13 +41,23 @@ type OriginValidator struct {
 	t6  *int64_tree.TreeV6
 }
 
+// parsePrefix tells the families apart: prefixes of ::ffff:0:0/96 are IPv6 ones.
+func parsePrefix(prefix *net.IPNet) (*patricia.IPv4Address, *patricia.IPv6Address, error) {
+	if prefix != nil && len(prefix.IP) == net.IPv6len && len(prefix.Mask) == net.IPv6len {
+		length, _ := prefix.Mask.Size()
+		ip6 := patricia.NewIPv6Address(prefix.IP, uint(length))
+		return nil, &ip6, nil
+	}
+	return patricia.ParseFromIPAddr(prefix)
+}
+
 // vrp: Validated ROA Payload https://tools.ietf.org/html/rfc6811
 func NewOV(vrp []AbstractROA) *OriginValidator {
 	t4 := int64_tree.NewTreeV4()
 	t6 := int64_tree.NewTreeV6()
 
 	for i, r := range vrp {
-		ip4, ip6, _ := patricia.ParseFromIPAddr(r.GetPrefix())
+		ip4, ip6, _ := parsePrefix(r.GetPrefix())
 		if ip4 != nil {
 			t4.Add(*ip4, int64(i), nil)
 		} else if ip6 != nil {
@@ -83,7 +93,7 @@ func (cv *curValidation) Filter(payload int64) bool {
 
 func (ov *OriginValidator) Validate(route AbstractRoute) ([]AbstractROA, int, error) {
 	matching := make([]AbstractROA, 0)
-	ip4, ip6, err := patricia.ParseFromIPAddr(route.GetPrefix())
+	ip4, ip6, err := parsePrefix(route.GetPrefix())
 
 	if err != nil {
 		return matching, STATE_UNKNOWN, err
-- 
2.43.0


From f38db3ebf2930d89b0b4489137a8b60f38e9a6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 33/80] fix: RRDP: report withdrawals that fail

---
 sync/lib/rrdp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index c47eb12..eb154d2 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -351,7 +351,7 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 					if err != nil {
 						return err
 					}
-					s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
+					err = s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
 					if err != nil {
 						return err
 					}
-- 
2.43.0


From 131a207f41aae2c99ecbd72b36ca122335dc6a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 34/80] fix: RRDP: refuse truncated, malformed and unexpected
 documents

---
 sync/lib/rrdp.go | 105 ++++++++++++++++-------------------------------
 1 file changed, 36 insertions(+), 69 deletions(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index eb154d2..52df98b 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -6,6 +6,7 @@ import (
 	"encoding/xml"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"net/http"
 	"strings"
@@ -65,89 +66,55 @@ func (f *HTTPFetcher) GetXML(url string) (string, error) {
 	return string(data), nil
 }
 
-func ParseRoot(data string) (Notification, error) {
-	n := Notification{}
-
-	r := bytes.NewBufferString(data)
-	decoder := xml.NewDecoder(r)
-
+// parseDocument decodes an XML document that holds nothing but one of the
+// given elements. It returns the name of the element.
+func parseDocument(data string, elements map[string]interface{}) (string, error) {
+	var root string
+	decoder := xml.NewDecoder(strings.NewReader(data))
 	for {
-		t, _ := decoder.Token()
-		if t == nil {
-			// EOF
-			break
+		t, err := decoder.Token()
+		if err == io.EOF && root != "" {
+			return root, nil
+		}
+		if err != nil {
+			return "", errors.New("XML is not well-formed")
 		}
 
 		switch se := t.(type) {
 		case xml.StartElement:
-			name := se.Name.Local
-			switch name {
-			case "notification":
-				err := decoder.DecodeElement(&n, &se)
-				if err != nil {
-					return n, errors.New("XML does not conform to schema")
-				}
+			value, ok := elements[se.Name.Local]
+			if !ok || root != "" {
+				return "", fmt.Errorf("unexpected XML element %s", se.Name.Local)
+			}
+			root = se.Name.Local
+			if err := decoder.DecodeElement(value, &se); err != nil {
+				return "", errors.New("XML does not conform to schema")
+			}
+		case xml.CharData:
+			if len(bytes.TrimSpace(se)) > 0 {
+				return "", errors.New("unexpected text outside of the XML element")
 			}
 		}
 	}
-	return n, nil
+}
+
+func ParseRoot(data string) (Notification, error) {
+	n := Notification{}
+	_, err := parseDocument(data, map[string]interface{}{"notification": &n})
+	return n, err
 }
 
 func ParseNode(data string) ([]Cert, []Cert, error) {
-	var publish []Cert
-	var withdraw []Cert
 	d := Delta{}
 	s := Snapshot{}
-
-	byteStr := bytes.NewBufferString(data)
-	decoder := xml.NewDecoder(byteStr)
-
-	for {
-		t, _ := decoder.Token()
-		if t == nil {
-			break
-		}
-
-		switch se := t.(type) {
-		case xml.StartElement:
-			name := se.Name.Local
-			switch name {
-			case "delta":
-				err := decoder.DecodeElement(&d, &se)
-
-				for _, v := range d.Publish {
-					publish = append(publish, v)
-				}
-
-				if (len(d.Withdraw)) > 0 {
-					for _, v := range d.Withdraw {
-						withdraw = append(withdraw, v)
-					}
-				}
-
-				if err != nil {
-					return publish, withdraw, errors.New("XML does not conform to schema")
-				}
-			case "snapshot":
-				err := decoder.DecodeElement(&s, &se)
-
-				for _, v := range s.Publish {
-					publish = append(publish, v)
-				}
-
-				if (len(s.Withdraw)) > 0 {
-					for _, v := range s.Withdraw {
-						withdraw = append(withdraw, v)
-					}
-				}
-
-				if err != nil {
-					return publish, withdraw, errors.New("XML does not conform to schema")
-				}
-			}
-		}
+	root, err := parseDocument(data, map[string]interface{}{"delta": &d, "snapshot": &s})
+	if err != nil {
+		return nil, nil, err
+	}
+	if root == "delta" {
+		return d.Publish, d.Withdraw, nil
 	}
-	return publish, withdraw, nil
+	return s.Publish, s.Withdraw, nil
 }
 
 type RRDPFile func(main string, url string, path string, data []byte, withdraw bool, snapshot bool, curId int64, args ...interface{}) error
-- 
2.43.0


From f19cc5774e712243dbb06859f752bd960e4116e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 35/80] fix: RRDP: read documents in US-ASCII, and base64 with
 tabs

---
 sync/lib/rrdp.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index 52df98b..467ce4e 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -71,6 +71,12 @@ func (f *HTTPFetcher) GetXML(url string) (string, error) {
 func parseDocument(data string, elements map[string]interface{}) (string, error) {
 	var root string
 	decoder := xml.NewDecoder(strings.NewReader(data))
+	decoder.CharsetReader = func(charset string, input io.Reader) (io.Reader, error) {
+		if !strings.EqualFold(charset, "us-ascii") {
+			return nil, fmt.Errorf("unsupported charset %s", charset)
+		}
+		return input, nil
+	}
 	for {
 		t, err := decoder.Token()
 		if err == io.EOF && root != "" {
@@ -140,10 +146,7 @@ func (s *RRDPSystem) SetSentryScope(scope *sentry.Scope) {
 }
 
 func DecodeRRDPBase64(value string) ([]byte, error) {
-	value = strings.Replace(value, " ", "", -1)
-	value = strings.Replace(value, "\n", "", -1)
-	value = strings.Replace(value, "\r", "", -1)
-	return base64.StdEncoding.DecodeString(value)
+	return base64.StdEncoding.DecodeString(strings.Join(strings.Fields(value), ""))
 }
 
 func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
-- 
2.43.0


From 667b301aa61ba6f2a44c5af056381437d5cd4115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 36/80] fix: RRDP: check the hash, session and serial of
 snapshots and deltas

---
 sync/lib/rrdp.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index 467ce4e..0f4fbf0 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -2,7 +2,9 @@ package syncpki
 
 import (
 	"bytes"
+	"crypto/sha256"
 	"encoding/base64"
+	"encoding/hex"
 	"encoding/xml"
 	"errors"
 	"fmt"
@@ -111,16 +113,39 @@ func ParseRoot(data string) (Notification, error) {
 }
 
 func ParseNode(data string) ([]Cert, []Cert, error) {
+	_, _, publish, withdraw, err := parseNode(data)
+	return publish, withdraw, err
+}
+
+func parseNode(data string) (string, RootNode, []Cert, []Cert, error) {
 	d := Delta{}
 	s := Snapshot{}
 	root, err := parseDocument(data, map[string]interface{}{"delta": &d, "snapshot": &s})
 	if err != nil {
-		return nil, nil, err
+		return "", RootNode{}, nil, nil, err
 	}
 	if root == "delta" {
-		return d.Publish, d.Withdraw, nil
+		return root, d.RootNode, d.Publish, d.Withdraw, nil
+	}
+	return root, s.RootNode, s.Publish, s.Withdraw, nil
+}
+
+// checkNode parses the snapshot or delta that a notification announces, and
+// checks that it is the one which was announced.
+func checkNode(data string, kind string, el ElNode, sessionID string, serial int64) ([]Cert, []Cert, error) {
+	hash := sha256.Sum256([]byte(data))
+	if !strings.EqualFold(strings.TrimSpace(el.Hash), hex.EncodeToString(hash[:])) {
+		return nil, nil, fmt.Errorf("%s does not have the announced hash", el.URI)
+	}
+	root, node, publish, withdraw, err := parseNode(data)
+	if err != nil {
+		return nil, nil, err
+	}
+	if root != kind || node.SessionID != sessionID || node.Serial != serial {
+		return nil, nil, fmt.Errorf("%s is the %s of serial %d in session %s instead of the %s of serial %d in session %s",
+			el.URI, root, node.Serial, node.SessionID, kind, serial, sessionID)
 	}
-	return s.Publish, s.Withdraw, nil
+	return publish, withdraw, nil
 }
 
 type RRDPFile func(main string, url string, path string, data []byte, withdraw bool, snapshot bool, curId int64, args ...interface{}) error
@@ -223,7 +248,7 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 			Category: "http",
 		}, nil)
 
-		publish, withdraw, err := ParseNode(data)
+		publish, withdraw, err := checkNode(data, "snapshot", root.Snapshot, curSessionID, curSerial)
 		if err != nil {
 			sHub.CaptureException(err)
 			return err
@@ -292,7 +317,7 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 				Category: "http",
 			}, nil)
 
-			deltaPublish, deltaWithdraw, err := ParseNode(data)
+			deltaPublish, deltaWithdraw, err := checkNode(data, "delta", elNode, curSessionID, serial)
 			if err != nil {
 				sHub.CaptureException(err)
 				return err
@@ -304,7 +329,6 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 				Category: "default",
 			}, nil)
 
-			// Before inserting: check hash
 			if s.Callback != nil {
 				for _, v := range deltaPublish {
 					vdec, err := DecodeRRDPBase64(v.Value)
-- 
2.43.0


From 9d3677e057b3e73a9b7010707339fb722083fdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 37/80] fix: RRDP: deliver nothing of a document that cannot be
 decoded

---
 sync/lib/rrdp.go | 51 +++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index 0f4fbf0..fc10831 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -174,6 +174,19 @@ func DecodeRRDPBase64(value string) ([]byte, error) {
 	return base64.StdEncoding.DecodeString(strings.Join(strings.Fields(value), ""))
 }
 
+// decodeFiles decodes all the files of a document, before any is delivered.
+func decodeFiles(publish []Cert) ([][]byte, error) {
+	files := make([][]byte, len(publish))
+	for i, v := range publish {
+		file, err := DecodeRRDPBase64(v.Value)
+		if err != nil {
+			return nil, err
+		}
+		files[i] = file
+	}
+	return files, nil
+}
+
 func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 	s.fetches = make([]string, 0)
 
@@ -260,23 +273,20 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 			Category: "default",
 		}, nil)
 
+		files, err := decodeFiles(publish)
+		if err != nil {
+			return err
+		}
+
 		if s.Callback != nil {
-			for _, v := range publish {
-				vdec, err := DecodeRRDPBase64(v.Value)
-				if err != nil {
-					return err
-				}
-				err = s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, false, true, curSerial, cbArgs...)
+			for i, v := range publish {
+				err = s.Callback(s.Path, root.Snapshot.URI, v.URI, files[i], false, true, curSerial, cbArgs...)
 				if err != nil {
 					return err
 				}
 			}
 			for _, v := range withdraw {
-				vdec, err := DecodeRRDPBase64(v.Value)
-				if err != nil {
-					return err
-				}
-				err = s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, true, curSerial, cbArgs...)
+				err = s.Callback(s.Path, root.Snapshot.URI, v.URI, []byte{}, true, true, curSerial, cbArgs...)
 				if err != nil {
 					return err
 				}
@@ -329,23 +339,20 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 				Category: "default",
 			}, nil)
 
+			files, err := decodeFiles(deltaPublish)
+			if err != nil {
+				return err
+			}
+
 			if s.Callback != nil {
-				for _, v := range deltaPublish {
-					vdec, err := DecodeRRDPBase64(v.Value)
-					if err != nil {
-						return err
-					}
-					err = s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, false, false, elNode.Serial, cbArgs...)
+				for i, v := range deltaPublish {
+					err = s.Callback(s.Path, root.Snapshot.URI, v.URI, files[i], false, false, elNode.Serial, cbArgs...)
 					if err != nil {
 						return err
 					}
 				}
 				for _, v := range deltaWithdraw {
-					vdec, err := DecodeRRDPBase64(v.Value)
-					if err != nil {
-						return err
-					}
-					err = s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
+					err = s.Callback(s.Path, root.Snapshot.URI, v.URI, []byte{}, true, false, elNode.Serial, cbArgs...)
 					if err != nil {
 						return err
 					}
-- 
2.43.0


From 4344fcfdc7ba0a4759f17654fb8c46049b14eb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 38/80] fix: RRDP: use the deltas since the local serial, and
 the snapshot after a rollback

---
 sync/lib/rrdp.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index fc10831..089913f 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -234,11 +234,11 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 		deltasMap[int64(v.Serial)] = v
 	}
 
-	// If the last downloaded Delta is not in the map, the
-	// whole notification.xml file has gone stale
-	var missingFiles bool
+	// If a delta since the last downloaded one is not in the map, or the
+	// server went back, the copy can only be updated from the snapshot
+	missingFiles := curSerial < lastSerial
 	serial := lastSerial
-	for serial = lastSerial; serial <= curSerial; serial++ {
+	for serial = lastSerial + 1; serial <= curSerial; serial++ {
 		if _, ok := deltasMap[serial]; !ok {
 			missingFiles = true
 			break
-- 
2.43.0


From a176439901dbc3b55049963be99b346d102a7988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 39/80] fix: map a repository like the files in it

---
 sync/lib/fetch.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index 2823fbd..790b8d4 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -155,13 +155,10 @@ func (s *LocalFetch) GetFileConv(file *pki.PKIFile, derEncoding bool) (*pki.Seek
 }
 
 func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore) error {
-	newPath, err := s.localPath(file, file.Repo)
+	newPath, err := s.localPath(file, strings.TrimSuffix(file.Repo, "/")+"/")
 	if err != nil {
 		return err
 	}
-	if !strings.HasSuffix(newPath, "/") {
-		newPath += "/"
-	}
 	files, err := ioutil.ReadDir(newPath)
 	if err != nil {
 		return fmt.Errorf("Unable to read dir %q: %v", newPath, err)
-- 
2.43.0


From c7b38c463ba5be566817b9d468eb5aba26f75b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 40/80] fix: treat IPv4-mapped IPv6 prefixes in ROAs as IPv6

A ROA for ::ffff:192.0.2.0/120 was refused since 120 is no IPv4 length, was
encoded among the IPv4 prefixes, and was written like an IPv4 prefix.
---
 cmd/localrpki/localrpki.go |  2 +-
 cmd/octorpki/octorpki.go   |  4 ++--
 validator/lib/roa.go       | 17 +++++++++++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/cmd/localrpki/localrpki.go b/cmd/localrpki/localrpki.go
index f734efe..4bdea84 100644
--- a/cmd/localrpki/localrpki.go
+++ b/cmd/localrpki/localrpki.go
@@ -103,7 +103,7 @@ func main() {
 			for _, entry := range d.Valids {
 				oroa := OutputROA{
 					ASN:       fmt.Sprintf("AS%v", d.ASN),
-					Prefix:    entry.IPNet.String(),
+					Prefix:    entry.PrefixString(),
 					MaxLength: entry.MaxLength,
 					Path:      manager.PathOfResource[roa].ComputePath(),
 				}
diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index a4b2d6b..6be3dbf 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -924,7 +924,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			for _, entry := range roa.Valids {
 				oroa := prefixfile.ROAJson{
 					ASN:    fmt.Sprintf("AS%v", roa.ASN),
-					Prefix: entry.IPNet.String(),
+					Prefix: entry.PrefixString(),
 					Length: uint8(entry.MaxLength),
 					TA:     talname,
 				}
@@ -933,7 +933,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 				counttal++
 
 				curResource.ROAs = append(curResource.ROAs, &schemas.OutputROA{
-					Prefix:    entry.IPNet.String(),
+					Prefix:    entry.PrefixString(),
 					MaxLength: entry.MaxLength,
 				})
 			}
diff --git a/validator/lib/roa.go b/validator/lib/roa.go
index a7e82a9..30b993a 100644
--- a/validator/lib/roa.go
+++ b/validator/lib/roa.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"net"
+	"net/netip"
 	"sort"
 	"time"
 )
@@ -61,7 +62,7 @@ func GroupEntries(entries []*ROAEntry) map[byte][]*ROAEntry {
 	mapIps := make(map[byte][]*ROAEntry)
 	for _, entry := range entries {
 		afi := byte(2)
-		if entry.IPNet.IP.To4() != nil {
+		if len(entry.IPNet.Mask) == net.IPv4len {
 			afi = 1
 		}
 
@@ -153,6 +154,17 @@ func GetRangeIP(ipnet *net.IPNet) (error, net.IP, net.IP) {
 // https://tools.ietf.org/html/rfc6480#section-2.3
 // https://tools.ietf.org/html/rfc6482#section-4
 
+// PrefixString formats the prefix. Unlike net.IPNet, it does not write
+// IPv4-mapped IPv6 prefixes like IPv4 ones.
+func (entry *ROAEntry) PrefixString() string {
+	ip, ok := netip.AddrFromSlice(entry.IPNet.IP)
+	size, bits := entry.IPNet.Mask.Size()
+	if !ok || bits != net.IPv6len*8 || !ip.Is4In6() {
+		return entry.IPNet.String()
+	}
+	return netip.PrefixFrom(ip, size).String()
+}
+
 func (entry *ROAEntry) Validate() error {
 	s, _ := entry.IPNet.Mask.Size()
 	if entry.MaxLength < s {
@@ -163,7 +175,8 @@ func (entry *ROAEntry) Validate() error {
 		return fmt.Errorf("max length (%d) is less than 0", entry.MaxLength)
 	}
 
-	if entry.IPNet.IP.To4() != nil && entry.MaxLength > 32 { // If IPv4
+	// The mask tells the family: IPv4-mapped IPv6 prefixes are IPv6
+	if len(entry.IPNet.Mask) == net.IPv4len && entry.MaxLength > 32 { // If IPv4
 		return fmt.Errorf("max length (%d) too small for IPv4 prefix", entry.MaxLength)
 	} else if entry.MaxLength > 128 { // If IPv6
 		return fmt.Errorf("max length (%d) too small for IPv6 prefix", entry.MaxLength)
-- 
2.43.0


From 066d1aa8765e07fb2503484e85181b1ea497212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 41/80] fix: refuse ROAs for impossible AS numbers

---
 validator/lib/roa.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validator/lib/roa.go b/validator/lib/roa.go
index 30b993a..51b70f6 100644
--- a/validator/lib/roa.go
+++ b/validator/lib/roa.go
@@ -4,6 +4,7 @@ import (
 	"encoding/asn1"
 	"errors"
 	"fmt"
+	"math"
 	"net"
 	"net/netip"
 	"sort"
@@ -231,6 +232,9 @@ func (roa *RPKIROA) ValidateIPRoaCertificate(cert *RPKICertificate) ([]*ROAEntry
 func ConvertROAEntries(roacontent ROAContent) ([]*ROAEntry, int, error) {
 	entries := make([]*ROAEntry, 0)
 	asn := roacontent.ASID
+	if asn < 0 || asn > math.MaxUint32 {
+		return entries, asn, fmt.Errorf("AS number %d is not between 0 and 4294967295", asn)
+	}
 	//fmt.Printf("ROAContent %v %v AS: %v\n", len(fullbytes), err, roacontent.ASID)
 	for _, addrblock := range roacontent.IpAddrBlocks {
 		for _, addr := range addrblock.Addresses {
-- 
2.43.0


From c7821b78b0da1c7e5e986ce43834016c72e76f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 42/80] fix: do not stop, or leave the cache directory, for a
 bad rsync URL

A repository could stop the program with a file in the place of a directory,
a name that is too long or a URL that is not an rsync one, and have directories
made, or rsync run, outside of the cache.
---
 cmd/octorpki/octorpki.go | 63 ++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 34 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 6be3dbf..f7358c9 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -323,30 +323,40 @@ func ExtractRsyncDomain(rsyncURL string) (string, error) {
 	return strings.Split(strings.TrimPrefix(rsyncURL, syncpki.RsyncProtoPrefix), "/")[0], nil
 }
 
-func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
-	fPath := mustExtractFoldersPathFromRsyncURL(rsyncURL)
-	mustMkdirAll(fPath)
-	filePath := mustExtractFilePathFromRsyncURL(rsyncURL)
+// cachePath returns the place of an rsync URL in the cache directory.
+func cachePath(rsyncURL string) (string, error) {
+	filePath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
+	if err != nil {
+		return "", err
+	}
 
 	// GHSA-8459-6rc9-8vf8: Prevent parent directory writes outside of Basepath
-	if strings.Contains(filePath, "../") || strings.Contains(filePath, "..\\") {
-		return fmt.Errorf("Path %q contains illegal path element", filePath)
+	for _, element := range strings.FieldsFunc(filePath, func(r rune) bool { return r == '/' || r == '\\' }) {
+		if element == ".." {
+			return "", fmt.Errorf("Path %q contains illegal path element", filePath)
+		}
 	}
 
-	fp := filepath.Join(*Basepath, filePath)
-	err := ioutil.WriteFile(fp, data, 0600)
+	return filepath.Join(*Basepath, filePath), nil
+}
+
+func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
+	fp, err := cachePath(rsyncURL)
 	if err != nil {
-		return fmt.Errorf("Unable to write file %q: %v", fp, err)
+		return err
 	}
 
-	return nil
-}
+	err = os.MkdirAll(filepath.Dir(fp), os.ModePerm)
+	if err != nil {
+		return fmt.Errorf("Failed to create directories: %v", err)
+	}
 
-func mustMkdirAll(fPath string) {
-	err := os.MkdirAll(filepath.Join(*Basepath, fPath), os.ModePerm)
+	err = ioutil.WriteFile(fp, data, 0600)
 	if err != nil {
-		log.Fatalf("Failed to create directories: %v", err)
+		return fmt.Errorf("Unable to write file %q: %v", fp, err)
 	}
+
+	return nil
 }
 
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
@@ -529,24 +539,6 @@ func (s *OctoRPKI) mainRsync(pSpan opentracing.Span) {
 	MetricOperationTime.With(prometheus.Labels{"type": "rsync"}).Observe(float64(t2.Sub(t1).Seconds()))
 }
 
-func mustExtractFoldersPathFromRsyncURL(rsyncURL string) string {
-	downloadPath, err := syncpki.ExtractFoldersPathFromRsyncURL(rsyncURL)
-	if err != nil {
-		log.Fatalf("Failed to extract folder path from rsync URL: %v", err)
-	}
-
-	return downloadPath
-}
-
-func mustExtractFilePathFromRsyncURL(rsyncURL string) string {
-	fPath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
-	if err != nil {
-		log.Fatalf("Unable to extract file path from rsync url: %v", err)
-	}
-
-	return fPath
-}
-
 func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
 	rSpan := s.tracer.StartSpan("sync", opentracing.ChildOf(span.Context()))
 	defer rSpan.Finish()
@@ -554,9 +546,12 @@ func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
 	rSpan.SetTag("type", "rsync")
 
 	log.Infof("Rsync sync %v", uri)
-	downloadPath := mustExtractFilePathFromRsyncURL(uri)
+	path, err := cachePath(uri)
+	if err != nil {
+		s.rsyncError(uri, uri, err, rSpan)
+		return
+	}
 
-	path := filepath.Join(*Basepath, downloadPath)
 	ctxRsync, cancelRsync := context.WithTimeout(context.Background(), *RsyncTimeout)
 	defer cancelRsync()
 
-- 
2.43.0


From 423e401c34a2f84102de68911e7832a0d2e803a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 43/80] fix: only take host and module of a repository from an
 rsync URL

A certificate could name another directory of the cache, or one outside of it,
as its repository.
---
 sync/lib/utils.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sync/lib/utils.go b/sync/lib/utils.go
index dfb7ca2..63a5fff 100644
--- a/sync/lib/utils.go
+++ b/sync/lib/utils.go
@@ -21,15 +21,19 @@ type SubMap struct {
 }
 
 func ExtractRsyncDomainModule(rsync string) (string, string, error) {
-	if len(rsync) > len("rsync://") {
-		rsyncDomain := strings.Split(rsync[8:], "/")
-		if len(rsyncDomain) < 2 {
-			return "", "", errors.New("rsync url does not contain module")
+	if !isRsyncURL(rsync) {
+		return "", "", fmt.Errorf("%q is not an rsync URL", rsync)
+	}
+	rsyncDomain := strings.Split(strings.TrimPrefix(rsync, RsyncProtoPrefix), "/")
+	if len(rsyncDomain) < 2 {
+		return "", "", errors.New("rsync url does not contain module")
+	}
+	for _, element := range rsyncDomain[:2] {
+		if element == "" || element == "." || element == ".." {
+			return "", "", fmt.Errorf("rsync url %q does not contain a domain and a module", rsync)
 		}
-		return fmt.Sprintf("rsync://%s/%s", rsyncDomain[0], rsyncDomain[1]), fmt.Sprintf("rsync://%s/", rsyncDomain[0]), nil
-	} else {
-		return "", "", errors.New("Wrong size")
 	}
+	return fmt.Sprintf("rsync://%s/%s", rsyncDomain[0], rsyncDomain[1]), fmt.Sprintf("rsync://%s/", rsyncDomain[0]), nil
 }
 
 func AddInMap(item string, m map[string]SubMap) {
-- 
2.43.0


From 48d794eacc3f1bea274a91224568a301eb8ca88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 44/80] fix: RRDP: check the host of a file at the start of its
 URI

---
 cmd/octorpki/octorpki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index f7358c9..27a3706 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -362,7 +362,7 @@ func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
 	if len(args) > 0 {
 		rsync, ok := args[0].(string)
-		if ok && !strings.Contains(path, rsync) {
+		if ok && !strings.HasPrefix(path, rsync) {
 			log.Errorf("rrdp: %s is outside directory %s", path, rsync)
 			return nil
 		}
-- 
2.43.0


From 5965236c525cb86631b6044c7cfd80530b3f0e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 45/80] fix: RRDP: remove withdrawn files

They were replaced with empty ones.
---
 cmd/octorpki/octorpki.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 27a3706..704e735 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -9,6 +9,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"encoding/pem"
+	"errors"
 	"flag"
 	"fmt"
 	"io/ioutil"
@@ -359,6 +360,25 @@ func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
 	return nil
 }
 
+func (s *OctoRPKI) RemoveRsyncFileFromDisk(rsyncURL string) error {
+	fp, err := cachePath(rsyncURL)
+	if err != nil {
+		return err
+	}
+
+	info, err := os.Lstat(fp)
+	if errors.Is(err, os.ErrNotExist) {
+		return nil
+	}
+	if err != nil {
+		return err
+	}
+	if info.IsDir() {
+		return fmt.Errorf("%q is a directory", fp)
+	}
+	return os.Remove(fp)
+}
+
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
 	if len(args) > 0 {
 		rsync, ok := args[0].(string)
@@ -368,6 +388,13 @@ func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string,
 		}
 	}
 
+	if withdraw {
+		if err := s.RemoveRsyncFileFromDisk(path); err != nil {
+			return fmt.Errorf("Unable to remove file %q from disk: %v", path, err)
+		}
+		return nil
+	}
+
 	err := s.WriteRsyncFileOnDisk(path, data)
 	if err != nil {
 		return fmt.Errorf("Unable to write sync file %q on disk: %v", path, err)
-- 
2.43.0


From c61475855888da7ecabfc2f3bf82597294ae0cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 46/80] fix: put a trust anchor certificate fetched by rsync
 where it is read

It was put in a directory of its own name, so that trust anchors were not
found, and not written by HTTPS anymore either.
---
 cmd/octorpki/octorpki.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 704e735..e5d2dab 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -579,10 +579,17 @@ func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
 		return
 	}
 
+	// The certificate of a trust anchor goes next to where it is looked for,
+	// whereas a module fills the directory of its name
+	target := path
+	if module, _, err := syncpki.ExtractRsyncDomainModule(uri); err == nil && module != uri {
+		target = filepath.Dir(path)
+	}
+
 	ctxRsync, cancelRsync := context.WithTimeout(context.Background(), *RsyncTimeout)
 	defer cancelRsync()
 
-	files, err := syncpki.RunRsync(ctxRsync, uri, *RsyncBin, path)
+	files, err := syncpki.RunRsync(ctxRsync, uri, *RsyncBin, target)
 	if err != nil {
 		s.rsyncError(uri, path, err, rSpan)
 	} else {
-- 
2.43.0


From 0c94f1b361effbbc30f1d2e6950d74423ef2a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 47/80] fix: end a fetch by rsync at its timeout

Processes left by rsync could hold its output, and with it all validation,
forever.
---
 sync/lib/rsync.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sync/lib/rsync.go b/sync/lib/rsync.go
index 030e595..e449af7 100644
--- a/sync/lib/rsync.go
+++ b/sync/lib/rsync.go
@@ -85,6 +85,19 @@ func RunRsync(ctx context.Context, uri string, bin string, dirPath string) ([]*F
 		return nil, err
 	}
 
+	// Killing rsync does not end the reading of its output when it has started
+	// other processes
+	done := make(chan struct{})
+	defer close(done)
+	go func() {
+		select {
+		case <-ctx.Done():
+			stdout.Close()
+			stderr.Close()
+		case <-done:
+		}
+	}()
+
 	go func() {
 		scanner := bufio.NewScanner(stderr)
 		for scanner.Scan() {
-- 
2.43.0


From 791e975f20fdfff80d14631d97eb69b84aa438b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 48/80] fix: fetch a repository by rsync when its RRDP belongs
 to another host

A certificate naming the RRDP of somebody else's repository could keep that
repository from being fetched at all.
---
 cmd/octorpki/octorpki.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index e5d2dab..421f2d7 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1127,10 +1127,11 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 				prev, ok := s.getRRDPDomain(rrdpGeneralName)
 				if ok && prev != gnExtractedDomain {
 					log.Errorf("rrdp %s tries to override %s with %s", rrdpGeneralName, prev, gnExtractedDomain)
-					continue
+					rrdpGeneralName = "" // only use rsync
+				} else {
+					s.setRRDPDomain(rrdpGeneralName, gnExtractedDomain)
+					s.setRRDPFetch(rrdpGeneralName, gnExtracted)
 				}
-				s.setRRDPDomain(rrdpGeneralName, gnExtractedDomain)
-				s.setRRDPFetch(rrdpGeneralName, gnExtracted)
 			}
 			s.rsyncFetchJobManager.set(gnExtracted, rrdpGeneralName)
 			s.CurrentRepos[gnExtracted] = time.Now()
-- 
2.43.0


From 795b9c71bf5c707b8f579ed7c6d75fb5e08574be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 49/80] fix: fetch every module of an RRDP repository once

Only one of the modules published at an RRDP URL was not fetched by rsync too,
and one with and without RRDP was fetched by only one of the two.
---
 cmd/octorpki/octorpki.go | 41 +++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 421f2d7..9f7fbd0 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -482,7 +482,7 @@ func (s *OctoRPKI) fetchRRDP(path string, rsyncURL string, span opentracing.Span
 	}
 
 	log.Debugf("Success fetching %s, removing rsync %s", path, rsyncURL)
-	s.rsyncFetchJobManager.delete(rsyncURL)
+	s.rsyncFetchJobManager.deleteRRDP(path)
 
 	rSpan.LogKV("event", "rrdp", "type", "success", "message", "rrdp successfully fetched")
 	sentry.WithScope(func(scope *sentry.Scope) {
@@ -543,7 +543,7 @@ func (s *OctoRPKI) rrdpError(rsyncURL string, path string, err error, rSpan open
 	} else {
 		log.Errorf("Error when processing %v (for %v): %v.Skipping failover to rsync.", path, rsyncURL, err)
 		rSpan.LogKV("event", "rrdp failure", "type", "skipping failover to rsync", "message", err)
-		s.rsyncFetchJobManager.delete(rsyncURL)
+		s.rsyncFetchJobManager.deleteRRDP(path)
 	}
 
 	MetricRRDPErrors.With(prometheus.Labels{"address": path}).Inc()
@@ -1070,6 +1070,7 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 		ia[i] = make([]SIA, 0)
 	}
 	iatmp := make(map[string]*SIA)
+	modules := make(map[string][]string)
 
 	span := s.tracer.StartSpan("validation", opentracing.ChildOf(pSpan.Context()))
 	defer span.Finish()
@@ -1133,7 +1134,7 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 					s.setRRDPFetch(rrdpGeneralName, gnExtracted)
 				}
 			}
-			s.rsyncFetchJobManager.set(gnExtracted, rrdpGeneralName)
+			modules[gnExtracted] = append(modules[gnExtracted], rrdpGeneralName)
 			s.CurrentRepos[gnExtracted] = time.Now()
 			count++
 
@@ -1160,6 +1161,10 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 		}
 	}
 
+	for module, rrdp := range modules {
+		s.rsyncFetchJobManager.set(module, rrdp...)
+	}
+
 	s.setInfoAuthorities(ia)
 	s.setROAList(s.generateROAList(pkiManagers, span))
 
@@ -1521,28 +1526,41 @@ func NewOctoRPKI(tals []*pki.PKIFile, talNames []string) *OctoRPKI {
 }
 
 type rsyncFetchJobManager struct {
-	rsyncFetchJobs   map[string]string
+	rsyncFetchJobs   map[string][]string // maps from rsync URL to the RRDP URLs it is published at
 	rsyncFetchJobsMu sync.RWMutex
 }
 
 func newRsyncFetchJobManager() *rsyncFetchJobManager {
 	return &rsyncFetchJobManager{
-		rsyncFetchJobs: make(map[string]string),
+		rsyncFetchJobs: make(map[string][]string),
 	}
 }
 
-func (r *rsyncFetchJobManager) delete(job string) {
+// deleteRRDP removes what is published at an RRDP URL, and nowhere else.
+func (r *rsyncFetchJobManager) deleteRRDP(rrdp string) {
 	r.rsyncFetchJobsMu.Lock()
 	defer r.rsyncFetchJobsMu.Unlock()
 
-	delete(r.rsyncFetchJobs, job)
+	for job, urls := range r.rsyncFetchJobs {
+		left := make([]string, 0)
+		for _, url := range urls {
+			if url != rrdp {
+				left = append(left, url)
+			}
+		}
+		if len(left) > 0 {
+			r.rsyncFetchJobs[job] = left
+		} else {
+			delete(r.rsyncFetchJobs, job)
+		}
+	}
 }
 
-func (r *rsyncFetchJobManager) get() map[string]string {
+func (r *rsyncFetchJobManager) get() map[string][]string {
 	r.rsyncFetchJobsMu.RLock()
 	defer r.rsyncFetchJobsMu.RUnlock()
 
-	ret := make(map[string]string, len(r.rsyncFetchJobs))
+	ret := make(map[string][]string, len(r.rsyncFetchJobs))
 	for k, v := range r.rsyncFetchJobs {
 		ret[k] = v
 	}
@@ -1550,11 +1568,12 @@ func (r *rsyncFetchJobManager) get() map[string]string {
 	return ret
 }
 
-func (r *rsyncFetchJobManager) set(key, value string) {
+// set adds or replaces a job. Without RRDP, one of the URLs is empty.
+func (r *rsyncFetchJobManager) set(key string, rrdp ...string) {
 	r.rsyncFetchJobsMu.Lock()
 	defer r.rsyncFetchJobsMu.Unlock()
 
-	r.rsyncFetchJobs[key] = value
+	r.rsyncFetchJobs[key] = rrdp
 }
 
 func newROAList() *prefixfile.ROAList {
-- 
2.43.0


From f02a937d8ed3185c2472ef936857112b2a95b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 50/80] fix: keep the RRDP state of every RRDP URL

Repositories with a module in common overwrote the state of each other.
---
 cmd/octorpki/octorpki.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 9f7fbd0..7dac721 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -472,7 +472,7 @@ func (s *OctoRPKI) fetchRRDP(path string, rsyncURL string, span opentracing.Span
 
 	MetricSIACounts.With(prometheus.Labels{"address": path, "type": "rrdp"}).Set(0)
 
-	rrdpSystem := s.newRRDPSystem(path, rsyncURL)
+	rrdpSystem := s.newRRDPSystem(path)
 
 	domain, _ := s.getRRDPDomain(path)
 	err := rrdpSystem.FetchRRDP(domain)
@@ -499,7 +499,7 @@ func (s *OctoRPKI) fetchRRDP(path string, rsyncURL string, span opentracing.Span
 	s.RRDPInfoMu.Lock()
 	defer s.RRDPInfoMu.Unlock()
 
-	s.RRDPInfo[rsyncURL] = RRDPInfo{
+	s.RRDPInfo[path] = RRDPInfo{
 		RsyncURL:  rsyncURL,
 		Path:      path,
 		SessionID: rrdpSystem.SessionID,
@@ -507,7 +507,7 @@ func (s *OctoRPKI) fetchRRDP(path string, rsyncURL string, span opentracing.Span
 	}
 }
 
-func (s *OctoRPKI) newRRDPSystem(path string, rsync string) *syncpki.RRDPSystem {
+func (s *OctoRPKI) newRRDPSystem(path string) *syncpki.RRDPSystem {
 	s.RRDPInfoMu.RLock()
 	defer s.RRDPInfoMu.RUnlock()
 
@@ -515,8 +515,8 @@ func (s *OctoRPKI) newRRDPSystem(path string, rsync string) *syncpki.RRDPSystem
 		Callback:  s.ReceiveRRDPFileCallback,
 		Path:      path,
 		Fetcher:   s.HTTPFetcher,
-		SessionID: s.RRDPInfo[rsync].SessionID,
-		Serial:    s.RRDPInfo[rsync].Serial,
+		SessionID: s.RRDPInfo[path].SessionID,
+		Serial:    s.RRDPInfo[path].Serial,
 		Log:       log.StandardLogger(),
 	}
 }
-- 
2.43.0


From 51a8a1185bcd74f4bebe20800523e74d54489a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 51/80] fix: do not crash on a file of RRDP states that holds
 none

---
 cmd/octorpki/octorpki.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 7dac721..0a4c3c2 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -413,11 +413,15 @@ func (s *OctoRPKI) LoadRRDPInfo(file string) error {
 	s.RRDPInfoMu.Lock()
 	defer s.RRDPInfoMu.Unlock()
 
-	s.RRDPInfo = make(map[string]RRDPInfo)
-	err = json.Unmarshal(fc, &s.RRDPInfo)
+	info := make(map[string]RRDPInfo)
+	err = json.Unmarshal(fc, &info)
 	if err != nil {
 		return fmt.Errorf("JSON unmarshal failed: %v", err)
 	}
+	if info == nil {
+		return errors.New("JSON holds no RRDP information")
+	}
+	s.RRDPInfo = info
 
 	return nil
 }
-- 
2.43.0


From 537700f2f901eb28f376e76996ebead22fdc7ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 52/80] fix: count the ROAs that are served

The count in the metadata included those filtered out.
---
 cmd/octorpki/octorpki.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 0a4c3c2..b2f6e1f 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -805,7 +805,6 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 	roalist := &prefixfile.ROAList{
 		Data: make([]prefixfile.ROAJson, 0),
 	}
-	var counts int
 	resourcesjson := &schemas.ResourcesJSON{
 		Resources: make([]*schemas.OutputRes, 0),
 	}
@@ -962,7 +961,6 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 					TA:     talname,
 				}
 				roalist.Data = append(roalist.Data, oroa)
-				counts++
 				counttal++
 
 				curResource.ROAs = append(curResource.ROAs, &schemas.OutputROA{
@@ -1032,17 +1030,17 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 	curTime := time.Now()
 	s.LastComputed = curTime
 	validTime := curTime.Add(*ValidityDuration)
-	roalist.Metadata = prefixfile.MetaData{
-		Counts:    counts,
-		Generated: int(curTime.Unix()),
-		Valid:     int(validTime.Unix()),
-	}
-
 	if s.Filter {
 		roalist.Data = FilterInvalidPrefixLen(FilterDuplicates(roalist.Data))
 	}
 
 	roalist.Data = filterDuplicates(roalist.Data)
+	roalist.Metadata = prefixfile.MetaData{
+		Counts:    len(roalist.Data),
+		Generated: int(curTime.Unix()),
+		Valid:     int(validTime.Unix()),
+	}
+
 	if *Sign {
 		s.signROAList(roalist, span)
 	}
-- 
2.43.0


From 5905adb49806a21e5e2c5dec8a238a0260baaf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 53/80] fix: derive the entity tag of the list from its content

Lists generated within a second with as many ROAs had the same tag.
---
 cmd/octorpki/octorpki.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index b2f6e1f..8d90f45 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1255,10 +1255,14 @@ func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 
 	roaList := s.getROAList()
 
-	etag := sha256.New()
-	etag.Write([]byte(fmt.Sprintf("%v/%v", roaList.Metadata.Generated, roaList.Metadata.Counts)))
-	etagSum := etag.Sum(nil)
-	etagSumHex := hex.EncodeToString(etagSum)
+	body, err := json.Marshal(roaList)
+	if err != nil {
+		log.Error(err)
+		w.WriteHeader(http.StatusInternalServerError)
+		return
+	}
+	etagSum := sha256.Sum256(body)
+	etagSumHex := hex.EncodeToString(etagSum[:])
 
 	if match := r.Header.Get("If-None-Match"); match != "" {
 		if match == etagSumHex {
@@ -1268,8 +1272,7 @@ func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 	}
 
 	w.Header().Set("Etag", etagSumHex)
-	enc := json.NewEncoder(w)
-	enc.Encode(roaList)
+	w.Write(append(body, '\n'))
 }
 
 func (s *OctoRPKI) ServeResources(w http.ResponseWriter, r *http.Request) {
-- 
2.43.0


From d385a30e6e722031356beb296f90b547653fd5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 54/80] fix: write the list when the iteration limit ends a
 one-off run

The limit was looked at after the output, so that the program ended without.
---
 cmd/octorpki/octorpki.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 8d90f45..8817128 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1619,6 +1619,13 @@ func (s *OctoRPKI) validationLoop() {
 		// Reduce
 		changed := s.MainReduce()
 		s.Stable.Store(!changed && s.stats.iterations.Load() > 1)
+
+		// GHSA-g5gj-9ggf-9vmq: Prevent infinite repository traversal
+		if iterationsUntilStable > *MaxIterations {
+			// GHSA-pmw9-567p-68pc: Do not crash when MaxIterations is reached
+			log.Warning("Max iterations has been reached. Defining current state as stable and stoppping deeper validation. This number can be adjusted with -max.iterations")
+			s.Stable.Store(true)
+		}
 		s.HasPreviousStable.Store(s.Stable.Load())
 
 		if *Mode == "oneoff" && (s.Stable.Load() || !*WaitStable) {
@@ -1628,13 +1635,6 @@ func (s *OctoRPKI) validationLoop() {
 		span.SetTag("stable", s.Stable.Load())
 		span.Finish()
 
-		// GHSA-g5gj-9ggf-9vmq: Prevent infinite repository traversal
-		if iterationsUntilStable > *MaxIterations {
-			// GHSA-pmw9-567p-68pc: Do not crash when MaxIterations is reached
-			log.Warning("Max iterations has been reached. Defining current state as stable and stoppping deeper validation. This number can be adjusted with -max.iterations")
-			s.Stable.Store(true)
-		}
-
 		if *Mode == "oneoff" && s.Stable.Load() {
 			log.Info("Stable, terminating")
 			break
-- 
2.43.0


From a35f48f4dde830c38cf0de3e7a6a68c8e3afd477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 55/80] fix: a new RRDP URL makes the state unstable like a new
 module

When the module was known already, the state was taken for stable, and the
list served, before the RRDP URL was fetched.
---
 cmd/octorpki/octorpki.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 8817128..12e68b7 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1134,6 +1134,9 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 				} else {
 					s.setRRDPDomain(rrdpGeneralName, gnExtractedDomain)
 					s.setRRDPFetch(rrdpGeneralName, gnExtracted)
+					if *RRDP {
+						s.CurrentRepos[rrdpGeneralName] = time.Now()
+					}
 				}
 			}
 			modules[gnExtracted] = append(modules[gnExtracted], rrdpGeneralName)
-- 
2.43.0


From 76183559a964e4fd6915800f3ef892ff99f35cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 56/80] fix: never serve the list of an unstable iteration

The list was replaced before the state became unstable.
---
 cmd/octorpki/octorpki.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 12e68b7..a6083ba 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -801,7 +801,7 @@ func logCollector(sm *pki.SimpleManager, tal *pki.PKIFile, tSpan opentracing.Spa
 	}
 }
 
-func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentracing.Span) *prefixfile.ROAList {
+func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentracing.Span) (*prefixfile.ROAList, *schemas.ResourcesJSON) {
 	roalist := &prefixfile.ROAList{
 		Data: make([]prefixfile.ROAJson, 0),
 	}
@@ -1045,11 +1045,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 		s.signROAList(roalist, span)
 	}
 
-	s.ResourcesMu.Lock()
-	defer s.ResourcesMu.Unlock()
-	s.Resources = resourcesjson
-
-	return roalist
+	return roalist, resourcesjson
 }
 
 func (s *OctoRPKI) signROAList(roaList *prefixfile.ROAList, span opentracing.Span) {
@@ -1065,7 +1061,7 @@ func (s *OctoRPKI) signROAList(roaList *prefixfile.ROAList, span opentracing.Spa
 	roaList.Metadata.SignatureDate = signdate
 }
 
-func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
+func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) ([][]*pki.PKIFile, *prefixfile.ROAList, *schemas.ResourcesJSON) {
 	t1 := time.Now()
 	ia := make([][]SIA, len(s.Tals))
 	for i := 0; i < len(ia); i++ {
@@ -1171,14 +1167,14 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 	}
 
 	s.setInfoAuthorities(ia)
-	s.setROAList(s.generateROAList(pkiManagers, span))
+	roaList, resources := s.generateROAList(pkiManagers, span)
 
 	t2 := time.Now()
 	s.stats.ValidationDuration = t2.Sub(t1)
 	MetricOperationTime.With(prometheus.Labels{"type": "validation"}).Observe(float64(s.stats.ValidationDuration.Seconds()))
 	MetricLastValidation.Set(float64(s.LastComputed.Unix()))
 
-	return ctData
+	return ctData, roaList, resources
 }
 
 func (s *OctoRPKI) ct(pkiManagers []*pki.SimpleManager, i int) [][]*pki.PKIFile {
@@ -1226,6 +1222,13 @@ func (s *OctoRPKI) setInfoAuthorities(ia [][]SIA) {
 	s.InfoAuthorities = ia
 }
 
+func (s *OctoRPKI) setResources(resources *schemas.ResourcesJSON) {
+	s.ResourcesMu.Lock()
+	defer s.ResourcesMu.Unlock()
+
+	s.Resources = resources
+}
+
 func (s *OctoRPKI) setROAList(roaList *prefixfile.ROAList) {
 	s.ROAListMu.Lock()
 	defer s.ROAListMu.Unlock()
@@ -1617,19 +1620,26 @@ func (s *OctoRPKI) validationLoop() {
 
 		s.mainRsync(span)
 
-		ctData := s.mainValidation(span)
+		ctData, roaList, resources := s.mainValidation(span)
 
 		// Reduce
 		changed := s.MainReduce()
-		s.Stable.Store(!changed && s.stats.iterations.Load() > 1)
+		stable := !changed && s.stats.iterations.Load() > 1
 
 		// GHSA-g5gj-9ggf-9vmq: Prevent infinite repository traversal
 		if iterationsUntilStable > *MaxIterations {
 			// GHSA-pmw9-567p-68pc: Do not crash when MaxIterations is reached
 			log.Warning("Max iterations has been reached. Defining current state as stable and stoppping deeper validation. This number can be adjusted with -max.iterations")
-			s.Stable.Store(true)
+			stable = true
+		}
+
+		// Do not replace a list that may be being served with partial data
+		if stable || !*WaitStable {
+			s.setROAList(roaList)
+			s.setResources(resources)
 		}
-		s.HasPreviousStable.Store(s.Stable.Load())
+		s.Stable.Store(stable)
+		s.HasPreviousStable.Store(stable)
 
 		if *Mode == "oneoff" && (s.Stable.Load() || !*WaitStable) {
 			s.mustOutput()
-- 
2.43.0


From 388b8ab65ee0bfeda8175e8b7272da2e197ac865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 57/80] fix: limit the size of trust anchor certificates
 fetched by HTTPS

---
 cmd/octorpki/octorpki.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index a6083ba..0ffed68 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -184,6 +184,9 @@ type RRDPInfo struct {
 	Serial    int64  `json:"serial"`
 }
 
+// MaxTACertSize limits the size of trust anchor certificates fetched by HTTPS.
+const MaxTACertSize int64 = 1 << 20
+
 var errKeyNotParsed = fmt.Errorf("Failed to PEM decode key")
 
 func ReadKey(key []byte, isPem bool) (*ecdsa.PrivateKey, error) {
@@ -711,7 +714,6 @@ func (s *OctoRPKI) getHTTP(uri string, tfSpan opentracing.Span, sHub *sentry.Hub
 		Category: "http",
 	}
 
-	// maybe add a limit in the client? To avoid downloading huge files (that wouldn't be certs)
 	resp, err := s.HTTPFetcher.Client.Do(req)
 	if err != nil {
 		sbc.Level = sentry.LevelError
@@ -734,7 +736,8 @@ func (s *OctoRPKI) getHTTP(uri string, tfSpan opentracing.Span, sHub *sentry.Hub
 
 	sHub.AddBreadcrumb(sbc, nil)
 
-	data, err := ioutil.ReadAll(resp.Body)
+	// Do not download huge files (that wouldn't be certs)
+	data, err := ioutil.ReadAll(http.MaxBytesReader(nil, resp.Body, MaxTACertSize))
 	tfSpan.LogKV("size", len(data))
 	if err != nil {
 		sHub.CaptureException(err)
-- 
2.43.0


From 91889d4071b4a56ee809083f5d1d3219ecbeb67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 58/80] fix: do not write errors of certificates to the
 standard output

They ended up in front of the list that localrpki writes there.
---
 validator/lib/cert.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index a622dc5..09a59bc 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -913,7 +913,6 @@ func DecodeCertificate(data []byte) (*RPKICertificate, error) {
 	cert, err := x509.ParseCertificate(data)
 
 	if err != nil {
-		fmt.Print(err)
 		return nil, err
 	}
 	rpkiCert := RPKICertificate{
-- 
2.43.0


From e3adba02e65d9c56582c5dd36a0de80f27242893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 59/80] fix: fetch a trust anchor certificate again when it is
 not valid

An expired certificate kept octorpki from fetching its successor.
---
 validator/pki/pki.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 93876e6..e5ba354 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -312,6 +312,7 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		if err != nil {
 			return false, nil, nil, err
 		}
+		var tal *Resource
 		if pkifile != nil && pkifile.Parent != nil && pkifile.Parent.Type == TYPE_TAL {
 			talComp, ok := v.TALs[pkifile.Path]
 			if ok {
@@ -319,7 +320,7 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 				if !talValidation {
 					return false, nil, nil, errors.New("Certificate was not validated against TAL")
 				}
-				v.TALs[pkifile.Path].CertTALValid = true // indicates that we can skip downloading
+				tal = talComp
 			}
 		}
 
@@ -330,6 +331,9 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		if res == nil {
 			return valid, pathCert, res, fmt.Errorf("Resource is empty: %v", err)
 		}
+		if tal != nil && valid {
+			tal.CertTALValid = true // indicates that we can skip downloading
+		}
 		res.Type = TYPE_CER
 		res.File = pkifile
 		for _, pc := range pathCert {
-- 
2.43.0


From c96802fbb032348ab88f243e1ee49e26a13819d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 60/80] fix: ctrpki: submit the certificates of every TAL once

Those of the TALs before it were submitted again with every TAL.
---
 cmd/ctrpki/ctrpki.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 9cfbe10..5a4a9a4 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -59,17 +59,15 @@ func main() {
 		MapDirectory: mapDir,
 	}
 
-	validator := pki.NewValidator()
-
+	var vt time.Time
 	if *ValidTime == "now" {
-		validator.Time = time.Now().UTC()
+		vt = time.Now().UTC()
 	} else if ts, err := strconv.ParseInt(*ValidTime, 10, 64); err == nil {
-		vt := time.Unix(int64(ts), 0)
+		vt = time.Unix(int64(ts), 0)
 		log.Infof("Setting time to %v (timestamp)", vt)
-		validator.Time = vt
-	} else if vt, err := time.Parse(time.RFC3339, *ValidTime); err == nil {
+	} else if vttmp, err := time.Parse(time.RFC3339, *ValidTime); err == nil {
+		vt = vttmp
 		log.Infof("Setting time to %v (RFC3339)", vt)
-		validator.Time = vt
 	}
 
 	ctclient, err := client.New(*CertificateTransparency, http.DefaultClient, jsonclient.Options{
@@ -103,6 +101,9 @@ func main() {
 	rootTALs := strings.Split(*RootTAL, ",")
 	ctData := make([][]*pki.PKIFile, 0)
 	for _, tal := range rootTALs {
+		validator := pki.NewValidator()
+		validator.Time = vt
+
 		manager := pki.NewSimpleManager()
 		manager.Validator = validator
 		manager.FileSeeker = &s
-- 
2.43.0


From 3ac98b80a7cb07657072f3c37e337efdf1eac712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 61/80] fix: ctrpki: submit all chains before the end

The workers were stopped with chains left to submit.
---
 cmd/ctrpki/ctrpki.go | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 5a4a9a4..9b51d47 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -8,6 +8,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	syncpki "github.com/cloudflare/cfrpki/sync/lib"
@@ -29,20 +30,16 @@ var (
 	CertificateTransparencyThreads = flag.Int("ct.threads", 50, "Number of threads to send to the CT Log")
 )
 
-func BatchCertificateTransparency(ctclient *client.LogClient, chain chan []ct.ASN1Cert, q chan bool) {
+func BatchCertificateTransparency(ctclient *client.LogClient, chain chan []ct.ASN1Cert, wg *sync.WaitGroup) {
+	defer wg.Done()
 	log.Debugf("Starting BatchCertificateTransparency")
-	for {
-		select {
-		case msg := <-chain:
-			_, err := ctclient.AddChain(context.Background(), msg)
-			if err != nil {
-				log.Error(err)
-			}
-		case <-q:
-			log.Debugf("Closing thread")
-			return
+	for msg := range chain {
+		_, err := ctclient.AddChain(context.Background(), msg)
+		if err != nil {
+			log.Error(err)
 		}
 	}
+	log.Debugf("Closing thread")
 }
 
 func main() {
@@ -80,22 +77,16 @@ func main() {
 
 	threads := *CertificateTransparencyThreads
 
-	qList := make([]chan bool, threads)
-	dataChan := make(chan []ct.ASN1Cert, threads)
-	if threads > 0 {
-		for i := 0; i < threads; i++ {
-			q := make(chan bool)
-			qList[i] = q
-			go BatchCertificateTransparency(ctclient, dataChan, q)
-		}
+	dataChan := make(chan []ct.ASN1Cert)
+	var wg sync.WaitGroup
+	for i := 0; i < threads; i++ {
+		wg.Add(1)
+		go BatchCertificateTransparency(ctclient, dataChan, &wg)
 	}
 
 	defer func() {
-		if threads > 0 {
-			for i := 0; i < threads; i++ {
-				qList[i] <- true
-			}
-		}
+		close(dataChan)
+		wg.Wait()
 	}()
 
 	rootTALs := strings.Split(*RootTAL, ",")
-- 
2.43.0


From 22d9a00b06b3ff0985d1bcdcbe6fc3f31dbf0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 62/80] fix: CT: end a chain with its trust anchor

A trust anchor that names itself as its issuer was submitted twice.
---
 cmd/ctrpki/ctrpki.go     | 12 +++---------
 cmd/octorpki/octorpki.go | 12 +++---------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 9b51d47..9e9ba6f 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -125,19 +125,13 @@ func main() {
 			skiDone[ski] = true
 
 			curAki := aki
-			curPath := skiToPath[ski]
 			curPathCT := make([]*pki.PKIFile, 1)
-			curPathCT[0] = curPath
+			curPathCT[0] = skiToPath[ski]
 
-			var ok bool
-			for curAki != "" && !ok {
-				ok = skiDone[curAki]
+			for curAki != "" && !skiDone[curAki] && skiToPath[curAki] != nil {
 				skiDone[curAki] = true
 
-				curPath = skiToPath[curAki]
-				if curAki != "" {
-					curPathCT = append(curPathCT, curPath)
-				}
+				curPathCT = append(curPathCT, skiToPath[curAki])
 				curAki = skiToAki[curAki]
 			}
 			pathCT = append(pathCT, curPathCT)
diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 0ffed68..5ffdcc2 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1197,19 +1197,13 @@ func (s *OctoRPKI) ct(pkiManagers []*pki.SimpleManager, i int) [][]*pki.PKIFile
 		skiDone[ski] = true
 
 		curAki := aki
-		curPath := skiToPath[ski]
 		curPathCT := make([]*pki.PKIFile, 1)
-		curPathCT[0] = curPath
+		curPathCT[0] = skiToPath[ski]
 
-		var ok bool
-		for curAki != "" && !ok {
-			ok = skiDone[curAki]
+		for curAki != "" && !skiDone[curAki] && skiToPath[curAki] != nil {
 			skiDone[curAki] = true
 
-			curPath = skiToPath[curAki]
-			if curAki != "" {
-				curPathCT = append(curPathCT, curPath)
-			}
+			curPathCT = append(curPathCT, skiToPath[curAki])
 			curAki = skiToAki[curAki]
 		}
 		pathCT = append(pathCT, curPathCT)
-- 
2.43.0


From 962068fa9b42c9c634bae2f25fd1db5e5dc2af9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 63/80] fix: CT: do not submit incomplete chains, or crash on a
 missing file

---
 cmd/ctrpki/ctrpki.go | 21 +++++++++++++++------
 cmd/octorpki/ct.go   | 21 ++++++++++++++-------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 9e9ba6f..9de91ac 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/hex"
 	"flag"
+	"fmt"
 	"net/http"
 	"runtime"
 	"strconv"
@@ -144,28 +145,36 @@ func main() {
 	var itera int
 	for _, certs := range ctData {
 		chain := make([]ct.ASN1Cert, 0)
+		complete := true
 
 		for _, cert := range certs {
 			var dataBytes []byte
 			data, err := s.GetFile(cert)
+			if err == nil && data == nil {
+				err = fmt.Errorf("%s was not found", cert.ComputePath())
+			}
+			if err != nil {
+				log.Error(err)
+				complete = false
+				break
+			}
 			if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
 				cms, err := librpki.DecodeCMS(data.Data)
 				if err != nil {
 					log.Error(err)
-					continue
+					complete = false
+					break
 				}
 				dataBytes = cms.SignedData.Certificates.Bytes
 			} else {
 				dataBytes = data.Data
 			}
-
-			if err != nil {
-				log.Error(err)
-				continue
-			}
 			chain = append(chain, ct.ASN1Cert{Data: dataBytes})
 		}
 
+		if !complete {
+			continue
+		}
 		if threads > 0 {
 			dataChan <- chain
 		} else {
diff --git a/cmd/octorpki/ct.go b/cmd/octorpki/ct.go
index e2c19cd..2dc4321 100644
--- a/cmd/octorpki/ct.go
+++ b/cmd/octorpki/ct.go
@@ -74,29 +74,36 @@ func (s *OctoRPKI) SendCertificateTransparency(pSpan opentracing.Span, ctData []
 	var iterations int
 	for _, certs := range ctData {
 		chain := make([][]byte, 0)
+		complete := true
 
 		for _, cert := range certs {
 			var dataBytes []byte
 			data, err := s.Fetcher.GetFile(cert)
+			if err == nil && data == nil {
+				err = fmt.Errorf("%s was not found", cert.ComputePath())
+			}
+			if err != nil {
+				log.Error(err)
+				complete = false
+				break
+			}
 			if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
 				cms, err := librpki.DecodeCMS(data.Data)
 				if err != nil {
 					log.Error(err)
-					continue
+					complete = false
+					break
 				}
 				dataBytes = cms.SignedData.Certificates.Bytes
 			} else {
 				dataBytes = data.Data
 			}
-
-			if err != nil {
-				log.Error(err)
-				continue
-			}
-
 			chain = append(chain, dataBytes)
 		}
 
+		if !complete {
+			continue
+		}
 		dataChan <- &ct.AddChainRequest{
 			Chain: chain,
 		}
-- 
2.43.0


From 73967320301c7d0a926e53a5aa7cf9eaa8bf4d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 64/80] fix: CT: close the responses

---
 cmd/octorpki/ct.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/octorpki/ct.go b/cmd/octorpki/ct.go
index 2dc4321..5f3102f 100644
--- a/cmd/octorpki/ct.go
+++ b/cmd/octorpki/ct.go
@@ -32,6 +32,7 @@ func SingleSendCertificateTransparency(httpclient *http.Client, path string, msg
 
 	resp, err := httpclient.Post(fmt.Sprintf("%v/ct/v1/add-chain", path), "application/json", buf)
 	if err == nil {
+		defer resp.Body.Close()
 		respStr, _ := io.ReadAll(resp.Body)
 		log.Debugf("Sent %v certs %v %v %v", len(msg.Chain), path, string(respStr), err)
 	}
-- 
2.43.0


From 8aa351ee465c0757fabc034070d2f707934a6881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 65/80] fix: CT: finish the submissions before the next
 iteration

---
 cmd/octorpki/ct.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cmd/octorpki/ct.go b/cmd/octorpki/ct.go
index 5f3102f..c0086a3 100644
--- a/cmd/octorpki/ct.go
+++ b/cmd/octorpki/ct.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"sync"
 	"time"
 
 	"github.com/cloudflare/cfrpki/validator/pki"
@@ -40,7 +41,8 @@ func SingleSendCertificateTransparency(httpclient *http.Client, path string, msg
 	return err
 }
 
-func BatchCertificateTransparency(httpclient *http.Client, path string, d chan *ct.AddChainRequest) {
+func BatchCertificateTransparency(httpclient *http.Client, path string, d chan *ct.AddChainRequest, wg *sync.WaitGroup) {
+	defer wg.Done()
 	log.Debugf("Starting BatchCertificateTransparency")
 
 	for msg := range d {
@@ -66,11 +68,15 @@ func (s *OctoRPKI) SendCertificateTransparency(pSpan opentracing.Span, ctData []
 	}
 
 	dataChan := make(chan *ct.AddChainRequest)
-	defer close(dataChan)
-
+	var wg sync.WaitGroup
 	for i := 0; i < threads; i++ {
-		go BatchCertificateTransparency(httpclient, s.CTPath, dataChan)
+		wg.Add(1)
+		go BatchCertificateTransparency(httpclient, s.CTPath, dataChan, &wg)
 	}
+	defer func() {
+		close(dataChan)
+		wg.Wait()
+	}()
 
 	var iterations int
 	for _, certs := range ctData {
-- 
2.43.0


From cfe1e4e949656996bfa7066d6f39df7625185c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 66/80] fix: do not copy symbolic links that lead out of an
 rsync module

---
 sync/lib/rsync.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sync/lib/rsync.go b/sync/lib/rsync.go
index e449af7..95e0aab 100644
--- a/sync/lib/rsync.go
+++ b/sync/lib/rsync.go
@@ -69,7 +69,9 @@ func RunRsync(ctx context.Context, uri string, bin string, dirPath string) ([]*F
 		return nil, err
 	}
 
-	cmd := exec.CommandContext(ctx, bin, "-vrlt", uri, dirPath)
+	// A link that leads out of the copied directory would let later updates
+	// change any file of the system
+	cmd := exec.CommandContext(ctx, bin, "-vrlt", "--safe-links", uri, dirPath)
 	log.Debugf("Command ran: %v", cmd)
 
 	stdout, err := cmd.StdoutPipe()
-- 
2.43.0


From 4069ab645bfd890e59e1ef57e29f5f99d10ec540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 67/80] fix: fetch again what a certificate publishes when it
 is not in order

A certificate whose manifest in the cache had expired, or did not match the
files, was invalid, and its repository therefore not known after a start of the
program: it was never fetched again. With the manifest of a trust anchor
nothing was fetched at all.
---
 cmd/octorpki/octorpki.go |  9 +++++++++
 validator/pki/pki.go     | 24 ++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 5ffdcc2..3c53867 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1110,7 +1110,16 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) ([][]*pki.PKIFile, *pr
 			count++
 		}
 
+		// What a certificate has published must be fetched again also, and
+		// above all, when it is not in order
+		publishers := make([]*pki.Resource, 0)
 		for _, pkiResource := range pkiManagers[i].Validator.ValidObjects {
+			publishers = append(publishers, pkiResource)
+		}
+		for _, pkiResource := range pkiManagers[i].Validator.InvalidPublishers {
+			publishers = append(publishers, pkiResource)
+		}
+		for _, pkiResource := range publishers {
 			if pkiResource.Type != pki.TYPE_CER {
 				continue
 			}
diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index e5ba354..858d6a8 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -196,6 +196,10 @@ type Validator struct {
 	ValidObjects map[string]*Resource
 	Objects      map[string]*Resource
 
+	// Certificates that are not in ValidObjects only because of what they
+	// published, which a newer version of it may repair
+	InvalidPublishers map[string]*Resource
+
 	// Key by path
 	ObjectsPath map[string]*Resource
 
@@ -227,6 +231,8 @@ func NewValidator() *Validator {
 		ValidObjects: make(map[string]*Resource),
 		Objects:      make(map[string]*Resource),
 
+		InvalidPublishers: make(map[string]*Resource),
+
 		ObjectsPath: make(map[string]*Resource),
 
 		CertsSerial: make(map[string]*Resource),
@@ -427,6 +433,19 @@ func (v *Validator) checkPublisher(file *PKIFile, cert *librpki.RPKICertificate)
 	return nil
 }
 
+// Invalidates a certificate because of its publication point
+func (v *Validator) invalidatePublisher(keyid []byte) {
+	ski := string(keyid)
+	res, ok := v.ValidObjects[ski]
+	if !ok {
+		res, ok = v.InvalidPublishers[ski]
+	}
+	v.InvalidateObject(keyid)
+	if ok {
+		v.InvalidPublishers[ski] = res
+	}
+}
+
 func (v *Validator) InvalidateObject(keyid []byte) {
 	invalidated := make(map[string]bool)
 	invalidateList := make([][]byte, 1)
@@ -444,6 +463,7 @@ func (v *Validator) InvalidateObject(keyid []byte) {
 
 		res, hasCert := v.Objects[ski]
 		delete(v.ValidObjects, ski)
+		delete(v.InvalidPublishers, ski)
 		delete(v.ValidROA, ski)
 		delete(v.ValidCRL, ski)
 		delete(v.ValidManifest, ski)
@@ -873,7 +893,7 @@ func (sm *SimpleManager) InvalidateManifestParent(file *PKIFile, mftError error)
 		if ok && res != nil && res.Resource != nil {
 			cert, ok := res.Resource.(*librpki.RPKICertificate)
 			if ok {
-				sm.Validator.InvalidateObject(cert.Certificate.SubjectKeyId)
+				sm.Validator.invalidatePublisher(cert.Certificate.SubjectKeyId)
 
 				err := NewCertificateErrorManifestRevocation(cert, mftError, file.Parent, file)
 				sm.reportErrorFile(err, file.Parent.Parent, nil)
@@ -894,7 +914,7 @@ func (sm *SimpleManager) InvalidateCRLParent(file *PKIFile, crlError error) {
 		if ok && res != nil && res.Resource != nil {
 			cert, ok := res.Resource.(*librpki.RPKICertificate)
 			if ok {
-				sm.Validator.InvalidateObject(cert.Certificate.SubjectKeyId)
+				sm.Validator.invalidatePublisher(cert.Certificate.SubjectKeyId)
 
 				err := NewCertificateErrorCRLRevocation(cert, crlError, file.Parent, file)
 				sm.reportErrorFile(err, file.Parent.Parent, nil)
-- 
2.43.0


From 8928253b2ece93c3e6da54477395d40053bdce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 68/80] fix: fetch a known module in every way its certificates
 ask for

A certificate without RRDP was taken for stable when its module was known
from one with RRDP, and the list written, before rsync fetched the module.
---
 cmd/octorpki/octorpki.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 3c53867..25bbbdb 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1142,13 +1142,14 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) ([][]*pki.PKIFile, *pr
 				} else {
 					s.setRRDPDomain(rrdpGeneralName, gnExtractedDomain)
 					s.setRRDPFetch(rrdpGeneralName, gnExtracted)
-					if *RRDP {
-						s.CurrentRepos[rrdpGeneralName] = time.Now()
-					}
 				}
 			}
 			modules[gnExtracted] = append(modules[gnExtracted], rrdpGeneralName)
 			s.CurrentRepos[gnExtracted] = time.Now()
+			if *RRDP {
+				// A known module may have to be fetched in another way
+				s.CurrentRepos[gnExtracted+" "+rrdpGeneralName] = time.Now()
+			}
 			count++
 
 			// map the rrdp and rsync by TAL for info page
-- 
2.43.0


From 513948f3821626d390d73431dfbc3148ad292d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 69/80] fix: ctrpki: give up a chain the log does not take, so
 that the others follow

---
 cmd/ctrpki/ctrpki.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 9de91ac..0e5a024 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -29,13 +29,23 @@ var (
 	LogLevel                       = flag.String("loglevel", "info", "Log level")
 	CertificateTransparency        = flag.String("ct", "https://ct.cloudflare.com/logs/cirrus", "Certificate Transparency Log address")
 	CertificateTransparencyThreads = flag.Int("ct.threads", 50, "Number of threads to send to the CT Log")
+	CertificateTransparencyTimeout = flag.Int("ct.timeout", 50, "CT timeout in seconds, for each chain")
 )
 
+// sendChain submits one chain. The client tries again after most failures, so
+// there must be an end to it for the other chains to be submitted too.
+func sendChain(ctclient *client.LogClient, chain []ct.ASN1Cert) error {
+	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(*CertificateTransparencyTimeout)*time.Second)
+	defer cancel()
+	_, err := ctclient.AddChain(ctx, chain)
+	return err
+}
+
 func BatchCertificateTransparency(ctclient *client.LogClient, chain chan []ct.ASN1Cert, wg *sync.WaitGroup) {
 	defer wg.Done()
 	log.Debugf("Starting BatchCertificateTransparency")
 	for msg := range chain {
-		_, err := ctclient.AddChain(context.Background(), msg)
+		err := sendChain(ctclient, msg)
 		if err != nil {
 			log.Error(err)
 		}
@@ -178,7 +188,7 @@ func main() {
 		if threads > 0 {
 			dataChan <- chain
 		} else {
-			_, err := ctclient.AddChain(context.Background(), chain)
+			err := sendChain(ctclient, chain)
 			if err != nil {
 				log.Error(err)
 			}
-- 
2.43.0


From 355789b021a8e834eb20cc057ef4577848595adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 70/80] fix: CT: submit the chains of one-off runs too

---
 cmd/octorpki/octorpki.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 25bbbdb..0ab225d 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1655,11 +1655,6 @@ func (s *OctoRPKI) validationLoop() {
 		span.SetTag("stable", s.Stable.Load())
 		span.Finish()
 
-		if *Mode == "oneoff" && s.Stable.Load() {
-			log.Info("Stable, terminating")
-			break
-		}
-
 		// Certificate Transparency
 		if s.DoCT && (s.Stable.Load() || !*WaitStable) {
 			t1 := time.Now().UTC()
@@ -1674,6 +1669,11 @@ func (s *OctoRPKI) validationLoop() {
 				Observe(float64(t2.Sub(t1).Seconds()))
 		}
 
+		if *Mode == "oneoff" && s.Stable.Load() {
+			log.Info("Stable, terminating")
+			break
+		}
+
 		if s.Stable.Load() {
 			MetricLastStableValidation.Set(float64(s.LastComputed.Unix()))
 			MetricState.Set(float64(1))
-- 
2.43.0


From a4734b1198bea66ca2ea62762fa092bef189552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:08 +0000
Subject: [PATCH 71/80] fix: octorpki: IPv4-mapped IPv6 resources in
 /resources.json were written as IPv4 ones

---
 cmd/octorpki/octorpki.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 0ab225d..6fafbc8 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -13,8 +13,10 @@ import (
 	"flag"
 	"fmt"
 	"io/ioutil"
+	"net"
 	"net/http"
 	"net/http/pprof"
+	"net/netip"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -804,6 +806,16 @@ func logCollector(sm *pki.SimpleManager, tal *pki.PKIFile, tSpan opentracing.Spa
 	}
 }
 
+// addressString formats an address. Unlike net.IP, it does not write
+// IPv4-mapped IPv6 addresses like IPv4 ones.
+func addressString(ip net.IP) string {
+	addr, ok := netip.AddrFromSlice(ip)
+	if !ok {
+		return ip.String()
+	}
+	return addr.String()
+}
+
 func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentracing.Span) (*prefixfile.ROAList, *schemas.ResourcesJSON) {
 	roalist := &prefixfile.ROAList{
 		Data: make([]prefixfile.ROAJson, 0),
@@ -893,13 +905,13 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 					case *librpki.IPAddressRange:
 						ipRes = &schemas.OutputIP{
 							Range: []string{
-								ipc.Min.String(),
-								ipc.Max.String(),
+								addressString(ipc.Min),
+								addressString(ipc.Max),
 							},
 						}
 					case *librpki.IPNet:
 						ipRes = &schemas.OutputIP{
-							Prefix: ipc.IPNet.String(),
+							Prefix: (&librpki.ROAEntry{IPNet: ipc.IPNet}).PrefixString(),
 						}
 					case *librpki.IPAddressNull:
 						ipRes = &schemas.OutputIP{
-- 
2.43.0


From b0eccfe42458bb0f47c702a33c9a5a75bd74a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 72/80] fix: octorpki: what the HTTP endpoints tell of the last
 validation was read while being written

---
 cmd/octorpki/octorpki.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 6fafbc8..4cb50d2 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -238,8 +238,9 @@ type OctoRPKI struct {
 	InfoAuthorities     [][]SIA
 	InfoAuthoritiesLock sync.RWMutex
 
-	stats  *octoRPKIStats
-	tracer opentracing.Tracer
+	stats   *octoRPKIStats
+	statsMu sync.RWMutex // protects stats, other than the iterations, and LastComputed
+	tracer  opentracing.Tracer
 
 	Resources   *schemas.ResourcesJSON
 	ResourcesMu sync.RWMutex
@@ -825,7 +826,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 	}
 	resourcesMap := make(map[string]*schemas.OutputRes)
 	resourcesjson.Metadata.Generated = int(time.Now().UTC().UnixNano() / 1000000000)
-	s.stats.ROAsTALsCount = make([]ROAsTAL, 0)
+	roasTALsCount := make([]ROAsTAL, 0)
 	for i, tal := range s.Tals {
 		eSpan := s.tracer.StartSpan("extract", opentracing.ChildOf(span.Context()))
 		eSpan.SetTag("tal", tal.Path)
@@ -987,7 +988,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			resourcesjson.Resources = append(resourcesjson.Resources, curResource)
 		}
 
-		s.stats.ROAsTALsCount = append(s.stats.ROAsTALsCount, ROAsTAL{TA: talname, Count: counttal})
+		roasTALsCount = append(roasTALsCount, ROAsTAL{TA: talname, Count: counttal})
 		MetricROAsCount.With(prometheus.Labels{"ta": talname}).Set(float64(counttal))
 
 		// Complete: Manifests
@@ -1043,7 +1044,10 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 		eSpan.Finish()
 	}
 	curTime := time.Now()
+	s.statsMu.Lock()
 	s.LastComputed = curTime
+	s.stats.ROAsTALsCount = roasTALsCount
+	s.statsMu.Unlock()
 	validTime := curTime.Add(*ValidityDuration)
 	if s.Filter {
 		roalist.Data = FilterInvalidPrefixLen(FilterDuplicates(roalist.Data))
@@ -1195,7 +1199,9 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) ([][]*pki.PKIFile, *pr
 	roaList, resources := s.generateROAList(pkiManagers, span)
 
 	t2 := time.Now()
+	s.statsMu.Lock()
 	s.stats.ValidationDuration = t2.Sub(t1)
+	s.statsMu.Unlock()
 	MetricOperationTime.With(prometheus.Labels{"type": "validation"}).Observe(float64(s.stats.ValidationDuration.Seconds()))
 	MetricLastValidation.Set(float64(s.LastComputed.Unix()))
 
@@ -1269,7 +1275,9 @@ func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	s.statsMu.RLock()
 	upTo := s.LastComputed.Add(*ValidityDuration)
+	s.statsMu.RUnlock()
 	maxAge := int(upTo.Sub(time.Now()).Seconds())
 
 	w.Header().Set("Content-Type", "application/json")
@@ -1377,15 +1385,17 @@ func (s *OctoRPKI) ServeInfo(w http.ResponseWriter, r *http.Request) {
 		})
 	}
 
+	s.statsMu.RLock()
 	ir := InfoResult{
 		TAs:                ias,
-		ROACount:           len(s.ROAList.Data),
+		ROACount:           len(s.getROAList().Data),
 		ROAsTALs:           s.stats.ROAsTALsCount,
 		Stable:             s.Stable.Load(),
 		LastValidation:     int(s.LastComputed.Unix()),
 		ValidationDuration: s.stats.ValidationDuration.Seconds(),
 		Iteration:          int(s.stats.iterations.Load()),
 	}
+	s.statsMu.RUnlock()
 	enc := json.NewEncoder(w)
 	enc.Encode(ir)
 }
-- 
2.43.0


From 373ce35c015fa5da9937b2440de2e555c15f1344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 73/80] fix: report why a CRL is refused

---
 validator/pki/pki.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 858d6a8..86bb8bb 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -768,8 +768,11 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 	res.Parent = parent
 
 	var valid bool
+	var err error
 	if hasParentValid {
 		valid = true
+	} else {
+		err = fmt.Errorf("issuer %x of the CRL is not valid", aki)
 	}
 
 	var parentCert *librpki.RPKICertificate
@@ -778,10 +781,11 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 		parentCert, ok = parent.Resource.(*librpki.RPKICertificate)
 		if !ok {
 			valid = false
+			err = fmt.Errorf("issuer %x of the CRL is not a rpki certificate", aki)
 		}
 	}
 	if valid {
-		err := parentCert.Certificate.CheckCRLSignature(crl)
+		err = parentCert.Certificate.CheckCRLSignature(crl)
 		if err != nil {
 			valid = false
 		} else {
@@ -801,7 +805,7 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 	}
 	v.CRL[string(aki)] = res
 
-	return valid, res, nil
+	return valid, res, err
 }
 
 func (v *Validator) GetRepositories() {
-- 
2.43.0


From adca1073f3abba698b6e6ca7932edba533335568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 74/80] fix: take a snapshot when an RRDP repository's files
 are kept for another domain than before

---
 cmd/octorpki/octorpki.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 4cb50d2..ce3ab8e 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -521,12 +521,18 @@ func (s *OctoRPKI) newRRDPSystem(path string) *syncpki.RRDPSystem {
 	s.RRDPInfoMu.RLock()
 	defer s.RRDPInfoMu.RUnlock()
 
+	info := s.RRDPInfo[path]
+	if domain, _ := s.getRRDPDomain(path); !strings.HasPrefix(info.RsyncURL, domain) {
+		// An earlier run took the files of another domain only: start over
+		info = RRDPInfo{}
+	}
+
 	return &syncpki.RRDPSystem{
 		Callback:  s.ReceiveRRDPFileCallback,
 		Path:      path,
 		Fetcher:   s.HTTPFetcher,
-		SessionID: s.RRDPInfo[path].SessionID,
-		Serial:    s.RRDPInfo[path].Serial,
+		SessionID: info.SessionID,
+		Serial:    info.Serial,
 		Log:       log.StandardLogger(),
 	}
 }
-- 
2.43.0


From e6160dbb8e712734f875fb1a601c263505e963db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:46 +0000
Subject: [PATCH 75/80] fix: sync: a URL above one added before was lost in the
 reduction

---
 sync/lib/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/utils.go b/sync/lib/utils.go
index 63a5fff..71d689e 100644
--- a/sync/lib/utils.go
+++ b/sync/lib/utils.go
@@ -50,8 +50,8 @@ func AddInMap(item string, m map[string]SubMap) {
 		}
 		if !ok {
 			mm.Subitem = make(map[string]SubMap)
-			curm[s] = mm
 		}
+		curm[s] = mm
 		curm = mm.Subitem
 	}
 }
-- 
2.43.0


From eaced0e00ae3d9585edd221720598e6382fb50a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:49 +0000
Subject: [PATCH 76/80] fix: API: the hash of files was not given, so that
 manifest hashes were not checked

---
 sync/api/fetch.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/sync/api/fetch.go b/sync/api/fetch.go
index bb5b14c..5e1c2e7 100644
--- a/sync/api/fetch.go
+++ b/sync/api/fetch.go
@@ -2,6 +2,7 @@ package cfrpki
 
 import (
 	"context"
+	"crypto/sha256"
 	"fmt"
 	"io/ioutil"
 	"strings"
@@ -15,19 +16,21 @@ type APIFetch struct {
 	Ctx    context.Context
 }
 
-func FetchFile(client RPKIAPIClient, ctx context.Context, path string) ([]byte, error) {
+// FetchFile returns the file converted to DER and the hash of the file itself.
+func FetchFile(client RPKIAPIClient, ctx context.Context, path string) ([]byte, []byte, error) {
 	resource, err := client.GetResource(ctx, &ResourceQuery{
 		Path: path,
 	})
 
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
+	hash := sha256.Sum256(resource.Data)
 	data, err := librpki.BER2DER(resource.Data)
 	if err != nil {
-		return resource.Data, err
+		return resource.Data, hash[:], err
 	}
-	return data, err
+	return data, hash[:], err
 }
 
 func (s *APIFetch) GetFile(file *pki.PKIFile) (*pki.SeekFile, error) {
@@ -37,22 +40,25 @@ func (s *APIFetch) GetFile(file *pki.PKIFile) (*pki.SeekFile, error) {
 			return nil, fmt.Errorf("Unable to read file %q: %v", file.Path, err)
 		}
 
+		hash := sha256.Sum256(data)
 		return &pki.SeekFile{
-			File: file.Path,
-			Data: data,
+			File:   file.Path,
+			Data:   data,
+			Sha256: hash[:],
 		}, nil
 	}
 
 	path := file.ComputePath()
 
-	data, err := FetchFile(s.Client, s.Ctx, path)
+	data, hash, err := FetchFile(s.Client, s.Ctx, path)
 	if err != nil {
 		return nil, fmt.Errorf("FetchFile failed: %v", err)
 	}
 
 	return &pki.SeekFile{
-		File: path,
-		Data: data,
+		File:   path,
+		Data:   data,
+		Sha256: hash,
 	}, nil
 }
 
@@ -81,6 +87,7 @@ func (s *APIFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore
 			}
 		}
 
+		hash := sha256.Sum256(resource.Data)
 		data, _ := librpki.BER2DER(resource.Data)
 
 		callback(
@@ -91,8 +98,9 @@ func (s *APIFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore
 				Path:   resource.Path,
 			},
 			&pki.SeekFile{
-				File: resource.Path,
-				Data: data,
+				File:   resource.Path,
+				Data:   data,
+				Sha256: hash[:],
 			}, false)
 
 		resource, err = resources.Recv()
-- 
2.43.0


From c3994a91f98e2628cda1a278e130c8106b03b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:50 +0000
Subject: [PATCH 77/80] fix: API: a file that BER2DER refuses failed the whole
 CA, and was listed empty

---
 sync/api/fetch.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sync/api/fetch.go b/sync/api/fetch.go
index 5e1c2e7..0a0aa3c 100644
--- a/sync/api/fetch.go
+++ b/sync/api/fetch.go
@@ -26,11 +26,17 @@ func FetchFile(client RPKIAPIClient, ctx context.Context, path string) ([]byte,
 		return nil, nil, err
 	}
 	hash := sha256.Sum256(resource.Data)
-	data, err := librpki.BER2DER(resource.Data)
+	return toDER(resource.Data), hash[:], nil
+}
+
+// toDER converts a file. One that cannot be converted is passed on as it is: it
+// was read, and it is up to its decoder to refuse it.
+func toDER(data []byte) []byte {
+	der, err := librpki.BER2DER(data)
 	if err != nil {
-		return resource.Data, hash[:], err
+		return data
 	}
-	return data, hash[:], err
+	return der
 }
 
 func (s *APIFetch) GetFile(file *pki.PKIFile) (*pki.SeekFile, error) {
@@ -88,7 +94,6 @@ func (s *APIFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore
 		}
 
 		hash := sha256.Sum256(resource.Data)
-		data, _ := librpki.BER2DER(resource.Data)
 
 		callback(
 			&pki.PKIFile{
@@ -99,7 +104,7 @@ func (s *APIFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore
 			},
 			&pki.SeekFile{
 				File:   resource.Path,
-				Data:   data,
+				Data:   toDER(resource.Data),
 				Sha256: hash[:],
 			}, false)
 
-- 
2.43.0


From e1ad093ef39fb86e6a95dc406bd1b5714b671d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:50 +0000
Subject: [PATCH 78/80] fix: API: a listing that broke off was taken for a
 complete one

---
 sync/api/fetch.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync/api/fetch.go b/sync/api/fetch.go
index 0a0aa3c..fdfacba 100644
--- a/sync/api/fetch.go
+++ b/sync/api/fetch.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/sha256"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"strings"
 
@@ -110,5 +111,8 @@ func (s *APIFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore
 
 		resource, err = resources.Recv()
 	}
+	if err != io.EOF {
+		return err
+	}
 	return nil
 }
-- 
2.43.0


From c20e7ee5e9ae94717ef895b6fd69d89e7dd968c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:50 +0000
Subject: [PATCH 79/80] fix: API: files listed for a manifest had wrong paths

---
 sync/api/fetch.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sync/api/fetch.go b/sync/api/fetch.go
index fdfacba..33380ce 100644
--- a/sync/api/fetch.go
+++ b/sync/api/fetch.go
@@ -96,12 +96,18 @@ func (s *APIFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore
 
 		hash := sha256.Sum256(resource.Data)
 
+		// Files below a manifest are found relative to its repository.
+		path := resource.Path
+		if file.Type == pki.TYPE_MFT {
+			path = strings.TrimPrefix(path, strings.TrimSuffix(file.Repo, "/")+"/")
+		}
+
 		callback(
 			&pki.PKIFile{
 				Parent: file,
 				Type:   extension,
 				Repo:   file.Repo,
-				Path:   resource.Path,
+				Path:   path,
 			},
 			&pki.SeekFile{
 				File:   resource.Path,
-- 
2.43.0


From e3f41a1896c400352c73cca3500af84e787b1eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:31 +0000
Subject: [PATCH 80/80] fix: octorpki: dates after 2262 in the resources

The time in nanoseconds does not fit 64 bits then: a certificate valid until
99991231235959Z (RFC 5280, no well-defined expiration) was shown to end in 1816.
---
 cmd/octorpki/octorpki.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index ce3ab8e..ed991b1 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -860,8 +860,8 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 					}
 				}
 
-				na := int(cer.Certificate.NotAfter.UnixNano() / 1000000000)
-				nb := int(cer.Certificate.NotBefore.UnixNano() / 1000000000)
+				na := int(cer.Certificate.NotAfter.Unix())
+				nb := int(cer.Certificate.NotBefore.Unix())
 				curResource := &schemas.OutputRes{
 					Type:           "certificate",
 					SubjectKeyId:   ski,
@@ -953,9 +953,9 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			ski := hex.EncodeToString(cer.Certificate.SubjectKeyId)
 			aki := hex.EncodeToString(cer.Certificate.AuthorityKeyId)
 
-			em := int(roa.SigningTime.UnixNano() / 1000000000)
-			na := int(cer.Certificate.NotAfter.UnixNano() / 1000000000)
-			nb := int(cer.Certificate.NotBefore.UnixNano() / 1000000000)
+			em := int(roa.SigningTime.Unix())
+			na := int(cer.Certificate.NotAfter.Unix())
+			nb := int(cer.Certificate.NotBefore.Unix())
 
 			curResource := &schemas.OutputRes{
 				Type:           "roa",
@@ -1016,10 +1016,10 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 
 			ski := hex.EncodeToString(cer.Certificate.SubjectKeyId)
 			aki := hex.EncodeToString(cer.Certificate.AuthorityKeyId)
-			tu := int(mft.Content.ThisUpdate.UnixNano() / 1000000000)
-			nu := int(mft.Content.NextUpdate.UnixNano() / 1000000000)
-			na := int(cer.Certificate.NotAfter.UnixNano() / 1000000000)
-			nb := int(cer.Certificate.NotBefore.UnixNano() / 1000000000)
+			tu := int(mft.Content.ThisUpdate.Unix())
+			nu := int(mft.Content.NextUpdate.Unix())
+			na := int(cer.Certificate.NotAfter.Unix())
+			nb := int(cer.Certificate.NotBefore.Unix())
 
 			curResource := &schemas.OutputRes{
 				Type:           "manifest",
-- 
2.43.0

