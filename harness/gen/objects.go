//go:build go1.22

package gen

import (
	"crypto/rsa"
	"crypto/sha256"
	"math/big"
	"strings"
	"time"
)

// Access is one accessDescription.
type Access struct {
	Method []byte // OID TLV
	URI    string
}

// Cert describes a certificate to build.
type Cert struct {
	Serial              *big.Int
	Issuer, Subject     string
	NotBefore, NotAfter time.Time
	Key                 *rsa.PublicKey
	SKI, AKI            []byte // nil: absent
	CA                  bool
	CRLDP               []string
	AIA                 string
	SIA                 []Access
	Res                 Resources

	Signer *rsa.PrivateKey

	// Deviations.
	RawIPExt, RawASExt, RawSIAExt []byte // replace the extension values
	NoPolicy                      bool
	SigAlg                        []byte // algorithm identifier used in both places
	TamperSig                     bool   // flip a bit of the signature
	TamperTBS                     func([]byte) []byte
	ExtraExts                     [][]byte
	NoBasic                       bool
}

func name(cn string) []byte {
	for _, b := range []byte(cn) {
		if b >= 0x80 || strings.IndexByte("\"&<>*@_;!#", b) >= 0 {
			return Seq(Set(Seq(oidCN, TLV(0x0c, []byte(cn)))))
		}
	}
	return Seq(Set(Seq(oidCN, Printable(cn))))
}

func Ext(oid []byte, critical bool, value []byte) []byte {
	if critical {
		return Seq(oid, Bool(true), Octets(value))
	}
	return Seq(oid, Octets(value))
}

func GeneralNameURI(u string) []byte { return CtxPrim(6, []byte(u)) }

// SIAValue is a SubjectInfoAccess/AuthorityInfoAccess value.
func SIAValue(as []Access) []byte {
	var l [][]byte
	for _, a := range as {
		l = append(l, Seq(a.Method, GeneralNameURI(a.URI)))
	}
	return Seq(l...)
}

// TBS is the to-be-signed part.
func (c *Cert) TBS() []byte {
	alg := c.SigAlg
	if alg == nil {
		alg = AlgSHA256RSA()
	}
	var exts [][]byte
	if c.CA && !c.NoBasic {
		exts = append(exts, Ext(oidBasicConstraints, true, Seq(Bool(true))))
	}
	if c.SKI != nil {
		exts = append(exts, Ext(oidSKI, false, Octets(c.SKI)))
	}
	if c.AKI != nil {
		exts = append(exts, Ext(oidAKI, false, Seq(CtxPrim(0, c.AKI))))
	}
	if c.CA {
		exts = append(exts, Ext(oidKeyUsage, true, BitStr([]byte{0x06}, 7)))
	} else {
		exts = append(exts, Ext(oidKeyUsage, true, BitStr([]byte{0x80}, 1)))
	}
	if len(c.CRLDP) > 0 {
		var g [][]byte
		for _, u := range c.CRLDP {
			g = append(g, GeneralNameURI(u))
		}
		exts = append(exts, Ext(oidCRLDP, false, Seq(Seq(Ctx(0, Ctx(0, g...))))))
	}
	if c.AIA != "" {
		exts = append(exts, Ext(oidAIA, false, SIAValue([]Access{{oidCAIssuers, c.AIA}})))
	}
	if c.RawSIAExt != nil {
		exts = append(exts, Ext(oidSIA, false, c.RawSIAExt))
	} else if len(c.SIA) > 0 {
		exts = append(exts, Ext(oidSIA, false, SIAValue(c.SIA)))
	}
	if !c.NoPolicy {
		exts = append(exts, Ext(oidCertPol, true, Seq(Seq(oidRPKIPol))))
	}
	if c.RawIPExt != nil {
		exts = append(exts, Ext(oidIPAddr, true, c.RawIPExt))
	} else if v := c.Res.IPExt(); v != nil {
		exts = append(exts, Ext(oidIPAddr, true, v))
	}
	if c.RawASExt != nil {
		exts = append(exts, Ext(oidASID, true, c.RawASExt))
	} else if v := c.Res.ASExt(); v != nil {
		exts = append(exts, Ext(oidASID, true, v))
	}
	exts = append(exts, c.ExtraExts...)
	return Seq(
		Ctx(0, Int(2)),
		BigInt(c.Serial),
		alg,
		name(c.Issuer),
		Seq(Time(c.NotBefore), Time(c.NotAfter)),
		name(c.Subject),
		SPKI(c.Key),
		Ctx(3, Seq(exts...)),
	)
}

// DER is the signed certificate.
func (c *Cert) DER() []byte {
	alg := c.SigAlg
	if alg == nil {
		alg = AlgSHA256RSA()
	}
	tbs := c.TBS()
	sig := Sign(c.Signer, tbs)
	if c.TamperSig {
		sig[len(sig)/2] ^= 0x10
	}
	if c.TamperTBS != nil {
		tbs = c.TamperTBS(tbs)
	}
	return Seq(tbs, alg, BitStr(sig, len(sig)*8))
}

// ---- CMS -----------------------------------------------------------------

// Attr is a signed attribute.
type Attr struct {
	OID   []byte
	Value []byte
}

// CMS describes a signed object.
type CMS struct {
	Type        []byte // content type OID
	Content     []byte // eContent octets
	Digest      []byte // message digest to claim; nil: the right one
	EE          []byte // embedded certificate
	SKI         []byte
	Signer      *rsa.PrivateKey
	SigningTime time.Time // zero: none
	BinTime     bool      // add binary-signing-time
	SigAlg      []byte    // signature algorithm; nil: sha256WithRSA
	Chunks      int       // >0: constructed octet string in segments of this many bytes
	ExtraAttrs  []Attr
	AttrPerm    []int // order in which attributes are written (signed as sorted)
	UnsortedSig bool

	// Deviations.
	TamperSig      func([]byte) []byte
	TamperContent  func([]byte) []byte // after signing
	TamperAttrs    func([]byte) []byte // of the written attribute set, after signing
	NoSignerInfo   bool
	NoCerts        bool
	CRLs           []byte
	SignerSID      []byte // raw
	SignerInfosRaw []byte
	TwoDigests     bool
}

func attrDER(a Attr) []byte { return Seq(a.OID, Set(a.Value)) }

// Attrs is the list of encoded signed attributes.
func (c *CMS) Attrs() [][]byte {
	dg := c.Digest
	if dg == nil {
		h := sha256.Sum256(c.Content)
		dg = h[:]
	}
	l := [][]byte{attrDER(Attr{oidContentTyp, c.Type})}
	if !c.SigningTime.IsZero() {
		l = append(l, attrDER(Attr{oidSignTime, Time(c.SigningTime)}))
	}
	l = append(l, attrDER(Attr{oidMsgDigest, Octets(dg)}))
	if c.BinTime {
		l = append(l, attrDER(Attr{oidBinTime, Int(c.SigningTime.Unix())}))
	}
	for _, a := range c.ExtraAttrs {
		l = append(l, attrDER(a))
	}
	return l
}

// DER is the ContentInfo.
func (c *CMS) DER() []byte {
	alg := c.SigAlg
	if alg == nil {
		alg = AlgSHA256RSA()
	}
	attrs := c.Attrs()
	signedSet := SetOf(attrs...)
	sig := Sign(c.Signer, signedSet)
	if c.TamperSig != nil {
		sig = c.TamperSig(sig)
	}
	written := signedSet
	if c.AttrPerm != nil && len(c.AttrPerm) == len(attrs) {
		var l [][]byte
		for _, i := range c.AttrPerm {
			l = append(l, attrs[i])
		}
		written = Set(l...)
	}
	if c.TamperAttrs != nil {
		written = c.TamperAttrs(written)
	}
	implicitAttrs := append([]byte{0xa0}, written[1:]...)
	content := c.Content
	if c.TamperContent != nil {
		content = c.TamperContent(append([]byte(nil), content...))
	}
	var oct []byte
	if c.Chunks > 0 {
		var segs [][]byte
		for i := 0; i < len(content); i += c.Chunks {
			j := i + c.Chunks
			if j > len(content) {
				j = len(content)
			}
			segs = append(segs, Octets(content[i:j]))
		}
		oct = TLV(0x24, segs...)
	} else {
		oct = Octets(content)
	}
	sid := c.SignerSID
	if sid == nil {
		sid = CtxPrim(0, c.SKI)
	}
	si := Seq(Int(3), sid, AlgSHA256(), implicitAttrs, alg, Octets(sig))
	sis := Set(si)
	if c.NoSignerInfo {
		sis = Set()
	}
	if c.SignerInfosRaw != nil {
		sis = c.SignerInfosRaw
	}
	parts := [][]byte{Int(3), Set(AlgSHA256()), Seq(c.Type, Ctx(0, oct))}
	if !c.NoCerts {
		parts = append(parts, Ctx(0, c.EE))
	}
	if c.CRLs != nil {
		parts = append(parts, Ctx(1, c.CRLs))
	}
	parts = append(parts, sis)
	return Seq(oidSignedData, Ctx(0, Seq(parts...)))
}

// ---- eContents -----------------------------------------------------------

// ROAEntry is a prefix with optional maximum length (MaxLen < 0: absent).
type ROAEntry struct {
	P      Prefix
	MaxLen int
}

func (e ROAEntry) EffMax() int {
	if e.MaxLen < 0 {
		return e.P.Plen
	}
	return e.MaxLen
}

// ROAContent builds the eContent; entries are grouped by family, v4 first.
func ROAContent(asn uint32, entries []ROAEntry) []byte {
	var fams [][]byte
	for _, f := range []AFI{1, 2} {
		var l [][]byte
		for _, e := range entries {
			if e.P.F != f {
				continue
			}
			bs := BitStr(AddrBytes(f, e.P.A), e.P.Plen)
			if e.MaxLen >= 0 {
				l = append(l, Seq(bs, Int(int64(e.MaxLen))))
			} else {
				l = append(l, Seq(bs))
			}
		}
		if l != nil {
			fams = append(fams, Seq(Octets([]byte{0, byte(f)}), Seq(l...)))
		}
	}
	return Seq(Int(int64(asn)), Seq(fams...))
}

// FileHash is a manifest entry.
type FileHash struct {
	Name string
	Hash []byte
}

// ManifestContent builds a manifest eContent.
func ManifestContent(number *big.Int, this, next time.Time, files []FileHash) []byte {
	var l [][]byte
	for _, f := range files {
		l = append(l, Seq(IA5(f.Name), BitStr(f.Hash, len(f.Hash)*8)))
	}
	return Seq(BigInt(number), GenTime(this), GenTime(next), oidSHA256, Seq(l...))
}

// CRL describes a CRL.
type CRL struct {
	Issuer     string
	This, Next time.Time
	Revoked    []*big.Int
	AKI        []byte
	Number     *big.Int
	Signer     *rsa.PrivateKey
	TamperSig  bool
}

func (c *CRL) DER() []byte {
	var rev [][]byte
	for _, r := range c.Revoked {
		rev = append(rev, Seq(BigInt(r), Time(c.This)))
	}
	parts := [][]byte{Int(1), AlgSHA256RSA(), name(c.Issuer), Time(c.This), Time(c.Next)}
	if rev != nil {
		parts = append(parts, Seq(rev...))
	}
	var exts [][]byte
	if c.AKI != nil {
		exts = append(exts, Ext(oidAKI, false, Seq(CtxPrim(0, c.AKI))))
	}
	num := c.Number
	if num == nil {
		num = big.NewInt(1)
	}
	exts = append(exts, Ext(oidCRLNumber, false, BigInt(num)))
	parts = append(parts, Ctx(0, Seq(exts...)))
	tbs := Seq(parts...)
	sig := Sign(c.Signer, tbs)
	if c.TamperSig {
		sig[len(sig)/2] ^= 0x10
	}
	return Seq(tbs, AlgSHA256RSA(), BitStr(sig, len(sig)*8))
}
