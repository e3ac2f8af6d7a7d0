//go:build go1.22

package gen

import (
	"bytes"
	"crypto/rsa"
	"crypto/sha256"
	"fmt"
	"math/big"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// Fault is one way of breaking a tree. Apply returns a description, or ""
// when the tree offers no place for it. At is the CA whose publication is at
// fault (the payloads of CAs not below it are not to change).
type Fault struct {
	Kind  string
	Class int
	Apply func(t *pbt.T, tr *Tree) (at *CANode, what string)
}

// Classes of faults.
const (
	SelfROA   = 1 << iota // a ROA invalid by itself, correctly listed
	SelfCA                // a CA certificate invalid by itself, correctly listed
	Listing               // a file of the listing absent or of another hash, or stale manifest
	Point                 // the manifest itself unusable
	CRLs                  // a CRL that revokes nothing
	Hostile               // crafted to harm other CAs
	Anchor                // the trust anchor itself
	Container             // the manifest cannot be decoded, etc.
)

func (tr *Tree) someCA(t *pbt.T, ok func(*CANode) bool) *CANode {
	var l []*CANode
	for _, c := range tr.CAs {
		if ok == nil || ok(c) {
			l = append(l, c)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[t.Intn(len(l))]
}

func notTA(c *CANode) bool { return c.Parent != nil }

func (tr *Tree) someROA(t *pbt.T, ok func(*ROAObj) bool) *ROAObj {
	var l []*ROAObj
	for _, c := range tr.CAs {
		for _, r := range c.ROAs {
			if ok == nil || ok(r) {
				l = append(l, r)
			}
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[t.Intn(len(l))]
}

func fresh(r *ROAObj) bool { return r.File.Edit == nil && r.CMSEdit == nil && r.Opaque == nil }

// otherKey is a key that is not the given CA's.
func (tr *Tree) otherKey(t *pbt.T, c *CANode) *rsa.PrivateKey {
	if o := tr.someCA(t, func(x *CANode) bool { return x != c }); o != nil && t.Bool() {
		return o.Key
	}
	return tr.NextKey()
}

func garbage(t *pbt.T) func([]byte) []byte {
	k := t.Intn(6)
	n := t.Intn(60)
	b := t.Bytes(n)
	cut := t.Intn(1000)
	return func(d []byte) []byte {
		switch k {
		case 0:
			return b
		case 1:
			return nil
		case 2, 3: // truncated
			return d[:len(d)*cut/1000]
		case 4: // a DER value of another kind
			return Seq(Int(int64(n)), Octets(b))
		}
		// a broken header
		d[0] ^= 0x3f
		return d
	}
}

func verdict(v Tri) func(bool) Tri { return func(bool) Tri { return v } }

func past(t *pbt.T, tr *Tree) Window {
	if tr.wide {
		return Window{time.Date(1999, 1, t.Intn(300), 0, 0, 0, 0, time.UTC), time.Date(2011, 1, t.Intn(300), 0, 0, 0, 0, time.UTC)}
	}
	d := time.Duration(1+t.Intn(1<<26)) * time.Second
	if t.Chance(1, 3) {
		d = time.Second
	}
	return Window{tr.Time.Add(-d - time.Duration(t.Intn(1<<26))*time.Second), tr.Time.Add(-d)}
}

func future(t *pbt.T, tr *Tree) Window {
	if tr.wide {
		return Window{time.Date(2048, 1, t.Intn(900), 0, 0, 0, 0, time.UTC), time.Date(2060, 1, t.Intn(300), 0, 0, 0, 0, time.UTC)}
	}
	d := time.Duration(1+t.Intn(1<<26)) * time.Second
	if t.Chance(1, 3) {
		d = time.Second
	}
	return Window{tr.Time.Add(d), tr.Time.Add(d + time.Duration(t.Intn(1<<26))*time.Second)}
}

// outside draws a resource set that is not within the issuer's: the given
// resources with one block replaced or added. nil when the issuer holds all.
func outside(t *pbt.T, r Resources, e *Eff) (Resources, bool) {
	add := func(s *IPSet, f AFI, b Block) *IPSet {
		n := &IPSet{F: f}
		if s != nil && !s.Inherit {
			n.Blocks = append(n.Blocks, s.Blocks...)
		}
		at := t.Intn(len(n.Blocks) + 1)
		n.Blocks = append(n.Blocks[:at:at], append([]Block{b}, n.Blocks[at:]...)...)
		return n
	}
	for try := 0; try < 12; try++ {
		switch t.Intn(3) {
		case 0:
			if r.AS != nil || t.Bool() {
				b := DrawASBlock(t)
				if len(e.AS) > 0 && t.Chance(2, 3) { // just outside
					x := e.AS[t.Intn(len(e.AS))]
					b = x
					if t.Bool() && x.Max < 1<<32-1 {
						b.Max++
					} else if x.Min > 0 {
						b.Min--
					}
					b.Range = b.Range || b.Min != b.Max
				}
				if !e.HoldsAS(b) {
					n := &ASSet{}
					if r.AS != nil && !r.AS.Inherit {
						n.Blocks = append(n.Blocks, r.AS.Blocks...)
					}
					n.Blocks = append(n.Blocks, b)
					r.AS = n
					return r, true
				}
			}
		default:
			f := AFI(1 + t.Intn(2))
			b := DrawBlock(t, f)
			if len(e.IP[f]) > 0 && t.Chance(2, 3) {
				x := e.IP[f][t.Intn(len(e.IP[f]))]
				b = x
				b.Plen = -1
				one := U128{0, 1}
				if t.Bool() {
					if b.Max != HostMask(f, 0) {
						b.Max = b.Max.Add(one)
					}
				} else if b.Min != (U128{}) {
					b.Min = b.Min.Sub(one)
				}
			}
			if e.Holds(b) {
				continue
			}
			if f == 1 {
				r.V4 = add(r.V4, 1, b)
			} else {
				r.V6 = add(r.V6, 2, b)
			}
			return r, true
		}
	}
	return r, false
}

// strayEntry draws an entry the ROA's end-entity certificate does not cover.
func strayEntry(t *pbt.T, r *ROAObj) (ROAEntry, bool) {
	e := EffOf(r.Res, r.CA.Eff())
	ce := r.CA.Eff()
	for try := 0; try < 12; try++ {
		var p Prefix
		if all := append(append([]Block{}, ce.IP[1]...), ce.IP[2]...); len(all) > 0 && t.Chance(2, 3) {
			p = SubPrefix(t, all[t.Intn(len(all))])
		} else {
			p = DrawPrefix(t, AFI(1+t.Intn(2)))
		}
		if len(r.Entries) > 0 && t.Chance(1, 3) { // one bit shorter than a covered one
			p = r.Entries[t.Intn(len(r.Entries))].P
			if p.Plen == 0 {
				continue
			}
			p.Plen--
			p.A = p.A.And(HostMask(p.F, p.Plen).Not())
		}
		if !e.Holds(PrefixBlock(p)) {
			en := ROAEntry{P: p, MaxLen: -1}
			if t.Bool() {
				en.MaxLen = p.Plen + t.Intn(p.F.Bits()-p.Plen+1)
			}
			return en, true
		}
	}
	return ROAEntry{}, false
}

// rawEntries writes the ROA content with chosen explicit maximum lengths.
func rawROAContent(asn uint32, entries []ROAEntry, explicit map[int]int64) []byte {
	var fams [][]byte
	for _, f := range []AFI{1, 2} {
		var l [][]byte
		for i, e := range entries {
			if e.P.F != f {
				continue
			}
			bs := BitStr(AddrBytes(f, e.P.A), e.P.Plen)
			if v, ok := explicit[i]; ok {
				l = append(l, Seq(bs, Int(v)))
			} else if e.MaxLen >= 0 {
				l = append(l, Seq(bs, Int(int64(e.MaxLen))))
			} else {
				l = append(l, Seq(bs))
			}
		}
		if l != nil {
			fams = append(fams, Seq(Octets([]byte{0, byte(f)}), Seq(l...)))
		}
	}
	return Seq(Int(int64(asn)), Seq(fams...))
}

func flip(t *pbt.T) func([]byte) []byte {
	at, bit := t.Intn(1<<20), byte(1)<<t.Intn(8)
	return func(b []byte) []byte {
		b = append([]byte(nil), b...)
		if len(b) == 0 {
			return []byte{bit}
		}
		b[at%len(b)] ^= bit
		return b
	}
}

// eeFaults apply to the certificate part of a CA or ROA.
var eeFaults = []string{"expired", "notyet", "badsig", "wrongsigner", "revoked", "overclaim", "aki", "ski"}

// hurtEE breaks a certificate issued by issuer; "" when it cannot.
func (tr *Tree) hurtEE(t *pbt.T, kind string, e *EE, issuer *CANode, ski []byte) string {
	switch kind {
	case "expired":
		e.Win = past(t, tr)
	case "notyet":
		e.Win = future(t, tr)
	case "badsig":
		e.BadSig = true
	case "wrongsigner":
		k := tr.otherKey(t, issuer)
		if k == nil {
			return ""
		}
		e.WrongSigner = k
	case "revoked":
		issuer.Revoked = append(issuer.Revoked, e.Serial)
		for i := len(issuer.Revoked) - 1; i > 0; i-- {
			j := t.Intn(i + 1)
			issuer.Revoked[i], issuer.Revoked[j] = issuer.Revoked[j], issuer.Revoked[i]
		}
	case "overclaim":
		res, ok := outside(t, e.Res, issuer.Eff())
		if !ok {
			return ""
		}
		e.Res = res
	case "aki":
		switch t.Intn(3) {
		case 0:
			e.AKI = t.Bytes(20)
		case 1:
			o := tr.someCA(t, func(x *CANode) bool { return x != issuer })
			if o == nil {
				return ""
			}
			e.AKI = o.ski()
		case 2:
			e.AKI = ski // its own
		}
		if bytes.Equal(e.AKI, issuer.ski()) { // the other claims the issuer's
			e.AKI = nil
			return ""
		}
	case "ski":
		o := tr.someCA(t, func(x *CANode) bool { return &x.EE != e })
		switch {
		case o != nil && t.Bool():
			e.SKI = o.ski()
		case t.Bool() && tr.someROA(t, nil) != nil:
			r := tr.someROA(t, nil)
			if &r.EE == e {
				return ""
			}
			e.SKI = KeyID(&r.Key.PublicKey)
		default:
			e.SKI = t.Bytes(20)
		}
		if bytes.Equal(e.SKI, ski) {
			e.SKI = nil
			return ""
		}
	}
	return kind
}

// listedFile picks a file a CA lists (not its extra files when need be).
func (c *CANode) listedFiles() []*File {
	l := []*File{&c.CRLFile}
	for _, k := range c.Kids {
		l = append(l, &k.File)
	}
	for _, r := range c.ROAs {
		l = append(l, &r.File)
	}
	for _, x := range c.Extra {
		l = append(l, &x.File)
	}
	return l
}

// Faults is the catalogue.
func Faults() []Fault {
	var fs []Fault
	add := func(class int, kind string, apply func(t *pbt.T, tr *Tree) (*CANode, string)) {
		fs = append(fs, Fault{kind, class, apply})
	}
	for _, k := range eeFaults {
		k := k
		add(SelfCA, "ca-"+k, func(t *pbt.T, tr *Tree) (*CANode, string) {
			c := tr.someCA(t, notTA)
			if c == nil {
				return nil, ""
			}
			if s := tr.hurtEE(t, k, &c.EE, c.Parent, KeyID(&c.Key.PublicKey)); s != "" {
				return c, fmt.Sprintf("ca%d certificate %s", c.ID, s)
			}
			return nil, ""
		})
		add(SelfROA, "roa-"+k, func(t *pbt.T, tr *Tree) (*CANode, string) {
			r := tr.someROA(t, fresh)
			if r == nil {
				return nil, ""
			}
			if s := tr.hurtEE(t, k, &r.EE, r.CA, KeyID(&r.Key.PublicKey)); s != "" {
				return r.CA, fmt.Sprintf("ca%d %s certificate %s", r.CA.ID, r.Name, s)
			}
			return nil, ""
		})
		add(Point, "mftee-"+k, func(t *pbt.T, tr *Tree) (*CANode, string) {
			c := tr.someCA(t, nil)
			if s := tr.hurtEE(t, k, &c.MftEE, c, KeyID(&c.MftEE.Key.PublicKey)); s != "" {
				return c, fmt.Sprintf("ca%d manifest certificate %s", c.ID, s)
			}
			return nil, ""
		})
	}
	add(SelfCA, "ca-garbage", func(t *pbt.T, tr *Tree) (*CANode, string) {
		c := tr.someCA(t, notTA)
		if c == nil {
			return nil, ""
		}
		c.File.Edit, c.File.Verdict = garbage(t), verdict(No)
		return c, fmt.Sprintf("ca%d certificate undecodable", c.ID)
	})
	roa := func(kind string, f func(t *pbt.T, tr *Tree, r *ROAObj) string) {
		add(SelfROA, "roa-"+kind, func(t *pbt.T, tr *Tree) (*CANode, string) {
			r := tr.someROA(t, fresh)
			if r == nil {
				return nil, ""
			}
			s := f(t, tr, r)
			if s == "" {
				return nil, ""
			}
			return r.CA, fmt.Sprintf("ca%d %s %s", r.CA.ID, r.Name, s)
		})
	}
	roa("garbage", func(t *pbt.T, tr *Tree, r *ROAObj) string {
		r.File.Edit, r.File.Verdict = garbage(t), verdict(No)
		return "undecodable"
	})
	roa("cmssig", func(t *pbt.T, tr *Tree, r *ROAObj) string {
		f := flip(t)
		r.CMSEdit, r.CMSBad = func(c *CMS) { c.TamperSig = f }, No
		return "bad CMS signature"
	})
	roa("cmskey", func(t *pbt.T, tr *Tree, r *ROAObj) string {
		k := tr.otherKey(t, nil)
		if k == nil {
			return ""
		}
		r.CMSEdit, r.CMSBad = func(c *CMS) { c.Signer = k }, No
		return "CMS signed with another key"
	})
	roa("digest", func(t *pbt.T, tr *Tree, r *ROAObj) string {
		d := t.Bytes(32)
		r.CMSEdit, r.CMSBad = func(c *CMS) { c.Digest = d }, No
		return "other digest"
	})
	roa("content", func(t *pbt.T, tr *Tree, r *ROAObj) string {
		as := r.AS ^ 1<<t.Intn(32)
		es := r.Entries
		r.CMSEdit, r.CMSBad = func(c *CMS) {
			n := ROAContent(as, es)
			c.TamperContent = func([]byte) []byte { return n }
		}, No
		return "content replaced after signing"
	})
	roa("type", func(t *pbt.T, tr *Tree, r *ROAObj) string {
		r.CMSEdit, r.CMSBad = func(c *CMS) { c.Type = OidManifest }, Maybe
		return "content type of a manifest"
	})
	roa("nosigner", func(t *pbt.T, tr *Tree, r *ROAObj) string {
		r.CMSEdit, r.CMSBad = func(c *CMS) { c.NoSignerInfo = true }, No
		return "no signer"
	})
	roa("nocert", func(t *pbt.T, tr *Tree, r *ROAObj) string {
		r.CMSEdit, r.CMSBad = func(c *CMS) { c.NoCerts = true }, No
		return "no certificate"
	})
	roa("maxlen", func(t *pbt.T, tr *Tree, r *ROAObj) string {
		i := t.Intn(len(r.Entries))
		e := r.Entries[i]
		var v int64
		switch t.Intn(4) {
		case 0:
			if e.P.Plen == 0 {
				return ""
			}
			v = int64(t.Intn(e.P.Plen))
		case 1:
			v = int64(e.P.F.Bits() + 1 + t.Intn(4))
		case 2:
			v = pbt.Pick(t, int64(e.P.F.Bits()+1), 129, 255, 256, 1<<16, 1<<31, 1<<32+int64(e.P.Plen))
			if v <= int64(e.P.F.Bits()) {
				return ""
			}
		case 3:
			v = -int64(2 + t.Intn(200))
		}
		m := map[int]int64{i: v}
		as, es := r.AS, r.Entries
		r.CMSEdit, r.CMSBad, r.Soft = func(c *CMS) { c.Content = rawROAContent(as, es, m) }, No, true
		return fmt.Sprintf("maximum length %d for %s", v, e.P)
	})
	roa("stray", func(t *pbt.T, tr *Tree, r *ROAObj) string {
		e, ok := strayEntry(t, r)
		if !ok {
			return ""
		}
		at := t.Intn(len(r.Entries) + 1)
		r.Entries = append(r.Entries[:at:at], append([]ROAEntry{e}, r.Entries[at:]...)...)
		return "lists " + e.P.String() + ", which its certificate does not hold"
	})
	roa("inherit", func(t *pbt.T, tr *Tree, r *ROAObj) string {
		if r.Res.V4 != nil && t.Bool() || r.Res.V6 == nil {
			r.Res.V4 = &IPSet{F: 1, Inherit: true}
		} else {
			r.Res.V6 = &IPSet{F: 2, Inherit: true}
		}
		return "certificate inherits"
	})
	roa("nores", func(t *pbt.T, tr *Tree, r *ROAObj) string {
		r.Res = Resources{AS: &ASSet{Inherit: true}}
		return "certificate without addresses"
	})
	roa("alg", func(t *pbt.T, tr *Tree, r *ROAObj) string {
		a := pbt.Pick(t, AlgSHA256RSANoNull(), AlgRSANoNull())
		r.CMSEdit, r.CMSBad, r.StrictV = func(c *CMS) { c.SigAlg = a }, Maybe, No
		return "signature algorithm without parameters"
	})
	roa("swap", func(t *pbt.T, tr *Tree, r *ROAObj) string {
		o := tr.someROA(t, func(x *ROAObj) bool { return x != r && fresh(x) })
		if o == nil {
			return ""
		}
		switch t.Intn(2) {
		case 0: // the other's certificate, signed with the own key
			r.CMSEdit, r.CMSBad = func(c *CMS) {
				ct := o.EE.cert(o.CA, 0)
				ct.Subject = "x"
				c.EE = ct.DER()
			}, No
			return "embeds another ROA's certificate"
		}
		r.CMSEdit, r.CMSBad = func(c *CMS) { c.SignerSID = CtxPrim(0, KeyID(&o.Key.PublicKey)) }, Maybe
		return "names another signer"
	})

	// listing
	add(Listing, "list-absent", func(t *pbt.T, tr *Tree) (*CANode, string) {
		c := tr.someCA(t, nil)
		l := c.listedFiles()
		f := l[t.Intn(len(l))]
		f.Missing = true
		return c, fmt.Sprintf("ca%d lists %s, which is absent", c.ID, f.Name)
	})
	add(Listing, "list-extra", func(t *pbt.T, tr *Tree) (*CANode, string) {
		c := tr.someCA(t, nil)
		x := &ExtraFile{File: File{Name: fmt.Sprintf("x%d", tr.id()) + pbt.Pick(t, ".roa", ".cer", ".crl", ".gbr", ".mft", ".txt", ""), Missing: true}}
		c.Extra = append(c.Extra, x)
		c.Order = t.Perm(c.listLen())
		return c, fmt.Sprintf("ca%d lists %s, which does not exist", c.ID, x.Name)
	})
	add(Listing, "list-hash", func(t *pbt.T, tr *Tree) (*CANode, string) {
		c := tr.someCA(t, nil)
		l := c.listedFiles()
		f := l[t.Intn(len(l))]
		switch t.Intn(4) {
		case 0:
			f.Hash, f.HashCut = t.Bytes(32), 0
		case 1:
			if f.Hash == nil && t.Bool() {
				f.HashCut = t.Range(1, 31)
				break
			}
			f.Hash, f.HashCut = pbt.Pick(t, []byte{}, make([]byte, 32), t.Bytes(20), t.Bytes(33)), 0
		case 2:
			f.After = flip(t)
		case 3:
			b := t.Bytes(1 + t.Intn(3))
			f.After = func(d []byte) []byte { return append(d, b...) }
		}
		return c, fmt.Sprintf("ca%d lists %s with another hash", c.ID, f.Name)
	})
	add(Listing, "list-dup", func(t *pbt.T, tr *Tree) (*CANode, string) {
		c := tr.someCA(t, nil)
		l := c.listedFiles()
		f := l[t.Intn(len(l))]
		f.BadDup = t.Bytes(32)
		f.BadDupFirst = t.Bool()
		return c, fmt.Sprintf("ca%d lists %s twice, once with another hash", c.ID, f.Name)
	})
	add(Listing, "stale", func(t *pbt.T, tr *Tree) (*CANode, string) {
		c := tr.someCA(t, nil)
		if t.Bool() {
			c.MftWin = past(t, tr)
		} else {
			c.MftWin = future(t, tr)
		}
		return c, fmt.Sprintf("ca%d manifest outside its period", c.ID)
	})
	add(Point, "mft-absent", func(t *pbt.T, tr *Tree) (*CANode, string) {
		c := tr.someCA(t, nil)
		c.MftFile.Missing = true
		return c, fmt.Sprintf("ca%d manifest absent", c.ID)
	})
	add(Point, "mft-garbage", func(t *pbt.T, tr *Tree) (*CANode, string) {
		c := tr.someCA(t, nil)
		c.MftFile.Edit, c.MftFile.Verdict = garbage(t), verdict(No)
		return c, fmt.Sprintf("ca%d manifest undecodable", c.ID)
	})
	mft := func(kind string, v Tri, f func(t *pbt.T, tr *Tree, c *CANode) (func(*CMS), string)) {
		add(Point, "mft-"+kind, func(t *pbt.T, tr *Tree) (*CANode, string) {
			c := tr.someCA(t, func(c *CANode) bool { return c.MftEdit == nil })
			if c == nil {
				return nil, ""
			}
			e, s := f(t, tr, c)
			if e == nil {
				return nil, ""
			}
			c.MftEdit, c.MftV = e, v
			return c, fmt.Sprintf("ca%d manifest %s", c.ID, s)
		})
	}
	mft("cmssig", No, func(t *pbt.T, tr *Tree, c *CANode) (func(*CMS), string) {
		f := flip(t)
		return func(o *CMS) { o.TamperSig = f }, "bad CMS signature"
	})
	mft("cmskey", No, func(t *pbt.T, tr *Tree, c *CANode) (func(*CMS), string) {
		k := tr.otherKey(t, nil)
		if k == nil {
			return nil, ""
		}
		return func(o *CMS) { o.Signer = k }, "CMS signed with another key"
	})
	mft("digest", No, func(t *pbt.T, tr *Tree, c *CANode) (func(*CMS), string) {
		d := t.Bytes(32)
		return func(o *CMS) { o.Digest = d }, "other digest"
	})
	mft("nosigner", No, func(t *pbt.T, tr *Tree, c *CANode) (func(*CMS), string) {
		return func(o *CMS) { o.NoSignerInfo = true }, "no signer"
	})
	mft("dotdot", No, func(t *pbt.T, tr *Tree, c *CANode) (func(*CMS), string) {
		n := pbt.Pick(t, "../x.roa", "a/../b.cer", "../../x", "..\\x.roa", "../")
		c.MftLists = append(c.MftLists, FileHash{n, t.Bytes(32)})
		return func(o *CMS) {}, "lists " + n
	})

	// CRLs
	add(CRLs, "crl", func(t *pbt.T, tr *Tree) (*CANode, string) {
		c := tr.someCA(t, func(c *CANode) bool { return c.CRLFault == CRLFine })
		if c == nil {
			return nil, ""
		}
		f := pbt.Pick(t, CRLBadSig, CRLOtherKey, CRLOtherAKI, CRLGarbage)
		switch f {
		case CRLOtherKey:
			if c.CRLKey = tr.otherKey(t, c); c.CRLKey == nil {
				return nil, ""
			}
		case CRLOtherAKI:
			c.CRLAKI = t.Bytes(20)
			if o := tr.someCA(t, func(x *CANode) bool { return x != c }); o != nil && t.Chance(2, 3) {
				c.CRLAKI = o.ski()
			}
		}
		c.CRLFault = f
		// what it would revoke
		o := tr.someCA(t, func(x *CANode) bool { return x.Parent != nil })
		if o != nil {
			c.Revoked = append(c.Revoked, o.Serial)
		}
		for _, k := range c.Kids {
			if t.Bool() {
				c.Revoked = append(c.Revoked, k.Serial)
			}
		}
		for _, r := range c.ROAs {
			if t.Bool() {
				c.Revoked = append(c.Revoked, r.Serial)
			}
		}
		return c, fmt.Sprintf("ca%d CRL %s", c.ID, [...]string{"", "badly signed", "of another key", "of another issuer", "undecodable"}[f])
	})

	// trust anchors
	ta := func(kind string, f func(t *pbt.T, tr *Tree, a *TANode) string) {
		add(Anchor, "ta-"+kind, func(t *pbt.T, tr *Tree) (*CANode, string) {
			a := tr.TAs[t.Intn(len(tr.TAs))]
			s := f(t, tr, a)
			if s == "" {
				return nil, ""
			}
			return a.CA, fmt.Sprintf("ca%d (TA) %s", a.CA.ID, s)
		})
	}
	ta("key", func(t *pbt.T, tr *Tree, a *TANode) string {
		k := tr.otherKey(t, a.CA)
		if k == nil {
			return ""
		}
		a.TALKey = &k.PublicKey
		return "TAL has another key"
	})
	ta("expired", func(t *pbt.T, tr *Tree, a *TANode) string { a.CA.Win = past(t, tr); return "expired" })
	ta("notyet", func(t *pbt.T, tr *Tree, a *TANode) string { a.CA.Win = future(t, tr); return "not yet valid" })
	ta("badsig", func(t *pbt.T, tr *Tree, a *TANode) string { a.CA.BadSig = true; return "bad signature" })
	ta("signer", func(t *pbt.T, tr *Tree, a *TANode) string {
		k := tr.otherKey(t, a.CA)
		if k == nil {
			return ""
		}
		a.CA.WrongSigner = k
		return "signed with another key"
	})
	ta("absent", func(t *pbt.T, tr *Tree, a *TANode) string { a.Missing = true; return "absent" })
	ta("garbage", func(t *pbt.T, tr *Tree, a *TANode) string {
		a.CA.File.Edit, a.CA.File.Verdict = garbage(t), verdict(No)
		return "undecodable"
	})

	// hostile
	hostile := func(kind string, f func(t *pbt.T, tr *Tree, c, y *CANode) string) {
		add(Hostile, "hostile-"+kind, func(t *pbt.T, tr *Tree) (*CANode, string) {
			c := tr.someCA(t, nil)
			y := tr.someCA(t, func(y *CANode) bool { return !y.Below(c) })
			if y == nil {
				return nil, ""
			}
			s := f(t, tr, c, y)
			if s == "" {
				return nil, ""
			}
			c.Hostile = true
			return c, fmt.Sprintf("ca%d (against ca%d) %s", c.ID, y.ID, s)
		})
	}
	evil := func(t *pbt.T, tr *Tree, c *CANode, ext string, data func(d time.Duration) []byte) {
		// file names sort before or after
		c.Extra = append(c.Extra, &ExtraFile{File: File{Name: fmt.Sprintf("e%d%s", tr.id(), ext)}, DataFn: data})
		c.Order = t.Perm(c.listLen())
	}
	hostile("copy", func(t *pbt.T, tr *Tree, c, y *CANode) string {
		switch t.Intn(4) {
		case 0:
			if len(y.ROAs) == 0 {
				return ""
			}
			r := y.ROAs[t.Intn(len(y.ROAs))]
			var ed func([]byte) []byte
			if t.Bool() {
				ed = flip(t)
			}
			evil(t, tr, c, ".roa", func(d time.Duration) []byte {
				b := r.DER(d)
				if ed != nil {
					b = ed(b)
				}
				return b
			})
			return "publishes a copy of " + r.Name
		case 1:
			evil(t, tr, c, ".cer", func(d time.Duration) []byte { return y.CertDER(d) })
			return "publishes a copy of its certificate"
		case 2:
			evil(t, tr, c, ".mft", func(d time.Duration) []byte { return y.mftDER(tr, d) })
			return "publishes a copy of its manifest"
		}
		evil(t, tr, c, ".crl", func(d time.Duration) []byte { return y.crlDER(d) })
		return "publishes a copy of its CRL"
	})
	hostile("copyas", func(t *pbt.T, tr *Tree, c, y *CANode) string {
		evil(t, tr, c, pbt.Pick(t, ".roa", ".cer", ".mft", ".crl"), func(d time.Duration) []byte {
			return y.mftDER(tr, d)
		})
		return "publishes a copy of its manifest as something else"
	})
	hostile("kid", func(t *pbt.T, tr *Tree, c, y *CANode) string {
		k := tr.drawCA(t, TreeOpts{SimpleName: true}, c, c.TA)
		if k == nil {
			return ""
		}
		c.Order = t.Perm(c.listLen())
		k.Hostile = true
		k.Order = t.Perm(k.listLen())
		target := Access{OidRpkiManifest, y.Dir + y.MftName}
		what := "its manifest"
		switch t.Intn(5) {
		case 0:
			what = "its CRL"
			target.URI = y.Dir + y.CRLName
		case 1:
			if len(y.ROAs) > 0 {
				what = "its ROA"
				target.URI = y.Dir + y.ROAs[0].File.Name
			}
		}
		k.RawSIA = []Access{{OidCaRepository, pbt.Pick(t, y.Repo, k.Repo, "rsync://nowhere/", "")}, target}
		if t.Bool() {
			k.CRLDP = []string{y.Dir + pbt.Pick(t, y.CRLName, y.MftName, y.File.Name)}
		}
		return fmt.Sprintf("issues ca%d whose manifest is %s", k.ID, what)
	})
	hostile("repo", func(t *pbt.T, tr *Tree, c, y *CANode) string {
		if c.Parent == nil {
			return ""
		}
		c.RawSIA = []Access{{OidCaRepository, y.Repo}, {OidRpkiManifest, c.Dir + c.MftName}}
		var l []FileHash
		for _, f := range y.listedFiles() {
			if t.Bool() {
				l = append(l, FileHash{f.Name, t.Bytes(32)})
			}
		}
		c.MftLists = append(c.MftLists, l...)
		return "claims its directory and lists its files with other hashes"
	})
	hostile("repo2", func(t *pbt.T, tr *Tree, c, y *CANode) string {
		if c.Parent == nil {
			return ""
		}
		// lists exactly y's files, with the true hashes, and nothing absent
		c.RawSIA = []Access{{OidCaRepository, y.Repo}, {OidRpkiManifest, c.Dir + c.MftName}}
		c.MftEdit = func(o *CMS) {
			var l []FileHash
			for _, f := range y.listedFiles() {
				if d, ok := tr.Files[y.Dir+f.Name]; ok {
					h := sha256.Sum256(d)
					l = append(l, FileHash{f.Name, h[:]})
				}
			}
			w := c.MftWin
			o.Content = ManifestContent(c.MftNum, w.From, w.To, l)
		}
		c.MftV = Maybe
		return "claims its directory and lists its files"
	})
	hostile("nested", func(t *pbt.T, tr *Tree, c, y *CANode) string {
		if len(y.Dir) <= len(c.Dir) || y.Dir[:len(c.Dir)] != c.Dir {
			return ""
		}
		l := y.listedFiles()
		f := l[t.Intn(len(l))]
		n := y.Dir[len(c.Dir):] + f.Name
		if t.Bool() {
			n = y.Dir[len(c.Dir):] + y.MftName
		}
		c.MftLists = append(c.MftLists, FileHash{n, t.Bytes(32)})
		return "lists " + n
	})
	hostile("crl", func(t *pbt.T, tr *Tree, c, y *CANode) string {
		var rev []*big.Int
		for _, k := range y.Kids {
			rev = append(rev, k.Serial)
		}
		for _, r := range y.ROAs {
			rev = append(rev, r.Serial)
		}
		if y.Parent != nil {
			rev = append(rev, y.Serial)
		}
		aki := pbt.Pick(t, y.ski(), c.ski())
		if y.Parent != nil && t.Chance(1, 3) {
			aki = y.Parent.ski()
		}
		// its own subtree may be revoked by it
		evil(t, tr, c, ".crl", func(d time.Duration) []byte {
			w := shifted(c.MftWin, d)
			x := CRL{Issuer: y.Subject, This: w.From, Next: w.To, Revoked: rev, AKI: aki, Signer: c.Key}
			return x.DER()
		})
		return "publishes a CRL with its serial numbers"
	})
	hostile("claim", func(t *pbt.T, tr *Tree, c, y *CANode) string {
		// a certificate or ROA with the victim's key identifier
		ski := y.ski()
		if len(y.ROAs) > 0 && t.Bool() {
			ski = KeyID(&y.ROAs[t.Intn(len(y.ROAs))].Key.PublicKey)
		} else if t.Bool() {
			ski = KeyID(&y.MftEE.Key.PublicKey)
		}
		if t.Bool() {
			k := tr.drawCA(t, TreeOpts{SimpleName: true}, c, c.TA)
			if k == nil {
				return ""
			}
			c.Order = t.Perm(c.listLen())
			k.Order = t.Perm(k.listLen())
			k.EE.SKI = ski
			return fmt.Sprintf("issues ca%d with its key identifier", k.ID)
		}
		r := tr.DrawROA(t, TreeOpts{SimpleName: true}, c)
		if r == nil {
			return ""
		}
		c.Order = t.Perm(c.listLen())
		r.EE.SKI = ski
		return fmt.Sprintf("issues %s with its key identifier", r.Name)
	})
	hostile("loop", func(t *pbt.T, tr *Tree, c, y *CANode) string {
		x := c
		for t.Bool() && x.Parent != nil {
			x = x.Parent
		}
		evil(t, tr, c, ".cer", func(d time.Duration) []byte { return x.CertDER(d) })
		return fmt.Sprintf("publishes the certificate of its ancestor ca%d", x.ID)
	})
	hostile("self", func(t *pbt.T, tr *Tree, c, y *CANode) string {
		n := c.MftName
		if t.Bool() {
			n = c.File.Name
		}
		c.MftLists = append(c.MftLists, FileHash{n, t.Bytes(32)})
		return "lists " + n
	})
	hostile("mutate", func(t *pbt.T, tr *Tree, c, y *CANode) string {
		l := c.listedFiles()
		l = append(l, &c.MftFile, &c.MftFile)
		f := l[t.Intn(len(l))]
		if f.Edit != nil {
			return ""
		}
		es := make([]func([]byte) []byte, t.Range(1, 3))
		for i := range es {
			es[i] = flip(t)
		}
		f.Edit, f.Verdict = func(b []byte) []byte {
			for _, e := range es {
				b = e(b)
			}
			return b
		}, verdict(Maybe)
		return "publishes " + f.Name + " with bits flipped"
	})
	return fs
}

// Of selects faults by class.
func Of(fs []Fault, class int) []Fault {
	var l []Fault
	for _, f := range fs {
		if f.Class&class != 0 {
			l = append(l, f)
		}
	}
	return l
}

// Hurt applies up to n faults of the classes and returns the CAs at fault.
func (tr *Tree) Hurt(t *pbt.T, class, n int) (at []*CANode, kinds []string) {
	fs := Of(Faults(), class)
	for i := 0; i < n; i++ {
		f := fs[t.Intn(len(fs))]
		if c, s := f.Apply(t, tr); s != "" {
			tr.Faults = append(tr.Faults, s)
			at = append(at, c)
			kinds = append(kinds, f.Kind)
		}
	}
	return
}

// ClaimKey makes c issue a certificate for the key of y.
func (tr *Tree) ClaimKey(t *pbt.T, c, y *CANode) *CANode {
	k := &CANode{ID: len(tr.CAs), Parent: c, TA: c.TA, MftV: Yes, Hostile: true}
	k.Wound, k.MftEE.Wound = Yes, Yes
	k.Key, k.MftEE.Key = y.Key, y.MftEE.Key
	k.Subject = y.Subject
	k.Win, k.MftWin, k.MftNum = y.Win, y.MftWin, y.MftNum
	k.Serial = c.freshSerial(t)
	k.MftEE.Serial = big.NewInt(1)
	k.MftEE.Win = y.MftEE.Win
	k.Res = Resources{V4: &IPSet{F: 1, Inherit: true}, AS: &ASSet{Inherit: true}}
	k.File.Name = fmt.Sprintf("k%d.cer", k.ID)
	k.MftName, k.CRLName = "k.mft", "k.crl"
	k.CRLFile.Name = k.CRLName
	k.Dir = fmt.Sprintf("rsync://claim.example/m/k%d/", k.ID)
	k.Repo = k.Dir
	c.Kids = append(c.Kids, k)
	tr.CAs = append(tr.CAs, k)
	if t.Bool() {
		k.RawSIA = []Access{{OidCaRepository, y.Repo}, {OidRpkiManifest, y.Dir + y.MftName}}
	}
	k.Order = t.Perm(k.listLen())
	c.Order = t.Perm(c.listLen())
	tr.Faults = append(tr.Faults, fmt.Sprintf("ca%d issues ca%d with the key of ca%d", c.ID, k.ID, y.ID))
	return k
}
