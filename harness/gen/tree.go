//go:build go1.22

package gen

import (
	"bytes"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// Tri is a verdict of the reference model.
type Tri int

const (
	No    Tri = iota // must not contribute
	Maybe            // the property leaves it open
	Yes              // must contribute
)

func (a Tri) String() string { return [...]string{"no", "maybe", "yes"}[a] }

func and(ts ...Tri) Tri {
	r := Yes
	for _, t := range ts {
		if t < r {
			r = t
		}
	}
	return r
}

// Window is a period of validity.
type Window struct{ From, To time.Time }

func (w Window) At(t time.Time) Tri {
	if t.Before(w.From) || t.After(w.To) {
		return No
	}
	return Yes
}

// Eff is the set of resources a certificate effectively holds.
type Eff struct {
	IP [3][]Block // by AFI
	AS []ASBlock
}

// EffOf resolves inheritance.
func EffOf(r Resources, issuer *Eff) *Eff {
	e := &Eff{}
	for _, f := range []AFI{1, 2} {
		s := r.Fam(f)
		if s == nil {
			continue
		}
		if !s.Inherit {
			e.IP[f] = s.Blocks
		} else if issuer != nil {
			e.IP[f] = issuer.IP[f]
		}
	}
	if r.AS != nil {
		if !r.AS.Inherit {
			e.AS = r.AS.Blocks
		} else if issuer != nil {
			e.AS = issuer.AS
		}
	}
	return e
}

// Holds tells whether a block lies in one block of the set.
func (e *Eff) Holds(b Block) bool {
	for _, x := range e.IP[b.F] {
		if x.Contains(b) {
			return true
		}
	}
	return false
}

func (e *Eff) HoldsAS(b ASBlock) bool {
	for _, x := range e.AS {
		if x.Contains(b) {
			return true
		}
	}
	return false
}

// Within tells whether the listed resources are contained in the issuer's.
func Within(r Resources, issuer *Eff) bool {
	for _, f := range []AFI{1, 2} {
		if s := r.Fam(f); s != nil && !s.Inherit {
			for _, b := range s.Blocks {
				if !issuer.Holds(b) {
					return false
				}
			}
		}
	}
	if r.AS != nil && !r.AS.Inherit {
		for _, b := range r.AS.Blocks {
			if !issuer.HoldsAS(b) {
				return false
			}
		}
	}
	return true
}

// EE holds the certificate part common to CAs, ROAs and manifests.
type EE struct {
	Key    *rsa.PrivateKey
	Serial *big.Int
	Win    Window
	Res    Resources
	CRLDP  []string

	// Faults.
	BadSig      bool
	WrongSigner *rsa.PrivateKey
	AKI         []byte // other than the issuer's
	SKI         []byte // other than the key's
	SigAlg      []byte
	Wound       Tri // extra verdict of hostile constructions (Yes: none)
}

// File is a published file: its octets, and how it is listed.
type File struct {
	Name        string
	Missing     bool
	Hash        []byte              // other than the true one
	HashCut     int                 // only so much of the true one
	Edit        func([]byte) []byte // of the octets, before hashing
	BER         bool                // written with indefinite lengths
	Dup         bool                // listed twice
	BadDup      []byte              // listed a second time, with this hash
	BadDupFirst bool
	Unlist      bool                  // not on the manifest
	After       func([]byte) []byte   // of the octets, after hashing
	Verdict     func(strict bool) Tri // on the edited file itself
}

// ROAObj is a ROA.
type ROAObj struct {
	EE
	File
	CA      *CANode
	AS      uint32
	Entries []ROAEntry
	Chunks  int
	CMSEdit func(*CMS)
	CMSBad  Tri  // verdict of CMSEdit
	StrictV Tri  // verdict when decoding strictly
	Soft    bool // only what it says is wrong, not how
	Opaque  []byte
}

// CANode is a certification authority.
type CANode struct {
	EE
	File
	ID       int
	Parent   *CANode
	TA       *TANode
	Kids     []*CANode
	ROAs     []*ROAObj
	Extra    []*ExtraFile
	Repo     string // as written in the certificate
	Dir      string // with a trailing slash
	MftName  string
	CRLName  string
	Notify   string
	Flat     bool // shares its parent's directory
	CRLFile  File
	MftFile  File
	MftEE    EE
	MftWin   Window
	MftNum   *big.Int
	Order    []int // permutation applied to the listing
	Revoked  []*big.Int
	CRLFault int // see CRL*
	CRLKey   *rsa.PrivateKey
	CRLAKI   []byte
	MftV     Tri // verdict of manifest edits
	MftEdit  func(*CMS)
	MftLists []FileHash // additional listings
	Hostile  bool       // its own subtree is left open
	Subject  string
	RawSIA   []Access
	listed   []FileHash
}

// ExtraFile is an additional file of a publication point.
type ExtraFile struct {
	File
	Data   []byte
	DataFn func(d time.Duration) []byte
}

// TANode is a trust anchor.
type TANode struct {
	CA      *CANode
	TALKey  *rsa.PublicKey
	URI     string
	Missing bool
	V       Tri
	TALText func(uri string, key []byte) string
	RawCert []byte
}

// Tree is a set of trust anchors with all they publish.
type Tree struct {
	Time   time.Time
	TAs    []*TANode
	CAs    []*CANode
	nkey   int
	key0   int
	wide   bool // windows do not depend on the clock
	Faults []string
	// built
	Files map[string][]byte
	TALs  [][]byte
	uniq  int
}

// NextKey hands out unused keys; nil when there are none left.
func (tr *Tree) NextKey() *rsa.PrivateKey {
	ks := Keys()
	if tr.nkey >= len(ks) {
		return nil
	}
	k := ks[(tr.key0+tr.nkey)%len(ks)]
	tr.nkey++
	return k
}

// KeysLeft counts the unused keys.
func (tr *Tree) KeysLeft() int { return len(Keys()) - tr.nkey }

// TreeOpts bounds a tree.
type TreeOpts struct {
	TAs, CAs, ROAs int // maxima: trust anchors, CAs in all, ROAs per CA
	Depth          int
	Wide           bool // windows far around the validation time (for programs that use the clock)
	NoFlat         bool
	Hosts          []string // rsync hosts with port, as in the URI
	Module         bool
	Notify         func(host string) string
	MinROAs        int
	SimpleName     bool
}

func (tr *Tree) id() int { tr.uniq++; return tr.uniq }

// Dates at the edges of what representations of time can hold.
var (
	farPast   = []time.Time{time.Unix(0, 0).UTC(), time.Unix(1, 0).UTC(), time.Date(1999, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(1971, 3, 4, 5, 6, 7, 0, time.UTC)}
	farFuture = []time.Time{time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2038, 1, 19, 3, 14, 8, 0, time.UTC),
		time.Date(2106, 2, 7, 6, 28, 16, 0, time.UTC), time.Date(2262, 4, 11, 23, 47, 17, 0, time.UTC), time.Date(2400, 2, 29, 0, 0, 0, 0, time.UTC),
		time.Date(9998, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)}
)

func drawWindow(t *pbt.T, tr *Tree, wide bool) Window {
	if wide {
		w := Window{time.Date(2015, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, t.Intn(300)), time.Date(2048, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, t.Intn(300))}
		if t.Chance(1, 12) {
			w.From = farPast[t.Intn(len(farPast))]
		}
		if t.Chance(1, 12) {
			w.To = farFuture[t.Intn(len(farFuture))]
		}
		return w
	}
	w := Window{tr.Time.Add(-time.Duration(t.Intn(1<<26)) * time.Second), tr.Time.Add(time.Duration(t.Intn(1<<26)) * time.Second)}
	if t.Chance(1, 24) { // also what is built with shifted times has years of four digits
		if to := farFuture[t.Intn(len(farFuture)-2)]; to.After(tr.Time) {
			w.To = to
		}
	}
	switch t.Intn(8) {
	case 0:
		w.From = tr.Time
	case 1:
		w.To = tr.Time
	}
	return w
}

// Serial draws a positive serial number.
func Serial(t *pbt.T) *big.Int { return drawSerial(t) }

func drawSerial(t *pbt.T) *big.Int {
	switch t.Intn(4) {
	case 0:
		return big.NewInt(int64(t.Range(1, 4)))
	case 1:
		return big.NewInt(int64(t.Range(1, 300)))
	case 2:
		return new(big.Int).SetUint64(t.Uint64()>>1 + 1)
	}
	b := t.Bytes(20)
	b[0] &= 0x7f
	return new(big.Int).Add(new(big.Int).SetBytes(b), big.NewInt(1))
}

// freshSerial draws a serial number unused by the issuer.
func (c *CANode) freshSerial(t *pbt.T) *big.Int {
	used := map[string]bool{}
	used[c.MftEE.serialStr()] = true
	for _, k := range c.Kids {
		used[k.EE.serialStr()] = true
	}
	for _, r := range c.ROAs {
		used[r.EE.serialStr()] = true
	}
	for _, r := range c.Revoked {
		used[r.String()] = true
	}
	for i := 0; i < 20; i++ {
		s := drawSerial(t)
		if len(c.Kids)+len(c.ROAs)+len(c.Revoked) > 0 && t.Chance(1, 5) {
			// like another one in its low bits
			k := t.Intn(len(c.Kids) + len(c.ROAs) + len(c.Revoked))
			switch {
			case k < len(c.Kids):
				s = c.Kids[k].Serial
			case k < len(c.Kids)+len(c.ROAs):
				s = c.ROAs[k-len(c.Kids)].Serial
			default:
				s = c.Revoked[k-len(c.Kids)-len(c.ROAs)]
			}
			if s == nil || s.BitLen() > 120 {
				continue
			}
			s = new(big.Int).Add(s, new(big.Int).Lsh(big.NewInt(int64(t.Range(1, 7))), pbt.Pick(t, uint(31), 32, 63, 64, 128)))
		}
		if !used[s.String()] {
			return s
		}
	}
	for i := int64(1000); ; i++ {
		if s := big.NewInt(i); !used[s.String()] {
			return s
		}
	}
}

func (e *EE) serialStr() string {
	if e.Serial == nil {
		return ""
	}
	return e.Serial.String()
}

func drawIPSub(t *pbt.T, f AFI, issuer []Block, inheritOK bool) *IPSet {
	if len(issuer) == 0 {
		if inheritOK && t.Chance(1, 8) {
			return &IPSet{F: f, Inherit: true}
		}
		return nil
	}
	switch t.Intn(6) {
	case 0:
		return nil
	case 1, 2:
		if inheritOK {
			return &IPSet{F: f, Inherit: true}
		}
	}
	s := &IPSet{F: f}
	for i := t.Range(1, 3); i > 0; i-- {
		s.Blocks = append(s.Blocks, SubBlock(t, issuer[t.Intn(len(issuer))]))
	}
	return s
}

func drawASSub(t *pbt.T, issuer []ASBlock) *ASSet {
	if len(issuer) == 0 {
		return nil
	}
	switch t.Intn(4) {
	case 0:
		return nil
	case 1:
		return &ASSet{Inherit: true}
	}
	s := &ASSet{}
	for i := t.Range(1, 3); i > 0; i-- {
		s.Blocks = append(s.Blocks, SubAS(t, issuer[t.Intn(len(issuer))]))
	}
	return s
}

// Eff is what the CA effectively holds (ignoring validity).
func (c *CANode) Eff() *Eff {
	if c.Parent == nil {
		return EffOf(c.Res, nil)
	}
	return EffOf(c.Res, c.Parent.Eff())
}

func drawFileName(t *pbt.T, tr *Tree, o TreeOpts) string {
	n := fmt.Sprintf("%d", tr.id())
	if o.SimpleName {
		return "f" + n
	}
	switch t.Intn(8) {
	case 0:
		return n + "-" + strings.Repeat("x", t.Range(1, 60))
	case 1:
		return "a.b_" + n
	case 2:
		return "zZ-" + n
	}
	return "f" + n
}

func (tr *Tree) drawCA(t *pbt.T, o TreeOpts, parent *CANode, ta *TANode) *CANode {
	if tr.KeysLeft() < 2 {
		return nil
	}
	c := &CANode{ID: len(tr.CAs), Parent: parent, TA: ta, MftV: Yes}
	c.Wound = Yes
	c.MftEE.Wound = Yes
	c.Key = tr.NextKey()
	c.Subject = fmt.Sprintf("ca%d", c.ID)
	if t.Chance(1, 12) {
		c.Subject = pbt.Pick(t, "ca \"%d\" & <b>", "Größe %d", "認証局%d", "CA-%d, Inc. (x=1/y)", " ca%d ")
		c.Subject = fmt.Sprintf(c.Subject, c.ID)
	}
	c.Win = drawWindow(t, tr, o.Wide)
	c.MftWin = drawWindow(t, tr, o.Wide)
	c.MftNum = drawSerial(t)
	if t.Chance(1, 12) {
		c.MftNum = new(big.Int)
	}
	if parent == nil {
		c.Serial = drawSerial(t)
		for _, f := range []AFI{1, 2} {
			s := &IPSet{F: f}
			if t.Chance(1, 3) {
				s.Blocks = []Block{PrefixBlock(Prefix{F: f})}
			} else {
				for i := t.Range(1, 3); i > 0; i-- {
					s.Blocks = append(s.Blocks, DrawBlock(t, f))
				}
			}
			if f == 1 {
				c.Res.V4 = s
			} else {
				c.Res.V6 = s
			}
		}
		if t.Chance(1, 6) {
			c.Res.V4 = nil
		} else if t.Chance(1, 6) {
			c.Res.V6 = nil
		}
		c.Res.AS = &ASSet{Blocks: []ASBlock{{0, 1<<32 - 1, true}}}
		if t.Chance(1, 2) {
			c.Res.AS.Blocks = []ASBlock{DrawASBlock(t), DrawASBlock(t)}
		}
	} else {
		c.Serial = parent.freshSerial(t)
		pe := parent.Eff()
		c.Res.V4 = drawIPSub(t, 1, pe.IP[1], true)
		c.Res.V6 = drawIPSub(t, 2, pe.IP[2], true)
		c.Res.AS = drawASSub(t, pe.AS)
		if c.Res.V4 == nil && c.Res.V6 == nil && c.Res.AS == nil {
			c.Res.V4 = &IPSet{F: 1, Inherit: true}
			c.Res.V6 = &IPSet{F: 2, Inherit: true}
		}
		parent.Kids = append(parent.Kids, c)
	}
	c.File.Name = drawFileName(t, tr, o) + ".cer"
	c.MftName = drawFileName(t, tr, o) + ".mft"
	c.CRLName = drawFileName(t, tr, o) + ".crl"
	c.CRLFile.Name = c.CRLName
	hosts := o.Hosts
	if hosts == nil {
		hosts = []string{"h0.example", "h1.example:8873", "h2.example"}
	}
	switch {
	case parent != nil && !o.NoFlat && t.Chance(1, 6):
		c.Flat = true
		c.Dir = parent.Dir
	case parent != nil && t.Chance(1, 4):
		c.Dir = parent.Dir + fmt.Sprintf("d%d/", c.ID)
	case parent != nil && len(tr.CAs) > 1 && t.Chance(1, 6):
		c.Dir = tr.CAs[t.Intn(len(tr.CAs))].Dir + fmt.Sprintf("n%d/", c.ID)
	default:
		h := hosts[t.Intn(len(hosts))]
		c.Dir = fmt.Sprintf("rsync://%s/m%d/d%d/", h, t.Intn(2), c.ID)
	}
	c.Repo = c.Dir
	if t.Chance(1, 4) {
		c.Repo = strings.TrimSuffix(c.Dir, "/")
	}
	if o.Notify != nil {
		host := strings.SplitN(strings.TrimPrefix(c.Dir, "rsync://"), "/", 2)[0]
		c.Notify = o.Notify(host)
	}
	c.MftEE.Key = tr.NextKey()
	c.MftEE.Serial = c.freshSerial(t)
	c.MftEE.Win = drawWindow(t, tr, o.Wide)
	c.MftEE.Res = Resources{V4: &IPSet{F: 1, Inherit: true}, V6: &IPSet{F: 2, Inherit: true}, AS: &ASSet{Inherit: true}}
	if t.Chance(1, 4) {
		c.MftEE.CRLDP = []string{c.Dir + c.CRLName}
	}
	if parent != nil && t.Chance(1, 2) {
		c.CRLDP = []string{parent.Dir + parent.CRLName}
	}
	tr.CAs = append(tr.CAs, c)
	return c
}

// DrawROA adds a valid ROA to a CA; nil when the CA cannot have one.
func (tr *Tree) DrawROA(t *pbt.T, o TreeOpts, c *CANode) *ROAObj {
	e := c.Eff()
	var blocks []Block
	blocks = append(append(blocks, e.IP[1]...), e.IP[2]...)
	if len(blocks) == 0 || tr.KeysLeft() < 1 {
		return nil
	}
	r := &ROAObj{CA: c, CMSBad: Yes, StrictV: Yes}
	r.Wound = Yes
	r.Key = tr.NextKey()
	r.Serial = c.freshSerial(t)
	r.Win = drawWindow(t, tr, o.Wide)
	r.AS = uint32(t.Intn(1 << 32))
	if t.Bool() {
		r.AS = pbt.Pick(t, uint32(0), 1, 64496, 65535, 65536, 1<<31, 1<<32-1)
	}
	for i := t.Range(1, 4); i > 0; i-- {
		b := blocks[t.Intn(len(blocks))]
		p := SubPrefix(t, b)
		en := ROAEntry{P: p, MaxLen: -1}
		switch t.Intn(4) {
		case 0, 1:
			en.MaxLen = p.Plen + t.Intn(p.F.Bits()-p.Plen+1)
		case 2:
			en.MaxLen = p.Plen
		}
		r.Entries = append(r.Entries, en)
	}
	// the end-entity certificate's resources
	for _, f := range []AFI{1, 2} {
		s := &IPSet{F: f}
		for _, en := range r.Entries {
			if en.P.F != f {
				continue
			}
			b := PrefixBlock(en.P)
			switch t.Intn(5) {
			case 0: // the whole block of the CA
				for _, x := range e.IP[f] {
					if x.Contains(b) {
						b = x
						break
					}
				}
			case 1: // a range
				b.Plen = -1
			case 2: // a range somewhat larger
				for _, x := range e.IP[f] {
					if x.Contains(b) {
						b.Min = b.Min.Sub(DrawU128(t, b.Min.Sub(x.Min)))
						b.Max = b.Max.Add(DrawU128(t, x.Max.Sub(b.Max)))
						b.Plen = -1
						break
					}
				}
			}
			s.Blocks = append(s.Blocks, b)
		}
		if len(s.Blocks) == 0 {
			if len(e.IP[f]) > 0 && t.Chance(1, 5) {
				s.Inherit = true // the other family
			} else {
				continue
			}
		} else if t.Chance(1, 4) {
			s.Blocks = append(s.Blocks, SubBlock(t, e.IP[f][t.Intn(len(e.IP[f]))]))
		}
		if f == 1 {
			r.Res.V4 = s
		} else {
			r.Res.V6 = s
		}
	}
	if t.Chance(1, 6) {
		r.Res.AS = drawASSub(t, e.AS)
	}
	r.File.Name = drawFileName(t, tr, o) + ".roa"
	if t.Chance(1, 5) {
		r.Chunks = t.Range(1, 60)
	}
	r.File.BER = t.Chance(1, 6)
	if t.Chance(1, 2) {
		r.CRLDP = []string{c.Dir + c.CRLName}
	}
	c.ROAs = append(c.ROAs, r)
	return r
}

// AddTA adds a trust anchor to a tree.
func AddTA(t *pbt.T, tr *Tree, o TreeOpts) *TANode {
	i := len(tr.TAs)
	ta := &TANode{V: Yes}
	c := tr.drawCA(t, o, nil, ta)
	if c == nil {
		return nil
	}
	ta.CA = c
	ta.TALKey = &c.Key.PublicKey
	hosts := o.Hosts
	if hosts == nil {
		hosts = []string{"ta.example", "h0.example"}
	}
	ta.URI = fmt.Sprintf("rsync://%s/ta%d/root%d.cer", hosts[t.Intn(len(hosts))], i, i)
	tr.TAs = append(tr.TAs, ta)
	return ta
}

// DrawTree draws a valid tree.
func DrawTree(t *pbt.T, o TreeOpts) *Tree {
	tr := &Tree{key0: t.Intn(len(Keys())), wide: o.Wide}
	if o.Wide {
		tr.Time = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
	} else {
		tr.Time = time.Unix(int64(8e8)+int64(t.Intn(1500000000)), 0).UTC()
	}
	nta := t.Range(1, o.TAs)
	for i := 0; i < nta; i++ {
		if AddTA(t, tr, o) == nil {
			break
		}
	}
	n := t.Intn(o.CAs + 1)
	for i := 0; i < n; i++ {
		var cand []*CANode
		for _, c := range tr.CAs {
			if c.Depth() < o.Depth {
				cand = append(cand, c)
			}
		}
		if len(cand) == 0 {
			break
		}
		// deeper parents more often
		p := cand[t.Intn(len(cand))]
		if t.Bool() {
			p = cand[len(cand)-1]
		}
		tr.drawCA(t, o, p, p.TA)
	}
	for _, c := range tr.CAs {
		k := t.Intn(o.ROAs + 1)
		if k < o.MinROAs {
			k = o.MinROAs
		}
		for i := 0; i < k; i++ {
			tr.DrawROA(t, o, c)
		}
		if t.Chance(1, 8) {
			c.Extra = append(c.Extra, &ExtraFile{File: File{Name: drawFileName(t, tr, o) + pbt.Pick(t, ".gbr", ".asa", "", ".txt", ".CER")}, Data: t.Bytes(t.Intn(40))})
		}
		for i := t.Intn(3); i > 0; i-- {
			c.Revoked = append(c.Revoked, c.freshSerial(t)) // of nothing in particular
		}
		if t.Chance(1, 4) {
			// a serial number another CA uses
			o := tr.CAs[t.Intn(len(tr.CAs))]
			if o.Parent != nil && o.Parent != c && !c.uses(o.Serial) {
				c.Revoked = append(c.Revoked, o.Serial)
			}
		}
	}
	for _, c := range tr.CAs {
		c.Order = t.Perm(c.listLen())
		if t.Chance(1, 6) {
			c.CRLFile.Dup = true
		}
		if t.Chance(1, 10) {
			c.MftFile.BER = true
		}
		for _, r := range c.ROAs {
			r.File.Dup = t.Chance(1, 10)
		}
	}
	return tr
}

func (c *CANode) uses(s *big.Int) bool {
	if c.MftEE.Serial.Cmp(s) == 0 {
		return true
	}
	for _, k := range c.Kids {
		if k.Serial.Cmp(s) == 0 {
			return true
		}
	}
	for _, r := range c.ROAs {
		if r.Serial.Cmp(s) == 0 {
			return true
		}
	}
	return false
}

func (c *CANode) listLen() int { return len(c.Kids) + len(c.ROAs) + len(c.Extra) + 1 }

// Depth is 0 for a trust anchor.
func (c *CANode) Depth() int {
	if c.Parent == nil {
		return 0
	}
	return c.Parent.Depth() + 1
}

// Below tells whether c is x or below it.
func (c *CANode) Below(x *CANode) bool {
	for ; c != nil; c = c.Parent {
		if c == x {
			return true
		}
	}
	return false
}

func (c *CANode) String() string {
	up := "TA"
	if c.Parent != nil {
		up = fmt.Sprintf("in ca%d", c.Parent.ID)
	}
	return fmt.Sprintf("ca%d(%s, %s, %d roas)", c.ID, up, c.Res, len(c.ROAs))
}

func (tr *Tree) String() string {
	var l []string
	for _, c := range tr.CAs {
		l = append(l, c.String())
	}
	s := strings.Join(l, "; ")
	if len(tr.Faults) > 0 {
		s += " | faults: " + strings.Join(tr.Faults, ", ")
	}
	return s
}

// ---- building ------------------------------------------------------------------

func shifted(w Window, d time.Duration) Window { return Window{w.From.Add(d), w.To.Add(d)} }

func (e *EE) cert(issuer *CANode, d time.Duration) Cert {
	w := shifted(e.Win, d)
	c := Cert{
		Serial: e.Serial, NotBefore: w.From, NotAfter: w.To, Key: &e.Key.PublicKey,
		SKI: KeyID(&e.Key.PublicKey), Res: e.Res, CRLDP: e.CRLDP, SigAlg: e.SigAlg, TamperSig: e.BadSig,
	}
	if e.SKI != nil {
		c.SKI = e.SKI
	}
	if issuer != nil {
		c.Issuer = issuer.Subject
		c.AKI = issuer.ski()
		c.Signer = issuer.Key
		c.AIA = "rsync://h/m/" + issuer.File.Name
	}
	if e.AKI != nil {
		c.AKI = e.AKI
	}
	if e.WrongSigner != nil {
		c.Signer = e.WrongSigner
	}
	return c
}

func (c *CANode) ski() []byte {
	if c.EE.SKI != nil {
		return c.EE.SKI
	}
	return KeyID(&c.Key.PublicKey)
}

// CertDER is the CA's certificate.
func (c *CANode) CertDER(d time.Duration) []byte {
	ct := c.CertOf(d)
	return ct.DER()
}

// CertOf describes the CA's certificate.
func (c *CANode) CertOf(d time.Duration) Cert {
	issuer := c.Parent
	if issuer == nil {
		issuer = c
	}
	ct := c.EE.cert(issuer, d)
	ct.Subject = c.Subject
	ct.CA = true
	if c.Parent == nil {
		ct.AIA = ""
		ct.AKI = nil
		if c.EE.AKI != nil {
			ct.AKI = c.EE.AKI
		}
	}
	ct.SIA = []Access{{OidCaRepository, c.Repo}, {OidRpkiManifest, c.Dir + c.MftName}}
	if c.Notify != "" {
		ct.SIA = append(ct.SIA, Access{OidRpkiNotify, c.Notify})
	}
	if c.RawSIA != nil {
		ct.SIA = c.RawSIA
	}
	return ct
}

// EECert is the end-entity certificate of the ROA.
func (r *ROAObj) EECert() []byte {
	ct := r.EE.cert(r.CA, 0)
	ct.Subject = eeName(ct.SKI)
	ct.SIA = []Access{{OidSignedObject, r.CA.Dir + r.File.Name}}
	return ct.DER()
}

// MftEECert is the end-entity certificate of the CA's manifest.
func (c *CANode) MftEECert() []byte {
	ct := c.MftEE.cert(c, 0)
	ct.Subject = mftName(c.ID)
	ct.SIA = []Access{{OidSignedObject, c.Dir + c.MftName}}
	return ct.DER()
}

// CertOf describes the certificate, with the subject the objects give it.
func (r *ROAObj) CertOf() Cert {
	ct := r.EE.cert(r.CA, 0)
	ct.Subject = eeName(ct.SKI)
	return ct
}

// MftCertOf describes the end-entity certificate of the CA's manifest.
func (c *CANode) MftCertOf() Cert {
	ct := c.MftEE.cert(c, 0)
	ct.Subject = mftName(c.ID)
	return ct
}

// ListedNames is what the manifest lists, as of the last Build.
func (c *CANode) ListedNames() []string {
	l := []string{}
	for _, f := range c.listed {
		l = append(l, f.Name)
	}
	return l
}

// OK is the verdict on a certificate given its issuer's CRL and resources.
func (e *EE) OK(issuer *CANode, s Settings) Tri { return e.ok(issuer, s) }

// Point is the verdict on the CA's publication point as a whole.
func (c *CANode) Point(s Settings) Tri { return c.point(s) }

// Signed is the signing time of the ROA, as long as CMSEdit changes nothing.
func (r *ROAObj) Signed() time.Time {
	return r.Win.From.Add(time.Duration(r.AS%100000) * time.Second)
}

// DER of the ROA.
func (r *ROAObj) DER(d time.Duration) []byte {
	if r.Opaque != nil {
		return r.Opaque
	}
	ct := r.EE.cert(r.CA, d)
	ct.Subject = eeName(ct.SKI)
	ct.SIA = []Access{{OidSignedObject, r.CA.Dir + r.File.Name}}
	o := CMS{Type: OidROA, Content: ROAContent(r.AS, r.Entries), SKI: ct.SKI, Signer: r.Key, EE: ct.DER(), SigningTime: r.Signed().Add(d), Chunks: r.Chunks}
	if r.CMSEdit != nil {
		r.CMSEdit(&o)
	}
	return o.DER()
}

func (f *File) octets(der []byte) (data, hash []byte) {
	data = der
	if f.BER {
		data = berOrSame(data)
	}
	if f.Edit != nil {
		data = f.Edit(append([]byte(nil), data...))
	}
	h := sha256.Sum256(data)
	hash = h[:]
	if f.Hash != nil {
		hash = f.Hash
	}
	if f.HashCut > 0 {
		hash = append([]byte(nil), hash[:f.HashCut]...)
	}
	if f.After != nil {
		data = f.After(append([]byte(nil), data...))
	}
	return data, hash
}

// CRL faults.
const (
	CRLFine = iota
	CRLBadSig
	CRLOtherKey // signed with another key
	CRLOtherAKI // names another issuer
	CRLGarbage
)

func (c *CANode) crlDER(d time.Duration) []byte {
	w := shifted(c.MftWin, d)
	x := CRL{Issuer: c.Subject, This: w.From, Next: w.To, Revoked: c.Revoked, AKI: c.ski(), Signer: c.Key}
	switch c.CRLFault {
	case CRLBadSig:
		x.TamperSig = true
	case CRLOtherKey:
		x.Signer = c.CRLKey
	case CRLOtherAKI:
		x.AKI = c.CRLAKI
	case CRLGarbage:
		return []byte("not a CRL at all")
	}
	return x.DER()
}

// Build fills Files and TALs, with every date shifted by d.
func (tr *Tree) Build(d time.Duration) {
	tr.Files = map[string][]byte{}
	tr.TALs = nil
	for _, ta := range tr.TAs {
		spki := base64.StdEncoding.EncodeToString(SPKI(ta.TALKey))
		text := ta.URI + "\n\n" + spki + "\n"
		if ta.TALText != nil {
			text = ta.TALText(ta.URI, SPKI(ta.TALKey))
		}
		tr.TALs = append(tr.TALs, []byte(text))
		der := ta.CA.CertDER(d)
		if ta.RawCert != nil {
			der = ta.RawCert
		}
		data, _ := ta.CA.File.octets(der)
		if !ta.Missing {
			tr.Files[ta.URI] = data
		}
	}
	for _, c := range tr.CAs {
		tr.listing(c, d)
	}
	for _, c := range tr.CAs { // copies of others' files, which now exist
		for _, x := range c.Extra {
			if x.DataFn != nil {
				tr.listing(c, d)
				break
			}
		}
	}
	for _, c := range tr.CAs {
		data, _ := c.MftFile.octets(c.mftDER(tr, d))
		if !c.MftFile.Missing {
			tr.Files[c.Dir+c.MftName] = data
		}
	}
}

// listing writes the files of a CA, except its manifest.
func (tr *Tree) listing(c *CANode, d time.Duration) {
	var list []FileHash
	put := func(f *File, der []byte) {
		data, hash := f.octets(der)
		if !f.Missing {
			tr.Files[c.Dir+f.Name] = data
		}
		if !f.Unlist {
			list = append(list, FileHash{f.Name, hash})
		} else {
			list = append(list, FileHash{})
		}
	}
	for _, k := range c.Kids {
		put(&k.File, k.CertDER(d))
	}
	for _, r := range c.ROAs {
		put(&r.File, r.DER(d))
	}
	for _, x := range c.Extra {
		data := x.Data
		if x.DataFn != nil {
			data = x.DataFn(d)
		}
		put(&x.File, data)
	}
	put(&c.CRLFile, c.crlDER(d))
	ordered := make([]FileHash, 0, len(list)+2)
	if len(c.Order) == len(list) {
		for _, i := range c.Order {
			ordered = append(ordered, list[i])
		}
	} else {
		ordered = append(ordered, list...)
	}
	var final []FileHash
	for _, x := range ordered {
		if x.Name != "" {
			final = append(final, x)
		}
	}
	for _, f := range c.listedFiles() {
		if f.Unlist {
			continue
		}
		if f.Dup {
			for _, x := range final {
				if x.Name == f.Name {
					final = append(final, x)
					break
				}
			}
		}
		if f.BadDup != nil {
			x := FileHash{f.Name, f.BadDup}
			if f.BadDupFirst {
				final = append([]FileHash{x}, final...)
			} else {
				final = append(final, x)
			}
		}
	}
	c.listed = append(final, c.MftLists...)
}

// mftDER is the CA's manifest (after listing).
func (c *CANode) mftDER(tr *Tree, d time.Duration) []byte {
	ct := c.MftEE.cert(c, d)
	ct.Subject = mftName(c.ID)
	ct.SIA = []Access{{OidSignedObject, c.Dir + c.MftName}}
	w := shifted(c.MftWin, d)
	o := CMS{Type: OidManifest, Content: ManifestContent(c.MftNum, w.From, w.To, c.listed), SKI: ct.SKI, Signer: c.MftEE.Key, EE: ct.DER(), SigningTime: w.From}
	if c.MftEdit != nil {
		c.MftEdit(&o)
	}
	return o.DER()
}

// Dirs lists the directories that hold files.
func (tr *Tree) Paths() []string {
	var l []string
	for p := range tr.Files {
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}

// ---- reference model --------------------------------------------------------------

// Settings of a validation.
type Settings struct {
	StrictManifests, StrictHash, StrictCMS bool
	Time                                   time.Time
}

// VRP is a payload.
type VRP struct {
	AS     uint32
	P      Prefix
	MaxLen int
}

func (v VRP) String() string { return fmt.Sprintf("AS%d %s-%d", v.AS, v.P, v.MaxLen) }

// Payload is a VRP with the model's verdict.
type Payload struct {
	VRP
	V   Tri
	ROA *ROAObj
	URI string
}

// ok is the verdict on a certificate given its issuer's CRL and resources.
func (e *EE) ok(issuer *CANode, s Settings) Tri {
	v := and(e.Win.At(s.Time), e.Wound)
	if e.BadSig || e.WrongSigner != nil || e.AKI != nil || e.SKI != nil {
		return No
	}
	if issuer == nil {
		return v
	}
	if !Within(e.Res, issuer.Eff()) {
		return No
	}
	if issuer.CRLFault == CRLFine {
		for _, r := range issuer.Revoked {
			if r.Cmp(e.Serial) == 0 {
				return and(v, issuer.crlStands(s))
			}
		}
	}
	return v
}

// crlStands is the verdict on what the CA's correct CRL revokes.
func (c *CANode) crlStands(s Settings) Tri {
	f := &c.CRLFile
	if f.Missing || f.Hash != nil || f.HashCut > 0 || f.BadDup != nil || f.Edit != nil || f.After != nil || f.Unlist {
		return Maybe
	}
	return No
}

func (f *File) listed(s Settings) (self, point Tri) {
	self, point = Yes, Yes
	if f.Verdict != nil {
		self = f.Verdict(s.StrictCMS)
	}
	if f.Unlist {
		return No, Yes
	}
	if f.Missing {
		self = No
		if s.StrictManifests {
			point = No
		}
	}
	if f.BadDup != nil { // one of the entries is right
		self = and(self, Maybe)
		if s.StrictHash && s.StrictManifests {
			point = No
		}
	}
	if f.Hash != nil || f.HashCut > 0 || f.After != nil {
		self = and(self, Maybe)
		if s.StrictHash {
			self = No
			if s.StrictManifests {
				point = No
			}
		}
	}
	return
}

// point is the verdict on the CA's publication point as a whole.
func (c *CANode) point(s Settings) Tri {
	v := c.MftV
	if c.Hostile {
		v = and(v, Maybe)
	}
	if c.MftFile.Missing {
		return No
	}
	if c.MftFile.Edit != nil || c.MftFile.After != nil {
		v = and(v, Maybe)
		if c.MftFile.Verdict != nil {
			v = and(v, c.MftFile.Verdict(s.StrictCMS))
		}
	}
	ee := c.MftEE
	eev := ee.ok(c, s)
	if eev == No {
		for _, r := range c.Revoked {
			if r.Cmp(ee.Serial) == 0 {
				// a revoked manifest certificate does not reach the objects
				// the CA issued itself, and depends on when the CRL is seen
				e2 := ee
				c2 := *c
				c2.Revoked = nil
				eev = and(Maybe, e2.ok(&c2, s))
				break
			}
		}
	}
	v = and(v, eev)
	if c.MftWin.At(s.Time) == No {
		if s.StrictHash {
			return No
		}
		v = and(v, Maybe)
	}
	files := []*File{&c.CRLFile}
	for _, k := range c.Kids {
		files = append(files, &k.File)
	}
	for _, r := range c.ROAs {
		files = append(files, &r.File)
	}
	for _, x := range c.Extra {
		files = append(files, &x.File)
	}
	for _, f := range files {
		_, p := f.listed(s)
		v = and(v, p)
	}
	return v
}

// Alive is the verdict on the CA's certificate.
func (c *CANode) Alive(s Settings) Tri {
	if c.Parent == nil {
		self := Yes
		if c.File.Verdict != nil {
			self = c.File.Verdict(s.StrictCMS)
		}
		v := and(c.TA.V, c.EE.ok(nil, s), self)
		if c.TA.Missing {
			v = No
		}
		if c.TA.TALKey.N.Cmp(c.Key.N) != 0 {
			v = No
		}
		return v
	}
	self, _ := c.File.listed(s)
	return and(c.Parent.Alive(s), c.Parent.point(s), self, c.EE.ok(c.Parent, s))
}

// Verdict on a ROA as a whole (not its single entries).
func (r *ROAObj) Verdict(s Settings) Tri {
	self, _ := r.File.listed(s)
	v := and(r.CA.Alive(s), r.CA.point(s), self, r.EE.ok(r.CA, s), r.CMSBad)
	if s.StrictCMS {
		v = and(v, r.StrictV)
	}
	for _, e := range r.Entries {
		if e.MaxLen >= 0 && (e.MaxLen < e.P.Plen || e.MaxLen > e.P.F.Bits()) {
			return No
		}
	}
	return v
}

// Model lists all payloads with their verdicts.
func (tr *Tree) Model(s Settings) []Payload {
	var out []Payload
	for _, c := range tr.CAs {
		for _, r := range c.ROAs {
			if r.Opaque != nil {
				continue
			}
			v := r.Verdict(s)
			// what the end-entity certificate itself lists
			stray := false
			ev := make([]Tri, len(r.Entries))
			for i, e := range r.Entries {
				set := r.Res.Fam(e.P.F)
				ev[i] = No
				if set != nil && set.Inherit {
					if c.Eff().Holds(PrefixBlock(e.P)) {
						ev[i] = Maybe
					}
				} else if set != nil {
					for _, b := range set.Blocks {
						if b.Contains(PrefixBlock(e.P)) {
							ev[i] = Yes
						}
					}
				}
				if ev[i] != Yes {
					stray = true
				}
			}
			for i, e := range r.Entries {
				x := and(v, ev[i])
				if stray {
					x = and(x, Maybe)
				}
				out = append(out, Payload{VRP: VRP{r.AS, e.P, e.EffMax()}, V: x, ROA: r, URI: c.Dir + r.File.Name})
			}
		}
	}
	return out
}

// ---- BER -----------------------------------------------------------------------

// BERize rewrites every constructed value with an indefinite length.
func BERize(der []byte) []byte {
	var out []byte
	for len(der) > 0 {
		if len(der) < 2 || der[0]&0x1f == 0x1f {
			return append(out, der...)
		}
		n, h := int(der[1]), 2
		if n >= 0x80 {
			k := n & 0x7f
			n = 0
			for i := 0; i < k; i++ {
				n = n<<8 | int(der[2+i])
			}
			h += k
		}
		body := der[h : h+n]
		if der[0]&0x20 != 0 {
			out = append(out, der[0], 0x80)
			out = append(out, BERize(body)...)
			out = append(out, 0, 0)
		} else {
			out = append(out, der[:h+n]...)
		}
		der = der[h+n:]
	}
	return out
}

// SameBytes reports whether two file sets are equal.
func SameBytes(a, b map[string][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || !bytes.Equal(v, w) {
			return false
		}
	}
	return true
}

// berOrSame leaves what is not well-formed DER as it is.
func berOrSame(der []byte) (out []byte) {
	defer func() {
		if recover() != nil {
			out = der
		}
	}()
	return BERize(der)
}

// eeName is the subject of the end-entity certificate of a ROA.
func eeName(ski []byte) string {
	switch ski[0] % 32 {
	case 0:
		return fmt.Sprintf(" ee%x ", ski[:4])
	case 1:
		return fmt.Sprintf("ê %x \"<&\\", ski[:4])
	}
	return fmt.Sprintf("ee%x", ski[:4])
}

// mftName is that of the one of a manifest.
func mftName(id int) string {
	switch id % 16 {
	case 4:
		return fmt.Sprintf(" mft%d ", id)
	case 5:
		return fmt.Sprintf("Manifést <%d>", id)
	}
	return fmt.Sprintf("mft%d", id)
}
