//go:build go1.22

package gen

import (
	"fmt"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"math/bits"
	"net/netip"
)

// U128 is an unsigned 128-bit integer; IPv4 addresses use the low 32 bits.
type U128 struct{ Hi, Lo uint64 }

func (a U128) Cmp(b U128) int {
	switch {
	case a.Hi < b.Hi || a.Hi == b.Hi && a.Lo < b.Lo:
		return -1
	case a == b:
		return 0
	}
	return 1
}
func (a U128) Add(b U128) U128 {
	lo, c := bits.Add64(a.Lo, b.Lo, 0)
	hi, _ := bits.Add64(a.Hi, b.Hi, c)
	return U128{hi, lo}
}
func (a U128) Sub(b U128) U128 {
	lo, c := bits.Sub64(a.Lo, b.Lo, 0)
	hi, _ := bits.Sub64(a.Hi, b.Hi, c)
	return U128{hi, lo}
}
func (a U128) And(b U128) U128 { return U128{a.Hi & b.Hi, a.Lo & b.Lo} }
func (a U128) Or(b U128) U128  { return U128{a.Hi | b.Hi, a.Lo | b.Lo} }
func (a U128) Not() U128       { return U128{^a.Hi, ^a.Lo} }

// AFI is the address family: 1 for IPv4, 2 for IPv6.
type AFI int

func (f AFI) Bits() int {
	if f == 1 {
		return 32
	}
	return 128
}

// HostMask has the low (bits-plen) bits set.
func HostMask(f AFI, plen int) U128 {
	n := f.Bits() - plen
	switch {
	case n >= 128:
		return U128{^uint64(0), ^uint64(0)}
	case n > 64:
		return U128{^uint64(0) >> uint(128-n), ^uint64(0)}
	case n == 64:
		return U128{0, ^uint64(0)}
	case n <= 0:
		return U128{}
	}
	return U128{0, ^uint64(0) >> uint(64-n)}
}

func AddrBytes(f AFI, a U128) []byte {
	b := make([]byte, 16)
	for i := 0; i < 8; i++ {
		b[i] = byte(a.Hi >> uint(56-8*i))
		b[8+i] = byte(a.Lo >> uint(56-8*i))
	}
	if f == 1 {
		return b[12:]
	}
	return b
}

func FromBytes(b []byte) U128 {
	var u U128
	for _, c := range b {
		u.Hi = u.Hi<<8 | u.Lo>>56
		u.Lo = u.Lo<<8 | uint64(c)
	}
	return u
}

func Addr(f AFI, a U128) netip.Addr {
	ad, _ := netip.AddrFromSlice(AddrBytes(f, a))
	return ad
}

// Prefix is an IP prefix.
type Prefix struct {
	F    AFI
	A    U128
	Plen int
}

func (p Prefix) Min() U128 { return p.A }
func (p Prefix) Max() U128 { return p.A.Or(HostMask(p.F, p.Plen)) }
func (p Prefix) String() string {
	return fmt.Sprintf("%s/%d", Addr(p.F, p.A), p.Plen)
}

// Block is a prefix or a range.
type Block struct {
	F        AFI
	Min, Max U128
	// Plen >= 0 when the block is written as a prefix.
	Plen int
}

func (b Block) String() string {
	if b.Plen >= 0 {
		return fmt.Sprintf("%s/%d", Addr(b.F, b.Min), b.Plen)
	}
	return fmt.Sprintf("%s-%s", Addr(b.F, b.Min), Addr(b.F, b.Max))
}

func PrefixBlock(p Prefix) Block { return Block{p.F, p.Min(), p.Max(), p.Plen} }

func (b Block) Contains(c Block) bool {
	return b.F == c.F && b.Min.Cmp(c.Min) <= 0 && c.Max.Cmp(b.Max) <= 0
}
func (b Block) Overlaps(c Block) bool {
	return b.F == c.F && b.Min.Cmp(c.Max) <= 0 && c.Min.Cmp(b.Max) <= 0
}

// DER of the IPAddressOrRange.
func (b Block) DER() []byte {
	if b.Plen >= 0 {
		return BitStr(AddrBytes(b.F, b.Min), b.Plen)
	}
	// RFC 3779: trailing zero bits of min and trailing one bits of max are dropped
	nb := b.F.Bits()
	lo, hi := nb, nb
	for lo > 0 && bit(b.F, b.Min, lo-1) == 0 {
		lo--
	}
	for hi > 0 && bit(b.F, b.Max, hi-1) == 1 {
		hi--
	}
	return Seq(BitStr(AddrBytes(b.F, b.Min), lo), BitStr(AddrBytes(b.F, b.Max), hi))
}

// LongDER writes a range with full-length ends.
func (b Block) LongDER() []byte {
	nb := b.F.Bits()
	return Seq(BitStr(AddrBytes(b.F, b.Min), nb), BitStr(AddrBytes(b.F, b.Max), nb))
}

// bit i counted from the most significant.
func bit(f AFI, a U128, i int) int {
	n := f.Bits() - 1 - i
	if n >= 64 {
		return int(a.Hi >> uint(n-64) & 1)
	}
	return int(a.Lo >> uint(n) & 1)
}

// IPSet is what a certificate says about one family.
type IPSet struct {
	F       AFI
	Inherit bool
	Blocks  []Block
}

func (s *IPSet) String() string {
	if s == nil {
		return "-"
	}
	if s.Inherit {
		return "inherit"
	}
	return fmt.Sprint(s.Blocks)
}

// ASBlock is an AS number or range.
type ASBlock struct {
	Min, Max uint32
	Range    bool
}

func (b ASBlock) String() string {
	if b.Range {
		return fmt.Sprintf("AS%d-AS%d", b.Min, b.Max)
	}
	return fmt.Sprintf("AS%d", b.Min)
}
func (b ASBlock) Contains(c ASBlock) bool { return b.Min <= c.Min && c.Max <= b.Max }

type ASSet struct {
	Inherit bool
	Blocks  []ASBlock
}

func (s *ASSet) String() string {
	if s == nil {
		return "-"
	}
	if s.Inherit {
		return "inherit"
	}
	return fmt.Sprint(s.Blocks)
}

// Resources of a certificate; nil members are absent.
type Resources struct {
	V4, V6 *IPSet
	AS     *ASSet
}

func (r Resources) String() string {
	return fmt.Sprintf("{v4:%v v6:%v as:%v}", r.V4, r.V6, r.AS)
}

func (r Resources) Fam(f AFI) *IPSet {
	if f == 1 {
		return r.V4
	}
	return r.V6
}

func ipSetDER(s *IPSet) []byte {
	afi := Octets([]byte{0, byte(s.F)})
	if s.Inherit {
		return Seq(afi, Null())
	}
	var bl [][]byte
	for _, b := range s.Blocks {
		bl = append(bl, b.DER())
	}
	return Seq(afi, Seq(bl...))
}

// IPExt is the value of the IP address blocks extension, or nil.
func (r Resources) IPExt() []byte {
	var f [][]byte
	if r.V4 != nil {
		f = append(f, ipSetDER(r.V4))
	}
	if r.V6 != nil {
		f = append(f, ipSetDER(r.V6))
	}
	if f == nil {
		return nil
	}
	return Seq(f...)
}

// ASExt is the value of the AS identifiers extension, or nil.
func (r Resources) ASExt() []byte {
	if r.AS == nil {
		return nil
	}
	if r.AS.Inherit {
		return Seq(Ctx(0, Null()))
	}
	var bl [][]byte
	for _, b := range r.AS.Blocks {
		if b.Range {
			bl = append(bl, Seq(Int(int64(b.Min)), Int(int64(b.Max))))
		} else {
			bl = append(bl, Int(int64(b.Min)))
		}
	}
	return Seq(Ctx(0, Seq(bl...)))
}

// ---- generators ----------------------------------------------------------

// DrawU128 draws a value in [0,max].
func DrawU128(t *pbt.T, max U128) U128 {
	if max.Hi == 0 {
		if max.Lo == ^uint64(0) {
			return U128{0, t.Uint64()}
		}
		if max.Lo < 1<<62 {
			return U128{0, uint64(t.Intn(int(max.Lo) + 1))}
		}
		return U128{0, t.Uint64() % (max.Lo + 1)}
	}
	hi := uint64(0)
	if max.Hi < 1<<62 {
		hi = uint64(t.Intn(int(max.Hi) + 1))
	} else {
		hi = t.Uint64()
		if max.Hi != ^uint64(0) {
			hi %= max.Hi + 1
		}
	}
	lo := t.Uint64()
	v := U128{hi, lo}
	if v.Cmp(max) > 0 {
		return max
	}
	return v
}

// Mapped tells whether an IPv6 address is IPv4-mapped (::ffff:0:0/96): net.IP
// cannot tell these from IPv4 addresses.
func Mapped(a U128) bool { return a.Hi == 0 && a.Lo>>32 == 0xffff }

// DrawPrefix draws any prefix of the family.
func DrawPrefix(t *pbt.T, f AFI) Prefix {
	plen := 0
	switch t.Intn(4) {
	case 0:
		if f == 1 {
			plen = t.Range(8, 24)
		} else {
			plen = t.Range(16, 64)
		}
	case 1:
		plen = 8 * t.Range(0, f.Bits()/8)
	default:
		plen = t.Range(0, f.Bits())
	}
	var a U128
	if f == 1 {
		a = DrawU128(t, U128{0, 0xffffffff})
	} else {
		a = DrawU128(t, U128{^uint64(0), ^uint64(0)})
		if t.Bool() {
			a.Lo = 0
		}
		switch t.Intn(8) {
		case 0:
			a.Hi = 0
		case 1:
		default:
			a.Hi |= 1 << 61
		}
	}
	p := Prefix{f, a.And(HostMask(f, plen).Not()), plen}
	if f == 2 && t.Chance(1, 25) {
		p.Plen = t.Range(90, 128)
		p.A = U128{0, 0xffff<<32 | t.Uint64()&0xffffffff}.And(HostMask(f, p.Plen).Not())
	}
	return p
}

// DrawBlock draws a prefix or a range.
func DrawBlock(t *pbt.T, f AFI) Block {
	p := DrawPrefix(t, f)
	if t.Chance(2, 3) {
		return PrefixBlock(p)
	}
	b := PrefixBlock(p)
	// cut the ends
	span := b.Max.Sub(b.Min)
	x := DrawU128(t, span)
	y := DrawU128(t, span)
	if x.Cmp(y) > 0 {
		x, y = y, x
	}
	switch t.Intn(4) {
	case 0:
		x = U128{}
	case 1:
		y = span
	}
	return Block{f, b.Min.Add(x), b.Min.Add(y), -1}
}

// SubBlock draws a block inside b.
func SubBlock(t *pbt.T, b Block) Block {
	switch t.Intn(4) {
	case 0:
		return b
	case 1, 2:
		p := SubPrefix(t, b)
		return PrefixBlock(p)
	}
	span := b.Max.Sub(b.Min)
	x := DrawU128(t, span)
	y := DrawU128(t, span)
	if x.Cmp(y) > 0 {
		x, y = y, x
	}
	switch t.Intn(4) {
	case 0:
		x = U128{}
	case 1:
		y = span
	}
	return Block{b.F, b.Min.Add(x), b.Min.Add(y), -1}
}

// SubPrefix draws a prefix inside b.
func SubPrefix(t *pbt.T, b Block) Prefix {
	a := b.Min
	if t.Bool() {
		a = b.Min.Add(DrawU128(t, b.Max.Sub(b.Min)))
	}
	lo := 0
	if b.Plen >= 0 {
		lo = b.Plen
	}
	plen := lo
	switch t.Intn(3) {
	case 0:
		plen = lo + t.Intn(9)
	case 1:
		plen = t.Range(lo, b.F.Bits())
	}
	if plen > b.F.Bits() {
		plen = b.F.Bits()
	}
	for ; plen < b.F.Bits(); plen++ {
		p := Prefix{b.F, a.And(HostMask(b.F, plen).Not()), plen}
		if b.Contains(PrefixBlock(p)) {
			return p
		}
	}
	return Prefix{b.F, a, b.F.Bits()}
}

func DrawASBlock(t *pbt.T) ASBlock {
	v := func() uint32 {
		switch t.Intn(4) {
		case 0:
			return uint32(t.Range(1, 200))
		case 1:
			return uint32(64496 + t.Intn(1000))
		case 2:
			return uint32(t.Intn(1 << 32))
		}
		return pbt.Pick(t, uint32(0), 65535, 65536, 1<<31-1, 1<<31, 1<<32-1)
	}
	a := v()
	if t.Bool() {
		return ASBlock{a, a, false}
	}
	b := v()
	if b < a {
		a, b = b, a
	}
	return ASBlock{a, b, true}
}

func SubAS(t *pbt.T, b ASBlock) ASBlock {
	n := uint64(b.Max) - uint64(b.Min) + 1
	x := b.Min + uint32(t.Intn(int(n)))
	switch t.Intn(3) {
	case 0:
		return b
	case 1:
		return ASBlock{x, x, false}
	}
	y := b.Min + uint32(t.Intn(int(n)))
	if y < x {
		x, y = y, x
	}
	return ASBlock{x, y, true}
}
