// Package sym: symbolic execution of gnark circuits written against
// frontend.API.  Values are sparse polynomials over atoms with coefficients in
// the BN254 scalar field (native level) or in the Goldilocks field (lifted
// level).
package sym

import (
	"encoding/binary"
	"math/big"
	"math/bits"
	"sort"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// GM is the Goldilocks modulus 2^64-2^32+1.
const GM uint64 = 0xFFFFFFFF00000001

var (
	BigM  = new(big.Int).SetUint64(GM)
	BigR  = fr.Modulus()
	halfR = new(big.Int).Rsh(fr.Modulus(), 1)
)

func addM(a, b uint64) uint64 {
	s, c := bits.Add64(a, b, 0)
	if c != 0 || s >= GM {
		s -= GM
	}
	return s
}
func negM(a uint64) uint64 {
	if a == 0 {
		return 0
	}
	return GM - a
}
func subM(a, b uint64) uint64 { return addM(a, negM(b)) }
func mulM(a, b uint64) uint64 {
	hi, lo := bits.Mul64(a, b)
	_, r := bits.Div64(hi%GM, lo, GM)
	return r
}
func powM(a, e uint64) uint64 {
	r := uint64(1)
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = mulM(r, a)
		}
		a = mulM(a, a)
	}
	return r
}
func invM(a uint64) uint64 { return powM(a, GM-2) }

func AddM(a, b uint64) uint64 { return addM(a, b) }
func SubM(a, b uint64) uint64 { return subM(a, b) }
func MulM(a, b uint64) uint64 { return mulM(a, b) }
func PowM(a, e uint64) uint64 { return powM(a, e) }
func InvM(a uint64) uint64    { return invM(a) }

// A monomial is a string of 4-byte big endian atom ids, sorted, with repetition.
func atomAt(m string, i int) int {
	return int(m[i])<<24 | int(m[i+1])<<16 | int(m[i+2])<<8 | int(m[i+3])
}
func monoAtoms(m string) []int {
	out := make([]int, 0, len(m)/4)
	for i := 0; i < len(m); i += 4 {
		out = append(out, atomAt(m, i))
	}
	return out
}
func monoOf(id int) string {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], uint32(id))
	return string(b[:])
}
func monoFrom(ids []int) string {
	sort.Ints(ids)
	b := make([]byte, 4*len(ids))
	for i, id := range ids {
		binary.BigEndian.PutUint32(b[4*i:], uint32(id))
	}
	return string(b)
}
func monoMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	out := make([]byte, 0, len(a)+len(b))
	for len(a) > 0 && len(b) > 0 {
		if a[:4] <= b[:4] {
			out = append(out, a[:4]...)
			a = a[4:]
		} else {
			out = append(out, b[:4]...)
			b = b[4:]
		}
	}
	out = append(out, a...)
	out = append(out, b...)
	return string(out)
}

// ---- native polynomials ----

type Term struct {
	M string
	C fr.Element
}

// Poly is sorted by M and has no zero coefficients.
type Poly []Term

func PConst(c fr.Element) Poly {
	if c.IsZero() {
		return nil
	}
	return Poly{{"", c}}
}
func PAtom(id int) Poly {
	var one fr.Element
	one.SetOne()
	return Poly{{monoOf(id), one}}
}
func (p Poly) IsConst() (fr.Element, bool) {
	if len(p) == 0 {
		return fr.Element{}, true
	}
	if len(p) == 1 && p[0].M == "" {
		return p[0].C, true
	}
	return fr.Element{}, false
}

// SingleAtom returns the atom id when p is exactly one atom with coefficient one.
func (p Poly) SingleAtom() (int, bool) {
	if len(p) == 1 && len(p[0].M) == 4 && p[0].C.IsOne() {
		return int(binary.BigEndian.Uint32([]byte(p[0].M))), true
	}
	return 0, false
}
func (p Poly) Add(q Poly) Poly {
	if len(p) == 0 {
		return q
	}
	if len(q) == 0 {
		return p
	}
	out := make(Poly, 0, len(p)+len(q))
	i, j := 0, 0
	for i < len(p) && j < len(q) {
		switch {
		case p[i].M < q[j].M:
			out = append(out, p[i])
			i++
		case p[i].M > q[j].M:
			out = append(out, q[j])
			j++
		default:
			var c fr.Element
			c.Add(&p[i].C, &q[j].C)
			if !c.IsZero() {
				out = append(out, Term{p[i].M, c})
			}
			i++
			j++
		}
	}
	out = append(out, p[i:]...)
	out = append(out, q[j:]...)
	return out
}
func (p Poly) Scale(c fr.Element) Poly {
	if c.IsZero() {
		return nil
	}
	if c.IsOne() {
		return p
	}
	out := make(Poly, len(p))
	for i := range p {
		out[i].M = p[i].M
		out[i].C.Mul(&p[i].C, &c)
	}
	return out
}
func (p Poly) Neg() Poly {
	var m fr.Element
	m.SetOne()
	m.Neg(&m)
	return p.Scale(m)
}
func (p Poly) Sub(q Poly) Poly { return p.Add(q.Neg()) }
func (p Poly) MulExpand(q Poly) Poly {
	if len(p) == 1 && p[0].M == "" {
		return q.Scale(p[0].C)
	}
	if len(q) == 1 && q[0].M == "" {
		return p.Scale(q[0].C)
	}
	acc := make(map[string]fr.Element, len(p)*len(q))
	for i := range p {
		for j := range q {
			m := monoMul(p[i].M, q[j].M)
			var c fr.Element
			c.Mul(&p[i].C, &q[j].C)
			if o, ok := acc[m]; ok {
				c.Add(&c, &o)
			}
			acc[m] = c
		}
	}
	return polyFromMap(acc)
}
func polyFromMap(acc map[string]fr.Element) Poly {
	out := make(Poly, 0, len(acc))
	for m, c := range acc {
		if !c.IsZero() {
			out = append(out, Term{m, c})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].M < out[j].M })
	return out
}
func (p Poly) Key() string {
	b := make([]byte, 0, len(p)*48)
	for i := range p {
		bb := p[i].C.Bytes()
		b = append(b, byte(len(p[i].M)/4))
		b = append(b, p[i].M...)
		b = append(b, bb[:]...)
	}
	return string(b)
}

// Monic scales p so that its last term has coefficient one; returns the scale c with p = c * monic.
func (p Poly) Monic() (Poly, fr.Element) {
	var one fr.Element
	one.SetOne()
	if len(p) == 0 {
		return p, one
	}
	c := p[len(p)-1].C
	var inv fr.Element
	inv.Inverse(&c)
	return p.Scale(inv), c
}

// SignNorm scales p by +-1 so that its last coefficient, centered, is positive.
func (p Poly) SignNorm() (Poly, fr.Element) {
	var s fr.Element
	s.SetOne()
	if len(p) == 0 {
		return p, s
	}
	if Centered(&p[len(p)-1].C).Sign() < 0 {
		s.Neg(&s)
		return p.Scale(s), s
	}
	return p, s
}
func (p Poly) Atoms(f func(int)) {
	for i := range p {
		for m, j := p[i].M, 0; j < len(m); j += 4 {
			f(atomAt(m, j))
		}
	}
}
func (p Poly) Linear() bool {
	for i := range p {
		if len(p[i].M) > 4 {
			return false
		}
	}
	return true
}

// Centered returns the representative of c in (-r/2, r/2].
func Centered(c *fr.Element) *big.Int {
	b := new(big.Int)
	c.BigInt(b)
	if b.Cmp(halfR) > 0 {
		b.Sub(b, BigR)
	}
	return b
}

// ---- Goldilocks polynomials ----

type TermM struct {
	M string
	C uint64
}
type PolyM []TermM

func MConst(c uint64) PolyM {
	c %= GM
	if c == 0 {
		return nil
	}
	return PolyM{{"", c}}
}
func MAtom(id int) PolyM { return PolyM{{monoOf(id), 1}} }
func (p PolyM) IsConst() (uint64, bool) {
	if len(p) == 0 {
		return 0, true
	}
	if len(p) == 1 && p[0].M == "" {
		return p[0].C, true
	}
	return 0, false
}
func (p PolyM) SingleAtom() (int, bool) {
	if len(p) == 1 && len(p[0].M) == 4 && p[0].C == 1 {
		return int(binary.BigEndian.Uint32([]byte(p[0].M))), true
	}
	return 0, false
}
func (p PolyM) Add(q PolyM) PolyM {
	if len(p) == 0 {
		return q
	}
	if len(q) == 0 {
		return p
	}
	out := make(PolyM, 0, len(p)+len(q))
	i, j := 0, 0
	for i < len(p) && j < len(q) {
		switch {
		case p[i].M < q[j].M:
			out = append(out, p[i])
			i++
		case p[i].M > q[j].M:
			out = append(out, q[j])
			j++
		default:
			if c := addM(p[i].C, q[j].C); c != 0 {
				out = append(out, TermM{p[i].M, c})
			}
			i++
			j++
		}
	}
	out = append(out, p[i:]...)
	out = append(out, q[j:]...)
	return out
}
func (p PolyM) Scale(c uint64) PolyM {
	if c == 0 {
		return nil
	}
	if c == 1 {
		return p
	}
	out := make(PolyM, len(p))
	for i := range p {
		out[i] = TermM{p[i].M, mulM(p[i].C, c)}
	}
	return out
}
func (p PolyM) Sub(q PolyM) PolyM { return p.Add(q.Scale(GM - 1)) }
func (p PolyM) Mul(q PolyM) PolyM {
	if len(p) == 1 && p[0].M == "" {
		return q.Scale(p[0].C)
	}
	if len(q) == 1 && q[0].M == "" {
		return p.Scale(q[0].C)
	}
	acc := make(map[string]uint64, len(p)*len(q))
	for i := range p {
		for j := range q {
			m := monoMul(p[i].M, q[j].M)
			acc[m] = addM(acc[m], mulM(p[i].C, q[j].C))
		}
	}
	return polyMFromMap(acc)
}
func polyMFromMap(acc map[string]uint64) PolyM {
	out := make(PolyM, 0, len(acc))
	for m, c := range acc {
		if c != 0 {
			out = append(out, TermM{m, c})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].M < out[j].M })
	return out
}
func (p PolyM) Key() string {
	b := make([]byte, 0, len(p)*16)
	for i := range p {
		b = append(b, byte(len(p[i].M)/4))
		b = append(b, p[i].M...)
		b = binary.BigEndian.AppendUint64(b, p[i].C)
	}
	return string(b)
}
func (p PolyM) Monic() PolyM {
	if len(p) == 0 {
		return p
	}
	return p.Scale(invM(p[len(p)-1].C))
}
func (p PolyM) Linear() bool {
	for i := range p {
		if len(p[i].M) > 4 {
			return false
		}
	}
	return true
}
