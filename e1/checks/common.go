// Package checks states the properties over the real code: each component
// builds a specification and runs the repository's own functions against the
// symbolic frontend.API.
package checks

import (
	"fmt"
	"math/big"

	gfield "github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"verif/e1/sym"
)

type (
	Env  = sym.Env
	Comp = sym.Comp
	Var  = sym.Var
	X    = sym.X
	QX   = sym.QX
	FV   = frontend.Variable
)

// Prop is one property: the components that decide it.
type Prop struct {
	ID        string
	Title     string
	Functions []string // what is encoded
	Bounds    string
	Assume    []string
	Comps     func(thorough bool) []*Comp
	Serial    bool
}

// CommonAssume is what every check of this engine takes for granted.
var CommonAssume = []string{
	"gnark's compiler and proof systems enforce what frontend.API documents; the symbolic API models Add, Sub, Neg, Mul, MulAcc (in-place update of an accumulator included), Div, Select, Lookup2, IsZero, ToBinary, FromBinary, AssertIsEqual, AssertIsBoolean, AssertIsLessOrEqual, hints, deferred callbacks and range checks, and treats every hint answer as chosen by an adversary",
	"gnark's log-derivative lookup argument enforces table membership",
	"scalar field of BN254 (the only field the repository targets)",
	"z3 is sound on the linear integer/real and polynomial-identity queries sent to it",
}

var Props = map[string]*Prop{}
var Order []string

func register(p *Prop) {
	Props[p.ID] = p
	Order = append(Order, p.ID)
}

func gv(v *Var) gl.Variable { return gl.NewVariable(v) }
func gvs(vs []*Var) (out []gl.Variable) {
	for _, v := range vs {
		out = append(out, gv(v))
	}
	return
}
func qv(a [2]*Var) gl.QuadraticExtensionVariable {
	return gl.QuadraticExtensionVariable{gv(a[0]), gv(a[1])}
}
func qvs(as [][2]*Var) (out []gl.QuadraticExtensionVariable) {
	for _, a := range as {
		out = append(out, qv(a))
	}
	return
}
func fvs(vs []*Var) (out []FV) {
	for _, v := range vs {
		out = append(out, v)
	}
	return
}
func outQ(qs ...gl.QuadraticExtensionVariable) (out []FV) {
	for _, q := range qs {
		out = append(out, q[0].Limb, q[1].Limb)
	}
	return
}
func outG(gs ...gl.Variable) (out []FV) {
	for _, g := range gs {
		out = append(out, g.Limb)
	}
	return
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
func pow2m1(n uint) *big.Int {
	return new(big.Int).Sub(pow2(n), big.NewInt(1))
}

var modes = []sym.Mode{sym.Native, sym.Commit, sym.CommitSCS, sym.Plain}

func modeName(m sym.Mode) string {
	return map[sym.Mode]string{sym.Native: "native", sym.Commit: "commit", sym.CommitSCS: "commit-scs", sym.Plain: "bits"}[m]
}

// eachMode makes one component per range-checker backend.
func eachMode(name string, build func(e *Env)) (out []*Comp) {
	for _, m := range modes {
		out = append(out, &Comp{Name: fmt.Sprintf("%s/%s", name, modeName(m)), Mode: m, Build: build, AllShadows: true})
	}
	return
}
func inMode(m sym.Mode, name string, build func(e *Env)) *Comp {
	return &Comp{Name: fmt.Sprintf("%s/%s", name, modeName(m)), Mode: m, Build: build, AllShadows: true}
}

// chip returns the Goldilocks chip; in commit mode it first asks for enough
// constant range checks that the cost model settles on the width the code insists on.
func chip(e *Env, api frontend.API) *gl.Chip {
	c := newChip(api)
	pad(e, c)
	return c
}
func pad(e *Env, c *gl.Chip) {
	if e.Comp.Mode.Commits() {
		padN(c, 70000, 32)
	}
}
func padN(c *gl.Chip, n int, width uint64) {
	for i := 0; i < n; i++ {
		c.RangeCheckWithMaxBits(gl.NewVariable(uint64(i&0xffff)), width)
	}
}

func genDom(n int) (dom, wts []gfield.Element) {
	for i := 0; i < n; i++ {
		dom = append(dom, gfield.NewElement(sym.PowM(7, uint64(5*i+3))))
		wts = append(wts, gfield.NewElement(sym.PowM(7, uint64(11*i+2))))
	}
	return
}
