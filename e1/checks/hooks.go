package checks

import (
	"reflect"
	"unsafe"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"verif/e1/sym"
)

var apiType = reflect.TypeOf((*frontend.API)(nil)).Elem()

// envOf finds the run a chip belongs to through the frontend.API it holds.
func envOf(recv any) *Env {
	v := reflect.ValueOf(recv)
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct || !v.CanAddr() {
		return nil
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() != apiType {
			continue
		}
		x := *(*frontend.API)(unsafe.Pointer(f.UnsafeAddr()))
		if c := sym.CtxOf(x); c != nil {
			e, _ := c.Env.(*Env)
			return e
		}
	}
	return nil
}

func posGLFr(in []fr.Element) []fr.Element {
	var s [12]uint64
	for i := range s {
		s[i] = sym.ModM(&in[i])
	}
	s = posGLRef(s)
	out := make([]fr.Element, 12)
	for i := range out {
		out[i].SetUint64(s[i])
	}
	return out
}

// UFGL applies the (uninterpreted) Goldilocks permutation.
func UFGL(e *Env, args []*Var) []*Var { return e.UF("posGL", args, 12, sym.MaxGL, posGLFr) }

// UFBN applies the (uninterpreted) BN254 permutation.
func UFBN(e *Env, args []*Var) []*Var { return e.UF("posBN", args, 4, nil, posBNFr) }

func init() {
	poseidon.VerifHookGL = func(recv, state any) (any, bool) {
		e := envOf(recv)
		st, ok := state.(poseidon.GoldilocksState)
		if e == nil || !e.Hook || !ok {
			return nil, false
		}
		var args []*Var
		for i := range st {
			args = append(args, e.C.V(st[i].Limb))
		}
		if e.C.NoSym && e.Comp.Rom == 0 {
			// outside the domain the permutation is checked for: run the real code
			for _, a := range args {
				for k := range a.Sh {
					if sym.Big(&a.Sh[k]).Cmp(sym.BigM) >= 0 {
						return nil, false
					}
				}
			}
		}
		for i, v := range UFGL(e, args) {
			st[i] = gv(v)
		}
		return st, true
	}
	poseidon.VerifHookBN254 = func(recv, state any) (any, bool) {
		e := envOf(recv)
		st, ok := state.(poseidon.BN254State)
		if e == nil || !e.Hook || !ok {
			return nil, false
		}
		var args []*Var
		for i := range st {
			args = append(args, e.C.V(st[i]))
		}
		for i, v := range UFBN(e, args) {
			st[i] = v
		}
		return st, true
	}
}
