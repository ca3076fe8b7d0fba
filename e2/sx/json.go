package sx

import (
	"go/types"
	"reflect"
	"strings"
)

// A symbolic JSON document and encoding/json's decoding of it into Go values.

type JVal interface{}
type JField struct {
	Key string
	Val JVal
}
type JObj []JField
type JArr []JVal
type JNum struct{ T *Term }
type JStr struct{ S Str }
type JBool struct{ T *Term }

// JBytes are the bytes of a document.
func (p *Path) JBytes(d jdoc) Value {
	o := p.Opaque(nil, "json")
	o.Data, o.nul = d, False
	return o
}

type jdoc struct{ v JVal }

type jsonErr struct{ v Iface }

func (p *Path) unmarshal(data Value, dst Value) (res Value) {
	o, ok := data.(*Opaque)
	if !ok {
		p.Abort("JSON from unknown bytes")
	}
	d, ok := o.Data.(jdoc)
	if !ok {
		p.Abort("JSON from unknown bytes")
	}
	return p.decodeInto(d.v, dst)
}

func (p *Path) decodeInto(d JVal, dst Value) (res Value) {
	i, ok := dst.(Iface)
	if !ok || i.T == nil {
		return p.Err("json: Unmarshal(nil)")
	}
	pt, ok := i.T.Underlying().(*types.Pointer)
	c, ok2 := i.V.(*Value)
	if !ok || !ok2 || c == nil {
		return p.Err("json: Unmarshal(non-pointer)")
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonErr); ok {
				res = e.v
				return
			}
			panic(r)
		}
	}()
	p.decode(d, c, pt.Elem())
	return NoErr
}

func (p *Path) jfail(msg string) { panic(jsonErr{p.Err("json: " + msg)}) }

func (p *Path) decode(d JVal, c *Value, t types.Type) {
	// interfaces holding pointers, pointers, Unmarshalers
	for {
		if it, ok := t.Underlying().(*types.Interface); ok {
			if i, ok := (*c).(Iface); ok && i.T != nil {
				if pt, ok := i.T.Underlying().(*types.Pointer); ok {
					if q, ok := i.V.(*Value); ok && q != nil {
						c, t = q, pt.Elem()
						continue
					}
				}
			}
			if it.NumMethods() > 0 {
				p.jfail("interface")
			}
			*c = p.anyJSON(d)
			return
		}
		if m := p.E.Prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(nil, "UnmarshalJSON"); m != nil && !prim(t) && typeName(t) != "encoding/json.RawMessage" {
			if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
				fn := p.E.Prog.MethodValue(m)
				r := p.Call(fn, c, p.JBytes(jdoc{d}))
				i, ok := r.(Iface)
				if !ok {
					p.Abort("UnmarshalJSON result")
				}
				if i.T == nil {
					return
				}
				if p.Branch(p.equal(i, Iface{})) {
					return
				}
				panic(jsonErr{i})
			}
		}
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		q, _ := (*c).(*Value)
		if q == nil {
			q = cell(p.Zero(pt.Elem()))
			*c = q
		}
		c, t = q, pt.Elem()
	}
	switch typeName(t) {
	case "encoding/json.RawMessage":
		*c = p.JBytes(jdoc{d})
		return
	case "encoding/json.Number":
		n, ok := d.(JNum)
		if !ok {
			p.Abort("json.Number")
		}
		*c = NumStr(n.T)
		return
	}
	if prim(t) {
		switch x := d.(type) {
		case JNum:
			*c = x.T
			return
		case JStr:
			if typeName(t) != "math/big.Int" && len(x.S) == 1 && x.S[0].Num != nil {
				*c = Mod(x.S[0].Num, P)
				return
			}
		}
		p.jfail("cannot unmarshal into " + t.String())
	}
	if d == nil { // null
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map:
			*c = p.Zero(t)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		o, ok := d.(JObj)
		if !ok {
			p.jfail("cannot unmarshal into " + t.String())
		}
		s, ok := (*c).(Struct)
		if !ok {
			p.Abort("JSON into an unknown struct")
		}
		for _, f := range o {
			k := -1
			for _, exact := range []bool{true, false} {
				for i := 0; i < u.NumFields() && k < 0; i++ {
					if u.Field(i).Embedded() {
						p.Abort("JSON into embedded fields")
					}
					tag, rest, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
					if !u.Field(i).Exported() || (tag == "-" && rest == "") {
						continue
					}
					if rest != "" && rest != "omitempty" {
						p.Abort("JSON tag options")
					}
					if tag == "" {
						tag = u.Field(i).Name()
					}
					if tag == f.Key || (!exact && strings.EqualFold(tag, f.Key)) {
						k = i
					}
				}
			}
			if k >= 0 {
				p.decode(f.Val, s[k], u.Field(k).Type())
			}
		}
	case *types.Slice:
		a, ok := d.(JArr)
		if !ok {
			p.jfail("cannot unmarshal into " + t.String())
		}
		old, _ := (*c).(Slice)
		have := 0
		if old.b != nil {
			have = old.cap
		}
		var vs []*Value
		for i := range a {
			var e *Value
			if i < have {
				e = old.At(i)
			} else {
				e = cell(p.Zero(u.Elem()))
			}
			p.decode(a[i], e, u.Elem())
			vs = append(vs, e)
		}
		if len(a) <= have && have > 0 {
			*c = Slice{b: old.b, off: old.off, len: N(int64(len(a))), cap: old.cap}
			return
		}
		*c = Slice{b: &Backing{cells: vs}, len: N(int64(len(a))), cap: len(a)}
	case *types.Array:
		a, ok := d.(JArr)
		arr, ok2 := (*c).(Array)
		if !ok || !ok2 {
			p.jfail("cannot unmarshal into " + t.String())
		}
		for i := range arr {
			if i < len(a) {
				p.decode(a[i], arr[i], u.Elem())
			} else {
				*arr[i] = p.Zero(u.Elem())
			}
		}
	case *types.Map:
		o, ok := d.(JObj)
		if !ok {
			p.jfail("cannot unmarshal into " + t.String())
		}
		m, _ := (*c).(*Map)
		if m == nil {
			m = &Map{}
			*c = m
		}
		for _, f := range o {
			e := cell(p.Zero(u.Elem()))
			p.decode(f.Val, e, u.Elem())
			m.keys, m.vals = append(m.keys, Lit(f.Key)), append(m.vals, *e)
		}
	case *types.Basic:
		switch x := d.(type) {
		case JNum:
			switch {
			case u.Info()&types.IsInteger != 0:
				lo, hi := p.E.Range(t)
				if !p.Branch(And(Le(NB(lo), x.T), Le(x.T, NB(hi)))) {
					p.jfail("number out of range")
				}
				*c = x.T
				return
			case u.Info()&types.IsFloat != 0:
				*c = p.Havoc(t, "json number as a float")
				return
			}
		case JStr:
			if u.Info()&types.IsString != 0 {
				*c = x.S
				return
			}
		case JBool:
			if u.Info()&types.IsBoolean != 0 {
				*c = x.T
				return
			}
		}
		p.jfail("cannot unmarshal into " + t.String())
	default:
		p.Abort("JSON into " + t.String())
	}
}

// anyJSON is what lands in an interface{}.
func (p *Path) anyJSON(d JVal) Value {
	switch x := d.(type) {
	case nil:
		return Iface{}
	case JStr:
		return Iface{T: types.Typ[types.String], V: x.S}
	case JBool:
		return Iface{T: types.Typ[types.Bool], V: x.T}
	case JNum:
		return Iface{T: types.Typ[types.Float64], V: p.Havoc(types.Typ[types.Float64], "json number as a float")}
	case JArr:
		var vs []Value
		for _, e := range x {
			vs = append(vs, p.anyJSON(e))
		}
		return Iface{T: types.NewSlice(types.NewInterfaceType(nil, nil)), V: MkSlice(vs)}
	case JObj:
		m := &Map{}
		for _, f := range x {
			m.keys, m.vals = append(m.keys, Lit(f.Key)), append(m.vals, p.anyJSON(f.Val))
		}
		return Iface{T: types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)), V: m}
	}
	p.Abort("JSON value")
	return nil
}

// Files gives every file that is opened the content doc.
func (e *Engine) Files(doc func(p *Path) JVal) {
	in := e.Intr
	file := func(p *Path) Value {
		o := p.Opaque(nil, "file")
		o.Data, o.nul = jdoc{doc(p)}, False
		return o
	}
	bytesOf := func(p *Path, v Value) Value {
		if i, ok := v.(Iface); ok {
			v = i.V
		}
		o, ok := v.(*Opaque)
		if !ok {
			p.Abort("unknown reader")
		}
		d, ok := o.Data.(jdoc)
		if !ok {
			p.Abort("unknown reader")
		}
		return p.JBytes(d)
	}
	open := func(p *Path, c *Call) Value { return Tuple{file(p), NoErr} }
	in["os.Open"], in["os.OpenFile"] = open, open
	rf := func(p *Path, c *Call) Value { return Tuple{bytesOf(p, file(p)), NoErr} }
	in["os.ReadFile"], in["io/ioutil.ReadFile"] = rf, rf
	ra := func(p *Path, c *Call) Value { return Tuple{bytesOf(p, c.Args[0]), NoErr} }
	in["io.ReadAll"], in["io/ioutil.ReadAll"] = ra, ra
	in["(*os.File).Close"] = func(p *Path, c *Call) Value { return NoErr }
	wrap := func(p *Path, c *Call) Value { return bytesOf(p, c.Args[0]) }
	in["bufio.NewReader"], in["bytes.NewReader"], in["bytes.NewBuffer"], in["encoding/json.NewDecoder"] = wrap, wrap, wrap, wrap
	in["encoding/json.Unmarshal"] = func(p *Path, c *Call) Value { return p.unmarshal(c.Args[0], c.Args[1]) }
	in["(*encoding/json.Decoder).Decode"] = func(p *Path, c *Call) Value { return p.unmarshal(c.Args[0], c.Args[1]) }
	in["(*encoding/json.Decoder).DisallowUnknownFields"] = func(p *Path, c *Call) Value { return Tuple{} }
	in["(*encoding/json.Decoder).UseNumber"] = func(p *Path, c *Call) Value { return Tuple{} }
	in["encoding/json.Valid"] = func(p *Path, c *Call) Value { return True }
}

// Field follows a path of field names through structs and pointers.
func (p *Path) Field(v Value, t types.Type, names ...string) (Value, types.Type, bool) {
	for _, n := range names {
		for {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			c, ok := v.(*Value)
			if !ok || c == nil {
				return nil, nil, false
			}
			v, t = *c, pt.Elem()
		}
		u, ok := t.Underlying().(*types.Struct)
		s, ok2 := v.(Struct)
		if !ok || !ok2 {
			return nil, nil, false
		}
		found := false
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == n {
				v, t, found = *s[i], u.Field(i).Type(), true
				break
			}
		}
		if !found {
			return nil, nil, false
		}
	}
	return v, t, true
}

// Number is the integer behind a number, a big integer, a decimal string or an interface holding one of them.
func (p *Path) Number(v Value) (*Term, bool) {
	for {
		switch x := v.(type) {
		case *Term:
			return x, !x.Bool
		case Iface:
			if x.T == nil {
				return nil, false
			}
			v = x.V
		case *Value:
			if x == nil {
				return nil, false
			}
			v = *x
		case Str:
			x = Cat(nil, x)
			if c, ok := x.Concrete(); ok {
				n, ok := BI(0).SetString(c, 10)
				if !ok {
					return nil, false
				}
				return NB(n), true
			}
			if len(x) == 1 && x[0].Num != nil {
				return x[0].Num, true
			}
			return nil, false
		default:
			return nil, false
		}
	}
}

// FieldPtr is the address of a field of a struct.
func (p *Path) FieldPtr(v Value, t types.Type, name string) (*Value, types.Type, bool) {
	u, ok := t.Underlying().(*types.Struct)
	s, ok2 := v.(Struct)
	if !ok || !ok2 {
		return nil, nil, false
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return s[i], u.Field(i).Type(), true
		}
	}
	return nil, nil, false
}
