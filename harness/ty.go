package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"unsafe"
)

// B is a byte string, written as an array of numbers (see Bytes.tla)
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, len(b)*4+2)
	out = append(out, '[')
	for i, c := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(c), 10)
	}
	return append(out, ']'), nil
}

type M = map[string]interface{}

// Ty is an abstract Go type (see TypedDecode.tla), with its concrete type
type Ty struct {
	T   string
	W   int
	Sg  bool
	E   *Ty
	N   int
	Key *Ty
	Def *Def
	rt  reflect.Type
	// floats: also NaN and infinities
	Wild bool
	// marshalers: projection and random value
	proj func(reflect.Value) interface{}
	rnd  func(reflect.Value, *rand.Rand)
	disp *dispTy
	via  string // "mif"
	open bool
}

// Def is a struct type
type Def struct {
	Fields []Fld
	rt     reflect.Type
	name   string
}

type Fld struct {
	GN     string
	Exp    bool
	Anon   bool
	Skip   bool
	Tagged bool
	TN     string
	Om     bool
	Str    bool
	Ty     *Ty
	Tag    string // the text of the tag, if not made of the above
}

// defs collects the struct types of a record
type defTab struct {
	ids  map[*Def]int
	list []*Def
}

func newDefTab() *defTab { return &defTab{ids: map[*Def]int{}} }

func (d *defTab) id(x *Def) int {
	if i, ok := d.ids[x]; ok {
		return i
	}
	d.list = append(d.list, x)
	d.ids[x] = len(d.list)
	return len(d.list)
}

func (d *defTab) emit() []interface{} {
	out := []interface{}{}
	for i := 0; i < len(d.list); i++ { // the list grows while emitting
		fs := []interface{}{}
		for _, f := range d.list[i].Fields {
			fs = append(fs, M{
				"gn": B(f.GN), "exp": f.Exp, "anon": f.Anon,
				"tagged": f.Tagged || f.Skip, "tag": B(f.tagText()),
				"ty": f.Ty.emit(d),
			})
		}
		out = append(out, fs)
	}
	return out
}

func (t *Ty) emit(d *defTab) interface{} {
	m := M{"t": t.T}
	switch t.T {
	case "int":
		m["w"], m["sg"] = t.W, t.Sg
	case "float":
		m["w"] = t.W
	case "ptr", "slice":
		m["e"] = t.E.emit(d)
	case "array":
		m["e"], m["n"] = t.E.emit(d), t.N
	case "map":
		m["e"], m["key"] = t.E.emit(d), t.Key.emit(d)
	case "struct":
		m["id"] = d.id(t.Def)
	case "disp":
		return t.disp.emit(d)
	case "mif":
		m["via"], m["open"] = t.via, t.open
	}
	return m
}

// ---------------------------------------------------------------- types

type (
	NBool    bool
	NInt     int
	NInt8    int8
	NUint16  uint16
	NString  string
	NFloat   float64
	NFloat32 float32
	NByte    byte
	NBytes   []byte
)

// JU records what UnmarshalJSON received
type JU struct{ Calls [][]byte }

func (j *JU) UnmarshalJSON(b []byte) error {
	gcNow()
	j.Calls = append(j.Calls, append([]byte{}, b...))
	return nil
}

// JUM is the same with another kind
type JUM []string

func (j *JUM) UnmarshalJSON(b []byte) error {
	gcNow()
	*j = append(*j, string(b))
	return nil
}

// JUErr always fails
type JUErr struct{ X int }

func (j *JUErr) UnmarshalJSON(b []byte) error { return fmt.Errorf("JUErr") }

// TU records what UnmarshalText received
type TU struct{ Calls [][]byte }

func (j *TU) UnmarshalText(b []byte) error {
	gcNow()
	j.Calls = append(j.Calls, append([]byte{}, b...))
	return nil
}

type TUErr struct{ X int }

func (j *TUErr) UnmarshalText(b []byte) error { return fmt.Errorf("TUErr") }

// TK: map keys which are text unmarshalers
type TK struct{ S string }

func (j *TK) UnmarshalText(b []byte) error { gcNow(); j.S = string(b); return nil }
func (j TK) MarshalText() ([]byte, error)  { gcNow(); return []byte(j.S), nil }

var rtAny = reflect.TypeOf((*interface{})(nil)).Elem()

func tInt(w int, sg bool, rt reflect.Type) *Ty { return &Ty{T: "int", W: w, Sg: sg, rt: rt} }

func rtOf(x interface{}) reflect.Type { return reflect.TypeOf(x) }

var scalarTys = []*Ty{
	{T: "bool", rt: rtOf(false)},
	tInt(64, true, rtOf(int(0))), tInt(8, true, rtOf(int8(0))), tInt(16, true, rtOf(int16(0))),
	tInt(32, true, rtOf(int32(0))), tInt(64, true, rtOf(int64(0))),
	tInt(64, false, rtOf(uint(0))), tInt(8, false, rtOf(uint8(0))), tInt(16, false, rtOf(uint16(0))),
	tInt(32, false, rtOf(uint32(0))), tInt(64, false, rtOf(uint64(0))), tInt(64, false, rtOf(uintptr(0))),
	{T: "float", W: 32, rt: rtOf(float32(0))}, {T: "float", W: 64, rt: rtOf(float64(0))},
	{T: "string", rt: rtOf("")},
	{T: "bool", rt: rtOf(NBool(false))}, tInt(64, true, rtOf(NInt(0))), tInt(8, true, rtOf(NInt8(0))),
	tInt(16, false, rtOf(NUint16(0))), {T: "string", rt: rtOf(NString(""))},
	{T: "float", W: 64, rt: rtOf(NFloat(0))}, {T: "float", W: 32, rt: rtOf(NFloat32(0))},
	tInt(8, false, rtOf(NByte(0))),
}

var (
	tyBool    = scalarTys[0]
	tyInt     = scalarTys[1]
	tyInt8    = scalarTys[2]
	tyUint8   = scalarTys[7]
	tyFloat32 = scalarTys[12]
	tyFloat64 = scalarTys[13]
	tyString  = scalarTys[14]
	tyAny     = &Ty{T: "any", rt: rtAny}
	tyNumber  = &Ty{T: "number", rt: rtOf(json.Number(""))}
	tyRaw     = &Ty{T: "raw", rt: rtOf(json.RawMessage(nil))}
	tyJU      = &Ty{T: "jum", rt: rtOf(JU{})}
	tyJUM     = &Ty{T: "jum", rt: rtOf(JUM{})}
	tyJUErr   = &Ty{T: "jumerr", rt: rtOf(JUErr{})}
	tyTU      = &Ty{T: "tum", rt: rtOf(TU{})}
	tyTUErr   = &Ty{T: "tumerr", rt: rtOf(TUErr{})}
	tyTK      = &Ty{T: "tum", rt: rtOf(TK{})} // as a key only
)

func ptrTo(e *Ty) *Ty   { return &Ty{T: "ptr", E: e, rt: reflect.PtrTo(e.rt)} }
func sliceOf(e *Ty) *Ty { return &Ty{T: "slice", E: e, rt: reflect.SliceOf(e.rt)} }
func arrayOf(n int, e *Ty) *Ty {
	return &Ty{T: "array", N: n, E: e, rt: reflect.ArrayOf(n, e.rt)}
}
func mapOf(k, e *Ty) *Ty { return &Ty{T: "map", Key: k, E: e, rt: reflect.MapOf(k.rt, e.rt)} }

func structOf(fields []Fld) *Ty {
	sf := make([]reflect.StructField, len(fields))
	for i, f := range fields {
		sf[i] = reflect.StructField{Name: f.GN, Type: f.Ty.rt, Anonymous: f.Anon, Tag: reflect.StructTag(tagOf("json", &f))}
	}
	rt := reflect.StructOf(sf)
	return &Ty{T: "struct", Def: &Def{Fields: fields, rt: rt}, rt: rt}
}

func tagOf(key string, f *Fld) string {
	if !f.Skip && !f.Tagged {
		return ""
	}
	return key + ":" + strconv.Quote(f.tagText())
}

func (f *Fld) tagText() string {
	if f.Skip {
		return "-"
	}
	if f.Tag != "" {
		return f.Tag
	}
	s := f.TN
	if f.Om {
		s += ",omitempty"
	}
	if f.Str {
		s += ",string"
	}
	if s == "-" {
		s = "-," // the name "-"
	}
	return s
}

// ---------------------------------------------------------------- values

func vInt(s string) M { return M{"k": "int", "d": B(s)} }

// typeIndex lets the projection recognise typed pointers inside interfaces
type typeIndex map[reflect.Type]*Ty

func (t *Ty) index(ix typeIndex) {
	if _, ok := ix[t.rt]; ok {
		return
	}
	ix[t.rt] = t
	if t.E != nil {
		t.E.index(ix)
	}
	if t.Key != nil {
		t.Key.index(ix)
	}
	if t.Def != nil {
		for _, f := range t.Def.Fields {
			f.Ty.index(ix)
		}
	}
}

func bits(f float64, w int) B {
	if w == 32 {
		return B(strconv.FormatUint(uint64(math.Float32bits(float32(f))), 16))
	}
	return B(strconv.FormatUint(math.Float64bits(f), 16))
}

// project maps a Go value of type ty to its abstract value
func project(rv reflect.Value, ty *Ty, ix typeIndex, d *defTab) interface{} {
	switch ty.T {
	case "bool":
		return M{"k": "bool", "b": rv.Bool()}
	case "int":
		if ty.Sg {
			return vInt(strconv.FormatInt(rv.Int(), 10))
		}
		return vInt(strconv.FormatUint(rv.Uint(), 10))
	case "float":
		return M{"k": "flt", "x": bits(rv.Float(), ty.W)}
	case "string":
		return M{"k": "str", "s": B(rv.String())}
	case "number":
		return M{"k": "num", "t": B(rv.String())}
	case "raw":
		if rv.IsNil() {
			return M{"k": "nil"}
		}
		return M{"k": "raw", "r": B(append([]byte{}, rv.Bytes()...))}
	case "ptr":
		if rv.IsNil() {
			return M{"k": "nil"}
		}
		return M{"k": "ptr", "p": project(rv.Elem(), ty.E, ix, d)}
	case "slice", "array":
		if ty.T == "slice" && rv.IsNil() {
			return M{"k": "nil"}
		}
		l := make([]interface{}, rv.Len())
		for i := range l {
			l[i] = project(rv.Index(i), ty.E, ix, d)
		}
		return M{"k": "list", "l": l}
	case "map":
		if rv.IsNil() {
			return M{"k": "nil"}
		}
		type ent struct {
			k string
			v interface{}
		}
		var es []ent
		for _, k := range rv.MapKeys() {
			es = append(es, ent{keyText(k, ty.Key), project(rv.MapIndex(k), ty.E, ix, d)})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		m := make([]interface{}, len(es))
		for i := range es {
			m[i] = M{"mk": B(es[i].k), "mv": es[i].v}
		}
		return M{"k": "map", "m": m}
	case "struct":
		f := make([]interface{}, len(ty.Def.Fields))
		if !rv.CanAddr() {
			n := reflect.New(rv.Type()).Elem()
			n.Set(rv)
			rv = n
		}
		for i := range f {
			f[i] = project(settable(rv.Field(i)), ty.Def.Fields[i].Ty, ix, d)
		}
		return M{"k": "st", "f": f}
	case "jum", "tum":
		calls := []interface{}{}
		switch rv.Kind() {
		case reflect.Struct:
			cs := rv.Field(0)
			for i := 0; i < cs.Len(); i++ {
				calls = append(calls, B(append([]byte{}, cs.Index(i).Bytes()...)))
			}
		case reflect.Slice:
			for i := 0; i < rv.Len(); i++ {
				calls = append(calls, B(rv.Index(i).String()))
			}
		}
		return M{"k": ty.T, "calls": calls}
	case "jm", "tm":
		return ty.proj(rv)
	case "disp":
		return ty.disp.project(rv, ix, d)
	case "any", "iface", "mif":
		if ix[encMode] != nil {
			return projectDyn(rv, ix, d)
		}
		return projectAny(rv, ix, d)
	}
	return M{"k": "opq"}
}

// encMode as a key of the index: interfaces are projected with their dynamic
// types (for encoding)
var encMode = reflect.TypeOf(struct{ encMode int }{})

func projectDyn(rv reflect.Value, ix typeIndex, d *defTab) interface{} {
	if rv.IsNil() {
		return M{"k": "nil"}
	}
	ev := rv.Elem()
	t, ok := ix[ev.Type()]
	if !ok && ev.Kind() == reflect.Ptr {
		if e, ok2 := ix[ev.Type().Elem()]; ok2 {
			t, ok = ptrTo(e), true
		}
	}
	if !ok {
		panic(harnessError("dynamic type " + ev.Type().String()))
	}
	return M{"k": "adyn", "at": t.emit(d), "av": project(ev, t, ix, d)}
}

func keyText(k reflect.Value, ty *Ty) string {
	switch ty.T {
	case "string":
		return k.String()
	case "int":
		if ty.Sg {
			return strconv.FormatInt(k.Int(), 10)
		}
		return strconv.FormatUint(k.Uint(), 10)
	case "tum":
		return k.Field(0).String()
	case "disp":
		return ty.disp.keyText(k)
	case "ptr", "mif": // keys by their text marshalers
		if k.IsNil() {
			return "\x00"
		}
		return show(k.Elem())
	}
	panic("key " + ty.T)
}

func projectAny(rv reflect.Value, ix typeIndex, d *defTab) interface{} {
	if rv.IsNil() {
		return M{"k": "nil"}
	}
	o := rv.Interface()
	switch x := o.(type) {
	case bool:
		return M{"k": "bool", "b": x}
	case float64:
		return M{"k": "flt", "x": bits(x, 64)}
	case string:
		return M{"k": "str", "s": B(x)}
	case json.Number:
		return M{"k": "num", "t": B(x)}
	case []interface{}:
		if x == nil {
			return M{"k": "opq"}
		}
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = projectAny(reflect.ValueOf(&x[i]).Elem(), ix, d)
		}
		return M{"k": "aarr", "l": l}
	case map[string]interface{}:
		if x == nil {
			return M{"k": "opq"}
		}
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		m := make([]interface{}, len(ks))
		for i, k := range ks {
			e := x[k]
			m[i] = M{"mk": B(k), "mv": projectAny(reflect.ValueOf(&e).Elem(), ix, d)}
		}
		return M{"k": "aobj", "m": m}
	}
	ev := rv.Elem()
	if ev.Kind() == reflect.Ptr && !ev.IsNil() {
		if t, ok := ix[ev.Type().Elem()]; ok {
			return M{"k": "aptr", "at": t.emit(d), "ap": project(ev.Elem(), t, ix, d)}
		}
	}
	return M{"k": "opq"}
}

// settable returns a settable view of v (also of unexported fields)
func settable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// fill sets v (of type ty) to a random value
func fill(v reflect.Value, ty *Ty, r *rand.Rand, depth int, anyTys []*Ty) {
	v = settable(v)
	switch ty.T {
	case "bool":
		v.SetBool(r.Intn(2) == 0)
	case "int":
		if ty.Sg {
			v.SetInt(randInt(r, ty.W))
		} else {
			v.SetUint(randUint(r, ty.W))
		}
	case "float":
		v.SetFloat(randFloat(r, ty.W))
		if ty.Wild && r.Intn(5) == 0 {
			v.SetFloat([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)])
		}
	case "string":
		v.SetString(randGoString(r))
	case "number":
		if r.Intn(6) != 0 {
			v.SetString(string(randNumText(r)))
		}
	case "raw":
		if r.Intn(4) != 0 {
			v.SetBytes([]byte([]string{"1", `"x"`, `{"a":[1,2]}`, "null", `[ ]`}[r.Intn(5)]))
		}
	case "ptr":
		if r.Intn(3) != 0 && depth > 0 {
			p := reflect.New(ty.E.rt)
			fill(p.Elem(), ty.E, r, depth-1, anyTys)
			v.Set(p)
		}
	case "slice":
		if r.Intn(4) != 0 {
			n := r.Intn(4)
			if depth <= 0 {
				n = 0
			} else if k := many(r, ty.E); k > 0 {
				n = k
			}
			s := reflect.MakeSlice(ty.rt, n, n+r.Intn(3))
			for i := 0; i < n; i++ {
				fill(s.Index(i), ty.E, r, depth-1, anyTys)
			}
			v.Set(s)
		}
	case "array":
		for i := 0; i < ty.N; i++ {
			fill(v.Index(i), ty.E, r, depth-1, anyTys)
		}
	case "map":
		if r.Intn(4) != 0 {
			m := reflect.MakeMap(ty.rt)
			n := r.Intn(4)
			if depth <= 0 {
				n = 0
			} else if k := many(r, ty.E); k > 0 && k < 150 {
				n = k
			}
			for i := 0; i < n; i++ {
				k := reflect.New(ty.Key.rt).Elem()
				name := pickKey(r)
				if n > 4 && r.Intn(4) != 0 {
					name += strconv.Itoa(i)
				}
				if ty.Key.T == "tum" {
					k.Field(0).SetString(name)
				} else if ty.Key.T == "string" {
					k.SetString(name)
				} else {
					fill(k, ty.Key, r, 0, anyTys)
				}
				if ty.Key.T == "mif" && (k.IsNil() || !k.Elem().Comparable()) {
					continue
				}
				e := reflect.New(ty.E.rt).Elem()
				fill(e, ty.E, r, depth-1, anyTys)
				m.SetMapIndex(k, e)
			}
			v.Set(m)
		}
	case "struct":
		for i := range ty.Def.Fields {
			f := &ty.Def.Fields[i]
			if f.Ty.T == "opq" {
				continue
			}
			fill(v.Field(i), f.Ty, r, depth-1, anyTys)
		}
	case "jum", "tum":
		// left empty
	case "jm", "tm", "disp":
		ty.rnd(v, r)
	case "any", "mif":
		if v.NumMethod() > 0 {
			fillMarked(v, r, anyTys, r.Intn(3) != 0)
			return
		}
		fillAny(v, r, depth, anyTys)
	case "iface":
		fillMarked(v, r, anyTys, true)
	}
}

func fillAny(v reflect.Value, r *rand.Rand, depth int, anyTys []*Ty) {
	switch r.Intn(9) {
	case 0, 1:
	case 2:
		v.Set(reflect.ValueOf(randFloat(r, 64)))
	case 3:
		v.Set(reflect.ValueOf(randGoString(r)))
	case 4:
		v.Set(reflect.ValueOf(r.Intn(2) == 0))
	case 5:
		if depth > 0 {
			l := make([]interface{}, r.Intn(3))
			for i := range l {
				fillAny(reflect.ValueOf(&l[i]).Elem(), r, depth-1, anyTys)
			}
			v.Set(reflect.ValueOf(l))
		}
	case 6:
		if depth > 0 {
			m := map[string]interface{}{}
			for i := r.Intn(3); i > 0; i-- {
				var e interface{}
				fillAny(reflect.ValueOf(&e).Elem(), r, depth-1, anyTys)
				m[pickKey(r)] = e
			}
			v.Set(reflect.ValueOf(m))
		}
	default:
		if len(anyTys) > 0 {
			t := anyTys[r.Intn(len(anyTys))]
			p := reflect.New(t.rt)
			fill(p.Elem(), t, r, depth-1, anyTys)
			if len(anyTys) > 12 && t.T != "any" && r.Intn(3) != 0 { // encoding: the value itself
				v.Set(p.Elem())
				return
			}
			v.Set(p)
		}
	}
}

// fillMarked: an interface which the "disp" types implement
func fillMarked(v reflect.Value, r *rand.Rand, anyTys []*Ty, ptr bool) {
	var t *Ty
	for i := 0; ; i++ {
		if i == 9 {
			return
		}
		t = anyTys[r.Intn(len(anyTys))]
		if t.T == "disp" && (t.rt.Implements(v.Type()) || ptr && reflect.PtrTo(t.rt).Implements(v.Type())) {
			break
		}
	}
	p := reflect.New(t.rt)
	fill(p.Elem(), t, r, 0, anyTys)
	if ptr {
		v.Set(p)
	} else {
		v.Set(p.Elem())
	}
}
