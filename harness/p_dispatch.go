package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unsafe"

	"github.com/zerosnake0/jzon"
)

// C24: which codec handles a value.  The types (types_dispatch.go) have every
// combination of marshalers; half of them have codecs registered in the
// second configuration.

type dispDecl struct {
	rt   reflect.Type
	kind string
	j, t string
}

// Marked is an interface all these types implement
type Marked interface{ DispMark() }

// interfaces which (also) have the methods of the codecs
type (
	MarkedJ interface {
		Marked
		json.Marshaler
	}
	MarkedT interface {
		encoding.TextMarshaler
		Marked
	}
	MarkedUJ interface {
		Marked
		json.Unmarshaler
	}
	MarkedUT interface {
		encoding.TextUnmarshaler
		Marked
	}
)

func ifaceTys(t string, ps ...interface{}) []*Ty {
	out := []*Ty{}
	for _, p := range ps {
		out = append(out, &Ty{T: t, rt: reflect.TypeOf(p).Elem()})
	}
	return out
}

var tysMarked = append(ifaceTys("any", (*Marked)(nil)), mifTys()...)

func mifTys() []*Ty {
	ts := ifaceTys("mif", (*MarkedJ)(nil), (*MarkedT)(nil), (*json.Marshaler)(nil), (*encoding.TextMarshaler)(nil))
	for i, t := range ts {
		t.via, t.open = []string{"J", "T"}[i%2], i < 2
	}
	return ts
}

var tysMarkedDec = ifaceTys("iface", (*Marked)(nil), (*MarkedUJ)(nil), (*MarkedUT)(nil), (*json.Unmarshaler)(nil), (*encoding.TextUnmarshaler)(nil))

// show is what the codecs of a value see
func show(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'f', -1, v.Type().Bits())
	case reflect.Func:
		if v.IsNil() {
			return "nil"
		}
		return "func"
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return show(v.Elem())
	case reflect.Struct:
		s := []string{}
		for i := 0; i < v.NumField(); i++ {
			s = append(s, show(v.Field(i)))
		}
		return strings.Join(s, "/")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return "nil"
		}
		s := []string{}
		for i := 0; i < v.Len(); i++ {
			s = append(s, show(v.Index(i)))
		}
		return strings.Join(s, "+")
	case reflect.Map:
		if v.IsNil() {
			return "nil"
		}
		s := []string{}
		for _, k := range v.MapKeys() {
			s = append(s, k.String()+show(v.MapIndex(k)))
		}
		sort.Strings(s)
		return strings.Join(s, "+")
	}
	panic(harnessError("show " + v.Kind().String()))
}

var errDisp = fmt.Errorf("disp fails")

func dispJ(x interface{}) ([]byte, error) {
	gcNow()
	s := show(reflect.ValueOf(x))
	if strings.HasPrefix(s, "13") {
		return []byte("garbage"), errDisp
	}
	return []byte(`["J","` + s + `"]`), nil
}

func dispT(x interface{}) ([]byte, error) {
	gcNow()
	s := show(reflect.ValueOf(x))
	if strings.HasPrefix(s, "13") {
		return []byte("garbage"), errDisp
	}
	return []byte("T" + s), nil
}

// regEnc and regDec are the registered codecs
type regEnc struct{ rt reflect.Type }

func (e *regEnc) IsEmpty(ptr unsafe.Pointer) bool {
	// unlike what the kinds call empty
	return strings.HasPrefix(show(reflect.NewAt(e.rt, ptr).Elem()), "7")
}

func (e *regEnc) Encode(ptr unsafe.Pointer, s *jzon.Streamer, opts *jzon.EncOpts) {
	gcNow()
	if ptr == nil { // a nil pointer to the type
		s.Null()
		return
	}
	sh := show(reflect.NewAt(e.rt, ptr).Elem())
	if strings.HasPrefix(sh, "13") {
		s.Error = errDisp
		return
	}
	s.ArrayStart().String("R").String(sh).ArrayEnd()
}

type regDec struct{ rt reflect.Type }

func (d *regDec) Decode(ptr unsafe.Pointer, it *jzon.Iterator, opts *jzon.DecOpts) error {
	b, err := it.SkipRaw()
	if err != nil {
		return err
	}
	return dispMark(reflect.NewAt(d.rt, ptr).Elem(), "R", b)
}

// ---- decoding: the codecs leave a mark which leads to the log of calls
type dispCall struct {
	by   string
	b    []byte
	prev int
}

var (
	dispMu  sync.Mutex // a case of the decoding profile at a time
	dispLog []dispCall
)

func markBase(k reflect.Kind) int {
	switch k {
	case reflect.Uint8:
		return 100
	case reflect.Int16, reflect.Uint16:
		return 20000
	}
	return 7000000
}

func dispMark(v reflect.Value, by string, b []byte) error {
	gcNow()
	if bytes.Contains(b, []byte("13")) {
		return errDisp
	}
	prev := readMark(v)
	n := 0 // equal histories have equal marks (map keys are compared by them)
	for i, c := range dispLog {
		if c.by == by && c.prev == prev && bytes.Equal(c.b, b) {
			n = i + 1
			break
		}
	}
	if n == 0 {
		dispLog = append(dispLog, dispCall{by: by, b: append([]byte{}, b...), prev: prev})
		n = len(dispLog)
	}
	x := markBase(reflect.Int) + n
	if n > 150 {
		panic(harnessError("too many calls"))
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(markBase(v.Kind()) + n))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(markBase(v.Kind()) + n))
	case reflect.String:
		v.SetString("\x00" + strconv.Itoa(n))
	case reflect.Bool:
		v.SetBool(true) // without a mark
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(x))
	case reflect.Struct:
		if v.Field(0).Kind() == reflect.Ptr {
			v.Field(0).Set(reflect.ValueOf(&x))
		} else {
			v.Field(0).SetInt(int64(x))
		}
	case reflect.Slice:
		v.Set(reflect.ValueOf([]int{x}).Convert(v.Type()))
	case reflect.Map:
		v.Set(reflect.ValueOf(map[string]int{"#": x}).Convert(v.Type()))
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Ptr {
			v.Index(0).Set(reflect.ValueOf(&x))
		} else {
			v.Index(0).SetInt(int64(x))
		}
	default:
		panic(harnessError("mark " + v.Kind().String()))
	}
	return nil
}

// readMark: the number of the last call, or 0
func readMark(v reflect.Value) int {
	n := 0
	switch v.Kind() {
	case reflect.Int, reflect.Int16, reflect.Int32, reflect.Int64:
		n = int(v.Int()) - markBase(v.Kind())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		n = int(v.Uint()) - markBase(v.Kind())
	case reflect.Float32, reflect.Float64:
		n = int(v.Float()) - markBase(v.Kind())
	case reflect.String:
		if s := v.String(); len(s) > 1 && s[0] == 0 {
			n, _ = strconv.Atoi(s[1:])
		}
	case reflect.Ptr:
		if !v.IsNil() {
			return readMark(v.Elem())
		}
	case reflect.Struct:
		return readMark(v.Field(0))
	case reflect.Slice:
		if v.Len() == 1 {
			return readMark(v.Index(0))
		}
	case reflect.Array:
		return readMark(v.Index(0))
	case reflect.Map:
		if e := v.MapIndex(reflect.ValueOf("#")); e.IsValid() {
			return readMark(e)
		}
	}
	if n < 1 || n > len(dispLog) {
		return 0
	}
	return n
}

func dispCalls(n int) []interface{} {
	if n == 0 {
		return []interface{}{}
	}
	c := dispLog[n-1]
	return append(dispCalls(c.prev), M{"by": c.by, "b": B(c.b)})
}

// ---- types

type dispTy struct {
	decl dispDecl
	reg  bool
	nat  *Ty
	dec  bool // decoding: values are projected with the calls
}

// builtin types by name
var builtins = map[string]*Ty{"int": tyInt, "string": tyString, "u8": tyUint8, "bool": tyBool, "f64": tyFloat64,
	"int8": intTy(rtOf(int8(0)), 8, true), "int16": intTy(rtOf(int16(0)), 16, true), "int32": intTy(rtOf(int32(0)), 32, true),
	"int64": intTy(rtOf(int64(0)), 64, true), "uint": intTy(rtOf(uint(0)), 64, false), "uint16": intTy(rtOf(uint16(0)), 16, false),
	"uint32": intTy(rtOf(uint32(0)), 32, false), "uint64": intTy(rtOf(uint64(0)), 64, false),
	"uintptr": intTy(rtOf(uintptr(0)), 64, false), "float32": tyFloat32}

func intTy(rt reflect.Type, w int, sg bool) *Ty { return &Ty{T: "int", W: w, Sg: sg, rt: rt} }

func (w *dispWorld) builtin(k string) *Ty {
	if t := w.nat[k]; t != nil {
		return t
	}
	return builtins[k]
}

func natTy(w *dispWorld, d dispDecl) *Ty {
	tyInt, tyString := w.builtin("int"), w.builtin("string")
	var t *Ty
	switch d.kind {
	case "st":
		t = structOf([]Fld{{GN: "A", Exp: true, Ty: tyInt}, {GN: "B", Exp: true, Ty: tyInt}})
	case "st1":
		t = structOf([]Fld{{GN: "P", Exp: true, Ty: ptrTo(tyInt)}})
	case "sl":
		t = sliceOf(tyInt)
	case "map":
		t = mapOf(tyString, tyInt)
	case "ar1":
		t = arrayOf(1, ptrTo(tyInt))
	case "ar2":
		t = arrayOf(2, tyInt)
	case "ar0":
		t = arrayOf(0, tyInt)
	case "fn":
		t = tyFunc
	default:
		if t = w.builtin(d.kind); t == w.nat[d.kind] {
			return t
		}
	}
	cp := *t
	cp.rt = d.rt
	return &cp
}

func dispFill(v reflect.Value, r *rand.Rand) {
	small := func() int64 {
		if r.Intn(12) == 0 {
			return 13
		}
		return int64(r.Intn(10) - r.Intn(2))
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(small())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(small() & 15))
	case reflect.String:
		v.SetString([]string{"", "x", "13", "abc", "7"}[r.Intn(5)])
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(small()) + float64(r.Intn(2))/2)
	case reflect.Func:
		if r.Intn(2) == 0 {
			v.Set(reflect.ValueOf(func() {}).Convert(v.Type()))
		}
	case reflect.Ptr:
		if r.Intn(3) != 0 {
			x := int(small())
			v.Set(reflect.ValueOf(&x))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			dispFill(v.Field(i), r)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			dispFill(v.Index(i), r)
		}
	case reflect.Slice:
		if r.Intn(3) != 0 {
			n := r.Intn(3)
			s := reflect.MakeSlice(v.Type(), n, n)
			for i := 0; i < n; i++ {
				dispFill(s.Index(i), r)
			}
			v.Set(s)
		}
	case reflect.Map:
		if r.Intn(3) != 0 {
			m := reflect.MakeMap(v.Type())
			for i := r.Intn(3); i > 0; i-- {
				m.SetMapIndex(reflect.ValueOf([]string{"a", "b"}[r.Intn(2)]), reflect.ValueOf(int(small())))
			}
			v.Set(m)
		}
	}
}

func newDispTy(w *dispWorld, decl dispDecl, reg, dec bool) *Ty {
	x := &dispTy{decl: decl, reg: reg, nat: natTy(w, decl), dec: dec}
	t := &Ty{T: "disp", rt: decl.rt, disp: x}
	t.rnd = dispFill
	return t
}

func (x *dispTy) project(v reflect.Value, ix typeIndex, d *defTab) interface{} {
	if !x.dec {
		return M{"k": "disp", "s": B(show(v)), "nat": project(v, x.nat, ix, d)}
	}
	if x.reg || x.decl.j != "n" || x.decl.t != "n" {
		if n := readMark(v); n != 0 {
			return M{"k": "disp", "calls": dispCalls(n), "nat": M{"k": "nil"}}
		}
	}
	return M{"k": "disp", "calls": []interface{}{}, "nat": project(v, x.nat, ix, d)}
}

func (x *dispTy) keyText(v reflect.Value) string {
	if x.dec && x.decl.t != "n" {
		if n := readMark(v); n != 0 {
			return "T" + string(dispLog[n-1].b)
		}
	}
	return show(v)
}

func (x *dispTy) emit(d *defTab) M {
	return M{"t": "disp", "j": x.decl.j, "tx": x.decl.t, "reg": x.reg, "adr": false, "via": "", "nty": x.nat.emit(d)}
}

// the types of a configuration; registered: none, all, or every other one
type dispWorld struct {
	tys, keys []*Ty
	nat       map[string]*Ty // builtin types which have codecs
	enc       map[encCfg]*jzon.EncoderConfig
	dec       *jzon.DecoderConfig
}

func dispRegistered(mode, i int) bool {
	switch mode {
	case 1:
		return true
	case 2:
		return (i^i>>2^i>>3)&1 == 0
	}
	return false
}

const dispModes = 4 // 3: the builtin types have codecs, which all types of the kind share

func newDispWorld(mode int, dec bool) *dispWorld {
	w := &dispWorld{enc: map[encCfg]*jzon.EncoderConfig{}, nat: map[string]*Ty{}}
	encs := map[reflect.Type]jzon.ValEncoder{}
	decs := map[reflect.Type]jzon.ValDecoder{}
	if mode == 3 {
		for k, b := range builtins {
			if dec && (k == "bool" || k == "int8") { // cannot hold a mark
				continue
			}
			encs[b.rt] = &regEnc{b.rt}
			decs[b.rt] = &regDec{b.rt}
			d := dispDecl{rt: b.rt, kind: k, j: "n", t: "n"}
			w.nat[k] = newDispTy(w0, d, true, dec)
		}
		for _, k := range builtinNames {
			if w.nat[k] != nil {
				w.tys = append(w.tys, w.nat[k])
			}
		}
	}
	for i, d := range dispDecls {
		reg := dispRegistered(mode, i)
		if dec && (d.kind == "bool" || d.kind == "fn" || d.kind == "int8" || d.kind == "ar0") {
			continue
		}
		t := newDispTy(w, d, reg, dec)
		w.tys = append(w.tys, t)
		switch d.kind {
		case "int", "string", "u8", "int8", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64", "uintptr":
			w.keys = append(w.keys, t)
		case "st", "bool", "f64", "float32", "ar2":
			if !dec || d.t != "n" {
				w.keys = append(w.keys, t)
			}
		case "st1", "ar1":
			if !dec {
				w.keys = append(w.keys, t)
			}
		}
		if reg {
			encs[d.rt] = &regEnc{d.rt}
			decs[d.rt] = &regDec{d.rt}
		}
	}
	if !dec {
		for _, t := range w.keys[:len(w.keys):len(w.keys)] {
			if t.disp.decl.t != "n" {
				w.keys = append(w.keys, ptrTo(t))
			}
		}
		for _, t := range mifTys() {
			if t.via == "T" {
				w.keys = append(w.keys, t, t, t)
			}
		}
	}
	for _, esc := range []bool{false, true} {
		w.enc[encCfg{esc: esc}] = jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: esc, ValEncoders: encs})
	}
	w.dec = jzon.NewDecoderConfig(&jzon.DecoderOption{ValDecoders: decs})
	return w
}

// w0: no builtin type has a codec
var w0 = &dispWorld{}

var builtinNames = func() []string {
	out := []string{}
	for k := range builtins {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}()

func randDispTy(r *rand.Rand, w *dispWorld, depth int, iface []*Ty) *Ty {
	k := r.Intn(14)
	if depth <= 0 && k >= 6 {
		k = r.Intn(6)
	}
	switch k {
	case 0, 1, 2, 3, 4:
		return w.tys[r.Intn(len(w.tys))]
	case 5:
		if r.Intn(2) == 0 {
			return iface[r.Intn(len(iface))]
		}
		return tyAny
	case 6, 7, 8:
		return ptrTo(randDispTy(r, w, depth-1, iface))
	case 9:
		return sliceOf(randDispTy(r, w, depth-1, iface))
	case 10:
		return arrayOf(r.Intn(3), randDispTy(r, w, depth-1, iface))
	case 11:
		kt := w.builtin("string")
		if r.Intn(2) == 0 {
			kt = w.keys[r.Intn(len(w.keys))]
		}
		return mapOf(kt, randDispTy(r, w, depth-1, iface))
	default:
		return randStructOf(r, 1+r.Intn(3), func() *Ty { return randDispTy(r, w, depth-1, iface) })
	}
}

func init() {
	encWorlds := make([]*dispWorld, dispModes)
	decWorlds := make([]*dispWorld, dispModes)
	var once sync.Once
	setup := func() {
		for m := range encWorlds {
			encWorlds[m], decWorlds[m] = newDispWorld(m, false), newDispWorld(m, true)
		}
	}
	profiles["dispenc"] = func(c *ctx) {
		once.Do(setup)
		r := c.r
		m := r.Intn(dispModes)
		w := encWorlds[m]
		if n := len(encWorlds[3].tys); c.i < 7*n*dispModes { // every type in the simple places first
			m = c.i % dispModes
			w = encWorlds[m]
			ty := w.tys[c.i/dispModes%n%len(w.tys)]
			switch c.i / dispModes / n {
			case 1:
				ty = ptrTo(ty)
			case 2, 4, 5:
				ty = structOf([]Fld{{GN: "X", Exp: true, Ty: ty}, {GN: "O", Exp: true, Tagged: true, Om: true, Ty: ty}})
				c.dispFix = c.i/dispModes/n - 3
			case 3:
				ty = mapOf(w.builtin("string"), ty)
			case 6:
				ty = mapOf(w.keys[c.i/dispModes%n%len(w.keys)], w.builtin("int"))
			}
			dispEnc(c, w, m, ty)
			return
		}
		dispEnc(c, w, m, randDispTy(r, w, 3, tysMarked))
	}
	profiles["dispdec"] = func(c *ctx) {
		once.Do(setup)
		r := c.r
		m := r.Intn(dispModes)
		w := decWorlds[m]
		ty := randDispTy(r, w, 3, tysMarkedDec)
		var anyTys []*Ty
		for i := 0; i < 8; i++ {
			anyTys = append(anyTys, w.tys[r.Intn(len(w.tys))])
		}
		g := &docGen{r: r, ws: []int{0, 2, 6}[r.Intn(3)], bad: []int{0, 12, 40}[r.Intn(3)]}
		x := g.doc(ty, 3)
		dispMu.Lock()
		defer dispMu.Unlock()
		dispLog = dispLog[:0]
		c.dec = w.dec
		if m == 0 && r.Intn(2) == 0 {
			c.dec = nil
		}
		doDecode(c, ty, x, decCfg{}, r.Intn(2) == 0, decModes[r.Intn(len(decModes))], anyTys)
	}
}

// dispNonZero: a value which is not empty
func dispNonZero(v reflect.Value) {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(3)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(3)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(0.5)
	case reflect.String:
		v.SetString("x")
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
	case reflect.Map:
		v.Set(reflect.ValueOf(map[string]int{"a": 0}).Convert(v.Type()))
	case reflect.Func:
		v.Set(reflect.ValueOf(func() {}).Convert(v.Type()))
	}
}

func dispEnc(c *ctx, w *dispWorld, m int, ty *Ty) {
	r := c.r
	p := reflect.New(ty.rt)
	dyn := append([]*Ty{}, dynTys[:10]...)
	if m == 3 {
		i, s := w.builtin("int"), w.builtin("string")
		dyn = []*Ty{i, s, ptrTo(i), sliceOf(i), mapOf(s, i), tyAny, w.builtin("bool"), w.builtin("f64"), sliceOf(tyAny), mapOf(s, tyAny)}
	}
	for i := 0; i < 12; i++ {
		dyn = append(dyn, w.tys[r.Intn(len(w.tys))])
	}
	fill(p.Elem(), ty, r, 4, dyn)
	switch c.dispFix { // what omitempty omits, and what not
	case 1:
		p.Elem().Field(1).Set(reflect.Zero(p.Elem().Field(1).Type()))
	case 2:
		dispNonZero(p.Elem().Field(1))
	}
	ec := encCfg{esc: r.Intn(2) == 0}
	cfg := w.enc[ec]
	if m == 0 && ec.esc && r.Intn(2) == 0 {
		cfg = jzon.DefaultEncoderConfig
	}
	mode := encModes[r.Intn(len(encModes)-1)] // not "encset"
	ix := typeIndex{encMode: tyAny}
	ty.index(ix)
	for _, t := range dyn {
		t.index(ix)
	}
	d := newDefTab()
	rty := ty
	if mode == "marshalptr" {
		rty = ptrTo(ty)
	} else if ty.T == "mif" { // passed as the value it holds
		rty = tyAny
	}
	tyE := rty.emit(d)
	val := project(p.Elem(), ty, ix, d)
	if mode == "marshalptr" {
		val = M{"k": "ptr", "p": val}
	}
	out, y, nl, err := runEncCfg(cfg, ec, mode, p)
	rec := M{"kind": "enc", "ty": tyE, "val": val, "out": out, "y": B(y), "nl": nl, "esc": ec.esc, "only": false,
		"fl": floatTable(y), "mode": mode, "msg": "", "own": ownErr(err)}
	if err != nil {
		rec["msg"] = firstLine(err.Error())
	}
	rec["defs"] = d.emit()
	rec["go"] = firstLine(ty.rt.String())
	c.count("out_" + out)
	c.emit(rec)
}

// ownErr: the error is that of one of the harness's codecs
func ownErr(err error) bool { return err != nil && strings.Contains(err.Error(), " fails") }

var _ = json.Marshal
