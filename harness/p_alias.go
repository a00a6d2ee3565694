package main

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"

	"github.com/zerosnake0/jzon"
)

// churn uses the library so that pooled buffers are overwritten
func churn(r *rand.Rand) {
	for k := 0; k < 3; k++ {
		var o interface{}
		s := `["` + strings.Repeat("Z", r.Intn(700)) + `\n\u00e9` + strings.Repeat("Q", r.Intn(90)) + `",` + strings.Repeat("[", 3) + "-777.25" + strings.Repeat("]", 3) + `,{"ZZZZ":"QQQQ\t"}]`
		switch r.Intn(4) {
		case 0:
			jzon.Unmarshal([]byte(s), &o)
		case 1:
			jzon.UnmarshalFromReader(newChunkReader(r, []byte(s)), &o)
		case 2:
			var raw json.RawMessage
			jzon.UnmarshalFromReader(newChunkReader(r, []byte(s)), &raw)
		case 3:
			jzon.Marshal([]string{strings.Repeat("W", 300), "\n"})
			var b bytes.Buffer
			e := jzon.NewEncoder(&b)
			e.Encode(strings.Repeat("V", 100))
			e.Release()
		}
	}
}

func scribbleBytes(b []byte) {
	for i := range b {
		b[i] = 0xAA
	}
}

// fillCaps writes to the spare capacity of every slice in the value: nobody
// else may see that
func fillCaps(v reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			fillCaps(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			scribbleBytes(b[len(b):cap(b)])
			return
		}
		for i := 0; i < v.Len(); i++ {
			fillCaps(v.Index(i), depth+1)
		}
		if v.CanInterface() {
			w := v.Slice(v.Len(), v.Cap())
			for i := 0; i < w.Len(); i++ {
				w.Index(i).Set(reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillCaps(v.Index(i), depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			fillCaps(v.MapIndex(k), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fillCaps(v.Field(i), depth+1)
		}
	}
}

// wreck overwrites everything reachable from the value
func wreck(v reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			wreck(v.Elem(), depth+1)
			if v.Elem().CanSet() {
				v.Elem().Set(reflect.Zero(v.Elem().Type()))
			}
		}
	case reflect.Interface:
		if !v.IsNil() {
			wreck(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			scribbleBytes(b[:cap(b)])
			return
		}
		for i := 0; i < v.Len(); i++ {
			wreck(v.Index(i), depth+1)
			if v.Index(i).CanSet() {
				v.Index(i).Set(reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			wreck(v.Index(i), depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			wreck(v.MapIndex(k), depth+1)
			if v.CanInterface() {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			wreck(v.Field(i), depth+1)
		}
	}
}

// SharedMJ returns the same slice every time
type SharedMJ struct{ B []byte }

func (s SharedMJ) MarshalJSON() ([]byte, error) { return s.B, nil }
func (s SharedMJ) MarshalText() ([]byte, error) { return s.B, nil }

type SharedMT struct{ B []byte }

func (s SharedMT) MarshalText() ([]byte, error) { return s.B, nil }

var aliasModes = []string{"bytes", "bytes", "bytes", "string", "buffer", "iter", "reader", "iterval", "decoder"}

func aliasDecode(c *ctx) {
	r := c.r
	ty := randTy(r, 3, true)
	g := &docGen{r: r, ws: []int{0, 2, 6}[r.Intn(3)], long: r.Intn(6) == 0}
	x := g.doc(ty, 3)
	cfg := randCfg(r)
	mode := aliasModes[r.Intn(len(aliasModes))]
	dst, dst2 := reflect.New(ty.rt), reflect.New(ty.rt)
	ix := typeIndex{}
	ty.index(ix)
	for _, t := range anyPtrTys {
		t.index(ix)
	}
	d := newDefTab()
	tyE := ty.emit(d)
	prior := project(dst.Elem(), ty, ix, d)
	in, in2 := append(make([]byte, 0, len(x)+r.Intn(9)), x...), append([]byte{}, x...)
	spare := in[len(in):cap(in)]
	scribbleBytes(spare)
	out, err := runDec(cfg.cfg(), mode, in, dst.Interface(), r)
	said := ""
	if err != nil {
		said = string(append([]byte{}, err.Error()...))
	}
	if !bytes.Equal(in, x) {
		c.bad("decoding %q (%s) changed its input to %q", clip(x), mode, clip(in))
	}
	for _, b := range spare {
		if b != 0xAA {
			c.bad("decoding %q (%s) wrote behind its input", clip(x), mode)
			break
		}
	}
	scribbleBytes(in)
	if r.Intn(2) == 0 {
		churn(r)
	}
	runDec(cfg.cfg(), mode, in2, dst2.Interface(), r)
	wreck(dst2.Elem(), 0)
	fillCaps(dst.Elem(), 0)
	if r.Intn(2) == 0 {
		churn(r)
	}
	if err != nil && err.Error() != said {
		c.bad("the error of decoding %q (%s) was %q and is now %q", clip(x), mode, said, err.Error())
	}
	rec := M{"kind": "dec", "x": B(x), "ty": tyE, "prior": prior, "out": out, "mode": mode,
		"cs": cfg.cs, "duf": cfg.duf, "un": cfg.un, "only": cfg.only, "fl": floatTable(x), "msg": "", "val": M{"k": "opq"}}
	if err != nil {
		rec["msg"] = firstLine(err.Error())
	}
	if out == "ok" {
		rec["val"] = project(dst.Elem(), ty, ix, d)
	}
	rec["defs"] = d.emit()
	c.count("dec_" + out)
	c.emit(rec)
}

// the error of a text which is cut or damaged says the same later on
func aliasErrors(c *ctx) {
	r := c.r
	ty := randTy(r, 3, true)
	g := &docGen{r: r, ws: []int{0, 2, 6}[r.Intn(3)], long: r.Intn(6) == 0}
	x := g.doc(ty, 3)
	switch k := r.Intn(len(x) + 1); r.Intn(3) {
	case 0:
		x = x[:k]
	case 1:
		x = append(append(append([]byte{}, x[:k]...), "x,]}\"\\0\x01:"[r.Intn(9)]), x[k:]...)
	default:
		x = append(x, x...)
	}
	cfg := randCfg(r)
	mode := aliasModes[r.Intn(len(aliasModes))]
	in := append(make([]byte, 0, len(x)+r.Intn(9)), x...)
	out, err := runDec(cfg.cfg(), mode, in, reflect.New(ty.rt).Interface(), r)
	if !bytes.Equal(in, x) {
		c.bad("decoding %q (%s) changed its input to %q", clip(x), mode, clip(in))
	}
	c.count("bad_" + out)
	if err == nil || out == "panic" {
		return
	}
	said := string(append([]byte{}, err.Error()...))
	scribbleBytes(in)
	churn(r)
	if err.Error() != said {
		c.bad("the error of decoding %q (%s) was %q and is now %q", clip(x), mode, said, err.Error())
	}
}

// the results of iterator steps, looked at much later
func aliasSteps(c *ctx) {
	r := c.r
	g := &docGen{r: r, ws: []int{0, 2, 6}[r.Intn(3)], long: r.Intn(6) == 0}
	x := []byte{'['}
	what := r.Intn(5)
	for n := 1 + r.Intn(6); n > 0; n-- {
		if len(x) > 1 {
			x = append(x, ',')
		}
		switch what {
		case 0, 3:
			x = append(x, g.str()...)
		case 1:
			x = append(x, randNumText(r)...)
		default:
			x = g.any(x, 2)
		}
	}
	x = append(x, ']')
	in := append([]byte{}, x...)
	it := jzon.NewIterator()
	if r.Intn(2) == 0 {
		it.ResetBytes(in)
	} else {
		it.Reset(newChunkReader(r, in))
	}
	var ty *Ty
	dst := reflect.Value{}
	out, err := guard(func() error {
		more, err := it.ReadArrayBegin()
		switch what {
		case 0:
			ty = sliceOf(tyString)
			l := []string{}
			for err == nil && more {
				var s string
				if s, err = it.ReadString(); err == nil {
					l = append(l, s)
					more, err = it.ReadArrayMore()
				}
			}
			dst = reflect.ValueOf(&l).Elem()
		case 1:
			ty = sliceOf(tyNumber)
			l := []json.Number{}
			for err == nil && more {
				var s jzon.Number
				if s, err = it.ReadNumber(); err == nil {
					l = append(l, json.Number(s))
					more, err = it.ReadArrayMore()
				}
			}
			dst = reflect.ValueOf(&l).Elem()
		case 2:
			ty = sliceOf(tyRaw)
			l := []json.RawMessage{}
			for err == nil && more {
				var s []byte
				if s, err = it.ReadRaw(); err == nil {
					l = append(l, s)
					more, err = it.ReadArrayMore()
				}
			}
			dst = reflect.ValueOf(&l).Elem()
		case 3:
			ty = sliceOf(tyString)
			l := []string{}
			var bs [][]byte
			for err == nil && more {
				var s []byte
				if s, err = it.ReadStringAndAppend(make([]byte, 0, r.Intn(20))); err == nil {
					bs = append(bs, s)
					more, err = it.ReadArrayMore()
				}
			}
			churn(r)
			for _, b := range bs {
				l = append(l, string(b))
			}
			dst = reflect.ValueOf(&l).Elem()
		default:
			ty = sliceOf(tyAny)
			l := []interface{}{}
			for err == nil && more {
				var s interface{}
				if s, err = it.Read(); err == nil {
					l = append(l, s)
					more, err = it.ReadArrayMore()
				}
			}
			dst = reflect.ValueOf(&l).Elem()
		}
		return err
	})
	if out == "ok" && ty.E.T == "raw" {
		fillCaps(dst, 0)
	}
	scribbleBytes(in)
	it.Release()
	churn(r)
	if out == "panic" {
		c.bad("panic: %s", firstLine(err.Error()))
		return
	}
	rec := M{"kind": "dec", "x": B(x), "ty": ty.emit(nil), "prior": M{"k": "nil"}, "out": out, "mode": "steps",
		"cs": false, "duf": false, "un": false, "only": false, "fl": floatTable(x), "msg": "", "val": M{"k": "opq"}, "defs": []int{}}
	if out == "ok" {
		rec["val"] = project(dst, ty, typeIndex{}, nil)
	}
	c.count("steps_" + out)
	c.emit(rec)
}

func aliasEncode(c *ctx) {
	r := c.r
	ty := randEncTy(r, 3)
	p := reflect.New(ty.rt)
	fill(p.Elem(), ty, r, 4, dynTys)
	ix := typeIndex{encMode: tyAny}
	ty.index(ix)
	for _, t := range dynTys {
		t.index(ix)
	}
	d := newDefTab()
	tyE := ty.emit(d)
	ec := randEncCfg(r)
	val := project(p.Elem(), ty, ix, d)
	mode := encModes[r.Intn(len(encModes))]
	out, y, nl, err := runEnc(ec, mode, p)
	val2 := project(p.Elem(), ty, ix, d)
	if !reflect.DeepEqual(val, val2) {
		c.bad("encoding changed the value: %v to %v", val, val2)
	}
	if mode == "marshal" || mode == "marshalptr" {
		scribbleBytes(y[len(y):cap(y)])
		_, y2, _, _ := runEnc(ec, mode, p)
		scribbleBytes(y2[:cap(y2)])
	}
	wreck(p.Elem(), 0)
	churn(r)
	rec := M{"kind": "enc", "ty": tyE, "val": val, "out": out, "y": B(y), "nl": nl, "esc": ec.esc, "only": ec.only,
		"fl": floatTable(y), "mode": mode, "msg": "", "own": ownErr(err)}
	rec["defs"] = d.emit()
	c.count("enc_" + out)
	c.emit(rec)
	// the bytes of a marshaler are not touched
	raw := []byte(`{"a":"` + strings.Repeat("b", r.Intn(60)) + `"}`)
	keep := append([]byte{}, raw...)
	full := raw[:cap(raw)]
	for i := len(raw); i < len(full); i++ {
		full[i] = 0xAB
	}
	var o interface{}
	switch r.Intn(5) {
	case 0:
		o = SharedMJ{raw}
	case 1:
		o = []SharedMJ{{raw}, {raw}}
	case 2:
		o = SharedMT{raw}
	case 3:
		o = json.RawMessage(raw)
	default:
		o = map[string]interface{}{"x": json.RawMessage(raw), "y": raw}
	}
	b, err := jzon.Marshal(o)
	scribbleBytes(b)
	churn(r)
	if err != nil || !bytes.Equal(raw, keep) {
		c.bad("bytes of a marshaler changed to %q (%v)", raw, err)
	}
	for i := len(raw); i < len(full); i++ {
		if full[i] != 0xAB {
			c.bad("something was written behind the bytes of a marshaler")
		}
	}
}

// ---------------------------------------------------------------- C26

var gcMode = os.Getenv("VERIF_GC") != ""

var gcSink [][]byte

// gcNow collects garbage and reuses what was freed
func gcNow() {
	if !gcMode {
		return
	}
	runtime.GC()
	var l [][]byte
	for _, n := range []int{8, 16, 24, 32, 48, 64, 80, 96, 128, 256, 512, 1024} {
		for k := 0; k < 6; k++ {
			b := make([]byte, n)
			for i := range b {
				b[i] = 0xD0
			}
			l = append(l, b)
		}
	}
	runtime.KeepAlive(l)
}

func init() {
	profiles["alias"] = func(c *ctx) {
		switch c.r.Intn(6) {
		case 0, 1:
			aliasDecode(c)
		case 2:
			aliasSteps(c)
			for k := 0; k < 3; k++ {
				aliasErrors(c)
			}
		case 3: // who holds what was decoded before
			r := c.r
			ty := randTy(r, 3, true)
			if r.Intn(2) == 0 {
				ty = sliceOf(ty)
			}
			g := &docGen{r: r, ws: []int{0, 2, 6}[r.Intn(3)]}
			doDecode(c, ty, g.doc(ty, 3), randCfg(r), true, decModes[r.Intn(len(decModes))], anyPtrTys)
		default:
			aliasEncode(c)
		}
	}
	// collections inside readers, unmarshalers and marshalers
	profiles["gc"] = func(c *ctx) {
		r := c.r
		switch r.Intn(6) {
		case 0, 1, 2:
			ty := randTy(r, 3, true)
			if r.Intn(2) == 0 { // callbacks everywhere
				ty = []*Ty{sliceOf(ptrTo(tyJU)), mapOf(tyString, tyJU), mapOf(tyTK, ptrTo(tyTU)), sliceOf(mapOf(tyString, sliceOf(tyJUM))),
					structOf([]Fld{{GN: "A", Exp: true, Ty: ptrTo(tyJU)}, {GN: "B", Exp: true, Ty: sliceOf(tyTU)}, {GN: "C", Exp: true, Ty: tyAny}, {GN: "D", Exp: true, Ty: mapOf(tyString, tyJU)}})}[r.Intn(5)]
			}
			g := &docGen{r: r, ws: []int{0, 3}[r.Intn(2)], long: r.Intn(6) == 0}
			x := g.doc(ty, 3)
			doDecode(c, ty, x, randCfg(r), r.Intn(2) == 0, decModes[r.Intn(len(decModes))], anyPtrTys)
		case 3, 4:
			ty := randEncTy(r, 3)
			if r.Intn(2) == 0 {
				ty = []*Ty{sliceOf(tyMJ), mapOf(tyString, tyMJ), mapOf(tyTK, tyMT), sliceOf(ptrTo(tyMT)), structOf([]Fld{{GN: "A", Exp: true, Ty: tyAny}, {GN: "B", Exp: true, Ty: mapOf(tyString, tyMJ)}, {GN: "C", Exp: true, Ty: arrayOf(2, tyMT)}})}[r.Intn(5)]
			}
			p := reflect.New(ty.rt)
			fill(p.Elem(), ty, r, 4, dynTys)
			doEncode(c, ty, p, randEncCfg(r), encModes[r.Intn(len(encModes))], dynTys)
		default:
			profiles["session"](c)
		}
		gcNow()
	}
}
