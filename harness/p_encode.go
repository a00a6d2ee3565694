package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"math/rand"
	"reflect"

	"github.com/zerosnake0/jzon"
)

type encCfg struct{ esc, only bool }

var encCfgs = map[encCfg]*jzon.EncoderConfig{}

func init() {
	for i := 0; i < 4; i++ {
		c := encCfg{esc: i&1 != 0, only: i&2 != 0}
		encCfgs[c] = jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: c.esc, OnlyTaggedField: c.only})
	}
	encCfgs[encCfg{esc: true}] = jzon.DefaultEncoderConfig
}

func randEncCfg(r *rand.Rand) encCfg { return encCfg{esc: r.Intn(2) == 0, only: r.Intn(8) == 0} }

var encModes = []string{"marshal", "marshal", "marshalptr", "encoder", "streamer", "encset"}

// runEnc encodes the value behind p
func runEnc(ec encCfg, mode string, p reflect.Value) (out string, y []byte, nl bool, err error) {
	return runEncCfg(encCfgs[ec], ec, mode, p)
}

func runEncCfg(cfg *jzon.EncoderConfig, ec encCfg, mode string, p reflect.Value) (out string, y []byte, nl bool, err error) {
	out, err = guard(func() (err error) {
		switch mode {
		case "marshal":
			y, err = cfg.Marshal(p.Elem().Interface())
			return err
		case "marshalptr":
			y, err = cfg.Marshal(p.Interface())
			return err
		case "encoder":
			var b bytes.Buffer
			e := cfg.NewEncoder(&b)
			defer e.Release()
			err = e.Encode(p.Elem().Interface())
			y, nl = b.Bytes(), true
			return err
		case "encset": // the setting is overridden at run time
			var b bytes.Buffer
			e := encCfgs[encCfg{esc: !ec.esc, only: ec.only}].NewEncoder(&b)
			defer e.Release()
			e.SetEscapeHTML(ec.esc)
			err = e.Encode(p.Elem().Interface())
			y, nl = b.Bytes(), true
			return err
		case "streamer":
			var b bytes.Buffer
			s := cfg.NewStreamer()
			defer s.Release()
			s.Reset(&b)
			err = s.Value(p.Elem().Interface()).Flush()
			y = b.Bytes()
			return err
		}
		panic(harnessError(mode))
	})
	return
}

func doEncode(c *ctx, ty *Ty, p reflect.Value, ec encCfg, mode string, dyn []*Ty) (string, []byte) {
	ix := typeIndex{encMode: tyAny}
	ty.index(ix)
	for _, t := range dyn {
		t.index(ix)
	}
	d := newDefTab()
	tyE := ty.emit(d)
	val := project(p.Elem(), ty, ix, d)
	if c.gate != nil {
		c.gate()
	}
	cfg := c.enc
	if cfg == nil {
		cfg = encCfgs[ec]
	}
	out, y, nl, err := runEncCfg(cfg, ec, mode, p)
	rec := M{"kind": "enc", "ty": tyE, "val": val, "out": out, "y": B(y), "nl": nl, "esc": ec.esc, "only": ec.only,
		"fl": floatTable(y), "mode": mode, "msg": "", "own": ownErr(err)}
	if err != nil {
		rec["msg"] = firstLine(err.Error())
	}
	rec["defs"] = d.emit()
	c.count("out_" + out)
	c.emit(rec)
	return out, y
}

var (
	tyWild64 = &Ty{T: "float", W: 64, rt: rtOf(float64(0)), Wild: true}
	tyWild32 = &Ty{T: "float", W: 32, rt: rtOf(float32(0)), Wild: true}
	tyChan   = &Ty{T: "bad", rt: rtOf(make(chan int))}
	tyFunc   = &Ty{T: "bad", rt: rtOf(func() {})}
	tyCplx   = &Ty{T: "bad", rt: rtOf(complex64(0))}
	tyBadMap = &Ty{T: "bad", rt: rtOf(map[struct{ A int }]int{})}
)

// MJ is a json.Marshaler, MT an encoding.TextMarshaler (value receivers)
type MJ struct {
	R    string
	Fail bool
}

func (m MJ) MarshalJSON() ([]byte, error) {
	gcNow()
	if m.Fail {
		return []byte("garbage"), errors.New("MJ fails")
	}
	if m.R == "" {
		return []byte("0"), nil
	}
	return []byte(m.R), nil
}

type MT struct {
	S    string
	Fail bool
}

func (m MT) MarshalText() ([]byte, error) {
	gcNow()
	if m.Fail {
		return []byte("garbage"), errors.New("MT fails")
	}
	return []byte(m.S), nil
}

// the same on other kinds
type MJS string

func (m MJS) MarshalJSON() ([]byte, error) { return json.Marshal(string(m) + "!") }

type MTM map[string]int

func (m MTM) MarshalText() ([]byte, error) { return []byte{'m', byte('0' + len(m))}, nil }

var (
	tyMJ = &Ty{T: "jm", rt: rtOf(MJ{}),
		proj: func(v reflect.Value) interface{} {
			m := v.Interface().(MJ)
			b := m.R
			if b == "" {
				b = "0"
			}
			return M{"k": "jm", "r": B(b), "fails": m.Fail, "empty": false}
		},
		rnd: func(v reflect.Value, r *rand.Rand) {
			v.Set(reflect.ValueOf(MJ{R: []string{"1", `"<x>"`, `{"a":[1,2]}`, "null", `[ ]`}[r.Intn(5)], Fail: r.Intn(12) == 0}))
		}}
	tyMT = &Ty{T: "tm", rt: rtOf(MT{}),
		proj: func(v reflect.Value) interface{} {
			m := v.Interface().(MT)
			return M{"k": "tm", "s": B(m.S), "fails": m.Fail, "empty": false}
		},
		rnd: func(v reflect.Value, r *rand.Rand) {
			v.Set(reflect.ValueOf(MT{S: randGoString(r), Fail: r.Intn(12) == 0}))
		}}
	tyMJS = &Ty{T: "jm", rt: rtOf(MJS("")),
		proj: func(v reflect.Value) interface{} {
			b, _ := json.Marshal(v.String() + "!")
			return M{"k": "jm", "r": B(b), "fails": false, "empty": v.String() == ""}
		},
		rnd: func(v reflect.Value, r *rand.Rand) { v.SetString([]string{"", "a", "<"}[r.Intn(3)]) }}
	tyMTM = &Ty{T: "tm", rt: rtOf(MTM{}),
		proj: func(v reflect.Value) interface{} {
			return M{"k": "tm", "s": B{'m', byte('0' + v.Len())}, "fails": false, "empty": v.Len() == 0}
		},
		rnd: func(v reflect.Value, r *rand.Rand) {
			switch r.Intn(3) {
			case 0:
				v.Set(reflect.ValueOf(MTM{}))
			case 1:
				v.Set(reflect.ValueOf(MTM{"a": 1}))
			}
		}}
)

// randEncTy: types to encode
func randEncTy(r *rand.Rand, depth int) *Ty {
	if r.Intn(40) == 0 {
		return recTys[r.Intn(len(recTys))]
	}
	k := r.Intn(16)
	if depth <= 0 && k >= 8 {
		k = r.Intn(8)
	}
	switch k {
	case 0, 1, 2:
		return scalarTys[r.Intn(len(scalarTys))]
	case 3:
		return tyString
	case 4:
		return tyAny
	case 5:
		return []*Ty{tyNumber, tyRaw, tyNumber, tyRaw, tyWild32, tyWild64}[r.Intn(6)]
	case 6:
		return []*Ty{tyMJ, tyMT, tyMJS, tyMTM}[r.Intn(4)]
	case 7:
		if r.Intn(6) == 0 {
			return []*Ty{tyChan, tyFunc, tyCplx, tyBadMap}[r.Intn(4)]
		}
		return tyAny
	case 8, 9:
		return ptrTo(randEncTy(r, depth-1))
	case 10, 11:
		return sliceOf(randEncTy(r, depth-1))
	case 12:
		return arrayOf(r.Intn(4), randEncTy(r, depth-1))
	case 13:
		return mapOf(randKeyTy(r), randEncTy(r, depth-1))
	default:
		return randStructOf(r, 1+r.Intn(4), func() *Ty { return randEncTy(r, depth-1) })
	}
}

// encodePlaced: a field which may be left out, of every type, with every
// kind of empty value (an interface with an empty value in it, too)
func encodePlaced(c *ctx, i int) {
	r := c.r
	leafs := append(append(append([]*Ty{}, scalarTys...), dynTys...), arrayOf(0, tyInt), arrayOf(1, tyInt), structOf(nil), ptrTo(tyMJ), ptrTo(tyMT), ptrTo(sliceOf(tyInt)), tyWild64, tyAny, tyAny, tyAny)
	t := leafs[i%len(leafs)]
	f := Fld{GN: "A", Exp: true, Tagged: true, TN: "a", Om: r.Intn(4) != 0, Str: r.Intn(4) == 0, Ty: t}
	fs := []Fld{f}
	switch r.Intn(4) {
	case 0:
		fs = append(fs, Fld{GN: "B", Exp: true, Ty: t})
	case 1:
		fs = []Fld{{GN: "B", Exp: true, Tagged: true, Om: true, Ty: tyAny}, f}
	}
	ty := structOf(fs)
	p := reflect.New(ty.rt)
	for k := range fs {
		v := p.Elem().Field(k)
		switch {
		case fs[k].Ty.T == "any" && r.Intn(3) != 0:
			d := dynTys[r.Intn(len(dynTys))]
			q := reflect.New(d.rt)
			if r.Intn(2) == 0 {
				fill(q.Elem(), d, r, 1, dynTys)
			}
			if d.T != "any" {
				v.Set(q.Elem())
			}
		case r.Intn(3) == 0: // the zero value
		case r.Intn(3) == 0 && v.Kind() == reflect.Slice && fs[k].Ty.T != "raw": // (a RawMessage has to hold a text)
			v.Set(reflect.MakeSlice(v.Type(), 0, r.Intn(2)))
		case r.Intn(3) == 0 && v.Kind() == reflect.Map:
			v.Set(reflect.MakeMap(v.Type()))
		case r.Intn(3) == 0 && v.Kind() == reflect.Ptr:
			v.Set(reflect.New(v.Type().Elem()))
		default:
			fill(v, fs[k].Ty, r, 2, dynTys)
		}
	}
	doEncode(c, ty, p, randEncCfg(r), encModes[r.Intn(len(encModes))], dynTys)
}

// dynamic types put into interfaces
var dynTys = []*Ty{tyInt, tyString, ptrTo(tyInt), sliceOf(tyInt), mapOf(tyString, tyInt), tyAny, tyBool, tyFloat64, sliceOf(tyAny), mapOf(tyString, tyAny),
	structOf([]Fld{{GN: "A", Exp: true, Tagged: true, TN: "a", Ty: tyInt}, {GN: "B", Exp: true, Tagged: true, TN: "b", Ty: tyString}}),
	structOf([]Fld{{GN: "P", Exp: true, Ty: ptrTo(tyInt)}}), arrayOf(1, ptrTo(tyInt)), tyMJ, tyMT, tyMTM, tyMJS, tyUint8, tyRaw, tyNumber, sliceOf(tyUint8)}

func init() {
	profiles["encode"] = func(c *ctx) {
		r := c.r
		if c.i%4 == 0 {
			encodePlaced(c, c.i/4)
			return
		}
		ty := randEncTy(r, 3)
		p := reflect.New(ty.rt)
		fill(p.Elem(), ty, r, 4, dynTys)
		doEncode(c, ty, p, randEncCfg(r), encModes[r.Intn(len(encModes))], dynTys)
	}
}
