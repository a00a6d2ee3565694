package main

import (
	"math/rand"
	"reflect"
	"unicode/utf8"

	"github.com/zerosnake0/jzon"
)

// randRtTy: types whose values survive a round trip
func randRtTy(r *rand.Rand, depth int) *Ty {
	if r.Intn(40) == 0 {
		return recTys[r.Intn(len(recTys))]
	}
	k := r.Intn(14)
	if depth <= 0 && k >= 6 {
		k = r.Intn(6)
	}
	switch k {
	case 0, 1, 2:
		return scalarTys[r.Intn(len(scalarTys))]
	case 3:
		return tyString
	case 4:
		return tyAny
	case 5:
		return []*Ty{tyNumber, tyRaw, {T: "slice", E: tyUint8, rt: rtOf([]byte{})}, {T: "slice", E: scalarTys[22], rt: rtOf([]NByte{})}}[r.Intn(4)]
	case 6, 7:
		return ptrTo(randRtTy(r, depth-1))
	case 8, 9:
		return sliceOf(randRtTy(r, depth-1))
	case 10:
		return arrayOf(r.Intn(4), randRtTy(r, depth-1))
	case 11:
		return mapOf(randKeyTy(r), randRtTy(r, depth-1))
	default:
		n := 1 + r.Intn(5)
		if r.Intn(12) == 0 {
			n = 6 + r.Intn(8)
		}
		return randStructOf(r, n, func() *Ty { return randRtTy(r, depth-1) })
	}
}

// badKeys: keys which are not valid UTF-8
func badKeys(o interface{}) bool {
	switch x := o.(type) {
	case M:
		for k, v := range x {
			if b, ok := v.(B); ok && k == "mk" && !utf8.Valid(b) {
				return true
			}
			if badKeys(v) {
				return true
			}
		}
	case []interface{}:
		for _, v := range x {
			if badKeys(v) {
				return true
			}
		}
	}
	return false
}

func init() {
	profiles["roundtrip"] = func(c *ctx) {
		r := c.r
		ty := randRtTy(r, 3)
		ec := randEncCfg(r)
		dc := decCfg{cs: r.Intn(2) == 0, duf: r.Intn(2) == 0, only: ec.only}
		roundTrip(c, ty, ec, r.Intn(len(encModes)), encCfgs[ec], decCfgs[dc])
	}
	profiles["texttrip"] = func(c *ctx) {
		r := c.r
		g := &docGen{r: r, ws: []int{0, 2, 6}[r.Intn(3)]}
		x := g.sp(g.any(g.sp(nil), 4))
		un := r.Intn(2) == 0
		var o interface{}
		out, err := runDec(decCfgs[decCfg{un: un}], decModes[r.Intn(len(decModes))], append([]byte{}, x...), &o, r)
		var y []byte
		if out == "ok" {
			out, y, _, err = runEnc(randEncCfg(r), encModes[r.Intn(len(encModes))], reflect.ValueOf(&o))
		}
		rec := M{"kind": "rtu", "x": B(x), "y": B(y), "out": out, "un": un, "cs": false, "duf": false, "only": false,
			"fl": floatTable(append(append(append([]byte{}, x...), ' '), y...)), "defs": []int{}, "msg": ""}
		if err != nil {
			rec["msg"] = firstLine(err.Error())
		}
		c.count("out_" + out)
		c.emit(rec)
	}
}

// roundTrip: encode a value and decode the text into a fresh one
func roundTrip(c *ctx, ty *Ty, ec encCfg, mode int, enc *jzon.EncoderConfig, dec *jzon.DecoderConfig) {
	roundTripOf(c, ty, ec, mode, enc, dec, func(v reflect.Value) { fill(v, ty, c.r, 4, nil) })
}

func roundTripOf(c *ctx, ty *Ty, ec encCfg, mode int, enc *jzon.EncoderConfig, dec *jzon.DecoderConfig, fill func(reflect.Value)) {
	r := c.r
	ix := typeIndex{}
	ty.index(ix)
	d := newDefTab()
	tyE := ty.emit(d)
	var p reflect.Value
	var val interface{}
	for {
		p = reflect.New(ty.rt)
		fill(p.Elem())
		val = project(p.Elem(), ty, ix, d)
		if !badKeys(val) {
			break
		}
	}
	out, y, _, err := runEncCfg(enc, ec, encModes[mode], p)
	q := reflect.New(ty.rt)
	if out == "ok" {
		out, err = runDec(dec, decModes[r.Intn(len(decModes))], append([]byte{}, y...), q.Interface(), r)
	}
	rec := M{"kind": "rt", "ty": tyE, "val": val, "v2": project(q.Elem(), ty, ix, d), "y": B(y), "out": out, "only": ec.only, "msg": ""}
	if err != nil {
		rec["msg"] = firstLine(err.Error())
	}
	rec["defs"] = d.emit()
	c.count("out_" + out)
	c.emit(rec)
}
