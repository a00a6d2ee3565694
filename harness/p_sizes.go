package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
)

// large containers: sizes around the powers of two
func randSize(r *rand.Rand, max int) int {
	for {
		n := 1<<uint(2+r.Intn(15)) + r.Intn(5) - 2
		if r.Intn(4) == 0 {
			n = n / 2 * 3
		}
		if n <= max {
			return n
		}
	}
}

// sizeVal sets v to a large value of the type, of n parts
func sizeFill(v reflect.Value, ty *Ty, r *rand.Rand, n int) {
	switch ty.T {
	case "string":
		var sb strings.Builder
		k := r.Intn(4)
		for sb.Len() < n {
			if k == 0 || k != 1 && r.Intn(40) != 0 {
				sb.WriteByte(byte('a' + r.Intn(26)))
			} else {
				sb.WriteRune(runePool[r.Intn(len(runePool))])
			}
		}
		v.SetString(sb.String())
	case "number":
		b := []byte{byte('1' + r.Intn(9))}
		for len(b) < n {
			b = append(b, byte('0'+r.Intn(10)))
		}
		v.SetString(string(b))
	case "raw":
		v.SetBytes([]byte(`"` + strings.Repeat("r", n) + `"`))
	case "slice":
		s := reflect.MakeSlice(ty.rt, n, n)
		for i := 0; i < n; i++ {
			fill(s.Index(i), ty.E, r, 1, nil)
		}
		v.Set(s)
	case "array":
		for i := 0; i < ty.N; i++ {
			fill(v.Index(i), ty.E, r, 1, nil)
		}
	case "map":
		m := reflect.MakeMap(ty.rt)
		for i := 0; m.Len() < n && i < 3*n; i++ {
			k := reflect.New(ty.Key.rt).Elem()
			switch {
			case ty.Key.T == "string":
				k.SetString(fmt.Sprintf("%d%s", i, pickKey(r)))
			case ty.Key.Sg:
				k.SetInt(randInt(r, ty.Key.W))
			default:
				k.SetUint(randUint(r, ty.Key.W))
			}
			e := reflect.New(ty.E.rt).Elem()
			fill(e, ty.E, r, 1, nil)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case "struct":
		for i := range ty.Def.Fields {
			f := ty.Def.Fields[i].Ty
			if n > 0 && (f.T == "slice" || f.T == "map") || f.T == "string" && n > 64 {
				sizeFill(settable(v.Field(i)), f, r, n)
			} else {
				fill(settable(v.Field(i)), f, r, 1, nil)
			}
		}
	case "ptr":
		p := reflect.New(ty.E.rt)
		sizeFill(p.Elem(), ty.E, r, n)
		v.Set(p)
	default:
		fill(v, ty, r, 1, nil)
	}
}

// sizeTy picks a type with a large value of it
func sizeTy(r *rand.Rand) (*Ty, int) {
	bytesTy := &Ty{T: "slice", E: tyUint8, rt: rtOf([]byte{})}
	small := []*Ty{tyInt, tyBool, tyUint8, scalarTys[r.Intn(len(scalarTys))], tyFloat64}[r.Intn(5)]
	switch r.Intn(12) {
	case 0:
		return bytesTy, randSize(r, 12000)
	case 1:
		return tyString, randSize(r, 9000)
	case 2:
		return sliceOf(small), randSize(r, 1100)
	case 3:
		return sliceOf(tyString), randSize(r, 140)
	case 4:
		return mapOf(tyString, small), randSize(r, 140)
	case 5:
		return mapOf([]*Ty{scalarTys[1+r.Intn(8)], tyInt}[r.Intn(2)], small), randSize(r, 70)
	case 6:
		return arrayOf(randSize(r, 600), small), 1
	case 7:
		return tyNumber, randSize(r, 2100)
	case 8:
		return tyRaw, randSize(r, 9000)
	case 9: // a struct of many fields
		n := randSize(r, 140)
		fs := make([]Fld, n)
		for i := range fs {
			fs[i] = Fld{GN: fmt.Sprintf("F%d", i), Exp: true, Ty: scalarTys[r.Intn(len(scalarTys))]}
			if r.Intn(3) == 0 {
				fs[i].Tagged, fs[i].TN = true, fmt.Sprintf("f%d", i)
			}
			if r.Intn(5) == 0 {
				fs[i].TN, fs[i].Tagged = strings.Repeat("n", 1+r.Intn(90))+fmt.Sprint(i), true
			}
		}
		return structOf(fs), 0
	case 10: // large parts of small values
		return structOf([]Fld{{GN: "A", Exp: true, Ty: tyString}, {GN: "B", Exp: true, Ty: bytesTy}, {GN: "C", Exp: true, Ty: tyInt}}), randSize(r, 5000)
	default: // a long chain of pointers
		ty := small
		for i := randSize(r, 70); i > 0; i-- {
			ty = ptrTo(ty)
		}
		return ty, 1
	}
}

func init() {
	profiles["sizeenc"] = func(c *ctx) {
		r := c.r
		ty, n := sizeTy(r)
		p := reflect.New(ty.rt)
		sizeFill(p.Elem(), ty, r, n)
		doEncode(c, ty, p, randEncCfg(r), encModes[r.Intn(len(encModes))], dynTys)
	}
	profiles["sizedec"] = func(c *ctx) {
		r := c.r
		ty, n := sizeTy(r)
		p := reflect.New(ty.rt)
		sizeFill(p.Elem(), ty, r, n)
		x, err := json.Marshal(p.Interface())
		if err != nil {
			panic(harnessError(err.Error()))
		}
		if n := r.Intn(3); r.Intn(6) == 0 && len(x) > n {
			x = x[:len(x)-n]
		}
		switch r.Intn(5) {
		case 0:
			ty = tyAny
		case 1:
			ty = tyRaw
		}
		doDecode(c, ty, x, randCfg(r), r.Intn(3) == 0, decModes[r.Intn(len(decModes))], anyPtrTys)
	}
	profiles["sizert"] = func(c *ctx) {
		r := c.r
		ty, n := sizeTy(r)
		ec := randEncCfg(r)
		dc := decCfg{cs: r.Intn(2) == 0, duf: r.Intn(2) == 0, only: ec.only}
		roundTripOf(c, ty, ec, r.Intn(len(encModes)), encCfgs[ec], decCfgs[dc], func(v reflect.Value) { sizeFill(v, ty, r, n) })
	}
}
