package main

import (
	"bytes"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/zerosnake0/jzon"
)

// ---------------------------------------------------------------- C15

var strVias = []string{"marshal", "streamer", "key", "field", "quoted", "text", "elem", "iface", "textkey"}

var quotedStr = structOf([]Fld{{GN: "A", Exp: true, Tagged: true, TN: "a", Str: true, Ty: tyString}})

// encStr encodes a string in some way; place: where the literal stands
func encStr(ec encCfg, via, s string) (place string, y []byte, out string) {
	cfg := encCfgs[ec]
	place = "val"
	out, _ = guard(func() (err error) {
		switch via {
		case "marshal":
			y, err = cfg.Marshal(s)
		case "streamer":
			var b bytes.Buffer
			st := cfg.NewStreamer()
			defer st.Release()
			st.Reset(&b)
			err = st.String(s).Flush()
			y = b.Bytes()
		case "key":
			place = "key"
			y, err = cfg.Marshal(map[string]int{s: 1})
		case "textkey":
			place = "key"
			y, err = cfg.Marshal(map[TK]int{{S: s}: 1})
		case "field":
			place = "key"
			var b bytes.Buffer
			st := cfg.NewStreamer()
			defer st.Release()
			st.Reset(&b)
			err = st.ObjectStart().Field(s).Int(1).ObjectEnd().Flush()
			y = b.Bytes()
		case "quoted":
			place = "quoted"
			v := reflect.New(quotedStr.rt).Elem()
			v.Field(0).SetString(s)
			y, err = cfg.Marshal(v.Interface())
		case "text":
			y, err = cfg.Marshal(MT{S: s})
		case "elem":
			place = "elem"
			y, err = cfg.Marshal([]string{s})
		case "iface":
			var o interface{} = NString(s)
			y, err = cfg.Marshal(&o)
		}
		return err
	})
	return
}

func strBatch(c *ctx, l []string) {
	r := c.r
	esc := r.Intn(2) == 0
	vias := []string{strVias[r.Intn(len(strVias))]}
	if c.tier == "thorough" {
		vias = strVias
	} else {
		vias = append(vias, strVias[r.Intn(len(strVias))])
	}
	for _, via := range vias {
		esc = !esc
		items := []interface{}{}
		var place string
		for _, s := range l {
			var y []byte
			var out string
			place, y, out = encStr(encCfg{esc: esc}, via, s)
			items = append(items, M{"s": B(s), "y": B(y), "out": out})
		}
		c.countN("checks", len(items))
		c.emit(M{"kind": "encs", "via": via, "place": place, "esc": esc, "items": items})
	}
}

var cls3 = []byte{0, 0x1f, ' ', '"', '\\', '<', 'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xa8, 0xa9, 0xaa, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff}
var cls4 = []byte{'&', '\n', 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xa8, 0xbf, 0xc3, 0xe0, 0xe2, 0xed, 0xf0, 0xf1, 0xf4, 0xf5}

const (
	es2  = 1024                // all strings of two bytes
	es3n = 29 * 29 * 29 / 87   // three bytes from the classes
	es4n = 17 * 17 * 17 * 17   // four bytes
	es4  = (es4n + 96) / 97    // in batches of 97
	esR  = (0x110000) / 0x1000 // blocks of code points
)

func init() {
	profiles["encstr"] = func(c *ctx) {
		r := c.r
		i := c.i
		var l []string
		switch {
		case i < es2:
			for k := 0; k < 64; k++ {
				v := i*64 + k
				l = append(l, string([]byte{byte(v >> 8), byte(v)}))
				if v%257 == 0 {
					l = append(l, string([]byte{byte(v)}))
				}
			}
		case i < es2+es3n:
			for k := 0; k < 87; k++ {
				v := (i-es2)*87 + k
				l = append(l, string([]byte{cls3[v/841%29], cls3[v/29%29], cls3[v%29]}))
			}
		case i < es2+es3n+es4:
			for k := 0; k < 97; k++ {
				v := (i-es2-es3n)*97 + k
				if v < es4n {
					l = append(l, string([]byte{cls4[v/4913%17], cls4[v/289%17], cls4[v/17%17], cls4[v%17]}))
				}
			}
		case i < es2+es3n+es4+esR:
			b := (i - es2 - es3n - es4) * 0x1000
			step := 0x1000
			if c.tier != "thorough" {
				step = 97
			}
			for k := r.Intn(40); k < 0x1000; k += 1 + 0x1000/step {
				l = append(l, string(utf8.AppendRune(nil, rune(b+k))))
				if len(l) == 100 {
					strBatch(c, l)
					l = nil
				}
			}
			for _, k := range []int{0, 1, 0x27, 0x28, 0x29, 0x2a, 0x7ff, 0x800, 0xfff} {
				l = append(l, string(utf8.AppendRune(nil, rune(b+k))))
			}
		default:
			for k := 0; k < 20; k++ {
				s := randGoString(r)
				switch r.Intn(3) {
				case 0:
					s = strings.Repeat("a", r.Intn(70)) + s + strings.Repeat("é", r.Intn(3)) + randGoString(r)
				case 1:
					b := make([]byte, r.Intn(12))
					for i := range b {
						b[i] = cls3[r.Intn(len(cls3))]
					}
					s += string(b)
				}
				l = append(l, s)
			}
		}
		strBatch(c, l)
	}
}

// ---------------------------------------------------------------- C16

// the value v of an integer type, encoded in some way
func encVia(via string, v reflect.Value) (string, []byte) {
	var y []byte
	out, _ := guard(func() (err error) {
		switch via {
		case "marshal":
			y, err = jzon.Marshal(v.Interface())
		case "ptr":
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			y, err = jzon.Marshal(p.Interface())
		case "streamer":
			var b bytes.Buffer
			s := jzon.NewStreamer()
			defer s.Release()
			s.Reset(&b)
			switch x := v.Interface().(type) {
			case int8:
				s.Int8(x)
			case int16:
				s.Int16(x)
			case int32:
				s.Int32(x)
			case int64:
				s.Int64(x)
			case int:
				s.Int(x)
			case uint8:
				s.Uint8(x)
			case uint16:
				s.Uint16(x)
			case uint32:
				s.Uint32(x)
			case uint64:
				s.Uint64(x)
			case uint:
				s.Uint(x)
			case float32:
				s.Float32(x)
			case float64:
				s.Float64(x)
			default:
				s.Value(x)
			}
			err = s.Flush()
			y = b.Bytes()
		case "key": // the literal without its quotes
			m := reflect.MakeMap(reflect.MapOf(v.Type(), rtOf(0)))
			m.SetMapIndex(v, reflect.ValueOf(1))
			y, err = jzon.Marshal(m.Interface())
			if err == nil && bytes.HasPrefix(y, []byte(`{"`)) && bytes.HasSuffix(y, []byte(`":1}`)) {
				y = y[2 : len(y)-4]
			}
		case "quoted":
			st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: v.Type(), Tag: `json:"a,string"`}})).Elem()
			st.Field(0).Set(v)
			y, err = jzon.Marshal(st.Interface())
			if err == nil && bytes.HasPrefix(y, []byte(`{"a":"`)) && bytes.HasSuffix(y, []byte(`"}`)) {
				y = y[6 : len(y)-2]
			}
		case "elem":
			s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 2, 2)
			s.Index(0).Set(v)
			s.Index(1).Set(v)
			if v.Kind() == reflect.Uint8 { // not base64
				a := reflect.New(reflect.ArrayOf(2, v.Type())).Elem()
				reflect.Copy(a, s)
				s = a
			}
			y, err = jzon.Marshal(s.Interface())
			if err == nil && len(y) > 2 && len(y)%2 == 1 && bytes.Equal(y[1:len(y)/2], y[len(y)/2+1:len(y)-1]) && y[0] == '[' && y[len(y)-1] == ']' && y[len(y)/2] == ',' {
				y = y[1 : len(y)/2]
			}
		}
		return err
	})
	return out, y
}

var numVias = []string{"marshal", "ptr", "streamer", "key", "quoted", "elem"}

func numBatch(c *ctx, via string, vs []reflect.Value) {
	items := []interface{}{}
	for _, v := range vs {
		it := M{"neg": false, "digs": B{}, "ex": 0, "fin": true, "d": B{}}
		fl := false
		switch v.Kind() {
		case reflect.Float32, reflect.Float64:
			fl = true
			w := 64
			if v.Kind() == reflect.Float32 {
				w = 32
			}
			f := v.Float()
			it["fin"] = !math.IsNaN(f) && !math.IsInf(f, 0)
			if it["fin"].(bool) {
				t := strconv.FormatFloat(math.Abs(f), 'e', -1, w)
				e := strings.IndexByte(t, 'e')
				ex, _ := strconv.Atoi(t[e+1:])
				it["neg"], it["digs"], it["ex"] = math.Signbit(f), B(strings.Replace(t[:e], ".", "", 1)), ex
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			it["d"] = B(strconv.FormatInt(v.Int(), 10))
		default:
			it["d"] = B(strconv.FormatUint(v.Uint(), 10))
		}
		it["fl"] = fl
		out, y := encVia(via, v)
		it["out"], it["y"] = out, B(y)
		items = append(items, it)
	}
	c.countN("checks", len(items))
	c.emit(M{"kind": "encn", "via": via, "items": items})
}

func interestingUint(r *rand.Rand, w int) uint64 {
	switch r.Intn(4) {
	case 0:
		return uint64(math.Pow(10, float64(r.Intn(20)))) + uint64(r.Intn(5)) - 2
	case 1:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(5)) - 2
	case 2:
		x := uint64(r.Intn(1000))
		for i := r.Intn(7); i > 0; i-- {
			x = x*1000 + []uint64{0, 1, 9, 10, 99, 100, 999, uint64(r.Intn(1000))}[r.Intn(8)]
		}
		return x
	}
	return randUint(r, w)
}

const numAll16 = 1312 // 2 types, 656 batches of 100

func init() {
	profiles["encnum"] = func(c *ctx) {
		r := c.r
		i := c.i
		var vs []reflect.Value
		via := numVias[r.Intn(len(numVias))]
		switch {
		case i < numAll16:
			for k := 0; k < 100; k++ {
				x := (i/2)*100 + k
				if x > 65535 {
					break
				}
				if i%2 == 0 {
					vs = append(vs, reflect.ValueOf(int16(x)))
				} else {
					vs = append(vs, reflect.ValueOf(uint16(x)))
				}
			}
		case i < numAll16+12: // all 8 bit integers in every way
			via = numVias[(i-numAll16)/2]
			for x := 0; x < 256; x++ {
				if i%2 == 0 {
					vs = append(vs, reflect.ValueOf(int8(x)))
				} else {
					vs = append(vs, reflect.ValueOf(uint8(x)))
				}
			}
		case i < numAll16+12+1024: // around all powers of ten and of two, all groups of digits
			ty := intTys[i%len(intTys)]
			for k := 0; k < 100; k++ {
				v := reflect.New(ty.rt).Elem()
				u := interestingUint(r, ty.W)
				if ty.Sg {
					v.SetInt(int64(u))
					if r.Intn(2) == 0 {
						v.SetInt(-int64(u))
					}
					if r.Intn(20) == 0 {
						v.SetInt(randInt(r, ty.W))
					}
				} else {
					v.SetUint(u)
				}
				vs = append(vs, v)
			}
		default: // floats
			if via == "key" {
				via = "marshal"
			}
			j := i - numAll16 - 12 - 1024
			for k := 0; k < 64; k++ {
				var f float64
				w := 64
				if j%2 == 0 {
					w = 32
				}
				switch {
				case k < 4: // every exponent
					e := (j / 2 * 4) % 2048
					f = math.Float64frombits(uint64(e+k)<<52 | r.Uint64()>>12)
				case k < 8 && w == 32:
					f = float64(math.Float32frombits(uint32(j/2%64*4+k-4)<<23 | r.Uint32()>>9))
				case k < 30: // every power of ten and its neighbours
					f = math.Pow(10, float64((j/2+k)%640-320))
					if w == 32 {
						f = math.Pow(10, float64((j/2+k)%84-45))
						f32 := float32(f)
						for n := r.Intn(3); n > 0; n-- {
							f32 = math.Nextafter32(f32, []float32{0, math.MaxFloat32}[r.Intn(2)])
						}
						f = float64(f32)
					} else {
						for n := r.Intn(3); n > 0; n-- {
							f = math.Nextafter(f, []float64{0, math.MaxFloat64}[r.Intn(2)])
						}
					}
				case k < 36: // around the limits of the plain form
					f = []float64{1e-6, 1e21}[r.Intn(2)]
					for n := r.Intn(4); n > 0; n-- {
						f = math.Nextafter(f, []float64{0, math.MaxFloat64}[r.Intn(2)])
					}
					if w == 32 {
						f32 := []float32{1e-6, 1e21}[r.Intn(2)]
						for n := r.Intn(4); n > 0; n-- {
							f32 = math.Nextafter32(f32, []float32{0, math.MaxFloat32}[r.Intn(2)])
						}
						f = float64(f32)
					}
				case k < 38:
					f = []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32}[r.Intn(9)]
				default:
					f = randFloat(r, w)
				}
				if r.Intn(3) == 0 {
					f = -f
				}
				if w == 32 {
					vs = append(vs, reflect.ValueOf(float32(f)))
				} else {
					vs = append(vs, reflect.ValueOf(f))
				}
			}
		}
		numBatch(c, via, vs)
	}
}
