package main

import (
	"bytes"
	"encoding/base64"
	"io"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// ---------------------------------------------------------------- scalars

func randInt(r *rand.Rand, w int) int64 {
	lim := int64(1)<<(uint(w)-1) - 1
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return lim - int64(r.Intn(3))
	case 2:
		return -lim - 1 + int64(r.Intn(3))
	case 3:
		return int64(r.Intn(20)) - 10
	default:
		x := int64(r.Uint64())
		x >>= uint(64 - w + r.Intn(w))
		return x
	}
}

func randUint(r *rand.Rand, w int) uint64 {
	lim := ^uint64(0) >> (64 - uint(w))
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return lim - uint64(r.Intn(3))
	case 2:
		return uint64(r.Intn(12))
	default:
		return (r.Uint64() >> (64 - uint(w))) >> uint(r.Intn(w))
	}
}

func randFloat(r *rand.Rand, w int) float64 {
	var f float64
	switch r.Intn(10) {
	case 0:
		return 0
	case 1:
		f = float64(r.Intn(2000)-1000) / 8
	case 2:
		f = float64(r.Intn(2000) - 1000)
	case 3:
		f = math.Float64frombits(r.Uint64())
	case 4:
		f = r.NormFloat64() * math.Pow(10, float64(r.Intn(60)-30))
	case 5:
		f = math.Copysign(0, -1)
	case 6:
		f = []float64{1e-6, 1e-7, 9.99e-7, 1e21, 1e20, 9.99e20, 1e22, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 1e-9, 1.5e-10, 1e-10, 1e9, 1e100}[r.Intn(16)]
		if r.Intn(2) == 0 {
			f = -f
		}
	default:
		f = r.NormFloat64() * 100
	}
	if w == 32 {
		f = float64(float32(f))
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 1.5
	}
	return f
}

// random text of a JSON number
func randNumText(r *rand.Rand) []byte {
	switch r.Intn(6) {
	case 0:
		return []byte(strconv.Itoa(r.Intn(20) - 10))
	case 1:
		return strconv.AppendInt(nil, randInt(r, 64), 10)
	case 2:
		return strconv.AppendUint(nil, randUint(r, 64), 10)
	case 3:
		return strconv.AppendFloat(nil, randFloat(r, 64), "efg"[r.Intn(3)], -1, 64)
	}
	var b []byte
	if r.Intn(3) == 0 {
		b = append(b, '-')
	}
	if r.Intn(3) == 0 {
		b = append(b, '0')
	} else {
		b = append(b, byte('1'+r.Intn(9)))
		for i := r.Intn(22); i > 0; i-- {
			b = append(b, byte('0'+r.Intn(10)))
		}
	}
	if r.Intn(2) == 0 {
		b = append(b, '.')
		for i := 1 + r.Intn(18); i > 0; i-- {
			b = append(b, byte('0'+r.Intn(10)))
		}
	}
	if r.Intn(3) == 0 {
		b = append(b, "eE"[r.Intn(2)])
		switch r.Intn(3) {
		case 0:
			b = append(b, '+')
		case 1:
			b = append(b, '-')
		}
		b = append(b, strconv.Itoa(r.Intn(350))...)
	}
	return b
}

// text of an integer near the limits of a type, or somewhere else
func randIntText(r *rand.Rand, w int, sg bool) []byte {
	if r.Intn(12) == 0 {
		return randNumText(r)
	}
	if r.Intn(10) == 0 {
		return []byte([]string{"0", "-0", "00", "01", "-", "-1", "+1", "1.0", "1e1", "1.", "0x1", "1e", "-00", "0e0", "0.0", "0.", "١"}[r.Intn(17)])
	}
	// limits
	lims := []string{"127", "128", "255", "256", "32767", "32768", "65535", "65536",
		"2147483647", "2147483648", "4294967295", "4294967296",
		"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616"}
	wi := map[int]int{8: 0, 16: 4, 32: 8, 64: 12}[w]
	var s string
	switch r.Intn(5) {
	case 0:
		s = lims[wi+r.Intn(4)]
	case 1:
		s = lims[r.Intn(len(lims))]
	case 2: // perturb one digit of a limit
		b := []byte(lims[wi+r.Intn(4)])
		i := r.Intn(len(b))
		b[i] = byte('0' + r.Intn(10))
		if b[0] == '0' {
			b[0] = '1'
		}
		s = string(b)
	case 3: // longer or shorter than a limit
		b := []byte(lims[wi+r.Intn(4)])
		if r.Intn(2) == 0 {
			b = append(b, byte('0'+r.Intn(10)))
		} else {
			b = b[:len(b)-1]
		}
		s = string(b)
	default:
		b := []byte{byte('1' + r.Intn(9))}
		for i := r.Intn(21); i > 0; i-- {
			b = append(b, byte('0'+r.Intn(10)))
		}
		if r.Intn(2) == 0 && len(b) > 5 {
			b = b[:1+r.Intn(5)]
		}
		s = string(b)
	}
	if r.Intn(3) == 0 {
		s = "-" + s
	}
	return []byte(s)
}

var runePool = []rune{'a', 'b', 'z', 'A', 'K', 's', ' ', '"', '\\', '/', '\n', '\t', '\r', '\b', '\f', 0, 1, 0x1f, 0x7f,
	'<', '>', '&', 'é', 0x80, 0x7ff, 0x800, 0x2028, 0x2029, 0x202a, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff,
	0x10000, 0x1f600, 0x10ffff, '\'', '=', '{', '}', '[', ']', ':', ',', '0', '9', '.', 'e', '-', 'n', 't', 'f', 'u'}

// many is how many elements a large container has (0: it is not large)
func many(r *rand.Rand, e *Ty) int {
	switch e.T {
	case "bool", "int", "float", "string":
	default:
		return 0
	}
	if e.T == "int" && e.W == 8 && !e.Sg && r.Intn(15) == 0 {
		return []int{46, 47, 48, 49, 100, 190, 191, 192, 193, 380, 767, 768, 769, 1000, 1535, 1537, 3000, 3100}[r.Intn(18)] + r.Intn(3)
	}
	if r.Intn(50) != 0 {
		return 0
	}
	n := []int{5, 8, 9, 16, 17, 31, 33, 64, 65, 100, 127, 129, 257}[r.Intn(13)]
	if e.T == "string" && n > 40 {
		n = 40
	}
	return n
}

func randGoString(r *rand.Rand) string {
	if r.Intn(200) == 0 {
		n := []int{127, 128, 255, 256, 511, 512, 513, 1023, 1024, 1025, 2048, 4096}[r.Intn(12)] + r.Intn(3)
		s := strings.Repeat("y", n)
		i := r.Intn(n)
		return s[:i] + string(runePool[r.Intn(len(runePool))]) + s[i:]
	}
	switch r.Intn(10) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("x", r.Intn(80))
	case 2: // invalid UTF-8
		b := []byte{}
		for i := 1 + r.Intn(6); i > 0; i-- {
			if r.Intn(2) == 0 {
				b = append(b, byte(r.Intn(256)))
			} else {
				b = utf8.AppendRune(b, runePool[r.Intn(len(runePool))])
			}
		}
		return string(b)
	}
	n := r.Intn(8)
	b := []byte{}
	for i := 0; i < n; i++ {
		if r.Intn(2) == 0 {
			b = append(b, byte('a'+r.Intn(26)))
		} else {
			b = utf8.AppendRune(b, runePool[r.Intn(len(runePool))])
		}
	}
	return string(b)
}

// ---------------------------------------------------------------- texts

// the JSON string literal of some text, with random escaping
func randStrLit(r *rand.Rand, s string) []byte {
	out := []byte{'"'}
	for i := 0; i < len(s); {
		c, size := utf8.DecodeRuneInString(s[i:])
		if c == utf8.RuneError && size == 1 {
			out = append(out, s[i])
			i++
			continue
		}
		i += size
		esc := c < 0x20 || c == '"' || c == '\\'
		if !esc && r.Intn(12) != 0 {
			out = utf8.AppendRune(out, c)
			continue
		}
		if k := strings.IndexRune("\"\\/\b\f\n\r\t", c); k >= 0 && r.Intn(4) != 0 {
			out = append(out, '\\', "\"\\/bfnrt"[k])
			continue
		}
		if c >= 0x10000 {
			c -= 0x10000
			out = appendU4(r, out, 0xd800+(c>>10))
			out = appendU4(r, out, 0xdc00+(c&0x3ff))
		} else {
			out = appendU4(r, out, c)
		}
	}
	return append(out, '"')
}

func appendU4(r *rand.Rand, out []byte, c rune) []byte {
	const lo, up = "0123456789abcdef", "0123456789ABCDEF"
	out = append(out, '\\', 'u')
	for sh := 12; sh >= 0; sh -= 4 {
		d := (c >> uint(sh)) & 15
		if r.Intn(2) == 0 {
			out = append(out, lo[d])
		} else {
			out = append(out, up[d])
		}
	}
	return out
}

// a string literal made of arbitrary (valid) pieces: lone surrogates,
// escapes next to each other, non ASCII, invalid UTF-8
func randWildStrLit(r *rand.Rand, n int) []byte {
	out := []byte{'"'}
	for i := 0; i < n; i++ {
		switch r.Intn(12) {
		case 0:
			out = append(out, '\\', `"\/bfnrt`[r.Intn(8)])
		case 1:
			out = appendU4(r, out, rune(r.Intn(0x10000)))
		case 2:
			out = appendU4(r, out, rune(0xd800+r.Intn(0x400)))
		case 3:
			out = appendU4(r, out, rune(0xdc00+r.Intn(0x400)))
		case 4:
			out = appendU4(r, out, rune(0xd800+r.Intn(0x400)))
			out = appendU4(r, out, rune(0xdc00+r.Intn(0x400)))
		case 5:
			c := runePool[r.Intn(len(runePool))]
			if c >= 0x20 && c != '"' && c != '\\' {
				out = utf8.AppendRune(out, c)
			}
		case 6:
			out = append(out, byte(0x80+r.Intn(0x80)))
		case 7:
			out = appendU4(r, out, []rune{0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x2028}[r.Intn(14)])
		default:
			out = append(out, byte('a'+r.Intn(26)))
		}
	}
	return append(out, '"')
}

var keyPool = []string{"a", "b", "A", "ab", "aB", "", "key", "KEY", "ſ", "k1", "x y", "é", "\u212a", "a.b", "0", "1", "-1", "12"}

func pickKey(r *rand.Rand) string {
	if r.Intn(12) == 0 {
		return "k" + strconv.Itoa(r.Intn(1000))
	}
	if r.Intn(6) == 0 {
		return randGoString(r)
	}
	return keyPool[r.Intn(len(keyPool))]
}

type docGen struct {
	r    *rand.Rand
	ws   int // insert white space with probability 1/ws (0: never)
	bad  int // type mismatch with probability 1/bad (0: never)
	fold bool
	long bool // strings longer than the buffers more often
	dup  bool // few different keys, so that most of them are repeated
}

func (g *docGen) sp(out []byte) []byte {
	if g.ws > 0 && g.r.Intn(g.ws) == 0 {
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			out = append(out, " \t\r\n"[g.r.Intn(4)])
		}
	}
	return out
}

func (g *docGen) str() []byte {
	switch g.r.Intn(8) {
	case 0:
		return randWildStrLit(g.r, g.r.Intn(8))
	case 1:
		n := []int{30, 63, 64, 65, 127, 129}[g.r.Intn(6)]
		if g.long || g.r.Intn(12) == 0 {
			n = []int{509, 510, 511, 512, 513, 515}[g.r.Intn(6)]
			if g.r.Intn(4) == 0 {
				n = []int{1022, 1023, 1024, 1025, 2047, 2049, 4100}[g.r.Intn(7)]
			}
		}
		b := randStrLit(g.r, randGoString(g.r))
		return append(append([]byte{'"'}, bytes.Repeat([]byte{'y'}, n)...), b[1:]...)
	}
	return randStrLit(g.r, randGoString(g.r))
}

// any JSON value
func (g *docGen) any(out []byte, depth int) []byte {
	if depth >= 3 && g.r.Intn(30) == 0 {
		return g.chain(out)
	}
	k := g.r.Intn(10)
	if g.dup && g.r.Intn(2) == 0 {
		k = 7 + g.r.Intn(4)
	}
	if depth <= 0 && k >= 7 {
		k = g.r.Intn(7)
	}
	switch k {
	case 0:
		return append(out, "null"...)
	case 1:
		return append(out, "true"...)
	case 2:
		return append(out, "false"...)
	case 3, 4:
		return append(out, randNumText(g.r)...)
	case 5, 6:
		return append(out, g.str()...)
	case 7, 8:
		out = append(g.sp(out), '[')
		n := g.r.Intn(5)
		if depth > 1 && g.r.Intn(100) == 0 {
			n, depth = 10+g.r.Intn(120), 1
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				out = append(g.sp(out), ',')
			}
			out = g.any(g.sp(out), depth-1)
		}
		return append(g.sp(out), ']')
	default:
		out = append(g.sp(out), '{')
		n := g.r.Intn(5)
		if depth > 1 && g.r.Intn(100) == 0 {
			n, depth = 10+g.r.Intn(60), 1
		}
		var keys []string
		for i := 0; i < n; i++ {
			if i > 0 {
				out = append(g.sp(out), ',')
			}
			key := pickKey(g.r)
			if g.dup {
				key = "ab"[:1+g.r.Intn(2)]
			} else if len(keys) > 0 && g.r.Intn(6) == 0 { // again
				key = keys[g.r.Intn(len(keys))]
			}
			keys = append(keys, key)
			out = append(g.sp(out), randStrLit(g.r, key)...)
			out = append(g.sp(out), ':')
			out = g.any(g.sp(out), depth-1)
		}
		return append(g.sp(out), '}')
	}
}

// chain is a value nested deeper than usual, with siblings on the way
func (g *docGen) chain(out []byte) []byte {
	n := 5 + g.r.Intn(12)
	if g.r.Intn(5) == 0 {
		n = 25 + g.r.Intn(50)
	}
	obj := g.r.Intn(5) // how often objects
	var tail [][]byte
	for i := 0; i < n; i++ {
		o := g.r.Intn(4) < obj
		var post []byte
		sib := func(b []byte) []byte {
			b = g.sp(b)
			if o {
				b = append(append(b, randStrLit(g.r, pickKey(g.r))...), ':')
			}
			return g.any(b, 0)
		}
		if o {
			out = append(out, '{')
		} else {
			out = append(out, '[')
		}
		if g.r.Intn(5) == 0 {
			out = append(sib(out), ',')
		}
		if o {
			out = append(append(out, randStrLit(g.r, pickKey(g.r))...), ':')
		}
		out = g.sp(out)
		if g.r.Intn(5) == 0 {
			post = sib(append(post, ','))
		}
		if o {
			post = append(post, '}')
		} else {
			post = append(post, ']')
		}
		tail = append(tail, post)
	}
	out = g.any(out, 0)
	for i := n - 1; i >= 0; i-- {
		out = append(g.sp(out), tail[i]...)
	}
	return out
}

func (g *docGen) doc(ty *Ty, depth int) []byte {
	out := g.sp(nil)
	out = g.val(out, ty, depth, false)
	return g.sp(out)
}

// foldCase changes the case of some letters of a key
func (g *docGen) foldCase(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if g.r.Intn(2) == 0 {
			switch {
			case c == 'k' || c == 'K':
				c = []rune{'k', 'K', 0x212a}[g.r.Intn(3)]
			case c == 's' || c == 'S':
				c = []rune{'s', 'S', 0x17f}[g.r.Intn(3)]
			case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z':
				c ^= 0x20
			case c >= 0xe0 && c <= 0xfe && c != 0xf7:
				c -= 0x20
			case c >= 0xc0 && c <= 0xde && c != 0xd7:
				c += 0x20
			case c == 0x3c3:
				c = []rune{0x3c2, 0x3a3}[g.r.Intn(2)]
			case c == 0x3a3:
				c = []rune{0x3c2, 0x3c3}[g.r.Intn(2)]
			case c == 0x434:
				c = 0x414
			}
		}
		sb.WriteRune(c)
	}
	return sb.String()
}

func (g *docGen) val(out []byte, ty *Ty, depth int, q bool) []byte {
	r := g.r
	if g.bad > 0 && r.Intn(g.bad) == 0 {
		return g.any(out, 1)
	}
	if r.Intn(12) == 0 {
		return append(out, "null"...)
	}
	if q {
		switch ty.T {
		case "bool":
			return append(out, []string{`"true"`, `"false"`, `"true"`, `"null"`, `true`, `"tru"`, `""`, `"True"`}[r.Intn(8)]...)
		case "int":
			out = append(out, '"')
			out = append(out, randIntText(r, ty.W, ty.Sg)...)
			return append(out, '"')
		case "float", "number":
			out = append(out, '"')
			out = append(out, randNumText(r)...)
			return append(out, '"')
		case "string":
			return append(out, randStrLit(r, string(g.str()))...)
		}
	}
	switch ty.T {
	case "bool":
		return append(out, []string{"true", "false"}[r.Intn(2)]...)
	case "int":
		if r.Intn(3) == 0 { // in range for sure
			if ty.Sg {
				return strconv.AppendInt(out, randInt(r, ty.W), 10)
			}
			return strconv.AppendUint(out, randUint(r, ty.W), 10)
		}
		return append(out, randIntText(r, ty.W, ty.Sg)...)
	case "float":
		return append(out, randNumText(r)...)
	case "number":
		if r.Intn(3) == 0 {
			return append(append(append(out, '"'), randNumText(r)...), '"')
		}
		return append(out, randNumText(r)...)
	case "string":
		return append(out, g.str()...)
	case "any", "iface", "raw", "jum", "jumerr", "bad":
		return g.any(out, depth)
	case "tum", "tumerr":
		return append(out, g.str()...)
	case "disp":
		switch x := ty.disp; {
		case x.reg || x.decl.j != "n":
			return g.any(out, 1)
		case x.decl.t != "n":
			return append(out, g.str()...)
		}
		return g.val(out, ty.disp.nat, depth, q)
	case "ptr":
		return g.val(out, ty.E, depth, q)
	case "slice", "array":
		if ty.T == "slice" && ty.E.T == "int" && ty.E.W == 8 && !ty.E.Sg && r.Intn(3) != 0 {
			raw := make([]byte, r.Intn(9))
			if n := many(r, ty.E); n > 0 {
				raw = make([]byte, n)
			}
			r.Read(raw)
			s := base64.StdEncoding.EncodeToString(raw)
			if r.Intn(4) == 0 && len(s) > 0 {
				b := []byte(s)
				b[r.Intn(len(b))] = "A=+/-_\n\r z9"[r.Intn(11)]
				s = string(b)
			}
			return append(out, randStrLit(r, s)...)
		}
		out = append(out, '[')
		n := r.Intn(5)
		if depth <= 0 {
			n = r.Intn(2)
		} else if k := many(r, ty.E); k > 0 && k < 300 {
			n = k
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				out = append(g.sp(out), ',')
			}
			out = g.val(g.sp(out), ty.E, depth-1, false)
		}
		return append(g.sp(out), ']')
	case "map":
		out = append(out, '{')
		n := r.Intn(5)
		if depth <= 0 {
			n = r.Intn(2)
		} else if k := many(r, ty.E); k > 0 && k < 150 {
			n = k
		}
		var keys []string
		for i := 0; i < n; i++ {
			if i > 0 {
				out = append(g.sp(out), ',')
			}
			out = g.sp(out)
			if key := ty.Key; key.T == "int" || key.T == "disp" && key.disp.nat.T == "int" && key.disp.decl.t == "n" {
				if key.T == "disp" {
					key = key.disp.nat
				}
				if r.Intn(4) != 0 {
					out = append(out, '"')
					if key.Sg {
						out = strconv.AppendInt(out, randInt(r, key.W), 10)
					} else {
						out = strconv.AppendUint(out, randUint(r, key.W), 10)
					}
					out = append(out, '"')
				} else {
					out = append(append(append(out, '"'), randIntText(r, key.W, key.Sg)...), '"')
				}
			} else {
				k := pickKey(r)
				if len(keys) > 0 && r.Intn(8) == 0 { // again
					k = keys[r.Intn(len(keys))]
				}
				keys = append(keys, k)
				out = append(out, randStrLit(r, k)...)
			}
			out = append(g.sp(out), ':')
			out = g.val(g.sp(out), ty.E, depth-1, false)
		}
		return append(g.sp(out), '}')
	case "struct":
		out = append(out, '{')
		fs := leafFields(ty.Def, 0, map[*Def]bool{})
		n := r.Intn(len(fs) + 2)
		if n > 6 {
			n = 6
		}
		if depth <= 0 && n > 1 {
			n = 1
		}
		first := true
		for i := 0; i < n; i++ {
			if !first {
				out = append(g.sp(out), ',')
			}
			first = false
			out = g.sp(out)
			if len(fs) == 0 || r.Intn(8) == 0 {
				out = append(out, randStrLit(r, pickKey(r))...)
				out = append(g.sp(out), ':')
				out = g.any(g.sp(out), 1)
				continue
			}
			f := fs[r.Intn(len(fs))]
			name := f.TN
			if name == "" {
				name = f.GN
			}
			if r.Intn(4) == 0 {
				name = g.foldCase(name)
			}
			if r.Intn(20) == 0 {
				name += "x"
			}
			out = append(out, randStrLit(r, name)...)
			out = append(g.sp(out), ':')
			out = g.val(g.sp(out), f.Ty, depth-1, f.Str)
		}
		return append(g.sp(out), '}')
	}
	return append(out, "null"...)
}

// fields that may be visible (only used to aim the generator)
func leafFields(d *Def, depth int, seen map[*Def]bool) []Fld {
	if seen[d] || depth > 4 {
		return nil
	}
	seen[d] = true
	var out []Fld
	for _, f := range d.Fields {
		t := f.Ty
		if t.T == "ptr" {
			t = t.E
		}
		if f.Anon && f.TN == "" && t.T == "struct" {
			out = append(out, leafFields(t.Def, depth+1, seen)...)
			if depth == 0 {
				out = append(out, f) // a key named like the embedding
			}
			continue
		}
		if f.Ty.T == "opq" {
			f.Ty = tyInt
		}
		out = append(out, f)
	}
	return out
}

const mutPool = " {}[]\",:0-tnfe.\\u\x00\x1f\x80+E1/"

// intruders are what other notations allow and JSON does not (or only inside
// a string)
var intruders = []string{"\xef\xbb\xbf", "\xc2\xa0", "\xe2\x80\xa8", "\xe2\x80\xa9", "\xc2\x85", "\xe3\x80\x80", "\xfe\xff", "\xff\xfe", "//c\n", "/*c*/", "#c\n",
	"--", "++", "NaN", "nan", "Infinity", "-Infinity", "inf", "undefined", "None", "True", "TRUE", "NULL", "Null", "nil", "'a'", "`a`", "0x1F", "0X1f", "0b1", "0o7", "017", "1_000",
	"+1", ".5", "5.", "1.e1", "1f", "1n", "1e5.5", "1e", "1E+", "-", "-.5", "-0x1", "\xd9\xa1", "\\x41", "\\'", "\\\n", "\\a", "\\0", "\\u{41}", "\\u12", "\\U0041", "\r\n", "\v", "\f",
	"\x1e", "\x04", "\x7f", ")]}',\n", "while(1);", "...", "a:1", "a", "\"a\" \"b\"", "\"a\"\"b\"", "\"a\"+\"b\"", "1 2", "[]]", ",,", "::", "=>", "=", ";", "<!--", "(1)", "\x00", "\x00\x00", "%7b", "&quot;", "\\ud83d", "\\ude00",
	"true false", "truefalse", "nullnull", "tru", "fals", "nul", "t", "f", "n", "!", "@", "$", "~", "\"\t\"", "\"\n\"", "\"\x00\"", "\"\x1f\""}

// mutate damages a text
func mutate(r *rand.Rand, x []byte) []byte {
	x = append([]byte{}, x...)
	for n := 1 + r.Intn(2); n > 0; n-- {
		if len(x) == 0 {
			return []byte{mutPool[r.Intn(len(mutPool))]}
		}
		i := r.Intn(len(x))
		if r.Intn(2) == 0 { // near a structural byte
			var at []int
			for j, b := range x {
				if bytes.IndexByte([]byte("{}[],:"), b) >= 0 {
					at = append(at, j)
				}
			}
			if len(at) > 0 {
				i = at[r.Intn(len(at))]
				switch r.Intn(4) {
				case 0:
					x[i] = "{}[],:"[r.Intn(6)]
				case 1:
					x = append(x[:i], append([]byte{"{}[],:"[r.Intn(6)]}, x[i:]...)...)
				case 2:
					x = append(x[:i+1], append([]byte{"{}[],:"[r.Intn(6)]}, x[i+1:]...)...)
				case 3:
					x = append(x[:i], x[i+1:]...)
				}
				continue
			}
		}
		switch r.Intn(8) {
		case 7:
			w := intruders[r.Intn(len(intruders))]
			if r.Intn(4) == 0 {
				i = 0
			}
			x = append(x[:i:i], append([]byte(w), x[i:]...)...)
		case 0: // truncate
			x = x[:i]
		case 1: // drop a byte
			x = append(x[:i], x[i+1:]...)
		case 2: // replace
			x[i] = mutPool[r.Intn(len(mutPool))]
		case 3: // insert
			x = append(x[:i], append([]byte{mutPool[r.Intn(len(mutPool))]}, x[i:]...)...)
		case 4: // duplicate a piece
			j := i + r.Intn(len(x)-i+1)
			x = append(x[:j:j], x[i:]...)
		case 5: // swap
			j := r.Intn(len(x))
			x[i], x[j] = x[j], x[i]
		case 6:
			x = append(x, mutPool[r.Intn(len(mutPool))])
		}
	}
	return x
}

var numRe = regexp.MustCompile(`-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?`)

// floatTable is the environment's answer for every number text in x
func floatTable(x []byte) []interface{} {
	out := []interface{}{}
	seen := map[string]bool{}
	for _, t := range numRe.FindAll(x, -1) {
		if seen[string(t)] {
			continue
		}
		seen[string(t)] = true
		for _, w := range []int{32, 64} {
			f, err := strconv.ParseFloat(string(t), w)
			m := M{"t": B(t), "w": w, "ok": err == nil, "x": B{}}
			if err == nil {
				m["x"] = bits(f, w)
			}
			out = append(out, m)
		}
	}
	return out
}

// ---------------------------------------------------------------- random types

var namePool = []string{"a", "b", "c", "ab", "key", "Kk", "sS", "x_y", "é", "Σ", "n1", "ks", "A", "B", "KEY", "desc", "дом", "a-b",
	"a<b", "&", "x>y&z", "<é>", "!#$%()*+-./:;=?@[]^_{|}~", "日本語", "\u212a", "ſ&", "a b", "name_of_some_length_which_is_rather_long_for_a_member_but_not_forbidden_at_all"}

func randTy(r *rand.Rand, depth int, withAny bool) *Ty {
	if r.Intn(40) == 0 {
		return recTys[r.Intn(len(recTys))]
	}
	k := r.Intn(14)
	if depth <= 0 && k >= 6 {
		k = r.Intn(6)
	}
	switch k {
	case 0, 1, 2:
		return scalarTys[r.Intn(len(scalarTys))]
	case 3:
		return tyString
	case 4:
		if withAny {
			return tyAny
		}
		return tyInt
	case 5:
		return []*Ty{tyNumber, tyRaw, tyJU, tyJUM, tyTU, tyAny, tyJUErr, tyTUErr}[r.Intn(8)]
	case 6, 7:
		return ptrTo(randTy(r, depth-1, withAny))
	case 8, 9:
		return sliceOf(randTy(r, depth-1, withAny))
	case 10:
		return arrayOf(r.Intn(4), randTy(r, depth-1, withAny))
	case 11:
		return mapOf(randKeyTy(r), randTy(r, depth-1, withAny))
	default:
		return randStruct(r, depth, 1+r.Intn(4), withAny)
	}
}

func randKeyTy(r *rand.Rand) *Ty {
	switch r.Intn(5) {
	case 0, 1:
		return tyString
	case 2:
		return scalarTys[19] // NString
	case 3:
		return tyTK
	}
	for {
		t := scalarTys[r.Intn(len(scalarTys))]
		if t.T == "int" {
			return t
		}
	}
}

// a struct without embedding; names are unique, but may fold to each other
func randStruct(r *rand.Rand, depth, n int, withAny bool) *Ty {
	return randStructOf(r, n, func() *Ty { return randTy(r, depth-1, withAny) })
}

func randStructOf(r *rand.Rand, n int, fieldTy func() *Ty) *Ty {
	used := map[string]bool{}
	var fs []Fld
	for i := 0; i < n; i++ {
		f := Fld{GN: "F" + strconv.Itoa(i), Exp: true}
		f.Ty = fieldTy()
		if r.Intn(8) != 0 {
			f.Tagged = true
			name := namePool[r.Intn(len(namePool))]
			if r.Intn(4) == 0 {
				name = "f" + strconv.Itoa(i)
			}
			if !used[name] {
				f.TN = name
				used[name] = true
			}
		}
		if f.Tagged && r.Intn(6) == 0 {
			f.Om = true
		}
		if f.Tagged && r.Intn(5) == 0 {
			f.Str = true
		}
		if r.Intn(25) == 0 {
			f = Fld{GN: f.GN, Exp: true, Skip: true, Ty: f.Ty}
		}
		fs = append(fs, f)
	}
	return structOf(fs)
}

var _ = reflect.TypeOf

var ioEOF = io.EOF

var placedTys []*Ty

// placed returns a type which holds one scalar in one place, or nil when all
// of them (a few times each) have been handed out
func placed(i, rounds int) *Ty {
	placedOnce.Do(func() {
		leafs := append(append([]*Ty{}, scalarTys...), tyNumber, tyRaw, tyAny, tyTU, tyJU, ptrTo(tyInt))
		for _, t := range leafs {
			f := func(fs ...Fld) *Ty { return structOf(fs) }
			one := func(t *Ty, str bool) Fld { return Fld{GN: "A", Exp: true, Tagged: true, TN: "a", Str: str, Ty: t} }
			other := Fld{GN: "B", Exp: true, Tagged: true, TN: "b", Ty: tyAny}
			placedTys = append(placedTys, t, ptrTo(t), sliceOf(t), arrayOf(2, t), mapOf(tyString, t), f(one(t, false)), f(one(t, false), other))
			switch t.T {
			case "bool", "int", "float", "string":
				placedTys = append(placedTys, f(one(t, true)), f(other, one(t, true)), f(one(ptrTo(t), true)))
			}
			if t.T == "int" || t.T == "string" {
				placedTys = append(placedTys, mapOf(t, tyBool), mapOf(t, t))
			}
		}
		placedTys = append(placedTys, mapOf(tyTK, tyInt))
	})
	if i >= rounds*len(placedTys) {
		return nil
	}
	return placedTys[i%len(placedTys)]
}

var placedOnce sync.Once
