"""Writes harness/types_dispatch.go: types of every kind with every
combination of marshalers (n: none, v: value receiver, p: pointer receiver).
A type with a marshaler of a kind has the unmarshaler of that kind as well."""
import os

KINDS = [  # name, underlying type, comparable key?, decodable (can hold a mark)?
    ("St2", "struct{ A, B int }", "st"),
    ("St1", "struct{ P *int }", "st1"),
    ("Int", "int", "int"),
    ("Str", "string", "string"),
    ("U8", "uint8", "u8"),
    ("Sl", "[]int", "sl"),
    ("Map", "map[string]int", "map"),
    ("Ar1", "[1]*int", "ar1"),
    ("Ar2", "[2]int", "ar2"),
    ("Bool", "bool", "bool"),
    ("Fn", "func()", "fn"),
    ("F64", "float64", "f64"),
]
# the other scalar kinds, with fewer combinations
MORE = ["int8", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64", "uintptr", "float32"]
FEW = ["nn", "vn", "nv", "pp"]
KINDS += [(k.capitalize(), k, k) for k in MORE] + [("Ar0", "[0]int", "ar0")]
out = ["// Code generated by tools/gendispatch.py. DO NOT EDIT.", "", "package main", "", 'import "reflect"', ""]
reg = []
for name, und, nat in KINDS:
    for j in "nvp":
        for t in "nvp":
            if nat in MORE + ["ar0"] and j + t not in FEW:
                continue
            tn = "D%s%s%s" % (name, j.upper(), t.upper())
            out.append("type %s %s" % (tn, und))
            out.append("func (d %s) DispMark() {}" % tn)
            if j != "n":
                out.append("func (d %s%s) MarshalJSON() ([]byte, error) { return dispJ(%s) }"
                           % ("" if j == "v" else "*", tn, "d" if j == "v" else "*d"))
                out.append('func (d *%s) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }' % tn)
            if t != "n":
                out.append("func (d %s%s) MarshalText() ([]byte, error) { return dispT(%s) }"
                           % ("" if t == "v" else "*", tn, "d" if t == "v" else "*d"))
                out.append('func (d *%s) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }' % tn)
            reg.append('\t{rt: reflect.TypeOf((*%s)(nil)).Elem(), kind: "%s", j: "%s", t: "%s"},' % (tn, nat, j, t))
out += ["", "var dispDecls = []dispDecl{"] + reg + ["}", ""]
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "types_dispatch.go"), "w").write("\n".join(out))
