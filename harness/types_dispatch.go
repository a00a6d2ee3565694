// Code generated by tools/gendispatch.py. DO NOT EDIT.

package main

import "reflect"

type DSt2NN struct{ A, B int }

func (d DSt2NN) DispMark() {}

type DSt2NV struct{ A, B int }

func (d DSt2NV) DispMark()                     {}
func (d DSt2NV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DSt2NV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSt2NP struct{ A, B int }

func (d DSt2NP) DispMark()                     {}
func (d *DSt2NP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DSt2NP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSt2VN struct{ A, B int }

func (d DSt2VN) DispMark()                     {}
func (d DSt2VN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DSt2VN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DSt2VV struct{ A, B int }

func (d DSt2VV) DispMark()                     {}
func (d DSt2VV) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DSt2VV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DSt2VV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DSt2VV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSt2VP struct{ A, B int }

func (d DSt2VP) DispMark()                     {}
func (d DSt2VP) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DSt2VP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DSt2VP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DSt2VP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSt2PN struct{ A, B int }

func (d DSt2PN) DispMark()                     {}
func (d *DSt2PN) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DSt2PN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DSt2PV struct{ A, B int }

func (d DSt2PV) DispMark()                     {}
func (d *DSt2PV) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DSt2PV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DSt2PV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DSt2PV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSt2PP struct{ A, B int }

func (d DSt2PP) DispMark()                     {}
func (d *DSt2PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DSt2PP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DSt2PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DSt2PP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSt1NN struct{ P *int }

func (d DSt1NN) DispMark() {}

type DSt1NV struct{ P *int }

func (d DSt1NV) DispMark()                     {}
func (d DSt1NV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DSt1NV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSt1NP struct{ P *int }

func (d DSt1NP) DispMark()                     {}
func (d *DSt1NP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DSt1NP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSt1VN struct{ P *int }

func (d DSt1VN) DispMark()                     {}
func (d DSt1VN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DSt1VN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DSt1VV struct{ P *int }

func (d DSt1VV) DispMark()                     {}
func (d DSt1VV) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DSt1VV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DSt1VV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DSt1VV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSt1VP struct{ P *int }

func (d DSt1VP) DispMark()                     {}
func (d DSt1VP) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DSt1VP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DSt1VP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DSt1VP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSt1PN struct{ P *int }

func (d DSt1PN) DispMark()                     {}
func (d *DSt1PN) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DSt1PN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DSt1PV struct{ P *int }

func (d DSt1PV) DispMark()                     {}
func (d *DSt1PV) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DSt1PV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DSt1PV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DSt1PV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSt1PP struct{ P *int }

func (d DSt1PP) DispMark()                     {}
func (d *DSt1PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DSt1PP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DSt1PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DSt1PP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DIntNN int

func (d DIntNN) DispMark() {}

type DIntNV int

func (d DIntNV) DispMark()                     {}
func (d DIntNV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DIntNV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DIntNP int

func (d DIntNP) DispMark()                     {}
func (d *DIntNP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DIntNP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DIntVN int

func (d DIntVN) DispMark()                     {}
func (d DIntVN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DIntVN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DIntVV int

func (d DIntVV) DispMark()                     {}
func (d DIntVV) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DIntVV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DIntVV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DIntVV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DIntVP int

func (d DIntVP) DispMark()                     {}
func (d DIntVP) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DIntVP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DIntVP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DIntVP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DIntPN int

func (d DIntPN) DispMark()                     {}
func (d *DIntPN) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DIntPN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DIntPV int

func (d DIntPV) DispMark()                     {}
func (d *DIntPV) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DIntPV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DIntPV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DIntPV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DIntPP int

func (d DIntPP) DispMark()                     {}
func (d *DIntPP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DIntPP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DIntPP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DIntPP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DStrNN string

func (d DStrNN) DispMark() {}

type DStrNV string

func (d DStrNV) DispMark()                     {}
func (d DStrNV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DStrNV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DStrNP string

func (d DStrNP) DispMark()                     {}
func (d *DStrNP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DStrNP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DStrVN string

func (d DStrVN) DispMark()                     {}
func (d DStrVN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DStrVN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DStrVV string

func (d DStrVV) DispMark()                     {}
func (d DStrVV) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DStrVV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DStrVV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DStrVV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DStrVP string

func (d DStrVP) DispMark()                     {}
func (d DStrVP) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DStrVP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DStrVP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DStrVP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DStrPN string

func (d DStrPN) DispMark()                     {}
func (d *DStrPN) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DStrPN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DStrPV string

func (d DStrPV) DispMark()                     {}
func (d *DStrPV) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DStrPV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DStrPV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DStrPV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DStrPP string

func (d DStrPP) DispMark()                     {}
func (d *DStrPP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DStrPP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DStrPP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DStrPP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DU8NN uint8

func (d DU8NN) DispMark() {}

type DU8NV uint8

func (d DU8NV) DispMark()                     {}
func (d DU8NV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DU8NV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DU8NP uint8

func (d DU8NP) DispMark()                     {}
func (d *DU8NP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DU8NP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DU8VN uint8

func (d DU8VN) DispMark()                     {}
func (d DU8VN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DU8VN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DU8VV uint8

func (d DU8VV) DispMark()                     {}
func (d DU8VV) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DU8VV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DU8VV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DU8VV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DU8VP uint8

func (d DU8VP) DispMark()                     {}
func (d DU8VP) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DU8VP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DU8VP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DU8VP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DU8PN uint8

func (d DU8PN) DispMark()                     {}
func (d *DU8PN) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DU8PN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DU8PV uint8

func (d DU8PV) DispMark()                     {}
func (d *DU8PV) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DU8PV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DU8PV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DU8PV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DU8PP uint8

func (d DU8PP) DispMark()                     {}
func (d *DU8PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DU8PP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DU8PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DU8PP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSlNN []int

func (d DSlNN) DispMark() {}

type DSlNV []int

func (d DSlNV) DispMark()                     {}
func (d DSlNV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DSlNV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSlNP []int

func (d DSlNP) DispMark()                     {}
func (d *DSlNP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DSlNP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSlVN []int

func (d DSlVN) DispMark()                     {}
func (d DSlVN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DSlVN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DSlVV []int

func (d DSlVV) DispMark()                     {}
func (d DSlVV) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DSlVV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DSlVV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DSlVV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSlVP []int

func (d DSlVP) DispMark()                     {}
func (d DSlVP) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DSlVP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DSlVP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DSlVP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSlPN []int

func (d DSlPN) DispMark()                     {}
func (d *DSlPN) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DSlPN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DSlPV []int

func (d DSlPV) DispMark()                     {}
func (d *DSlPV) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DSlPV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DSlPV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DSlPV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DSlPP []int

func (d DSlPP) DispMark()                     {}
func (d *DSlPP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DSlPP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DSlPP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DSlPP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DMapNN map[string]int

func (d DMapNN) DispMark() {}

type DMapNV map[string]int

func (d DMapNV) DispMark()                     {}
func (d DMapNV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DMapNV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DMapNP map[string]int

func (d DMapNP) DispMark()                     {}
func (d *DMapNP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DMapNP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DMapVN map[string]int

func (d DMapVN) DispMark()                     {}
func (d DMapVN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DMapVN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DMapVV map[string]int

func (d DMapVV) DispMark()                     {}
func (d DMapVV) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DMapVV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DMapVV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DMapVV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DMapVP map[string]int

func (d DMapVP) DispMark()                     {}
func (d DMapVP) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DMapVP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DMapVP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DMapVP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DMapPN map[string]int

func (d DMapPN) DispMark()                     {}
func (d *DMapPN) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DMapPN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DMapPV map[string]int

func (d DMapPV) DispMark()                     {}
func (d *DMapPV) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DMapPV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DMapPV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DMapPV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DMapPP map[string]int

func (d DMapPP) DispMark()                     {}
func (d *DMapPP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DMapPP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DMapPP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DMapPP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DAr1NN [1]*int

func (d DAr1NN) DispMark() {}

type DAr1NV [1]*int

func (d DAr1NV) DispMark()                     {}
func (d DAr1NV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DAr1NV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DAr1NP [1]*int

func (d DAr1NP) DispMark()                     {}
func (d *DAr1NP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DAr1NP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DAr1VN [1]*int

func (d DAr1VN) DispMark()                     {}
func (d DAr1VN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DAr1VN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DAr1VV [1]*int

func (d DAr1VV) DispMark()                     {}
func (d DAr1VV) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DAr1VV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DAr1VV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DAr1VV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DAr1VP [1]*int

func (d DAr1VP) DispMark()                     {}
func (d DAr1VP) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DAr1VP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DAr1VP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DAr1VP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DAr1PN [1]*int

func (d DAr1PN) DispMark()                     {}
func (d *DAr1PN) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DAr1PN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DAr1PV [1]*int

func (d DAr1PV) DispMark()                     {}
func (d *DAr1PV) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DAr1PV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DAr1PV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DAr1PV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DAr1PP [1]*int

func (d DAr1PP) DispMark()                     {}
func (d *DAr1PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DAr1PP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DAr1PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DAr1PP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DAr2NN [2]int

func (d DAr2NN) DispMark() {}

type DAr2NV [2]int

func (d DAr2NV) DispMark()                     {}
func (d DAr2NV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DAr2NV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DAr2NP [2]int

func (d DAr2NP) DispMark()                     {}
func (d *DAr2NP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DAr2NP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DAr2VN [2]int

func (d DAr2VN) DispMark()                     {}
func (d DAr2VN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DAr2VN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DAr2VV [2]int

func (d DAr2VV) DispMark()                     {}
func (d DAr2VV) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DAr2VV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DAr2VV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DAr2VV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DAr2VP [2]int

func (d DAr2VP) DispMark()                     {}
func (d DAr2VP) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DAr2VP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DAr2VP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DAr2VP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DAr2PN [2]int

func (d DAr2PN) DispMark()                     {}
func (d *DAr2PN) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DAr2PN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DAr2PV [2]int

func (d DAr2PV) DispMark()                     {}
func (d *DAr2PV) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DAr2PV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DAr2PV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DAr2PV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DAr2PP [2]int

func (d DAr2PP) DispMark()                     {}
func (d *DAr2PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DAr2PP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DAr2PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DAr2PP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DBoolNN bool

func (d DBoolNN) DispMark() {}

type DBoolNV bool

func (d DBoolNV) DispMark()                     {}
func (d DBoolNV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DBoolNV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DBoolNP bool

func (d DBoolNP) DispMark()                     {}
func (d *DBoolNP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DBoolNP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DBoolVN bool

func (d DBoolVN) DispMark()                     {}
func (d DBoolVN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DBoolVN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DBoolVV bool

func (d DBoolVV) DispMark()                     {}
func (d DBoolVV) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DBoolVV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DBoolVV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DBoolVV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DBoolVP bool

func (d DBoolVP) DispMark()                     {}
func (d DBoolVP) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DBoolVP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DBoolVP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DBoolVP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DBoolPN bool

func (d DBoolPN) DispMark()                     {}
func (d *DBoolPN) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DBoolPN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DBoolPV bool

func (d DBoolPV) DispMark()                     {}
func (d *DBoolPV) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DBoolPV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DBoolPV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DBoolPV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DBoolPP bool

func (d DBoolPP) DispMark()                     {}
func (d *DBoolPP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DBoolPP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DBoolPP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DBoolPP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DFnNN func()

func (d DFnNN) DispMark() {}

type DFnNV func()

func (d DFnNV) DispMark()                     {}
func (d DFnNV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DFnNV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DFnNP func()

func (d DFnNP) DispMark()                     {}
func (d *DFnNP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DFnNP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DFnVN func()

func (d DFnVN) DispMark()                     {}
func (d DFnVN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DFnVN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DFnVV func()

func (d DFnVV) DispMark()                     {}
func (d DFnVV) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DFnVV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DFnVV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DFnVV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DFnVP func()

func (d DFnVP) DispMark()                     {}
func (d DFnVP) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DFnVP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DFnVP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DFnVP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DFnPN func()

func (d DFnPN) DispMark()                     {}
func (d *DFnPN) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DFnPN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DFnPV func()

func (d DFnPV) DispMark()                     {}
func (d *DFnPV) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DFnPV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DFnPV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DFnPV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DFnPP func()

func (d DFnPP) DispMark()                     {}
func (d *DFnPP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DFnPP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DFnPP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DFnPP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DF64NN float64

func (d DF64NN) DispMark() {}

type DF64NV float64

func (d DF64NV) DispMark()                     {}
func (d DF64NV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DF64NV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DF64NP float64

func (d DF64NP) DispMark()                     {}
func (d *DF64NP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DF64NP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DF64VN float64

func (d DF64VN) DispMark()                     {}
func (d DF64VN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DF64VN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DF64VV float64

func (d DF64VV) DispMark()                     {}
func (d DF64VV) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DF64VV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DF64VV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DF64VV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DF64VP float64

func (d DF64VP) DispMark()                     {}
func (d DF64VP) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DF64VP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DF64VP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DF64VP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DF64PN float64

func (d DF64PN) DispMark()                     {}
func (d *DF64PN) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DF64PN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DF64PV float64

func (d DF64PV) DispMark()                     {}
func (d *DF64PV) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DF64PV) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d DF64PV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DF64PV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DF64PP float64

func (d DF64PP) DispMark()                     {}
func (d *DF64PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DF64PP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DF64PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DF64PP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DInt8NN int8

func (d DInt8NN) DispMark() {}

type DInt8NV int8

func (d DInt8NV) DispMark()                     {}
func (d DInt8NV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DInt8NV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DInt8VN int8

func (d DInt8VN) DispMark()                     {}
func (d DInt8VN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DInt8VN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DInt8PP int8

func (d DInt8PP) DispMark()                     {}
func (d *DInt8PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DInt8PP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DInt8PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DInt8PP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DInt16NN int16

func (d DInt16NN) DispMark() {}

type DInt16NV int16

func (d DInt16NV) DispMark()                     {}
func (d DInt16NV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DInt16NV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DInt16VN int16

func (d DInt16VN) DispMark()                     {}
func (d DInt16VN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DInt16VN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DInt16PP int16

func (d DInt16PP) DispMark()                     {}
func (d *DInt16PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DInt16PP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DInt16PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DInt16PP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DInt32NN int32

func (d DInt32NN) DispMark() {}

type DInt32NV int32

func (d DInt32NV) DispMark()                     {}
func (d DInt32NV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DInt32NV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DInt32VN int32

func (d DInt32VN) DispMark()                     {}
func (d DInt32VN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DInt32VN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DInt32PP int32

func (d DInt32PP) DispMark()                     {}
func (d *DInt32PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DInt32PP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DInt32PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DInt32PP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DInt64NN int64

func (d DInt64NN) DispMark() {}

type DInt64NV int64

func (d DInt64NV) DispMark()                     {}
func (d DInt64NV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DInt64NV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DInt64VN int64

func (d DInt64VN) DispMark()                     {}
func (d DInt64VN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DInt64VN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DInt64PP int64

func (d DInt64PP) DispMark()                     {}
func (d *DInt64PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DInt64PP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DInt64PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DInt64PP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DUintNN uint

func (d DUintNN) DispMark() {}

type DUintNV uint

func (d DUintNV) DispMark()                     {}
func (d DUintNV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DUintNV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DUintVN uint

func (d DUintVN) DispMark()                     {}
func (d DUintVN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DUintVN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DUintPP uint

func (d DUintPP) DispMark()                     {}
func (d *DUintPP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DUintPP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DUintPP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DUintPP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DUint16NN uint16

func (d DUint16NN) DispMark() {}

type DUint16NV uint16

func (d DUint16NV) DispMark()                     {}
func (d DUint16NV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DUint16NV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DUint16VN uint16

func (d DUint16VN) DispMark()                     {}
func (d DUint16VN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DUint16VN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DUint16PP uint16

func (d DUint16PP) DispMark()                     {}
func (d *DUint16PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DUint16PP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DUint16PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DUint16PP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DUint32NN uint32

func (d DUint32NN) DispMark() {}

type DUint32NV uint32

func (d DUint32NV) DispMark()                     {}
func (d DUint32NV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DUint32NV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DUint32VN uint32

func (d DUint32VN) DispMark()                     {}
func (d DUint32VN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DUint32VN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DUint32PP uint32

func (d DUint32PP) DispMark()                     {}
func (d *DUint32PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DUint32PP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DUint32PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DUint32PP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DUint64NN uint64

func (d DUint64NN) DispMark() {}

type DUint64NV uint64

func (d DUint64NV) DispMark()                     {}
func (d DUint64NV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DUint64NV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DUint64VN uint64

func (d DUint64VN) DispMark()                     {}
func (d DUint64VN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DUint64VN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DUint64PP uint64

func (d DUint64PP) DispMark()                     {}
func (d *DUint64PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DUint64PP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DUint64PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DUint64PP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DUintptrNN uintptr

func (d DUintptrNN) DispMark() {}

type DUintptrNV uintptr

func (d DUintptrNV) DispMark()                    {}
func (d DUintptrNV) MarshalText() ([]byte, error) { return dispT(d) }
func (d *DUintptrNV) UnmarshalText(b []byte) error {
	return dispMark(reflect.ValueOf(d).Elem(), "T", b)
}

type DUintptrVN uintptr

func (d DUintptrVN) DispMark()                    {}
func (d DUintptrVN) MarshalJSON() ([]byte, error) { return dispJ(d) }
func (d *DUintptrVN) UnmarshalJSON(b []byte) error {
	return dispMark(reflect.ValueOf(d).Elem(), "J", b)
}

type DUintptrPP uintptr

func (d DUintptrPP) DispMark()                     {}
func (d *DUintptrPP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DUintptrPP) UnmarshalJSON(b []byte) error {
	return dispMark(reflect.ValueOf(d).Elem(), "J", b)
}
func (d *DUintptrPP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DUintptrPP) UnmarshalText(b []byte) error {
	return dispMark(reflect.ValueOf(d).Elem(), "T", b)
}

type DFloat32NN float32

func (d DFloat32NN) DispMark() {}

type DFloat32NV float32

func (d DFloat32NV) DispMark()                    {}
func (d DFloat32NV) MarshalText() ([]byte, error) { return dispT(d) }
func (d *DFloat32NV) UnmarshalText(b []byte) error {
	return dispMark(reflect.ValueOf(d).Elem(), "T", b)
}

type DFloat32VN float32

func (d DFloat32VN) DispMark()                    {}
func (d DFloat32VN) MarshalJSON() ([]byte, error) { return dispJ(d) }
func (d *DFloat32VN) UnmarshalJSON(b []byte) error {
	return dispMark(reflect.ValueOf(d).Elem(), "J", b)
}

type DFloat32PP float32

func (d DFloat32PP) DispMark()                     {}
func (d *DFloat32PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DFloat32PP) UnmarshalJSON(b []byte) error {
	return dispMark(reflect.ValueOf(d).Elem(), "J", b)
}
func (d *DFloat32PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DFloat32PP) UnmarshalText(b []byte) error {
	return dispMark(reflect.ValueOf(d).Elem(), "T", b)
}

type DAr0NN [0]int

func (d DAr0NN) DispMark() {}

type DAr0NV [0]int

func (d DAr0NV) DispMark()                     {}
func (d DAr0NV) MarshalText() ([]byte, error)  { return dispT(d) }
func (d *DAr0NV) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

type DAr0VN [0]int

func (d DAr0VN) DispMark()                     {}
func (d DAr0VN) MarshalJSON() ([]byte, error)  { return dispJ(d) }
func (d *DAr0VN) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }

type DAr0PP [0]int

func (d DAr0PP) DispMark()                     {}
func (d *DAr0PP) MarshalJSON() ([]byte, error) { return dispJ(*d) }
func (d *DAr0PP) UnmarshalJSON(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "J", b) }
func (d *DAr0PP) MarshalText() ([]byte, error) { return dispT(*d) }
func (d *DAr0PP) UnmarshalText(b []byte) error { return dispMark(reflect.ValueOf(d).Elem(), "T", b) }

var dispDecls = []dispDecl{
	{rt: reflect.TypeOf((*DSt2NN)(nil)).Elem(), kind: "st", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DSt2NV)(nil)).Elem(), kind: "st", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DSt2NP)(nil)).Elem(), kind: "st", j: "n", t: "p"},
	{rt: reflect.TypeOf((*DSt2VN)(nil)).Elem(), kind: "st", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DSt2VV)(nil)).Elem(), kind: "st", j: "v", t: "v"},
	{rt: reflect.TypeOf((*DSt2VP)(nil)).Elem(), kind: "st", j: "v", t: "p"},
	{rt: reflect.TypeOf((*DSt2PN)(nil)).Elem(), kind: "st", j: "p", t: "n"},
	{rt: reflect.TypeOf((*DSt2PV)(nil)).Elem(), kind: "st", j: "p", t: "v"},
	{rt: reflect.TypeOf((*DSt2PP)(nil)).Elem(), kind: "st", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DSt1NN)(nil)).Elem(), kind: "st1", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DSt1NV)(nil)).Elem(), kind: "st1", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DSt1NP)(nil)).Elem(), kind: "st1", j: "n", t: "p"},
	{rt: reflect.TypeOf((*DSt1VN)(nil)).Elem(), kind: "st1", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DSt1VV)(nil)).Elem(), kind: "st1", j: "v", t: "v"},
	{rt: reflect.TypeOf((*DSt1VP)(nil)).Elem(), kind: "st1", j: "v", t: "p"},
	{rt: reflect.TypeOf((*DSt1PN)(nil)).Elem(), kind: "st1", j: "p", t: "n"},
	{rt: reflect.TypeOf((*DSt1PV)(nil)).Elem(), kind: "st1", j: "p", t: "v"},
	{rt: reflect.TypeOf((*DSt1PP)(nil)).Elem(), kind: "st1", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DIntNN)(nil)).Elem(), kind: "int", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DIntNV)(nil)).Elem(), kind: "int", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DIntNP)(nil)).Elem(), kind: "int", j: "n", t: "p"},
	{rt: reflect.TypeOf((*DIntVN)(nil)).Elem(), kind: "int", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DIntVV)(nil)).Elem(), kind: "int", j: "v", t: "v"},
	{rt: reflect.TypeOf((*DIntVP)(nil)).Elem(), kind: "int", j: "v", t: "p"},
	{rt: reflect.TypeOf((*DIntPN)(nil)).Elem(), kind: "int", j: "p", t: "n"},
	{rt: reflect.TypeOf((*DIntPV)(nil)).Elem(), kind: "int", j: "p", t: "v"},
	{rt: reflect.TypeOf((*DIntPP)(nil)).Elem(), kind: "int", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DStrNN)(nil)).Elem(), kind: "string", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DStrNV)(nil)).Elem(), kind: "string", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DStrNP)(nil)).Elem(), kind: "string", j: "n", t: "p"},
	{rt: reflect.TypeOf((*DStrVN)(nil)).Elem(), kind: "string", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DStrVV)(nil)).Elem(), kind: "string", j: "v", t: "v"},
	{rt: reflect.TypeOf((*DStrVP)(nil)).Elem(), kind: "string", j: "v", t: "p"},
	{rt: reflect.TypeOf((*DStrPN)(nil)).Elem(), kind: "string", j: "p", t: "n"},
	{rt: reflect.TypeOf((*DStrPV)(nil)).Elem(), kind: "string", j: "p", t: "v"},
	{rt: reflect.TypeOf((*DStrPP)(nil)).Elem(), kind: "string", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DU8NN)(nil)).Elem(), kind: "u8", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DU8NV)(nil)).Elem(), kind: "u8", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DU8NP)(nil)).Elem(), kind: "u8", j: "n", t: "p"},
	{rt: reflect.TypeOf((*DU8VN)(nil)).Elem(), kind: "u8", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DU8VV)(nil)).Elem(), kind: "u8", j: "v", t: "v"},
	{rt: reflect.TypeOf((*DU8VP)(nil)).Elem(), kind: "u8", j: "v", t: "p"},
	{rt: reflect.TypeOf((*DU8PN)(nil)).Elem(), kind: "u8", j: "p", t: "n"},
	{rt: reflect.TypeOf((*DU8PV)(nil)).Elem(), kind: "u8", j: "p", t: "v"},
	{rt: reflect.TypeOf((*DU8PP)(nil)).Elem(), kind: "u8", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DSlNN)(nil)).Elem(), kind: "sl", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DSlNV)(nil)).Elem(), kind: "sl", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DSlNP)(nil)).Elem(), kind: "sl", j: "n", t: "p"},
	{rt: reflect.TypeOf((*DSlVN)(nil)).Elem(), kind: "sl", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DSlVV)(nil)).Elem(), kind: "sl", j: "v", t: "v"},
	{rt: reflect.TypeOf((*DSlVP)(nil)).Elem(), kind: "sl", j: "v", t: "p"},
	{rt: reflect.TypeOf((*DSlPN)(nil)).Elem(), kind: "sl", j: "p", t: "n"},
	{rt: reflect.TypeOf((*DSlPV)(nil)).Elem(), kind: "sl", j: "p", t: "v"},
	{rt: reflect.TypeOf((*DSlPP)(nil)).Elem(), kind: "sl", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DMapNN)(nil)).Elem(), kind: "map", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DMapNV)(nil)).Elem(), kind: "map", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DMapNP)(nil)).Elem(), kind: "map", j: "n", t: "p"},
	{rt: reflect.TypeOf((*DMapVN)(nil)).Elem(), kind: "map", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DMapVV)(nil)).Elem(), kind: "map", j: "v", t: "v"},
	{rt: reflect.TypeOf((*DMapVP)(nil)).Elem(), kind: "map", j: "v", t: "p"},
	{rt: reflect.TypeOf((*DMapPN)(nil)).Elem(), kind: "map", j: "p", t: "n"},
	{rt: reflect.TypeOf((*DMapPV)(nil)).Elem(), kind: "map", j: "p", t: "v"},
	{rt: reflect.TypeOf((*DMapPP)(nil)).Elem(), kind: "map", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DAr1NN)(nil)).Elem(), kind: "ar1", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DAr1NV)(nil)).Elem(), kind: "ar1", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DAr1NP)(nil)).Elem(), kind: "ar1", j: "n", t: "p"},
	{rt: reflect.TypeOf((*DAr1VN)(nil)).Elem(), kind: "ar1", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DAr1VV)(nil)).Elem(), kind: "ar1", j: "v", t: "v"},
	{rt: reflect.TypeOf((*DAr1VP)(nil)).Elem(), kind: "ar1", j: "v", t: "p"},
	{rt: reflect.TypeOf((*DAr1PN)(nil)).Elem(), kind: "ar1", j: "p", t: "n"},
	{rt: reflect.TypeOf((*DAr1PV)(nil)).Elem(), kind: "ar1", j: "p", t: "v"},
	{rt: reflect.TypeOf((*DAr1PP)(nil)).Elem(), kind: "ar1", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DAr2NN)(nil)).Elem(), kind: "ar2", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DAr2NV)(nil)).Elem(), kind: "ar2", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DAr2NP)(nil)).Elem(), kind: "ar2", j: "n", t: "p"},
	{rt: reflect.TypeOf((*DAr2VN)(nil)).Elem(), kind: "ar2", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DAr2VV)(nil)).Elem(), kind: "ar2", j: "v", t: "v"},
	{rt: reflect.TypeOf((*DAr2VP)(nil)).Elem(), kind: "ar2", j: "v", t: "p"},
	{rt: reflect.TypeOf((*DAr2PN)(nil)).Elem(), kind: "ar2", j: "p", t: "n"},
	{rt: reflect.TypeOf((*DAr2PV)(nil)).Elem(), kind: "ar2", j: "p", t: "v"},
	{rt: reflect.TypeOf((*DAr2PP)(nil)).Elem(), kind: "ar2", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DBoolNN)(nil)).Elem(), kind: "bool", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DBoolNV)(nil)).Elem(), kind: "bool", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DBoolNP)(nil)).Elem(), kind: "bool", j: "n", t: "p"},
	{rt: reflect.TypeOf((*DBoolVN)(nil)).Elem(), kind: "bool", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DBoolVV)(nil)).Elem(), kind: "bool", j: "v", t: "v"},
	{rt: reflect.TypeOf((*DBoolVP)(nil)).Elem(), kind: "bool", j: "v", t: "p"},
	{rt: reflect.TypeOf((*DBoolPN)(nil)).Elem(), kind: "bool", j: "p", t: "n"},
	{rt: reflect.TypeOf((*DBoolPV)(nil)).Elem(), kind: "bool", j: "p", t: "v"},
	{rt: reflect.TypeOf((*DBoolPP)(nil)).Elem(), kind: "bool", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DFnNN)(nil)).Elem(), kind: "fn", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DFnNV)(nil)).Elem(), kind: "fn", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DFnNP)(nil)).Elem(), kind: "fn", j: "n", t: "p"},
	{rt: reflect.TypeOf((*DFnVN)(nil)).Elem(), kind: "fn", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DFnVV)(nil)).Elem(), kind: "fn", j: "v", t: "v"},
	{rt: reflect.TypeOf((*DFnVP)(nil)).Elem(), kind: "fn", j: "v", t: "p"},
	{rt: reflect.TypeOf((*DFnPN)(nil)).Elem(), kind: "fn", j: "p", t: "n"},
	{rt: reflect.TypeOf((*DFnPV)(nil)).Elem(), kind: "fn", j: "p", t: "v"},
	{rt: reflect.TypeOf((*DFnPP)(nil)).Elem(), kind: "fn", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DF64NN)(nil)).Elem(), kind: "f64", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DF64NV)(nil)).Elem(), kind: "f64", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DF64NP)(nil)).Elem(), kind: "f64", j: "n", t: "p"},
	{rt: reflect.TypeOf((*DF64VN)(nil)).Elem(), kind: "f64", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DF64VV)(nil)).Elem(), kind: "f64", j: "v", t: "v"},
	{rt: reflect.TypeOf((*DF64VP)(nil)).Elem(), kind: "f64", j: "v", t: "p"},
	{rt: reflect.TypeOf((*DF64PN)(nil)).Elem(), kind: "f64", j: "p", t: "n"},
	{rt: reflect.TypeOf((*DF64PV)(nil)).Elem(), kind: "f64", j: "p", t: "v"},
	{rt: reflect.TypeOf((*DF64PP)(nil)).Elem(), kind: "f64", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DInt8NN)(nil)).Elem(), kind: "int8", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DInt8NV)(nil)).Elem(), kind: "int8", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DInt8VN)(nil)).Elem(), kind: "int8", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DInt8PP)(nil)).Elem(), kind: "int8", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DInt16NN)(nil)).Elem(), kind: "int16", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DInt16NV)(nil)).Elem(), kind: "int16", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DInt16VN)(nil)).Elem(), kind: "int16", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DInt16PP)(nil)).Elem(), kind: "int16", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DInt32NN)(nil)).Elem(), kind: "int32", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DInt32NV)(nil)).Elem(), kind: "int32", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DInt32VN)(nil)).Elem(), kind: "int32", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DInt32PP)(nil)).Elem(), kind: "int32", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DInt64NN)(nil)).Elem(), kind: "int64", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DInt64NV)(nil)).Elem(), kind: "int64", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DInt64VN)(nil)).Elem(), kind: "int64", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DInt64PP)(nil)).Elem(), kind: "int64", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DUintNN)(nil)).Elem(), kind: "uint", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DUintNV)(nil)).Elem(), kind: "uint", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DUintVN)(nil)).Elem(), kind: "uint", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DUintPP)(nil)).Elem(), kind: "uint", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DUint16NN)(nil)).Elem(), kind: "uint16", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DUint16NV)(nil)).Elem(), kind: "uint16", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DUint16VN)(nil)).Elem(), kind: "uint16", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DUint16PP)(nil)).Elem(), kind: "uint16", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DUint32NN)(nil)).Elem(), kind: "uint32", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DUint32NV)(nil)).Elem(), kind: "uint32", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DUint32VN)(nil)).Elem(), kind: "uint32", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DUint32PP)(nil)).Elem(), kind: "uint32", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DUint64NN)(nil)).Elem(), kind: "uint64", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DUint64NV)(nil)).Elem(), kind: "uint64", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DUint64VN)(nil)).Elem(), kind: "uint64", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DUint64PP)(nil)).Elem(), kind: "uint64", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DUintptrNN)(nil)).Elem(), kind: "uintptr", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DUintptrNV)(nil)).Elem(), kind: "uintptr", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DUintptrVN)(nil)).Elem(), kind: "uintptr", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DUintptrPP)(nil)).Elem(), kind: "uintptr", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DFloat32NN)(nil)).Elem(), kind: "float32", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DFloat32NV)(nil)).Elem(), kind: "float32", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DFloat32VN)(nil)).Elem(), kind: "float32", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DFloat32PP)(nil)).Elem(), kind: "float32", j: "p", t: "p"},
	{rt: reflect.TypeOf((*DAr0NN)(nil)).Elem(), kind: "ar0", j: "n", t: "n"},
	{rt: reflect.TypeOf((*DAr0NV)(nil)).Elem(), kind: "ar0", j: "n", t: "v"},
	{rt: reflect.TypeOf((*DAr0VN)(nil)).Elem(), kind: "ar0", j: "v", t: "n"},
	{rt: reflect.TypeOf((*DAr0PP)(nil)).Elem(), kind: "ar0", j: "p", t: "p"},
}
