// Code generated by tools/genstructs.py; DO NOT EDIT.

package main

import "reflect"

type (
	nint int
	nstr string
)

type L0B = E0B
type l0D = E0D
type L0E = E0E
type E0A struct {
	a struct{}       `json:"B,string,omitempty" api:"b"`
	D map[string]int `json:"x, omitempty"`
}

type E0B struct {
	É int `api:",string"`
	L0E
	b *struct{ A int } `api:"K"`
}

type E0C struct {
	NBytes `json:"B"`
	l0D
	b []int
	B struct{} `json:"b;c"`
}

type E0D struct {
	b string
	A float64 `json:"x, omitempty" api:"x"`
	*L0E
	C int `json:"b"`
	E0E
	D int
}

type E0E struct {
	é int
	C int
	b int `json:"A,OmitEmpty" api:",,omitempty"`
}

type E1A struct {
	E1D
	B struct{} `json:"A,OmitEmpty"`
	b float64  `json:"a b"`
	D map[string]int
	*E1C
}

type e1B struct {
	E1C `json:"a'b"`
	*E1E
	B struct{} `json:",string" api:"Ab"`
}

type E1C struct {
	E1D
	b *string `json:"A" api:"K"`
	E1E
}

type E1D struct {
	*NInt `json:"C,omitemptystring" api:"-"`
	B     map[string]int
}

type E1E struct {
	*e1B
	NString `json:"x"`
	é       interface{} `json:"B" api:"b,omitempty,string"`
}

type E2A struct {
	B bool `json:"Ab"`
	E2B
	C    [2]int
	nstr `json:"x" api:"K"`
	nint
	A int
}

type E2B struct {
	*e2C
	a int
	C int `json:"C"`
	*E2A
	Ab int `json:"k,"`
}

type e2C struct {
	é    interface{} `api:""`
	a    *int
	NInt `json:"B,string,omitempty"`
}

type L3E = E3E
type L3F = e3F
type E3A struct {
	B *struct{ A int }
	E3D
	*E3C
	É int `json:"" api:"a,omitempty"`
}

type e3B struct {
	Ab int `json:",omitempty" api:"€"`
	E3D
}

type E3C struct {
	E3D
	Ab int
}

type E3D struct {
	é uint8 `json:"B" api:"B,string,omitempty"`
	L3E
	É *string `json:"x"`
	*e3F
	A *struct{ A int } `json:"B,string,omitempty"`
}

type E3E struct {
	A float64        `api:"C,omitemptystring"`
	B map[string]int `api:",,omitempty"`
	*L3F
	D int `json:"B" api:"A,OmitEmpty"`
}

type e3F struct {
	D int `json:"C,omitemptystring"`
}

type E4A struct {
	D  int `api:"x, omitempty"`
	Ab int `json:",string"`
	é  **int
}

type e4B struct {
	b int `json:"a,omitempty"`
	nint
}

type e4C struct {
	*e4C
	a []int `json:"x, omitempty"`
	C uint8 `json:"a"`
}

type l5C = E5C
type L5E = E5E
type E5A struct {
	a *string
}

type E5B struct {
	a    int
	*E5E `json:"a,omitempty" api:"B"`
}

type E5C struct {
	b int  `json:"€"`
	é bool `json:"b,omitempty,string"`
}

type E5D struct {
	L5E
	C  int    `api:",,omitempty"`
	Ab int    `json:"k," api:",omitempty"`
	É  [2]int `json:"C"`
}

type E5E struct {
	É int     `json:"a b"`
	C float64 `json:"€"`
}

type E6A struct {
	E6B
	*E6D
	Ab bool `json:"a'b"`
	E6C
	B float64 `json:"€"`
}

type E6B struct {
	*E6A
	D  int
	Ab int
}

type E6C struct {
	B interface{} `json:"A,OmitEmpty"`
	E6D
}

type E6D struct {
	*NInt
	Ab []int
	*E6A
}

type E6E struct {
	b  interface{}
	Ab int              `json:"Ab" api:",omitempty"`
	é  *string          `json:"B,string,omitempty" api:"a,omitempty"`
	B  *struct{ A int } `json:"C"`
}

type E7A struct {
	E7B
	D []int `json:",omitempty" api:"a'b"`
	C *struct{ A int }
	E7D
	Ab float64 `json:"€" api:",omitempty"`
}

type E7B struct {
	*E7D `json:",,omitempty" api:"B"`
	D    int
}

type e7C struct {
	E7D
	B [2]int `api:"Ab"`
	a uint8  `json:"a,omitempty" api:"C,omitemptystring"`
}

type E7D struct {
	B map[string]int `json:"Ab"`
	b int            `api:"k,"`
	a int            `json:"C,omitemptystring"`
	é []int          `json:"K"`
}

type E8A struct {
	E8C
	C  int
	Ab int `json:"é"`
}

type e8B struct {
	E8C
	é  interface{} `json:"€" api:"b"`
	b  [2]int      `json:"é"`
	Ab int
}

type E8C struct {
	a int `api:"A,OmitEmpty"`
	A int `json:"é"`
}

type E9A struct {
	D string `api:"-,"`
	E9B
	*E9A
	B bool `json:""`
}

type E9B struct {
	C int `json:"B" api:"a'b"`
	B int `json:"b"`
	*nint
	e9D
	E9C `json:",string"`
	Ab  int
}

type E9C struct {
	b int `json:"a"`
	e9D
}

type e9D struct {
	É int
	*e9D
	B  **int `json:"Ab" api:"é"`
	Ab int   `json:"Ab"`
}

type E10A struct {
	b int
	NInt
	E10B
}

type E10B struct {
	Ab int `json:"€"`
	D  int
	E10C
	É bool `json:"x/y" api:"a b"`
}

type E10C struct {
	é int
	b float64 `json:"a'b" api:",,omitempty"`
	C int     `json:"C"`
	B int     `json:"b"`
}

type e10D struct {
	*e10E
	é int  `json:"C,omitemptystring"`
	C bool `json:"x"`
	*e10D
}

type e10E struct {
	A string `json:"C"`
}

type L11B = E11B
type L11C = E11C
type L11D = E11D
type E11A struct {
	*E11C
	E11B
	D map[string]int `json:"C,omitemptystring" api:",,omitempty"`
	a int
	é int `json:"-"`
}

type E11B struct {
	E11E
	B int `json:"Ab"`
	*L11D
	b map[string]int `json:"a b"`
}

type E11C struct {
	Ab int
}

type E11D struct {
	É int `json:"A,OmitEmpty"`
	e11F
	E11E
	B int `json:"a b"`
}

type E11E struct {
	É     int
	é     []int
	*e11F `json:"k,"`
}

type e11F struct {
	C  int   `json:"C"`
	b  uint8 `json:"a b"`
	Ab int   `json:",string"`
}

type E12A struct {
	*E12D
	C  int `json:"Ab"`
	B  int
	Ab int `json:"b"`
	A  int
}

type e12B struct {
	é int `json:"A"`
	E12D
	nstr
	b int `json:"b;c" api:"x, omitempty"`
}

type E12C struct {
	NString `json:"b,omitempty,string"`
	é       int `api:"-,"`
	B       int `json:"x, omitempty"`
}

type E12D struct {
	Ab int
	e12E
}

type e12E struct {
	É bool `json:"a"`
	a int
}

type E13A struct {
	a    *string
	é    int
	E13B `api:"€"`
}

type E13B struct {
	*NInt
	é int
}

type E14A struct {
	e14B
	B int `json:"a"`
}

type e14B struct {
	é int `json:"a b"`
	*e14B
}

type E15A struct {
	É int
	C *string
}

type E15B struct {
	b int
	É *int `json:"B,string,omitempty"`
}

type l16C = e16C
type L16E = E16E
type L16F = e16F
type E16A struct {
	a int `api:"B,string,omitempty"`
	*l16C
}

type e16B struct {
	B *struct{ A int } `json:"b,omitempty,string"`
	C int              `api:"a b"`
	*e16D
	*E16E
}

type e16C struct {
	B map[string]int `json:"A,OmitEmpty" api:"b;c"`
	D uint8
	*e16D
}

type e16D struct {
	A int    `json:"C,omitemptystring"`
	É [2]int `json:"A"`
	L16F
	D *string `json:"a'b"`
}

type E16E struct {
	*e16F
	É int `json:""`
	B *struct{ A int }
}

type e16F struct {
	B []int `json:",,omitempty"`
	A int   `api:"-,"`
}

type L17C = E17C
type L17E = E17E
type L17F = E17F
type E17A struct {
	Ab uint8 `json:",,omitempty"`
	L17E
	é map[string]int `api:"B"`
	NString
}

type E17B struct {
	*L17E
	*e17D
	*E17C `json:",omitempty" api:"b"`
	Ab    int `json:"-,"`
}

type E17C struct {
	B string `json:"b"`
	L17F
	é int `json:"A" api:",string"`
}

type e17D struct {
	A struct{} `json:"x, omitempty"`
	*L17F
	É int
}

type E17E struct {
	A  int `json:"B,string,omitempty" api:"Ab"`
	Ab **int
	E17F
}

type E17F struct {
	Ab string `json:"a b"`
	É  int
}

type E18A struct {
	Ab int `json:",string" api:"-"`
	B  int `json:"é"`
	*e18D
}

type E18B struct {
	D     int `json:"b,omitempty,string"`
	É     int `api:"C,omitemptystring"`
	*E18C `json:"k,"`
	e18D
}

type E18C struct {
	D int
	B bool `json:"B"`
	É int  `json:"A"`
	*nint
}

type e18D struct {
	é  int
	Ab float64 `json:""`
}

type l19C = e19C
type l19E = e19E
type E19A struct {
	*E19F
	A  int     `json:"x" api:",omitempty"`
	Ab *string `api:",string"`
	*E19B
	b int
}

type E19B struct {
	b int
	e19C
	A []int
}

type e19C struct {
	C [2]int      `json:"é"`
	a interface{} `api:"b"`
	E19D
	b *struct{ A int }
}

type E19D struct {
	nstr
	b int
}

type e19E struct {
	B int `json:"A,OmitEmpty" api:"B"`
	a int `json:"x"`
}

type E19F struct {
	a float64
	D struct{} `json:"é"`
}

type E20A struct {
	B int
	D uint8
	E20B
}

type E20B struct {
	é map[string]int   `api:"C"`
	D *struct{ A int } `api:"b,omitempty,string"`
	A []int
	a int
}

type l21C = E21C
type L21D = E21D
type L21E = E21E
type L21F = E21F
type E21A struct {
	l21C
	b int `json:"A"`
	*E21B
	É int `json:"b" api:"B"`
	A int `api:"C"`
}

type E21B struct {
	E21D
	a    int `json:"a'b" api:"C"`
	Ab   struct{}
	É    bool `json:"b"`
	L21F `api:",string"`
}

type E21C struct {
	a []int `json:"x/y"`
	*L21E
	D int `api:"k,"`
}

type E21D struct {
	É [2]int
	A int
	b map[string]int `json:"x, omitempty"`
	E21E
	a int
}

type E21E struct {
	é int `json:"x"`
	A []int
	*E21F
	C interface{} `json:"b;c" api:""`
	*L21F
	D int `json:"B"`
}

type E21F struct {
	A int         `json:"-"`
	C interface{} `json:",omitempty"`
	a struct{}
}

type E22A struct {
	B bool `json:"Ab"`
	é *string
	E22B
	C [2]int
}

type E22B struct {
	é *int
	a int `json:"A,OmitEmpty"`
	D interface{}
	É *string `json:"K" api:"k,"`
	E22C
}

type E22C struct {
	é *int `json:"b;c"`
	a int  `json:",,omitempty" api:"a"`
	É map[string]int
}

type E23A struct {
	C [2]int `json:",,omitempty"`
	*e23B
	b  int  `json:"B"`
	É  bool `json:",string"`
	Ab struct{}
}

type e23B struct {
	b int     `json:"b;c"`
	C float64 `json:"b,omitempty,string"`
	*E23A
}

type E23C struct {
	a int `api:""`
	*E23C
}

type E24A struct {
	e24B
	A  int `json:"-" api:"a,omitempty"`
	Ab int
	*E24A
}

type e24B struct {
	B *struct{ A int } `json:"€"`
	*e24B
	é int
}

type E25A struct {
	b int `api:"a b"`
}

type E25B struct {
	é [2]int `json:"B,string,omitempty"`
	E25C
	D int `json:"b;c"`
}

type E25C struct {
	B int
	C int
	b int
}

type E25D struct {
	É int
	*E25A
}

type L26C = E26C
type E26A struct {
	a int `json:"a" api:"B"`
	*e26B
	nstr `json:"A,OmitEmpty"`
}

type e26B struct {
	*E26C
	L26C `json:"é" api:"b"`
	é    []int
}

type E26C struct {
	NBytes
	D int `json:"b,omitempty,string"`
	*nint
	a  int   `json:"A"`
	Ab **int `json:"a b" api:"b,omitempty,string"`
	A  int   `json:"a,omitempty" api:"a,omitempty"`
}

type l27C = e27C
type E27A struct {
	D *struct{ A int } `json:"é"`
	*E27D
	C int
	a int `json:"K"`
	E27B
	nstr `json:"a"`
}

type E27B struct {
	NamedAny
	b *int  `json:"€" api:"b"`
	A int   `json:"C"`
	a []int `json:"a,omitempty"`
}

type e27C struct {
	A *struct{ A int } `json:"" api:"K"`
	E27D
}

type E27D struct {
	É string
	é bool `json:"C,omitemptystring"`
}

type E28A struct {
	*E28C `json:"x, omitempty"`
	b     *struct{ A int } `json:",,omitempty"`
	a     *string
}

type e28B struct {
	A int `json:"B,string,omitempty"`
	E28C
	*e28B
}

type E28C struct {
	E28D
	É int
	a *struct{ A int } `json:"a,omitempty"`
	b int
}

type E28D struct {
	Ab *struct{ A int }
	C  bool
	*E28D
}

type L29B = e29B
type L29C = E29C
type E29A struct {
	é  int         `json:"K"`
	b  int         `json:"b,omitempty,string" api:"-,"`
	Ab interface{} `api:"a b"`
	*nint
	e29B `json:"A" api:"K"`
	a    int `json:"x"`
}

type e29B struct {
	B int
	*E29C
	é int `json:"b" api:"B"`
	*L29C
	A int `json:"x"`
}

type E29C struct {
	C *string
	a []int `api:"-"`
}

type E30A struct {
	D [2]int
}

type E30B struct {
	É bool `json:"k,"`
}

type L31B = e31B
type E31A struct {
	E31C
	A **int `json:"A"`
	B int   `json:"A"`
}

type e31B struct {
	*E31C
	C []int `json:",string"`
}

type E31C struct {
	b  *string
	Ab bool
	é  int
}

type L32B = e32B
type L32D = E32D
type l32E = e32E
type E32A struct {
	e32B
	B uint8 `api:"a,omitempty"`
	E32F
	NBytes `json:"x"`
	é      int `api:"C,omitemptystring"`
}

type e32B struct {
	a interface{} `json:",,omitempty" api:"-"`
	é []int       `json:"a" api:"K"`
}

type e32C struct {
	*l32E
	B  int `json:"a'b"`
	Ab struct{}
	D  uint8 `json:"B,string,omitempty" api:"a,omitempty"`
	*e32E
}

type E32D struct {
	É map[string]int `json:"a b" api:"C,omitemptystring"`
	C **int          `json:"x" api:",omitempty"`
	*E32F
	e32E
}

type e32E struct {
	*E32F
	A *struct{ A int }
	C int
}

type E32F struct {
	C *string
	A bool
}

type E33A struct {
	Ab *string `json:"C,omitemptystring"`
	É  []int   `json:"x, omitempty"`
	D  [2]int  `json:",,omitempty" api:"-"`
	E33C
}

type E33B struct {
	*E33C
	C int `api:"B,string,omitempty"`
	*nint
}

type E33C struct {
	D int `json:"a'b"`
	b int
	NamedAny
}

type E34A struct {
	C int    `json:"x/y" api:"C"`
	a [2]int `json:"a,omitempty"`
	*E34D
}

type E34B struct {
	C string `json:"é"`
	É int    `json:"C"`
	E34D
}

type e34C struct {
	a **int
	b int `json:"A" api:"a"`
	E34D
}

type E34D struct {
	A  []int `json:""`
	Ab int
	C  int
	B  int `json:",,omitempty" api:"k,"`
}

type L35B = E35B
type E35A struct {
	B interface{} `json:"a b"`
	E35B
	b *int `json:"b" api:"k,"`
}

type E35B struct {
	C int `json:"-"`
}

type E36A struct {
	b map[string]int `json:"b;c"`
	e36C
	Ab int `json:"x"`
	e36B
	C int `json:"-,"`
}

type e36B struct {
	e36C `json:"b;c"`
	C    *struct{ A int } `json:"K" api:",,omitempty"`
	B    **int            `json:""`
}

type e36C struct {
	é int     `json:"é"`
	B *string `json:"A"`
}

type L37E = E37E
type l37F = e37F
type E37A struct {
	*E37C
	NInt `json:"b;c"`
	b    int
	C    struct{}    `api:"a,omitempty"`
	é    interface{} `json:"a'b"`
}

type E37B struct {
	B []int `api:"B"`
	A **int `json:"x"`
}

type E37C struct {
	Ab *string `json:"b;c"`
	*l37F
	e37F
}

type E37D struct {
	L37E
	a float64 `json:",omitempty"`
	*e37F
	nint `json:"a b"`
}

type E37E struct {
	B    struct{} `json:"C"`
	e37F `json:"x/y"`
	b    string `api:"B,string,omitempty"`
}

type e37F struct {
	b  *string
	Ab *struct{ A int } `json:"B,string,omitempty"`
	D  string           `api:"-"`
	é  map[string]int
}

type E38A struct {
	A  string `api:"B"`
	Ab uint8  `json:"b"`
	b  int    `json:"A,OmitEmpty" api:"€"`
}

type E38B struct {
	a []int `api:"€"`
	B int   `json:",,omitempty"`
	*e38C
}

type e38C struct {
	*E38A
	B [2]int `json:"A,OmitEmpty" api:"-,"`
	e38D
	b []int `api:"-,"`
	A []int `json:""`
}

type e38D struct {
	B int         `json:"é"`
	C interface{} `json:"b"`
}

type E38E struct {
	D *int `api:"B,string,omitempty"`
	b float64
	a map[string]int `json:"b;c"`
}

type L39C = E39C
type L39D = e39D
type L39E = e39E
type E39A struct {
	D int `json:"C"`
	e39F
	*L39D
}

type e39B struct {
	D map[string]int `json:"é"`
	B *string        `json:"x, omitempty"`
	e39D
	a **int `json:",omitempty"`
}

type E39C struct {
	Ab **int
	É  []int `api:",string"`
}

type e39D struct {
	C []int `json:""`
	e39F
}

type e39E struct {
	é int `api:"b"`
	D int `json:"é"`
}

type e39F struct {
	C int
	B int `json:"A,OmitEmpty"`
	a []int
}

type E40A struct {
	*E40C
	A int `json:"C"`
}

type E40B struct {
	Ab *string `json:"K"`
}

type E40C struct {
	b *int `json:"-," api:"A,OmitEmpty"`
}

type E41A struct {
	A int
	*nint
	B *struct{ A int } `api:"Ab"`
	b *int
}

type E41B struct {
	D *string `json:"x, omitempty" api:"C"`
	b int     `json:"a'b"`
}

type E42A struct {
	É *struct{ A int }
	*E42A
	A int
	E42C
	e42B
}

type e42B struct {
	E42C
	C  int
	Ab [2]int
	é  int `json:"€"`
}

type E42C struct {
	A int `json:"€"`
	*E42A
	é map[string]int `api:"a'b"`
}

type L43B = E43B
type E43A struct {
	L43B
	Ab *struct{ A int }
	E43B
}

type E43B struct {
	É int
	B int `json:"B,string,omitempty"`
	a int `api:"K"`
	b int `json:",omitempty"`
}

type L44B = E44B
type E44A struct {
	A     int
	*L44B `json:"A,OmitEmpty" api:"x, omitempty"`
	*nint
}

type E44B struct {
	É  map[string]int `json:"-,"`
	Ab *string        `json:"C"`
	B  int
}

type E44C struct {
	A     int `json:"a,omitempty" api:"x"`
	*E44D `json:",string"`
	B     *int
	D     int `json:"b,omitempty,string" api:"K"`
	é     int
}

type E44D struct {
	a int `json:",string" api:"B"`
	NInt
	D interface{} `api:"C"`
}

type E45A struct {
	é    interface{}
	B    bool `json:",omitempty"`
	E45B `json:"C"`
	E45F
	A int
	E45D
}

type E45B struct {
	D  int            `json:"x"`
	A  map[string]int `json:"a,omitempty"`
	É  struct{}
	Ab int `json:"A"`
}

type E45C struct {
	E45D
	B int `json:"b,omitempty,string" api:"x/y"`
	E45F
}

type E45D struct {
	*E45A
	A int
}

type e45E struct {
	Ab bool `json:"x"`
	B  int  `json:"a b"`
	*e45E
}

type E45F struct {
	Ab int `json:"B,string,omitempty"`
}

type l46D = E46D
type E46A struct {
	b int
	E46B
	Ab int `json:"C"`
	é  int
}

type E46B struct {
	É     map[string]int `api:"C"`
	*E46C `json:"k,"`
}

type E46C struct {
	b int `json:"a'b"`
	l46D
	é int
	B []int `api:"B,string,omitempty"`
	nstr
}

type E46D struct {
	é int `json:"A,OmitEmpty" api:"A,OmitEmpty"`
	A int `json:"A,OmitEmpty"`
	b bool
}

type L47C = E47C
type E47A struct {
	b int
	É float64
	E47C
	L47C
	é int `json:"B,string,omitempty"`
	e47B
}

type e47B struct {
	a map[string]int `json:",string"`
	L47C
	B int
	D int `api:"b;c"`
	E47C
}

type E47C struct {
	C int     `json:"a,omitempty"`
	D *string `json:"k,"`
}

type E48A struct {
	É int `json:""`
	B int
	C *struct{ A int } `json:"€" api:"a"`
}

type e48B struct {
	A int `json:"a"`
	C int
}

type E48C struct {
	b *int `json:"b,omitempty,string"`
	A int  `json:"k,"`
	*nint
	D map[string]int
	E48E
	NInt `json:"B"`
}

type E48D struct {
	D     int `json:"A" api:"C,omitemptystring"`
	*nint `json:"-,"`
	E48E
	*E48A `api:"x, omitempty"`
}

type E48E struct {
	a int  `json:",,omitempty"`
	D int  `api:"k,"`
	A bool `api:"x, omitempty"`
	É int  `json:"A"`
}

type E49A struct {
	NamedAny
	é int `json:"C"`
	*e49C
}

type E49B struct {
	nint
	E49D
	B *struct{ A int } `json:"Ab"`
	É *string          `json:"x"`
}

type e49C struct {
	E49D
	D bool `json:"x" api:"Ab"`
	B int  `json:"x/y"`
}

type E49D struct {
	A int `json:"A,OmitEmpty"`
	B int `json:"b,omitempty,string"`
	a int `api:"k,"`
}

type E50A struct {
	é struct{} `api:"C,omitemptystring"`
	C *string  `json:",,omitempty"`
	e50B
}

type e50B struct {
	D interface{} `json:",,omitempty"`
	é uint8       `json:"Ab" api:"-,"`
}

type L51B = E51B
type l51C = e51C
type E51A struct {
	E51D
	*l51C
	É []int `json:",,omitempty"`
}

type E51B struct {
	*e51C
	b map[string]int
	l51C
	Ab int `api:"B,string,omitempty"`
	B  int
}

type e51C struct {
	*E51D
	a int `json:"A"`
	NInt
	C string
}

type E51D struct {
	C string
	é float64 `json:"x"`
}

type L52B = e52B
type L52C = e52C
type E52A struct {
	*L52C
	b int
}

type e52B struct {
	L52C
	D *string
	A int `json:"A,OmitEmpty"`
}

type e52C struct {
	É float64 `json:""`
	B bool
}

type l53B = E53B
type E53A struct {
	E53B
	b bool
	A string `json:"-,"`
}

type E53B struct {
	D int `json:"A"`
	é int `json:"x"`
	É int `json:"x, omitempty" api:"C"`
}

type E54A struct {
	E54D
	*E54A
	É struct{} `json:"-," api:"A,OmitEmpty"`
}

type E54B struct {
	A int
	B *struct{ A int } `json:"b,omitempty,string"`
	*E54B
	b [2]int
	é int `api:"A,OmitEmpty"`
	NInt
}

type e54C struct {
	e54E
	*e54C
	Ab int
	B  *string
}

type E54D struct {
	É int `json:"é"`
	B int `json:"B,string,omitempty" api:"b,omitempty,string"`
}

type e54E struct {
	É [2]int
	é uint8  `json:"b;c"`
	b [2]int `json:",omitempty"`
}

type L55B = E55B
type E55A struct {
	C uint8 `json:"€"`
	A bool
	b **int
}

type E55B struct {
	*NInt
	C        [2]int `json:"-,"`
	NamedAny `json:"a,omitempty"`
	B        uint8
}

type E56A struct {
	*E56B
	É int
	é []int `api:",string"`
}

type E56B struct {
	*E56A
	D  int `json:"a'b"`
	é  string
	Ab int
}

type E57A struct {
	a bool
	é *int `json:"a b"`
	E57D
	É *int
}

type E57B struct {
	Ab *struct{ A int }
	é  [2]int `json:",string"`
}

type e57C struct {
	A *string `json:"A"`
	C int     `json:"A,OmitEmpty"`
	D bool    `api:"€"`
	*E57D
}

type E57D struct {
	B  int `api:"a b"`
	Ab float64
	C  bool
}

type E58A struct {
	B string `json:"a'b" api:"a b"`
	nint
	É interface{} `json:"é"`
	b []int       `json:"b;c"`
	é *int
	*E58D
}

type E58B struct {
	a    interface{} `json:"-,"`
	e58C `api:"b;c"`
	b    struct{} `json:"b;c"`
	D    *int     `json:"B"`
}

type e58C struct {
	NBytes
	É int
	b int   `json:"B,string,omitempty" api:"-,"`
	a uint8 `json:"a"`
}

type E58D struct {
	nint `json:"k,"`
	b    []int
	a    int `json:"C"`
	C    int `json:"B" api:"C,omitemptystring"`
}

type l59C = E59C
type E59A struct {
	é interface{}
	b int  `json:"C"`
	C bool `json:"x, omitempty"`
}

type E59B struct {
	b int `json:"B,string,omitempty" api:"C,omitemptystring"`
	É []int
}

type E59C struct {
	b *int `json:",string"`
	D bool `json:"a,omitempty" api:"K"`
}

type l60B = e60B
type l60C = E60C
type E60A struct {
	l60C
	É struct{} `json:"-,"`
	D int      `json:"C,omitemptystring"`
}

type e60B struct {
	E60C
	D float64 `json:"-,"`
	é [2]int
	l60C
}

type E60C struct {
	É struct{} `json:"é"`
	b int      `json:"a,omitempty"`
}

type L61C = E61C
type E61A struct {
	e61B
	Ab [2]int
	é  uint8
}

type e61B struct {
	B uint8 `json:"A,OmitEmpty"`
}

type E61C struct {
	é  int
	Ab int `json:"-,"`
	A  [2]int
	b  map[string]int `json:"-"`
}

type E62A struct {
	É    struct{}
	E62B `json:"b"`
}

type E62B struct {
	b int `json:",string"`
	A uint8
}

type L63B = E63B
type l63C = e63C
type E63A struct {
	A float64 `json:"€" api:"Ab"`
	B *string
}

type E63B struct {
	*E63E
	É map[string]int `json:"C,omitemptystring"`
	é float64
}

type e63C struct {
	*E63E
	É struct{}
	B int
}

type E63D struct {
	b float64
	E63E
}

type E63E struct {
	D [2]int `json:",,omitempty"`
	B interface{}
}

type E64A struct {
	Ab int
	É  *string
	C  [2]int
}

type E64B struct {
	É  int `json:"C,omitemptystring"`
	Ab map[string]int
	C  map[string]int
	E64C
	*E64A
}

type E64C struct {
	b int `json:"B"`
	B int
}

type l65B = E65B
type E65A struct {
	D int `api:",omitempty"`
	*E65C
}

type E65B struct {
	Ab string `json:"A"`
	*E65C
}

type E65C struct {
	É []int  `json:",,omitempty" api:"a'b"`
	C string `json:"b,omitempty,string"`
}

type E66A struct {
	É  uint8
	Ab uint8
	*e66B
}

type e66B struct {
	A int  `json:"a b" api:"a'b"`
	b *int `api:"Ab"`
}

type E67A struct {
	C     int
	*E67B `json:"a,omitempty"`
}

type E67B struct {
	B int
}

type E68A struct {
	Ab int
	A  int `json:"A"`
	e68B
	b int `api:"x, omitempty"`
}

type e68B struct {
	*E68A
	a string
	é *struct{ A int }
}

type E69A struct {
	D string `json:"€" api:"b;c"`
	*E69A
	a int `api:"B"`
	E69B
}

type E69B struct {
	B     [2]int `json:",,omitempty"`
	b     int
	*E69A `json:"B,string,omitempty"`
}

type L70C = E70C
type E70A struct {
	*E70B
	D  int
	Ab string
	E70D
	*L70C
}

type E70B struct {
	a    int    `json:"C,omitemptystring"`
	D    [2]int `api:",omitempty"`
	A    string `json:",,omitempty" api:"A"`
	E70C `json:"b" api:"é"`
}

type E70C struct {
	Ab *string `json:"a" api:"-"`
	A  int
	B  map[string]int `json:"€"`
}

type E70D struct {
	A *string `api:"x/y"`
	C [2]int
	B int `json:"€"`
}

type E71A struct {
	*E71A
	*e71B `json:"é"`
	B     *int `json:"x/y"`
	C     int  `json:"A"`
}

type e71B struct {
	D     int `json:"b,omitempty,string" api:"-,"`
	*E71A `json:"b;c"`
	E71C
	É struct{} `json:"b,omitempty,string" api:"B,string,omitempty"`
}

type E71C struct {
	D struct{}
	é bool     `json:"a,omitempty"`
	É struct{} `json:"-" api:"C,omitemptystring"`
	*E71C
}

type E72A struct {
	D    int `json:",string"`
	e72C `json:"B" api:"C"`
	*e72B
	a int
}

type e72B struct {
	C int
	E72D
	Ab int `json:"B,string,omitempty"`
}

type e72C struct {
	É int
	E72E
	nint
}

type E72D struct {
	b *string
	A *int `json:"C,omitemptystring"`
	*e72B
	É int
	B int `json:"x, omitempty"`
	E72F
	*e72C `json:"b,omitempty,string"`
}

type E72E struct {
	D []int `json:"-," api:"K"`
	E72F
	NInt
	C int `json:"A,OmitEmpty"`
	a int `json:"-,"`
}

type E72F struct {
	b int `json:"-,"`
	*e72B
}

type E73A struct {
	É int
	é int `api:"-,"`
	*E73B
}

type E73B struct {
	a int `json:"é"`
	b int `json:""`
	*E73C
	A     int
	*nint `json:"k,"`
}

type E73C struct {
	Ab bool
	A  int     `json:"-"`
	b  float64 `json:"a" api:"k,"`
}

type L74B = E74B
type L74C = e74C
type L74E = E74E
type L74F = E74F
type E74A struct {
	C uint8 `json:"b,omitempty,string" api:"C,omitemptystring"`
}

type E74B struct {
	É bool `json:"x" api:"B"`
	a [2]int
	*L74C
	e74C
}

type e74C struct {
	A int
	É int
	*E74F
	D  [2]int `api:"a"`
	Ab int    `json:"a'b"`
}

type E74D struct {
	L74E
	C bool `json:"a b"`
	*L74F
	é int
}

type E74E struct {
	é map[string]int
	a *int `api:"é"`
	L74F
	D int `json:"x/y"`
	E74F
}

type E74F struct {
	NamedAny `api:"a"`
	b        string  `api:"x, omitempty"`
	é        float64 `json:",omitempty" api:"Ab"`
	a        uint8
}

type E75A struct {
	D int `json:"b" api:"-"`
	NString
	*E75A
	b     int `json:"B"`
	*E75B `json:"B,string,omitempty"`
	Ab    **int `json:"A,OmitEmpty" api:"a b"`
}

type E75B struct {
	*E75B
	D int `json:",string"`
}

type L76D = E76D
type E76A struct {
	*E76D
	D int
	C int `json:",string"`
	A int `json:"b;c"`
}

type E76B struct {
	É int `json:"C"`
	*E76C
	b int `api:",omitempty"`
	*L76D
}

type E76C struct {
	D int `api:"a'b"`
	*E76E
	Ab int `json:"a,omitempty" api:"A,OmitEmpty"`
	*L76D
}

type E76D struct {
	NBytes
	A int `json:"-,"`
	b int `json:"b;c"`
	*E76E
}

type E76E struct {
	B string `json:"b,omitempty,string"`
	b *int   `api:"B,string,omitempty"`
}

type L77C = E77C
type L77E = E77E
type E77A struct {
	D int `json:"-,"`
	E77B
}

type E77B struct {
	É    int
	Ab   int `api:"a'b"`
	C    int `json:"Ab" api:"x/y"`
	E77D `api:"b,omitempty,string"`
}

type E77C struct {
	*L77E
	É int `json:"x" api:"b"`
}

type E77D struct {
	*L77E
	Ab int
	b  interface{} `api:",omitempty"`
	é  string      `api:"b,omitempty,string"`
}

type E77E struct {
	é [2]int
	É *struct{ A int } `json:"x" api:"b,omitempty,string"`
}

type E78A struct {
	a map[string]int `json:"€"`
	é *string        `json:"b,omitempty,string"`
	C map[string]int `json:"B,string,omitempty"`
	*E78B
	D int `json:"A,OmitEmpty"`
}

type E78B struct {
	A int     `json:",string" api:"C"`
	a *string `json:",,omitempty"`
	NamedAny
}

type L79B = E79B
type E79A struct {
	Ab int `json:"a'b"`
	E79B
	nstr
	C        *string `json:"-"`
	NamedAny `json:"C"`
	A        struct{}
}

type E79B struct {
	C *struct{ A int } `api:",,omitempty"`
	a int
	B int `json:"b;c" api:"C"`
}

type l80B = e80B
type L80E = E80E
type E80A struct {
	Ab int `json:"é" api:"-"`
	E80C
}

type e80B struct {
	é     interface{} `json:"x" api:""`
	*E80C `json:"-"`
	E80E
	*E80D
	C int `api:"b"`
}

type E80C struct {
	É bool
	C bool `json:"k," api:"B"`
	E80D
	*E80E
}

type E80D struct {
	é map[string]int `api:"b,omitempty,string"`
	L80E
	C int            `json:"C"`
	D map[string]int `json:",string" api:",,omitempty"`
}

type E80E struct {
	b int
}

type l81D = e81D
type E81A struct {
	b int `api:",string"`
	A int
	*e81C
}

type E81B struct {
	*l81D
	*e81D `json:"x/y"`
	B     int `api:"a,omitempty"`
	D     int `json:"A,OmitEmpty"`
	*e81C
}

type e81C struct {
	A int `api:"C"`
	E81E
	*l81D
	Ab int
}

type e81D struct {
	Ab int    `json:"Ab"`
	é  *int   `api:"B"`
	A  string `json:"k," api:"k,"`
	C  *string
}

type E81E struct {
	A  string
	É  [2]int
	Ab *int `json:",omitempty"`
	NBytes
}

type E82A struct {
	e82C
	C int            `json:"Ab"`
	D map[string]int `json:"K"`
	*e82E
	A int `api:"é"`
}

type E82B struct {
	C *struct{ A int }
	*E82D
	D  uint8 `json:",omitempty"`
	a  []int `json:",,omitempty"`
	Ab int
}

type e82C struct {
	E82D
	Ab int            `json:"k," api:"-"`
	a  map[string]int `json:""`
	É  uint8
	D  uint8 `json:"a" api:"x, omitempty"`
}

type E82D struct {
	E82F `api:"k,"`
	NamedAny
	é int
	C int
	e82E
}

type e82E struct {
	E82F
	É *struct{ A int } `json:"a'b"`
}

type E82F struct {
	*E82F
	B int
}

type E83A struct {
	b struct{} `json:"a'b"`
	*E83A
	é interface{}
}

type E83B struct {
	Ab int
	E83C
}

type E83C struct {
	C int            `json:",omitempty"`
	D map[string]int `json:"Ab" api:"B"`
	a interface{}    `json:"x"`
}

type E84A struct {
	Ab int
	b  *int `json:"a b"`
	e84B
	a int     `api:"C"`
	C float64 `api:"C,omitemptystring"`
	e84C
}

type e84B struct {
	A bool   `json:"-," api:"a"`
	É string `api:"a b"`
	*e84D
	Ab *string
	b  uint8 `json:"C,omitemptystring"`
}

type e84C struct {
	*E84A `json:"x"`
	A     int
	*e84C
	C *int
}

type e84D struct {
	A *struct{ A int } `json:"b"`
	C int              `json:",,omitempty"`
}

type E85A struct {
	E85B
	*E85C
	D string `json:"x"`
	C int    `json:"B,string,omitempty"`
}

type E85B struct {
	*E85C
	É int
	C int     `api:"a b"`
	é *string `json:"C,omitemptystring"`
	B struct{}
}

type E85C struct {
	C int `api:"b,omitempty,string"`
	D int
	a [2]int `json:"€"`
}

type E86A struct {
	é  string
	Ab *struct{ A int } `json:"-," api:"C"`
	E86C
	b *string `json:"€" api:"C,omitemptystring"`
	e86D
}

type e86B struct {
	É interface{} `json:""`
	e86D
	B struct{} `json:"B,string,omitempty"`
}

type E86C struct {
	e86D
	*E86C
	a int `json:"k,"`
	A struct{}
}

type e86D struct {
	C     struct{} `json:"Ab"`
	é     int      `json:"b" api:"a"`
	*E86C `json:"b;c"`
}

type l87B = e87B
type E87A struct {
	nstr
	é     int
	*l87B `api:",string"`
}

type e87B struct {
	A int `json:"b,omitempty,string" api:"A"`
}

type L88B = E88B
type L88C = e88C
type E88A struct {
	É int
	L88C
	B    *int `api:"A,OmitEmpty"`
	é    *int
	L88B `json:"Ab" api:"C,omitemptystring"`
}

type E88B struct {
	C int `json:"x"`
}

type e88C struct {
	C int
	a int `json:"b;c"`
}

type l89B = E89B
type E89A struct {
	b     int `json:"x, omitempty" api:"A,OmitEmpty"`
	D     int `json:"a'b" api:"b;c"`
	*E89B `json:"x"`
	É     float64 `json:"x, omitempty"`
}

type E89B struct {
	C int
	É int `api:"-"`
}

type E90A struct {
	E90B
	Ab int
	é  float64
	b  struct{} `json:""`
}

type E90B struct {
	*E90C
	É bool  `json:"A,OmitEmpty"`
	C []int `json:"a,omitempty" api:"a'b"`
}

type E90C struct {
	e90D
	b int `json:",omitempty" api:"x, omitempty"`
}

type e90D struct {
	D  *string `json:"a'b"`
	é  [2]int  `json:"a" api:"A,OmitEmpty"`
	Ab int
}

type L91C = E91C
type E91A struct {
	D     interface{} `json:"b"`
	A     interface{}
	*E91B `api:"x/y"`
	*L91C
}

type E91B struct {
	*L91C
	A struct{} `json:"C,omitemptystring" api:"C,omitemptystring"`
	*E91C
}

type E91C struct {
	B  [2]int `json:"K"`
	b  struct{}
	a  string `json:""`
	Ab *int   `json:"A,OmitEmpty"`
	nstr
}

type E92A struct {
	C    struct{} `api:"a,omitempty"`
	E92B `json:"Ab"`
	Ab   *int           `json:"a b" api:"-"`
	B    map[string]int `json:",,omitempty"`
}

type E92B struct {
	A     map[string]int `json:",,omitempty"`
	*E92B `api:"é"`
	É     float64
	é     **int `json:"a b"`
	*E92A `json:"C,omitemptystring"`
}

type E93A struct {
	E93B
	b int
	*e93C
	é int `json:"k,"`
}

type E93B struct {
	é **int
	D int
	B int `json:"x, omitempty"`
	e93C
}

type e93C struct {
	Ab int   `json:"C"`
	b  **int `json:"k,"`
}

type E94A struct {
	nstr `json:"b;c"`
	D    int `json:"x" api:"x/y"`
	E94B
	C int
}

type E94B struct {
	a int `json:"A"`
}

type e94C struct {
	*E94B
	b  int
	é  int
	Ab int
	a  int `json:"a b"`
}

type E94D struct {
	C uint8 `api:"k,"`
	b uint8
	B int `json:"b"`
	E94E
}

type E94E struct {
	a *int
}

type E95A struct {
	E95B
	B int `api:"a b"`
}

type E95B struct {
	B int `json:"k,"`
}

type E96A struct {
	*e96B
	a string `json:"A" api:"C,omitemptystring"`
}

type e96B struct {
	C  []int
	Ab **int `json:"b" api:"k,"`
	A  **int `json:"C"`
}

type E97A struct {
	a  int
	Ab uint8 `json:"-"`
	e97D
	A struct{} `json:"C"`
}

type e97B struct {
	a float64 `json:"C,omitemptystring" api:"a'b"`
	b float64 `api:"K"`
}

type e97C struct {
	A int
	B int `json:"A,OmitEmpty" api:"a'b"`
	C int `json:",omitempty" api:",omitempty"`
	*E97A
	a map[string]int
}

type e97D struct {
	E97E
	Ab int `json:"b"`
	*e97D
}

type E97E struct {
	A *struct{ A int } `json:"B"`
	*e97D
	é int
}

type E98A struct {
	NInt
	B int `api:"C,omitemptystring"`
	D [2]int
}

type e98B struct {
	é float64 `json:"C"`
	*e98E
	*E98C
	D int `json:"x, omitempty"`
}

type E98C struct {
	A int `json:"b;c" api:"b;c"`
	E98F
}

type E98D struct {
	É  int     `json:"x/y"`
	A  *string `json:"x"`
	Ab *int
	E98F
}

type e98E struct {
	E98F
	b []int `json:",string"`
}

type E98F struct {
	a string `json:",string"`
	B string
	C int `json:"A,OmitEmpty"`
}

type E99A struct {
	Ab int `json:"b"`
	É  int `json:"k,"`
	B  int `json:"a'b"`
	E99D
}

type e99B struct {
	B interface{} `json:"b,omitempty,string"`
	*e99C
}

type e99C struct {
	é int  `json:"b,omitempty,string" api:"B"`
	B *int `json:"Ab"`
}

type E99D struct {
	b **int
	D int `api:"B,string,omitempty"`
	*E99D
	nstr `json:"B"`
	B    int
	Ab   int `json:"€"`
}

type e99E struct {
	b *int `api:"K"`
	C int  `json:"é" api:"B,string,omitempty"`
	e99F
	D map[string]int
	*e99E
}

type e99F struct {
	A int `json:"C,omitemptystring"`
}

type L100B = E100B
type E100A struct {
	Ab uint8
	L100B
	B int `json:"a b"`
}

type E100B struct {
	a int `json:"b;c"`
	B int `json:",omitempty"`
	é int
}

type L101D = e101D
type L101F = E101F
type E101A struct {
	C uint8
	*E101C
	e101B `json:"x, omitempty" api:"A,OmitEmpty"`
}

type e101B struct {
	é     *string `json:"x/y"`
	b     int
	*nint `json:"A" api:"A,OmitEmpty"`
	E101E `json:",,omitempty"`
}

type E101C struct {
	a int
	e101D
	D *int
	E101F
	B int `api:"b,omitempty,string"`
}

type e101D struct {
	a bool `json:"a" api:"a"`
	L101F
	*E101E
	B **int
}

type E101E struct {
	É int `json:"-"`
	E101F
	é int `json:",string"`
}

type E101F struct {
	É map[string]int
	C string `json:"a,omitempty"`
}

type L102B = E102B
type L102C = e102C
type E102A struct {
	E102B
	B float64
}

type E102B struct {
	b int `api:"a,omitempty"`
	A int `api:"b"`
	L102C
}

type e102C struct {
	A int
	*e102D
	B struct{}
}

type e102D struct {
	a int `api:"b"`
	B int `json:"é"`
}

type L103B = e103B
type L103D = e103D
type E103A struct {
	E103E `api:"é"`
	Ab    [2]int
	D     bool
}

type e103B struct {
	É struct{} `json:"A,OmitEmpty"`
	e103C
	Ab *int    `api:"k,"`
	B  float64 `json:"a"`
	a  int
}

type e103C struct {
	É struct{} `api:"C,omitemptystring"`
	é int      `json:"b" api:"C,omitemptystring"`
	*E103E
	e103D
}

type e103D struct {
	É map[string]int
	D string `api:"a"`
	E103E
}

type E103E struct {
	b int
	*e103F
	a **int `json:"x, omitempty" api:"é"`
}

type e103F struct {
	B int `json:"€" api:",,omitempty"`
	NString
	*nint
	A  map[string]int
	Ab **int
}

type E104A struct {
	é interface{} `json:"x/y"`
	B string      `json:"A,OmitEmpty"`
	e104B
	b int `json:"b;c"`
}

type e104B struct {
	a *struct{ A int } `api:"A,OmitEmpty"`
}

type E105A struct {
	Ab int
	NInt
}

type e105B struct {
	é       string `json:"a b"`
	NString `json:"x, omitempty"`
	C       [2]int
	A       int `json:"B"`
}

type L106E = E106E
type L106F = e106F
type E106A struct {
	E106B
	*L106F
	É interface{} `json:"b"`
}

type E106B struct {
	a int `api:"a,omitempty"`
	C int `json:"b,omitempty,string" api:"x/y"`
	E106D
}

type E106C struct {
	D *int `json:"B"`
	É int  `api:"a,omitempty"`
	e106F
	A bool `json:"b"`
}

type E106D struct {
	b int `json:"a,omitempty"`
	B int
	C uint8 `json:"C,omitemptystring"`
}

type E106E struct {
	L106F
	C int
	a *struct{ A int } `json:""`
}

type e106F struct {
	é *string `api:"b;c"`
	D int     `json:"Ab" api:"Ab"`
}

type E107A struct {
	Ab uint8
	B  map[string]int
	E107B
	*e107C
}

type E107B struct {
	e107C
	b uint8
	A int `json:"a b"`
}

type e107C struct {
	nint
	D uint8 `json:"x"`
	B map[string]int
}

type E108A struct {
	C int
	*E108B
	A []int
}

type E108B struct {
	B int `json:"K"`
	a struct{}
}

type E108C struct {
	É int `json:"C"`
	E108D
	*E108B
	b interface{} `json:"Ab" api:"a"`
	*NInt
}

type E108D struct {
	e108E
	A int `json:"a b"`
	C struct{}
	D int `json:"A,OmitEmpty" api:"a b"`
}

type e108E struct {
	b bool
	*NInt
	É bool  `json:"-,"`
	A uint8 `json:""`
}

type L109B = e109B
type E109A struct {
	L109B
	É     map[string]int
	e109B `json:",,omitempty"`
	C     map[string]int `json:"C,omitemptystring"`
	é     *string        `json:"a,omitempty"`
}

type e109B struct {
	b int `json:",string"`
}

type E109C struct {
	A int     `json:"é" api:"a b"`
	D float64 `json:",,omitempty"`
}

type E110A struct {
	E110D
	é int `json:"é"`
	C []int
	a *string `json:"€"`
}

type E110B struct {
	e110E
	A string `json:"C,omitemptystring"`
	E110C
	a *string
}

type E110C struct {
	*E110B
	*E110A
	é int `json:"x"`
	E110D
}

type E110D struct {
	b int
	*e110E
	B  string
	Ab map[string]int `json:"" api:"b"`
	*E110C
	D int
}

type e110E struct {
	a int `api:"k,"`
	A int `json:"x/y"`
}

type E111A struct {
	*E111B
	A interface{} `json:"A"`
}

type E111B struct {
	D *struct{ A int } `json:"" api:",string"`
	b int              `json:"C" api:"x, omitempty"`
	A interface{}      `json:"a'b"`
	B **int            `json:"b"`
}

type E112A struct {
	E112C
	B map[string]int
	A bool
}

type e112B struct {
	b int
	é int `json:"b"`
}

type E112C struct {
	D int `json:"B"`
	E112E
}

type E112D struct {
	E112F
	NString
	C int
	*E112D
}

type E112E struct {
	*E112F `json:"A,OmitEmpty"`
	*E112E `api:"a b"`
	é      int `api:",omitempty"`
}

type E112F struct {
	é int `api:"k,"`
	C uint8
}

type E113A struct {
	A int `json:"k,"`
}

type E113B struct {
	*E113E
	*E113F
	é float64
	D *string
}

type E113C struct {
	E113F
	Ab int
	B  *struct{ A int }
}

type e113D struct {
	E113E
	C int `json:"x/y"`
	*E113B
}

type E113E struct {
	É int `json:"B"`
	E113F
	B int `json:"€"`
	*E113A
}

type E113F struct {
	D  struct{}
	Ab int `json:"b"`
}

type l114B = e114B
type L114C = E114C
type E114A struct {
	A int `api:"a,omitempty"`
	*e114B
}

type e114B struct {
	*E114C
	B string `api:"a b"`
	A float64
	C map[string]int `json:"B" api:",string"`
	b interface{}    `json:"x"`
}

type E114C struct {
	D bool `json:"b,omitempty,string" api:"é"`
	b int
	NInt
}

type l115B = E115B
type l115D = e115D
type L115F = E115F
type E115A struct {
	é int `api:"-"`
	NBytes
}

type E115B struct {
	B int `json:"a,omitempty"`
	E115C
	e115E
	A **int `json:"K"`
}

type E115C struct {
	Ab int `json:"b"`
	B  []int
}

type e115D struct {
	b       interface{} `api:"b;c"`
	NString `api:"x"`
	E115F
	Ab int
	C  float64 `json:"a'b"`
}

type e115E struct {
	C int
}

type E115F struct {
	é  int
	a  interface{} `json:"é"`
	Ab int
}

type E116A struct {
	B int `api:"k,"`
	E116B
	É string
}

type E116B struct {
	É int     `json:"k,"`
	C float64 `json:"é"`
	a []int   `json:"Ab"`
}

type E117A struct {
	a float64
	C *struct{ A int }
	*E117A
}

type E117B struct {
	C string `json:",omitempty"`
	É *int
}

type l118B = E118B
type L118C = E118C
type E118A struct {
	É map[string]int
	*E118B
}

type E118B struct {
	C  int `json:",string" api:"b;c"`
	Ab int
	L118C
	D bool `json:"é"`
}

type E118C struct {
	É int `api:"é"`
	nstr
}

type E119A struct {
	A int
	B *string `json:"x, omitempty"`
	é int
}

type E119B struct {
	e119C `json:"b"`
	B     int
	b     int `json:"k,"`
	D     int `json:"b"`
	a     int `json:""`
	e119E
}

type e119C struct {
	E119D `api:"C"`
	D     int
	b     int
}

type E119D struct {
	*E119D
	é **int `json:"B"`
}

type e119E struct {
	a  int   `api:"Ab"`
	Ab **int `json:"C,omitemptystring"`
}

type E120A struct {
	e120B
	a int
	E120D
}

type e120B struct {
	E120C `json:"a"`
	é     bool `json:"a b"`
	nstr
}

type E120C struct {
	é  int `json:"x"`
	Ab int
	B  struct{}
}

type E120D struct {
	b *int `json:"a'b"`
	a int
	A map[string]int `json:"b;c"`
}

type L121C = E121C
type l121D = E121D
type L121E = e121E
type E121A struct {
	e121B
	*E121D
	b **int `json:"x, omitempty"`
	É int   `json:"é" api:"a'b"`
}

type e121B struct {
	Ab struct{} `json:"C,omitemptystring"`
	e121E
	a uint8
	D *int `json:",omitempty"`
}

type E121C struct {
	b *string `json:"a'b"`
	a int     `json:"b;c"`
	*E121D
	L121E
}

type E121D struct {
	D interface{} `json:"" api:"b;c"`
	*e121E
	a **int `json:"-"`
	L121E
	A int
}

type e121E struct {
	Ab *int
	é  int
	A  int `json:"x"`
}

type L122B = E122B
type E122A struct {
	Ab    *int `json:"a'b"`
	E122B `api:"a"`
	é     *int `json:"€"`
}

type E122B struct {
	C float64 `json:"k,"`
}

type l123C = E123C
type E123A struct {
	*E123C
	D []int `json:"b,omitempty,string"`
	É int   `json:",,omitempty"`
}

type E123B struct {
	a int `json:"b"`
	E123C
	l123C
}

type E123C struct {
	C uint8
	É bool
}

type l124B = E124B
type L124C = e124C
type L124E = e124E
type l124F = E124F
type E124A struct {
	É      int              `json:"a"`
	é      *struct{ A int } `api:"é"`
	*l124F `json:"a,omitempty"`
}

type E124B struct {
	*l124F `api:"a,omitempty"`
	Ab     int
	NInt
	L124E
	D int
}

type e124C struct {
	*E124D
	b []int `json:"é" api:"K"`
	a int
}

type E124D struct {
	e124E
	C  string `json:"€" api:"A,OmitEmpty"`
	a  [2]int
	Ab *string `json:"b"`
	D  int
}

type e124E struct {
	C int `json:"x" api:"b,omitempty,string"`
	D int
	B int `api:"B"`
}

type E124F struct {
	C int `json:"" api:"C"`
}

type l125C = e125C
type L125D = E125D
type L125E = e125E
type E125A struct {
	E125D
	B int  `json:""`
	a bool `json:"A,OmitEmpty" api:"B,string,omitempty"`
}

type E125B struct {
	C uint8 `json:"K"`
	*L125E
}

type e125C struct {
	D int `json:"a b"`
	L125D
	e125E  `json:"A"`
	B      [2]int
	*L125E `json:"x"`
	é      int    `api:"b;c"`
	b      string `json:",string" api:"C"`
}

type E125D struct {
	a int
	L125E
	É string `json:"C,omitemptystring"`
}

type e125E struct {
	B *string `json:"A"`
	É int     `json:"A" api:"a'b"`
}

type l126B = e126B
type L126E = E126E
type L126F = E126F
type E126A struct {
	B *struct{ A int } `json:"B"`
}

type e126B struct {
	B uint8
	E126F
	E126C
	é int `json:"a b" api:"é"`
}

type E126C struct {
	L126F `json:""`
	É     string `json:"B,string,omitempty"`
	C     [2]int `json:"-,"`
}

type e126D struct {
	a int
	L126F
	Ab     *int `json:"b"`
	*L126E `json:"a'b"`
}

type E126E struct {
	É int `api:"A"`
	L126F
	é int `json:"A,OmitEmpty"`
}

type E126F struct {
	a int
	A []int `json:"x/y"`
	D int
}

type E127A struct {
	Ab int `json:"B,string,omitempty"`
}

type E127B struct {
	é **int `json:"x/y"`
	É int
	*E127D
}

type e127C struct {
	é interface{}
	E127D
}

type E127D struct {
	A *string `json:"b,omitempty,string"`
	*e127C
	é interface{} `json:"-,"`
}

type L128B = E128B
type l128C = E128C
type L128E = E128E
type E128A struct {
	e128D `api:"a b"`
	L128E
	D [2]int `json:"x, omitempty"`
	l128C
	A int `json:"B,string,omitempty"`
}

type E128B struct {
	A      *int `json:"€" api:"é"`
	*l128C `json:"b"`
	b      int `json:",,omitempty" api:"b;c"`
	e128D
}

type E128C struct {
	B uint8
	e128D
	É struct{}
	A *struct{ A int } `json:"-,"`
}

type e128D struct {
	L128E
	a *string `json:"a b"`
	E128E
}

type E128E struct {
	*NInt
	D int `json:"€"`
	C int `json:"a'b"`
}

type L129E = E129E
type E129A struct {
	E129E
	é int
	*e129D
	A int `api:"a'b"`
}

type e129B struct {
	B interface{}
	*e129C
	é float64 `json:"b"`
	L129E
}

type e129C struct {
	D *struct{ A int } `json:"a'b"`
	E129E
}

type e129D struct {
	é int
	*E129E
}

type E129E struct {
	C *struct{ A int }
	a int `json:"C"`
}

type E130A struct {
	E130B
	C     string           `json:"a b"`
	D     *struct{ A int } `json:"a'b"`
	A     int              `json:"x/y"`
	E130C `json:"a b"`
	Ab    map[string]int `api:""`
}

type E130B struct {
	*E130C
	b      int
	*E130A `json:"€" api:"a b"`
	D      int
}

type E130C struct {
	é uint8 `json:"Ab"`
	D int   `json:"€"`
}

type E131A struct {
	*E131A
	B      [2]int `json:"C"`
	A      interface{}
	*E131D `json:"x/y"`
	E131E
}

type E131B struct {
	B struct{} `json:"-"`
	E131C
	D int `json:"a" api:"B"`
	a **int
}

type E131C struct {
	C **int       `json:"x"`
	é interface{} `json:"b;c"`
	*E131A
}

type E131D struct {
	É int `json:"a'b"`
	a struct{}
}

type E131E struct {
	D interface{} `json:"K"`
	a int         `json:"k,"`
}

type L132B = e132B
type E132A struct {
	*L132B
	A *string `json:"a'b"`
	*e132B
	E132C
	Ab bool
}

type e132B struct {
	A        *int
	D        int `json:"b" api:"B"`
	NamedAny `json:"k,"`
	*E132C   `json:"b" api:",,omitempty"`
}

type E132C struct {
	D float64 `json:",string"`
	B interface{}
	nint
	C [2]int `json:"C,omitemptystring" api:"€"`
}

type L133C = E133C
type E133A struct {
	D      *int `json:"a'b"`
	A      int  `json:"C"`
	é      *int
	*E133B `json:"-"`
}

type E133B struct {
	*E133C
	É struct{} `json:"C"`
	L133C
	C string `api:"a"`
}

type E133C struct {
	a  *string `api:"x"`
	B  uint8
	D  int   `json:"€"`
	Ab []int `json:"x"`
}

type E134A struct {
	e134B
	B int   `json:"b" api:"A,OmitEmpty"`
	a **int `json:"b" api:"B,string,omitempty"`
	É uint8
	C *string `json:"€"`
}

type e134B struct {
	Ab int   `json:"x, omitempty" api:"C"`
	B  uint8 `json:"a'b"`
}

type E135A struct {
	*e135B
	B int `json:",omitempty"`
	é int `api:"x, omitempty"`
	NBytes
}

type e135B struct {
	*e135B `api:"€"`
	B      float64
	Ab     int `json:"-,"`
	E135C
}

type E135C struct {
	a int   `json:"a'b"`
	D **int `api:"a'b"`
	b int   `json:"x, omitempty"`
	e135D
}

type e135D struct {
	a map[string]int `json:"k,"`
	*e135D
	E135E
	A int
}

type E135E struct {
	*E135A
	D struct{} `json:"-,"`
}

type E136A struct {
	A map[string]int `json:"-"`
	*e136B
	E136C
	É int `json:"k,"`
}

type e136B struct {
	*E136C `json:"A,OmitEmpty"`
	D      int `json:""`
	B      int `json:"A,OmitEmpty"`
	C      int
}

type E136C struct {
	A int
	D *string `json:"a,omitempty"`
	é int
}

type E137A struct {
	B *string `json:"-,"`
	b float64 `json:"a'b"`
	*E137B
	C int `json:"x, omitempty"`
	A int
}

type E137B struct {
	Ab float64 `json:"C"`
	É  int
	A  int   `json:"é"`
	C  **int `json:"b;c"`
}

type l138C = E138C
type L138E = e138E
type L138F = E138F
type E138A struct {
	A *string
	L138F
	*E138C
	é int `json:"A,OmitEmpty" api:"b"`
	l138C
}

type E138B struct {
	D **int
	b int
	a *struct{ A int } `json:"€"`
}

type E138C struct {
	C int `json:"C,omitemptystring"`
	L138E
	É int `json:"K"`
}

type E138D struct {
	A int `json:",omitempty"`
	L138F
	*E138F
}

type e138E struct {
	C float64 `json:",,omitempty"`
	b int     `json:",string" api:"a,omitempty"`
	*E138F
	é     uint8 `json:"b"`
	A     *string
	L138F `json:"é"`
}

type E138F struct {
	b    int      `json:"A,OmitEmpty"`
	É    struct{} `api:"-,"`
	nint `json:"x"`
	A    map[string]int `api:"b,omitempty,string"`
}

type L139B = e139B
type E139A struct {
	L139B
	é int
	C interface{} `json:"A"`
	b int
}

type e139B struct {
	b [2]int
	B int
	é int `json:",,omitempty"`
}

type l140D = E140D
type L140E = E140E
type E140A struct {
	E140D `json:"a'b"`
	A     int `api:",omitempty"`
	é     int `json:"a'b"`
}

type E140B struct {
	B int     `json:"x/y" api:"-,"`
	É int     `json:"€"`
	A *string `json:"a" api:""`
}

type E140C struct {
	*E140D
	D int `api:"b,omitempty,string"`
	L140E
	*l140D `json:"B"`
	b      string `json:""`
}

type E140D struct {
	L140E
	B string
	E140E
	Ab struct{} `json:"K" api:"A"`
}

type E140E struct {
	É map[string]int `json:"k," api:",omitempty"`
}

type l141C = E141C
type E141A struct {
	*E141C
	C int `api:"a'b"`
	l141C
}

type e141B struct {
	é int `json:"é" api:"x/y"`
	l141C
	b *string `json:"" api:"a'b"`
}

type E141C struct {
	É int
	C int `api:"C"`
	B *struct{ A int }
}

type E142A struct {
	B  *string          `json:"é"`
	Ab *struct{ A int } `json:"A,OmitEmpty"`
	E142B
	A int `json:"é" api:"b;c"`
}

type E142B struct {
	é string
	b int `json:"x"`
}

type L143B = e143B
type E143A struct {
	D int
	L143B
	*e143B
	b int
	C *struct{ A int }
}

type e143B struct {
	NamedAny
	Ab float64
	B  interface{} `api:"a,omitempty"`
}

type E144A struct {
	b      int `json:"-"`
	*E144A `json:"b"`
	C      int
}

type E144B struct {
	*E144B
	é []int
	A int
}

type L145B = E145B
type L145C = E145C
type l145E = E145E
type E145A struct {
	A int
}

type E145B struct {
	E145E
	D  int  `json:"A"`
	Ab *int `json:"a"`
	L145C
}

type E145C struct {
	a int
	é [2]int `json:",string"`
	*E145D
	l145E
}

type E145D struct {
	B map[string]int `json:"-"`
	é int            `json:"b,omitempty,string"`
	A int            `json:"B,string,omitempty"`
	nint
}

type E145E struct {
	a int `json:"B"`
	É []int
	D struct{} `json:"x, omitempty"`
}

type E146A struct {
	E146B
	Ab int `json:"A,OmitEmpty" api:"C,omitemptystring"`
	B  int
}

type E146B struct {
	D struct{} `json:",string"`
	b int
}

type L147B = e147B
type E147A struct {
	b     struct{} `json:"b,omitempty,string"`
	Ab    **int    `api:"B,string,omitempty"`
	A     string   `json:"C" api:",string"`
	e147C `json:"B" api:"B"`
}

type e147B struct {
	b      []int
	D      int `api:"a,omitempty"`
	é      int `json:"A,OmitEmpty" api:",omitempty"`
	*e147C `json:"-"`
}

type e147C struct {
	b int
	B int
	a *int
	*e147D
}

type e147D struct {
	C  int
	Ab **int
}

type E148A struct {
	Ab map[string]int `json:"x, omitempty" api:"Ab"`
	A  int            `json:"B,string,omitempty" api:"b,omitempty,string"`
	É  int            `json:"B,string,omitempty"`
	e148B
	a bool `json:"a,omitempty"`
}

type e148B struct {
	B int `json:",omitempty"`
	*e148B
	D **int `json:",,omitempty"`
	*E148A
}

type E149A struct {
	é     bool
	B     int
	A     bool
	E149B `api:"x/y"`
	e149C
}

type E149B struct {
	*e149C
	b int
	C [2]int `json:"x, omitempty"`
}

type e149C struct {
	A [2]int `json:"x, omitempty"`
	C int
}

type L150C = E150C
type l150E = e150E
type L150F = E150F
type E150A struct {
	É uint8   `json:"x/y"`
	D int     `api:"x"`
	b float64 `json:"x"`
}

type E150B struct {
	*E150F
	Ab    int
	D     int `json:"A"`
	*nint `json:",omitempty" api:"b,omitempty,string"`
}

type E150C struct {
	*E150D
	É struct{} `json:"A"`
	*E150F
	a int     `json:"b,omitempty,string"`
	é float64 `json:"k,"`
}

type E150D struct {
	D int `api:"a,omitempty"`
	L150F
	l150E `json:"b"`
}

type e150E struct {
	Ab map[string]int
	E150F
	C int
}

type E150F struct {
	C int     `api:"a"`
	é *string `api:"B"`
}

type E151A struct {
	B int     `json:"b;c"`
	b float64 `json:"Ab"`
	e151B
	C int `json:"é"`
}

type e151B struct {
	É *string `json:"K"`
	a int     `json:",omitempty"`
}

type E152A struct {
	*E152A
	A interface{}
	a int
	E152B
}

type E152B struct {
	Ab int     `json:"-,"`
	D  *string `json:"A"`
}

type E152C struct {
	É struct{} `json:",string" api:"B,string,omitempty"`
	b uint8
	E152D
}

type E152D struct {
	b uint8
	*E152D
}

type E153A struct {
	D string `json:"a"`
	e153B
	B **int `api:"a"`
	e153C
}

type e153B struct {
	b      uint8
	*e153C `json:"a"`
	É      **int `json:"K"`
}

type e153C struct {
	Ab int  `api:",,omitempty"`
	b  *int `json:"x/y"`
	nint
}

type l154B = E154B
type E154A struct {
	a struct{} `json:",string" api:"C,omitemptystring"`
	D int      `api:"b,omitempty,string"`
	b *string
}

type E154B struct {
	*nint
	Ab *string `json:"B"`
}

type E155A struct {
	b     int
	Ab    int `api:""`
	E155B `json:"C"`
}

type E155B struct {
	Ab interface{} `json:"b"`
	D  int         `json:"C"`
}

type E155C struct {
	Ab **int
}

type l156B = e156B
type L156C = e156C
type E156A struct {
	Ab int `json:"b,omitempty,string"`
	C  int
	*e156C
}

type e156B struct {
	*L156C
	Ab     int
	*e156C `json:",string"`
}

type e156C struct {
	NString
	B int `json:"-," api:"C"`
}

type E157A struct {
	Ab int `json:"" api:"k,"`
	e157B
	*E157A
	C bool
}

type e157B struct {
	*E157A
	é  interface{} `api:"B,string,omitempty"`
	Ab int         `json:"B,string,omitempty"`
	É  **int
}

type E158A struct {
	Ab int
	A  int `api:"b"`
	*E158C
}

type e158B struct {
	A **int `json:"Ab"`
}

type E158C struct {
	*e158B
	nint
	*E158A
	D float64        `json:"é" api:"b"`
	B map[string]int `json:"a"`
}

type E159A struct {
	E159B
	A string `json:"a"`
}

type E159B struct {
	a [2]int   `json:""`
	b struct{} `json:",,omitempty" api:",string"`
	é int      `json:"K" api:"-"`
	A int      `json:",omitempty" api:"C,omitemptystring"`
}

type E160A struct {
	a int `json:"-"`
}

type E160B struct {
	b int `json:"a,omitempty"`
	e160C
	C uint8 `json:"-" api:"B"`
}

type e160C struct {
	b  int  `api:"a b"`
	Ab *int `json:"B"`
}

type L161B = e161B
type E161A struct {
	C string
	D int `json:"a,omitempty"`
	é int `json:",string"`
	*e161B
}

type e161B struct {
	a uint8 `json:"é"`
	D uint8 `json:"a"`
}

type E162A struct {
	Ab int   `api:"A"`
	A  **int `json:"A,OmitEmpty" api:"C,omitemptystring"`
	e162E
	E162B
	a int `json:"K"`
}

type E162B struct {
	e162C
	é  int  `json:"K"`
	Ab bool `api:"k,"`
}

type e162C struct {
	e162D
	Ab [2]int
}

type e162D struct {
	B *int
	C bool  `json:"-," api:",omitempty"`
	A []int `json:"A"`
	a int
}

type e162E struct {
	*e162C
	é int `json:"C,omitemptystring" api:"b,omitempty,string"`
	b int
}

type E163A struct {
	*E163A
	*E163C
	É int `json:"Ab"`
	D int `json:"-," api:"a'b"`
}

type E163B struct {
	a *int `json:"€" api:"b,omitempty,string"`
	C int  `json:"x/y"`
	*E163B
	Ab float64
	É  int `json:"b,omitempty,string"`
}

type E163C struct {
	Ab string `json:"B,string,omitempty"`
	D  int    `json:"a,omitempty"`
	C  int    `json:"€"`
}

type E164A struct {
	A uint8 `api:"a b"`
	*E164B
	D  int
	B  interface{}
	Ab interface{} `json:"b"`
}

type E164B struct {
	Ab   map[string]int `json:"b" api:",omitempty"`
	b    bool
	é    *struct{ A int } `json:"x/y"`
	C    int
	nint `api:"-,"`
}

type l165B = E165B
type L165D = E165D
type L165E = E165E
type E165A struct {
	E165C
	*L165E
	a  *string `json:",string"`
	Ab interface{}
}

type E165B struct {
	b uint8
	*L165E
	E165C `json:"b;c"`
}

type E165C struct {
	a int
	B int
	A int `json:"-,"`
}

type E165D struct {
	*E165E `api:"a'b"`
	*L165E
	B **int
	é *int
}

type E165E struct {
	a struct{} `api:"a b"`
}

type L166B = E166B
type E166A struct {
	E166B
	b *string
	É **int `json:"-,"`
	*L166B
}

type E166B struct {
	b  struct{}         `json:"x"`
	Ab *struct{ A int } `json:"K"`
	É  int
}

type E167A struct {
	b int
	É *struct{ A int }
	a int `json:"a,omitempty"`
	e167B
}

type e167B struct {
	C int `json:"a'b"`
	b int `json:"-,"`
}

type E168A struct {
	e168B
	a int `json:"a,omitempty" api:"K"`
	*E168C
	A int
}

type e168B struct {
	Ab int `json:"A,OmitEmpty"`
	E168C
	a int `json:"b,omitempty,string" api:"C"`
}

type E168C struct {
	A **int `json:"x, omitempty"`
	é *struct{ A int }
}

type E169A struct {
	C []int `api:"A,OmitEmpty"`
	*E169A
	a int `api:"-,"`
}

type E169B struct {
	A  bool             `json:"b,omitempty,string"`
	Ab *struct{ A int } `json:"x/y"`
	C  *struct{ A int } `json:"a b"`
}

type e169C struct {
	*e169C `api:",,omitempty"`
	é      int `json:"é"`
	Ab     int
}

type E170A struct {
	*e170B `json:"a,omitempty"`
	nstr
	C  int    `json:"A"`
	Ab [2]int `json:"Ab" api:",string"`
	D  int
}

type e170B struct {
	*E170A
	C [2]int  `json:",omitempty" api:"C,omitemptystring"`
	a float64 `json:"x"`
	E170C
	B int `json:"K"`
}

type E170C struct {
	D float64
	*e170B
}

type L171B = E171B
type l171C = e171C
type l171E = E171E
type E171A struct {
	A **int `api:"A,OmitEmpty"`
	a int   `json:"b;c" api:"a"`
	*l171C
}

type E171B struct {
	*l171E
	C bool
	a int `json:"b"`
	nstr
}

type e171C struct {
	E171F
	C map[string]int
}

type E171D struct {
	B      []int
	*l171E `json:"x"`
	NBytes `json:",omitempty"`
	E171F
}

type E171E struct {
	B int
	NamedAny
	D float64 `json:"a,omitempty"`
	E171F
	É int
}

type E171F struct {
	a int              `json:"B"`
	b *struct{ A int } `api:"x, omitempty"`
}

type E172A struct {
	B interface{}
}

type e172B struct {
	Ab bool
	b  int `json:"a'b"`
	A  int `api:",string"`
	e172E
	a int
	E172C
}

type E172C struct {
	Ab string           `json:"C,omitemptystring" api:"A"`
	a  *struct{ A int } `json:""`
	e172D
}

type e172D struct {
	a int `json:"€"`
	D int `json:"é"`
}

type e172E struct {
	*E172C
	E172F
	C int `json:"-,"`
}

type E172F struct {
	A int
	*e172B
	C [2]int `json:"B"`
}

type E173A struct {
	A *string `json:"b;c"`
	É [2]int  `json:"b;c"`
	e173B
}

type e173B struct {
	b int `json:""`
	C int
	A uint8
}

type E174A struct {
	E174C
	e174B
	é [2]int
}

type e174B struct {
	NBytes
	*e174B
	C struct{} `json:"a'b"`
}

type E174C struct {
	a float64 `json:"-,"`
	*e174B
	D bool  `json:"B,string,omitempty"`
	B **int `json:"b"`
}

type E175A struct {
	*E175B `json:"a b"`
	A      int
	B      int `api:"x"`
}

type E175B struct {
	É bool `json:"b,omitempty,string"`
	*E175B
}

type L176C = E176C
type E176A struct {
	a **int            `json:",string" api:"a'b"`
	A string           `json:"b" api:"x, omitempty"`
	B *struct{ A int } `json:"A"`
}

type E176B struct {
	*L176C
	e176E `json:"a,omitempty"`
	A     [2]int `json:"C,omitemptystring"`
}

type E176C struct {
	e176E
	a interface{}
	nint
}

type E176D struct {
	é []int `json:",string"`
	B interface{}
	*e176E
	Ab *string `json:""`
}

type e176E struct {
	a      map[string]int `json:"x"`
	b      interface{}    `json:"a'b"`
	C      int
	*E176F `json:",string"`
}

type E176F struct {
	b     int `json:"a'b"`
	D     int
	*nint `json:"k,"`
}

type E177A struct {
	nint
	é int `json:"a"`
}

type E177B struct {
	a int `json:"K"`
	e177E
	*nint
	É [2]int
}

type E177C struct {
	*E177D
	É []int `json:"a'b"`
	*E177C
}

type E177D struct {
	b float64
	C int `json:"-,"`
	*E177F
}

type e177E struct {
	A int
	é []int `api:"k,"`
	É int
}

type E177F struct {
	D  bool    `json:"x, omitempty" api:"b"`
	Ab float64 `api:"b,omitempty,string"`
	*E177B
}

type l178B = e178B
type l178C = e178C
type E178A struct {
	B int      `json:"a,omitempty"`
	a struct{} `api:"k,"`
}

type e178B struct {
	é int
	*E178D
}

type e178C struct {
	b string `json:"€"`
	*E178D
	É [2]int `json:"-,"`
}

type E178D struct {
	a int
	NBytes
	b *struct{ A int }
}

type l179C = E179C
type L179E = E179E
type L179F = E179F
type E179A struct {
	*l179C
	b *int
	É int
}

type E179B struct {
	C int `json:"B,string,omitempty"`
	B int `json:"B,string,omitempty"`
	é int
}

type E179C struct {
	É  *struct{ A int } `json:"x, omitempty"`
	C  []int            `json:"a b"`
	b  string           `json:"A"`
	Ab *struct{ A int }
	L179F
}

type E179D struct {
	É int `api:"-,"`
}

type E179E struct {
	E179F
	D uint8    `json:"b"`
	a struct{} `json:"€" api:"b,omitempty,string"`
}

type E179F struct {
	A map[string]int
	é int `json:"B"`
	É int `json:"é"`
	b int `json:"k,"`
}

type l180C = E180C
type L180D = E180D
type l180F = e180F
type E180A struct {
	A int
	*L180D
	a int `json:"x"`
}

type e180B struct {
	a interface{}
	C []int
	L180D
}

type E180C struct {
	C *string `json:"B,string,omitempty"`
	*E180D
	Ab [2]int `json:",omitempty"`
}

type E180D struct {
	e180E `json:"A"`
	é     map[string]int `json:"-,"`
	*e180F
}

type e180E struct {
	é **int `json:",string" api:",,omitempty"`
	*l180F
}

type e180F struct {
	D [2]int `json:"b;c"`
}

type L181D = E181D
type l181E = e181E
type L181F = E181F
type E181A struct {
	B int `json:""`
	*E181C
}

type e181B struct {
	D int `json:"€"`
	C int
	L181F
	*E181C
	É *string `json:"B" api:"k,"`
	b int     `json:"-,"`
}

type E181C struct {
	É string `json:"a"`
	A int    `api:"k,"`
	e181E
	B int `json:""`
}

type E181D struct {
	C  [2]int           `json:"a'b"`
	B  *struct{ A int } `json:"x, omitempty" api:"a"`
	É  int
	Ab int `json:"C,omitemptystring" api:"A,OmitEmpty"`
}

type e181E struct {
	b []int  `json:"a'b"`
	A [2]int `api:"b,omitempty,string"`
}

type E181F struct {
	É struct{} `json:"A"`
	é int      `json:"a'b"`
	D int
}

type E182A struct {
	a int `api:"b;c"`
	e182B
	b *string `api:"C"`
	nstr
}

type e182B struct {
	E182F
	a int
	D int `api:""`
}

type E182C struct {
	*E182A
	e182E  `json:"b,omitempty,string"`
	C      int `api:"x"`
	*e182B `json:"" api:"A,OmitEmpty"`
	é      int `json:"C,omitemptystring"`
}

type e182D struct {
	e182E
	*E182A
	B map[string]int
}

type e182E struct {
	C int `json:"A,OmitEmpty" api:"a'b"`
	B int
}

type E182F struct {
	b float64 `json:"é"`
	A string  `api:"b"`
	D int
	*e182B
}

type l183C = E183C
type l183D = e183D
type L183E = E183E
type L183F = E183F
type E183A struct {
	Ab int `json:""`
	*L183F
	B int
}

type E183B struct {
	l183D
	E183E
	É int
	é int    `api:"A,OmitEmpty"`
	D [2]int `json:"€"`
	l183C
}

type E183C struct {
	C  *struct{ A int }
	a  *struct{ A int } `json:"Ab"`
	b  int              `json:"a'b" api:"x/y"`
	Ab float64          `json:"x, omitempty"`
}

type e183D struct {
	*L183F `json:"b;c"`
	B      int
	b      int `json:"B"`
	E183F
	Ab []int
}

type E183E struct {
	Ab struct{}
	A  int
	*E183F
}

type E183F struct {
	b struct{} `json:"a b"`
	é int      `json:"x" api:"C,omitemptystring"`
}

type E184A struct {
	é int `json:"a'b"`
	E184B
	Ab float64
}

type E184B struct {
	*E184B `json:"-,"`
	Ab     int `json:"x" api:"x"`
	É      struct{}
}

type E184C struct {
	A int
	é *string `json:"A"`
	É int     `json:"a'b" api:"x/y"`
}

type E185A struct {
	E185B
	B float64 `json:"B,string,omitempty"`
	*E185A
	Ab int
}

type E185B struct {
	C int `json:",string" api:",,omitempty"`
	b int `json:"x, omitempty"`
}

type L186D = e186D
type l186E = e186E
type E186A struct {
	B string
	*nint
	é **int `json:"a"`
}

type e186B struct {
	e186E
	É []int
	b int `json:"a,omitempty" api:"A,OmitEmpty"`
	a int `api:"é"`
}

type E186C struct {
	a     *struct{ A int } `json:"Ab"`
	É     interface{}
	L186D `json:"B"`
	e186E
	D **int
	*e186D
	b int `json:"a b" api:"C,omitemptystring"`
}

type e186D struct {
	Ab     map[string]int `json:"x/y"`
	*e186E `json:"C,omitemptystring"`
	é      string
}

type e186E struct {
	é int `json:"a"`
	NString
	b int      `json:"a'b" api:"b"`
	A struct{} `json:"b,omitempty,string"`
}

type L187B = E187B
type E187A struct {
	Ab int
}

type E187B struct {
	b int
	e187C
	É *int
}

type e187C struct {
	Ab int
	A  float64
}

type L188C = e188C
type L188D = E188D
type L188E = E188E
type E188A struct {
	é []int `api:"a,omitempty"`
	a int   `json:"b;c"`
	L188D
}

type E188B struct {
	A int      `json:"b;c"`
	É struct{} `json:"x"`
	L188E
	L188D
}

type e188C struct {
	a int `json:",omitempty"`
	E188E
	É     bool `json:"a'b" api:""`
	e188F `json:"b" api:"€"`
}

type E188D struct {
	E188E
	D int  `json:"C"`
	B bool `json:"a'b" api:"Ab"`
	L188E
}

type E188E struct {
	e188F
	é map[string]int
	b int `json:"x" api:"b;c"`
}

type e188F struct {
	Ab [2]int `json:"é"`
	b  int
}

type E189A struct {
	D interface{}
	C int `json:""`
}

type E189B struct {
	é int `api:"B,string,omitempty"`
	E189C
}

type E189C struct {
	*nint
	B  int `json:"é" api:"x"`
	Ab *string
}

type E190A struct {
	e190C
	*E190D
	b int
}

type E190B struct {
	b interface{} `json:"x"`
	A uint8       `api:",string"`
}

type e190C struct {
	a     int `api:"x"`
	E190E `json:"A,OmitEmpty"`
	D     []int
	é     int `json:"€" api:"A"`
}

type E190D struct {
	*E190E
	nstr
	é map[string]int `json:"C,omitemptystring" api:"B"`
}

type E190E struct {
	C *int `json:"Ab"`
	É interface{}
	B int `json:"a,omitempty" api:"C,omitemptystring"`
}

type E191A struct {
	a interface{} `json:"b"`
	b int
	e191B
}

type e191B struct {
	e191C
	Ab bool
	B  string `json:"k,"`
}

type e191C struct {
	é bool             `api:",string"`
	B *struct{ A int } `json:"a,omitempty"`
	b struct{}         `json:"C,omitemptystring"`
}

type L192F = e192F
type E192A struct {
	A struct{} `json:"A,OmitEmpty" api:"x"`
	*E192D
	e192F `json:",omitempty"`
	É     int `json:"a"`
}

type E192B struct {
	D uint8 `json:"é" api:"a b"`
	*E192C
	C *int
	É int
}

type E192C struct {
	é int
	NBytes
	e192E `json:"A"`
	É     struct{} `json:"x"`
	*E192D
	A *string `json:"Ab"`
}

type E192D struct {
	b int `json:"x, omitempty"`
	L192F
	B int
}

type e192E struct {
	C **int
	é string
	*e192F
}

type e192F struct {
	B interface{} `api:"a'b"`
	é **int
}

type l193C = E193C
type l193D = e193D
type E193A struct {
	*E193B
	a     struct{}
	A     map[string]int `api:"a,omitempty"`
	e193D `api:""`
}

type E193B struct {
	Ab [2]int `json:"-"`
	*e193D
}

type E193C struct {
	D int `json:"A"`
	É int
}

type e193D struct {
	D  int   `json:"B,string,omitempty"`
	É  *int  `json:"a b"`
	Ab **int `json:"a,omitempty"`
}

type L194B = E194B
type l194C = e194C
type E194A struct {
	*L194B
	l194C
	É  int `api:""`
	Ab bool
}

type E194B struct {
	b  string  `api:",,omitempty"`
	Ab **int   `api:"a'b"`
	B  *string `json:"b,omitempty,string"`
}

type e194C struct {
	É int `api:"C"`
}

type E195A struct {
	a string `json:"a'b" api:"K"`
	*E195A
	D int `api:"B"`
	é *struct{ A int }
}

type E195B struct {
	A  [2]int
	Ab *string `json:"-," api:"A,OmitEmpty"`
	a  *int    `json:"B"`
	*E195A
	C []int `json:"K"`
}

type L196B = e196B
type E196A struct {
	A *string `json:"A,OmitEmpty" api:"a b"`
	*E196C
	é [2]int           `json:"b,omitempty,string"`
	B *struct{ A int } `json:"-,"`
}

type e196B struct {
	*E196D
	a int
	NString
	b int
}

type E196C struct {
	Ab uint8 `api:"a"`
	e196E
	E196D `json:"a b"`
}

type E196D struct {
	e196E
	a *struct{ A int } `json:"B,string,omitempty"`
	D *string
	é interface{} `api:""`
}

type e196E struct {
	Ab []int `json:"B,string,omitempty" api:"€"`
}

type E197A struct {
	e197D
	A int `json:",omitempty"`
	*E197B
	é float64
}

type E197B struct {
	e197D
	*E197B
	É *int
}

type e197C struct {
	É string      `json:"B,string,omitempty"`
	C interface{} `json:",,omitempty"`
}

type e197D struct {
	*E197A
	b int
	B int
}

type L198B = E198B
type l198C = E198C
type E198A struct {
	D int `json:"b,omitempty,string" api:"x/y"`
	E198C
	l198C
	B uint8
}

type E198B struct {
	l198C
	b int
	E198C
}

type E198C struct {
	É int
}

type l199C = e199C
type E199A struct {
	e199B
	Ab int
	É  interface{} `json:"a b" api:"a,omitempty"`
}

type e199B struct {
	l199C
	é int `json:""`
	NInt
}

type e199C struct {
	B *int   `json:"" api:"k,"`
	D string `json:"a,omitempty"`
}

type E200A struct {
	B     [2]int `json:"A"`
	*nint `api:"a'b"`
	P2    int
	Ab    *string `json:"C"`
	P0    int
	P7    int
	P11   int
	P4    map[string]int
	P3    int `json:"p2"`
	P6    int
	P1    [2]int
	P9    *string
	P10   int `json:"q10,omitempty"`
	P8    interface{}
	P5    int
}

type E200B struct {
	B int
	C int
}

type E200C struct {
	D int         `json:"é"`
	A interface{} `json:"é"`
	*E200B
}

type l201D = E201D
type L201E = e201E
type E201A struct {
	P7 int `json:"q7,omitempty"`
	P6 int
	P4 float64
	P1 *string
	L201E
	P2 struct{} `json:"q2,omitempty"`
	P0 bool
	é  int `json:",,omitempty"`
	E201F
	P3 int         `json:"p2"`
	C  int         `json:"é"`
	P5 interface{} `json:"p4"`
}

type e201B struct {
	D int
	*E201D
	NBytes
}

type E201C struct {
	E201D
	l201D `json:"a,omitempty" api:"A"`
	a     uint8
}

type E201D struct {
	é []int `json:"B,string,omitempty" api:"b,omitempty,string"`
	*L201E
	*e201E `json:"k," api:"b;c"`
	A      int
}

type e201E struct {
	é  interface{}
	Ab int    `json:"C,omitemptystring"`
	C  string `json:"x" api:"k,"`
}

type E201F struct {
	b interface{} `json:",omitempty"`
	é uint8       `api:"K"`
}

type E202A struct {
	P13 int
	P6  **int `json:"q6,omitempty"`
	P0  *int
	P10 *int `json:"p11"`
	P9  int
	P3  []int `json:"q3,omitempty"`
	P4  int
	P2  map[string]int
	P7  float64
	A   int `json:"C"`
	P12 int
	Ab  *int `json:",omitempty"`
	P1  bool
	b   uint8
	P14 struct{} `json:"p15"`
	P8  string
	é   int
	P5  uint8 `json:"q5,omitempty"`
	P11 int
}

type E202B struct {
	B int
	A int `json:"b,omitempty,string"`
}

type l203C = e203C
type E203A struct {
	a  bool    `json:"a,omitempty" api:",string"`
	B  float64 `json:"b" api:"a b"`
	P5 int     `json:"p4"`
	D  float64
	P0 int
	P7 int
	P8 string
	P2 interface{} `json:"q2,omitempty"`
	P6 int
	P3 int
	P1 int   `json:"p0"`
	P4 int   `json:"p5"`
	A  uint8 `api:""`
}

type E203B struct {
	*l203C
	É struct{} `api:"K"`
	C [2]int
}

type e203C struct {
	b int
	D struct{} `api:"B,string,omitempty"`
}

type L204B = E204B
type l204C = E204C
type E204A struct {
	C    int `json:"k,"`
	P4   int `json:"p5"`
	P2   *int
	nstr `json:"b,omitempty,string"`
	P0   bool
	B    [2]int
	E204C
	P3 int `json:"p2"`
	P1 string
	b  int `api:",string"`
}

type E204B struct {
	*nint `json:"x/y"`
	É     *int `json:",omitempty"`
	*E204C
	D []int
}

type E204C struct {
	A struct{} `api:"b,omitempty,string"`
	é int      `json:"A"`
	*nint
	Ab int `json:"B"`
	B  int `json:"A" api:"k,"`
}

type E205A struct {
	Ab int `json:"x/y" api:"Ab"`
	P1 int `json:"q1,omitempty"`
	C  int `json:"a" api:"a b"`
	P0 *int
	D  int `api:"b,omitempty,string"`
	P3 int `json:"q3,omitempty"`
	É  *int
	P4 int `json:"q4,omitempty"`
	P2 int
}

type E205B struct {
	*E205C
	*E205F
	É int `json:"B,string,omitempty"`
	B int `json:"a,omitempty"`
}

type E205C struct {
	A      float64
	*E205E `json:"€"`
}

type E205D struct {
	*E205C
	*E205A `api:"C,omitemptystring"`
	é      *int
	C      float64
}

type E205E struct {
	Ab int
	é  int   `json:"é" api:"-,"`
	B  uint8 `json:"-," api:"C,omitemptystring"`
}

type E205F struct {
	b  string           `json:"A,OmitEmpty"`
	É  *struct{ A int } `json:"a"`
	Ab map[string]int   `json:"K"`
	*E205F
}

type E206A struct {
	P3 int `json:"q3,omitempty"`
	P2 int `json:"p3"`
	e206B
	P1 int `json:"q1,omitempty"`
	A  int
	P0 int `json:"p1"`
	Ab int
	P4 []int
}

type e206B struct {
	a map[string]int
	A int `json:"a'b" api:"b;c"`
}

type E207A struct {
	P3 *string
	P5 []int
	P1 float64
	a  string
	P0 float64
	P7 *string `json:"q7,omitempty"`
	P2 int
	*E207B
	P4 string `json:"p5"`
	D  int    `json:"Ab"`
	b  struct{}
	P6 bool
}

type E207B struct {
	A bool `json:"a,omitempty" api:"x/y"`
	nstr
	*E207A
	é uint8
}

type E207C struct {
	B int
	é *string `api:"b;c"`
	C **int   `json:"Ab"`
}

type l208B = E208B
type E208A struct {
	P1     int
	B      int         `api:"B"`
	P3     uint8       `json:"q3,omitempty"`
	P7     interface{} `json:"q7,omitempty"`
	l208B  `json:"K" api:"€"`
	P6     int
	P5     *struct{ A int }
	P4     int
	b      int
	P2     *struct{ A int }
	C      int `json:"-"`
	*E208B `json:"x, omitempty"`
	D      int     `api:"a b"`
	P0     float64 `json:"q0,omitempty"`
}

type E208B struct {
	É bool
	B interface{}
	b float64 `json:"a b" api:"B"`
}

type L209B = E209B
type L209C = e209C
type L209D = e209D
type E209A struct {
	P5 bool
	P8 int
	P0 int `json:"q0,omitempty"`
	P9 struct{}
	*E209B
	P6 *int `json:"q6,omitempty"`
	P7 int
	P4 struct{}    `json:"q4,omitempty"`
	P1 interface{} `json:"p0"`
	P3 int
	P2 map[string]int
	B  int
}

type E209B struct {
	a *struct{ A int }
	e209E
	b int `json:"a"`
	C int `json:",string"`
	nstr
	Ab int
}

type e209C struct {
	Ab     int `json:"x, omitempty" api:"K"`
	é      uint8
	*e209E `json:",omitempty"`
}

type e209D struct {
	D int      `api:"k,"`
	a struct{} `json:"x/y"`
	e209E
}

type e209E struct {
	é int
	É int `json:",string" api:"B,string,omitempty"`
}

type L210B = E210B
type E210A struct {
	P2 uint8
	*L210B
	P7 bool `json:"q7,omitempty"`
	P6 int  `json:"q6,omitempty"`
	P0 *string
	P8 int  `json:"p9"`
	P4 *int `json:"p5"`
	D  int
	É  int `json:",omitempty"`
	E210B
	P5 string `json:"p4"`
	P1 int    `json:"p0"`
	P3 int    `json:"q3,omitempty"`
	a  int    `api:"-,"`
}

type E210B struct {
	C uint8 `json:",omitempty"`
	é [2]int
	D int `json:"A"`
}

type L211B = e211B
type E211A struct {
	P0 int
	P3 []int          `json:"q3,omitempty"`
	Ab map[string]int `json:"a,omitempty"`
	L211B
	P4 int
	P2 [2]int
	P1 int
	É  struct{} `json:"-,"`
}

type e211B struct {
	é *string     `json:"-"`
	D interface{} `json:"é"`
}

type E212A struct {
	P8 int `json:"q8,omitempty"`
	*e212B
	P3 struct{}
	É  int `json:"€"`
	P0 int `json:"q0,omitempty"`
	P2 [2]int
	P4 *struct{ A int } `json:"q4,omitempty"`
	P5 int              `json:"p4"`
	P9 int              `json:"p8"`
	b  int
	P1 int
	P7 string `json:"p6"`
	P6 int
}

type e212B struct {
	B struct{} `json:"Ab"`
	C string   `json:",omitempty"`
}

type e212C struct {
	A int
	*e212C
	É int  `json:"€"`
	b *int `json:"a,omitempty"`
}

type E213A struct {
	P7  int   `json:"p6"`
	é   []int `json:""`
	P2  int   `json:"q2,omitempty"`
	B   [2]int
	P5  int            `json:"p4"`
	P1  map[string]int `json:"q1,omitempty"`
	P11 int
	P0  int
	P4  int `json:"q4,omitempty"`
	P8  map[string]int
	A   int
	e213B
	P9  int  `json:"q9,omitempty"`
	P3  bool `json:"p2"`
	É   int  `json:",string"`
	P10 int
	P6  int `json:"p7"`
}

type e213B struct {
	A []int `json:"a,omitempty"`
}

type L214D = e214D
type L214E = e214E
type l214F = E214F
type E214A struct {
	A      string `json:"€"`
	P9     []int  `json:"p8"`
	Ab     int    `json:"B,string,omitempty"`
	P11    int
	P0     uint8
	P6     **int    `json:"q6,omitempty"`
	P5     struct{} `json:"q5,omitempty"`
	P10    int      `json:"q10,omitempty"`
	P4     string   `json:"q4,omitempty"`
	P3     *int     `json:"p2"`
	P1     [2]int   `json:"p0"`
	P2     int
	*e214D `json:",,omitempty"`
	a      uint8 `json:",omitempty" api:"a b"`
	P7     bool
	b      bool `json:"C"`
	P8     int  `json:"q8,omitempty"`
	*e214E `json:"K"`
}

type E214B struct {
	l214F
	é     int `json:"K" api:"é"`
	É     uint8
	C     int `json:"C" api:"x, omitempty"`
	L214D `json:"-,"`
}

type E214C struct {
	a **int
	*E214F
	Ab *int
	b  int `json:"b" api:"a b"`
}

type e214D struct {
	*NInt
	l214F
	é *string          `json:"x" api:"€"`
	b *struct{ A int } `api:"-"`
	A float64          `json:"C"`
}

type e214E struct {
	Ab int `json:"x, omitempty"`
	D  int
	B  int
}

type E214F struct {
	b int
}

type L215D = e215D
type L215F = E215F
type E215A struct {
	C   *struct{ A int }
	P5  interface{} `json:"q5,omitempty"`
	P10 []int       `json:"q10,omitempty"`
	P11 int         `json:"p10"`
	P6  int
	P1  interface{}
	b   int
	P2  **int          `json:"q2,omitempty"`
	P4  int            `json:"p5"`
	P7  map[string]int `json:"p6"`
	P0  string
	P3  []int
	P9  int
	P8  int
}

type E215B struct {
	*E215F
	b int `json:"a'b" api:"b;c"`
	E215E
	*e215C
	B *struct{ A int } `json:"x, omitempty"`
}

type e215C struct {
	D uint8 `json:"-,"`
	NString
	b      []int `json:"-,"`
	Ab     bool
	*L215D `json:"C" api:"a"`
}

type e215D struct {
	C bool `json:"" api:"b"`
	A int
	*E215E
}

type E215E struct {
	*E215F
	É      bool `json:"a"`
	*L215F `json:"C"`
}

type E215F struct {
	a **int `json:"k,"`
	A int
}

type E216A struct {
	Ab int            `json:"A" api:"x"`
	P4 int            `json:"p5"`
	C  map[string]int `json:"b,omitempty,string"`
	D  struct{}       `json:"B,string,omitempty"`
	P3 int            `json:"p2"`
	P1 **int
	e216C
	P2 float64
	P0 int      `json:"p1"`
	é  struct{} `json:"x/y"`
}

type e216B struct {
	C int `api:"x"`
	B int
}

type e216C struct {
	A int `json:",,omitempty"`
	b struct{}
	*E216A
	é map[string]int `json:"a" api:"B,string,omitempty"`
}

type L217B = E217B
type E217A struct {
	A  int    `json:"€"`
	P1 int    `json:"q1,omitempty"`
	é  string `json:"x, omitempty" api:"-,"`
	P4 uint8  `json:"q4,omitempty"`
	P7 []int
	D  int `json:"B"`
	E217B
	P6 *string
	P3 *struct{ A int } `json:"q3,omitempty"`
	P2 interface{}
	P0 interface{}
	P5 *struct{ A int } `json:"p4"`
}

type E217B struct {
	C int              `api:"b;c"`
	é *struct{ A int } `json:"b"`
}

type L218C = E218C
type E218A struct {
	P4    int
	P2    [2]int `json:"q2,omitempty"`
	P0    int    `json:"p1"`
	E218C `json:"C,omitemptystring"`
	P3    int
	é     *int `api:"a'b"`
	b     interface{}
	C     int `json:"B"`
	P1    int `json:"p0"`
}

type E218B struct {
	b    *string `json:",omitempty"`
	nint `json:"€"`
	a    int `json:"A,OmitEmpty" api:"é"`
	L218C
}

type E218C struct {
	b int `json:"b,omitempty,string"`
	a **int
	B **int `json:"a b"`
}

type l219B = E219B
type E219A struct {
	P7 int
	P5 int
	P0 int
	P4 int
	P6 int
	P2 *struct{ A int }
	C  struct{} `json:"C"`
	P3 int
	P1 int `json:"q1,omitempty"`
}

type E219B struct {
	Ab int `json:"é"`
}

type l220B = e220B
type E220A struct {
	P4  int
	P14 string
	P10 int    `json:"q10,omitempty"`
	P6  string `json:"q6,omitempty"`
	l220B
	P8 int
	*e220C
	P7  int
	P2  int
	P12 []int
	P9  *int
	b   bool
	P1  int `json:"p0"`
	P0  int
	P11 int
	P5  int
	P13 []int `json:"p12"`
	P3  float64
}

type e220B struct {
	e220C
	a  **int `json:"k,"`
	Ab int   `json:"x/y"`
	C  *int  `json:",,omitempty"`
	NString
}

type e220C struct {
	NInt `json:"K"`
	é    int
	a    int `json:"C"`
	A    int
}

type L221D = E221D
type L221E = E221E
type L221F = E221F
type E221A struct {
	*E221E
	P0 struct{}
	D  int
	P4 map[string]int `json:"p5"`
	E221C
	P2 int `json:"p3"`
	B  int `json:"A,OmitEmpty" api:"b,omitempty,string"`
	P5 int
	P1 int
	P6 struct{}
	P7 int
	P3 uint8
}

type E221B struct {
	É uint8 `api:",string"`
	a int   `json:"A" api:"b"`
	NInt
}

type E221C struct {
	b      [2]int `json:",string"`
	*L221E `api:"K"`
	a      bool `json:"K"`
	C      int  `json:"x"`
}

type E221D struct {
	*E221F
	É []int `json:"Ab"`
	*L221E
	B int `json:"a b"`
}

type E221E struct {
	D int    `json:"x/y"`
	B [2]int `json:"A" api:"x, omitempty"`
	*E221F
	Ab bool
}

type E221F struct {
	é interface{}
	b int `json:"C,omitemptystring" api:"é"`
}

type l222B = E222B
type l222C = E222C
type E222A struct {
	P2 int `json:"q2,omitempty"`
	Ab struct{}
	P1 int
	P0 []int
	*E222C
	P7 int     `json:"q7,omitempty"`
	P4 int     `json:"p5"`
	D  *string `json:"€"`
	P6 bool
	P5 uint8
	P3 string `json:"q3,omitempty"`
}

type E222B struct {
	É int   `api:"x"`
	C uint8 `json:""`
	*l222C
	Ab float64 `api:"C,omitemptystring"`
}

type E222C struct {
	C *struct{ A int } `json:""`
	B map[string]int
	A [2]int         `json:"x/y" api:",,omitempty"`
	a map[string]int `json:"k,"`
}

type E223A struct {
	P3 string
	P1 int     `json:"p0"`
	P4 *string `json:"q4,omitempty"`
	A  [2]int  `json:"x/y"`
	*e223C
	P7 *int        `json:"q7,omitempty"`
	P2 int         `json:"p3"`
	P0 interface{} `json:"q0,omitempty"`
	P5 interface{}
	Ab []int            `api:"-,"`
	É  *struct{ A int } `json:"€"`
	P8 [2]int           `json:"p9"`
	P6 int
}

type E223B struct {
	e223C
	Ab int
	*E223B
}

type e223C struct {
	*e223C
	é int
	a int `json:"b;c"`
	É int `json:"" api:"a'b"`
}

type L224B = E224B
type E224A struct {
	A  [2]int
	P1 int `json:"p0"`
	P0 int `json:"p1"`
	P3 int
	P4 int `json:"q4,omitempty"`
	L224B
	P2 *string
	B  int
}

type E224B struct {
	A int `api:"-,"`
}

type E225A struct {
	P0     int `json:"q0,omitempty"`
	*e225B `json:"C" api:"€"`
	C      []int    `json:"x"`
	P7     uint8    `json:"p6"`
	P3     struct{} `json:"p2"`
	P6     int      `json:"q6,omitempty"`
	*nint  `json:"B,string,omitempty"`
	P5     string
	P2     string
	P1     int
	P4     int
	P8     interface{} `json:"p9"`
}

type e225B struct {
	*NInt
	nint
	é       int `json:"A,OmitEmpty"`
	NString `json:",omitempty"`
	a       map[string]int
}

type e225C struct {
	D *struct{ A int } `json:"B,string,omitempty" api:"b;c"`
}

type E226A struct {
	P10   int `json:"q10,omitempty"`
	e226B `api:"a,omitempty"`
	P11   *struct{ A int }
	P0    uint8
	P8    *string
	P12   bool `json:"p13"`
	P6    int  `json:"q6,omitempty"`
	É     int  `json:"B,string,omitempty"`
	P2    int  `json:"q2,omitempty"`
	C     *int
	P3    *struct{ A int }
	P14   uint8
	P9    int              `json:"q9,omitempty"`
	P4    int              `json:"p5"`
	P5    *struct{ A int } `json:"q5,omitempty"`
	P7    int
	P13   int `json:"p12"`
	P1    int `json:"q1,omitempty"`
}

type e226B struct {
	A string `json:"Ab" api:"a'b"`
	B int    `json:"b"`
	*NInt
	D **int
}

type E226C struct {
	*E226A
	é  [2]int      `api:"€"`
	D  interface{} `json:"-,"`
	Ab int         `api:"x"`
	É  int         `json:"é"`
}

type L227C = e227C
type E227A struct {
	P7  int
	b   int            `api:"a b"`
	P0  string         `json:"q0,omitempty"`
	P11 map[string]int `json:"p10"`
	P9  []int          `json:"q9,omitempty"`
	C   [2]int
	P6  [2]int `json:"q6,omitempty"`
	é   [2]int `api:"a'b"`
	P8  int
	P4  *string `json:"p5"`
	P10 [2]int  `json:"p11"`
	E227B
	P5 int
	P1 int    `json:"p0"`
	P3 string `json:"p2"`
	P2 interface{}
}

type E227B struct {
	L227C
	é int `json:"-"`
	É int `json:"C"`
}

type e227C struct {
	b uint8  `json:"a,omitempty"`
	B [2]int `json:"C,omitemptystring"`
}

type E228A struct {
	P2 int
	P0 int
	P4 int `json:"q4,omitempty"`
	P1 int
	A  *int
	D  *int `json:"C"`
	P3 int
}

type e228B struct {
	A     int `json:"k," api:"Ab"`
	é     int `json:"a"`
	D     int `json:"K"`
	E228C `api:"-,"`
	É     []int `json:"-,"`
}

type E228C struct {
	C *string `json:"K"`
	D *string `json:"B"`
}

type L229C = E229C
type E229A struct {
	P6 *string `json:"p7"`
	C  int
	P4 float64
	P5 int
	É  string `api:"k,"`
	P0 map[string]int
	P1 float64 `json:"p0"`
	e229E
	P7     map[string]int `json:"q7,omitempty"`
	NBytes `json:",omitempty" api:"a'b"`
	Ab     int `json:"é"`
	P2     [2]int
	P3     int
	P8     **int `json:"q8,omitempty"`
}

type E229B struct {
	Ab struct{} `json:"é" api:"k,"`
	E229C
	E229D
	b map[string]int
}

type E229C struct {
	e229E
	E229D
	É map[string]int `json:"B"`
}

type E229D struct {
	Ab int `json:"B,string,omitempty"`
	e229E
	É int `json:"-,"`
}

type e229E struct {
	D string `api:"b,omitempty,string"`
	C int
}

type E230A struct {
	P3 int `json:"p2"`
	*e230B
	P4 []int    `json:"q4,omitempty"`
	P2 int      `json:"q2,omitempty"`
	P0 struct{} `json:"q0,omitempty"`
	P1 int
	P6 bool
	P5 int
	C  int   `json:""`
	P7 uint8 `json:"p6"`
}

type e230B struct {
	E230C
	A bool
	b int `json:"K"`
}

type E230C struct {
	b int
	a int `json:"Ab"`
}

type E230D struct {
	B int `json:"b;c"`
	A int `json:"x"`
}

type E231A struct {
	P1    *int `json:"q1,omitempty"`
	P4    [2]int
	P0    string
	E231B `json:"€" api:""`
	É     int `json:"B,string,omitempty" api:",omitempty"`
	E231C
	P6 int
	P5 int
	D  bool
	P2 int `json:"q2,omitempty"`
	P7 int
	P3 interface{} `json:"p2"`
}

type E231B struct {
	a int
	B bool `json:"x, omitempty"`
}

type E231C struct {
	a []int `json:"b,omitempty,string"`
	C int   `json:"b,omitempty,string"`
	B int   `json:"C"`
}

type E232A struct {
	*e232B
	P1 uint8 `json:"p0"`
	*E232D
	P0 **int
	Ab *string `api:"B,string,omitempty"`
	P3 interface{}
	P2 int
	P4 *string  `json:"p5"`
	A  struct{} `json:"-,"`
}

type e232B struct {
	*E232D
	*E232A
	Ab int `json:"-"`
	A  int
	b  int
}

type E232C struct {
	E232D
	D int      `json:"-,"`
	C struct{} `json:",omitempty"`
	A int      `json:"a"`
	é [2]int   `json:"b,omitempty,string"`
}

type E232D struct {
	*E232C
	B int `json:"k,"`
	*E232D
}

type E233A struct {
	P3 struct{} `json:"q3,omitempty"`
	P4 bool     `json:"p5"`
	P1 int      `json:"q1,omitempty"`
	P8 *struct{ A int }
	P2 int
	P9 map[string]int `json:"p8"`
	P6 int            `json:"q6,omitempty"`
	*E233A
	P10 []int
	P5  int `json:"p4"`
	P0  int `json:"p1"`
	b   **int
	P7  bool
	P11 float64 `json:"p10"`
}

type E233B struct {
	B int `json:"-,"`
}

type E234A struct {
	P0     *string
	P3     int
	P9     int         `json:"p8"`
	P7     **int       `json:"p6"`
	P5     interface{} `json:"q5,omitempty"`
	b      int         `json:"-" api:"b"`
	P6     interface{}
	Ab     uint8
	P8     struct{}         `json:"p9"`
	P4     int              `json:"p5"`
	P2     *struct{ A int } `json:"p3"`
	*e234D `json:"b;c"`
	P1     int
}

type E234B struct {
	E234C
	*E234E
	D int         `json:"b;c" api:"A"`
	b int         `json:"a b" api:"-,"`
	a interface{} `json:"B,string,omitempty"`
}

type E234C struct {
	e234D
	E234E
	*NInt
	A int
}

type e234D struct {
	É int `json:"b,omitempty,string" api:",,omitempty"`
	*E234A
	*E234E
}

type E234E struct {
	Ab int `json:"-,"`
	a  uint8
}

type E235A struct {
	P4 int `json:"q4,omitempty"`
	P3 struct{}
	P2 int `json:"q2,omitempty"`
	P7 int
	P1 *int
	B  *string `json:",omitempty"`
	E235B
	P9 [2]int `json:"p8"`
	P0 **int
	P5 []int
	*E235C
	P6 *int `json:"q6,omitempty"`
	P8 float64
	é  [2]int `json:"Ab"`
}

type E235B struct {
	B *string `json:"b;c"`
}

type E235C struct {
	*E235B `json:"-,"`
	A      bool `json:"C,omitemptystring"`
}

type E236A struct {
	B  *string `json:"a"`
	P4 int
	P2 int    `json:"q2,omitempty"`
	P3 string `json:"p2"`
	*E236A
	P1 int
	É  int `json:"b;c"`
	P0 float64
	E236B
}

type E236B struct {
	*E236A
	b interface{} `json:"a b" api:"€"`
	B []int       `json:"a'b"`
	a *string     `json:"a b"`
	é int         `json:"Ab"`
}

type E237A struct {
	P3 [2]int `json:"p2"`
	É  string `json:"-" api:",,omitempty"`
	P0 int    `json:"q0,omitempty"`
	P5 string
	P2 [2]int `json:"p3"`
	*e237C
	E237B
	P1 interface{}
	P6 **int
	P4 *int `json:"q4,omitempty"`
	Ab int  `json:"x"`
	P7 map[string]int
}

type E237B struct {
	C string
	*E237D
	A **int
}

type e237C struct {
	é *string        `json:"x/y"`
	É map[string]int `json:"x, omitempty"`
	*E237D
	a [2]int `json:"a,omitempty"`
	D int
}

type E237D struct {
	*E237B
	D int
}

type l238E = e238E
type E238A struct {
	P0 map[string]int
	e238E
	P6     bool `json:"p7"`
	P4     interface{}
	P1     int `json:"q1,omitempty"`
	P7     [2]int
	b      int
	P5     [2]int   `json:"q5,omitempty"`
	P2     struct{} `json:"p3"`
	P3     int
	*E238B `json:"é" api:",,omitempty"`
}

type E238B struct {
	é [2]int `json:"B"`
	*E238C
	NString
}

type E238C struct {
	a int
}

type E238D struct {
	*e238E `json:"x" api:"B"`
	B      float64 `json:"€"`
	NamedAny
	l238E
}

type e238E struct {
	b struct{}
	A int `json:""`
	D int `json:"a"`
}

type l239E = E239E
type L239F = e239F
type E239A struct {
	P3  [2]int `json:"p2"`
	P0  int
	P7  int
	P1  string
	P2  interface{} `json:"q2,omitempty"`
	P8  int
	P10 float64 `json:"q10,omitempty"`
	P5  int
	P6  *int
	P9  interface{}
	P11 **int
	P4  string
	B   int
	C   int `json:"a"`
}

type E239B struct {
	B int `json:""`
	E239D
	Ab float64
	b  [2]int `json:"A,OmitEmpty"`
	nint
}

type E239C struct {
	B int
	É interface{} `json:"b;c" api:"a,omitempty"`
	*E239D
	*l239E
}

type E239D struct {
	b *int `json:"a b"`
	nint
	*E239E
	*L239F
}

type E239E struct {
	*L239F `json:"a'b" api:"b,omitempty,string"`
	D      float64 `json:",omitempty"`
	C      [2]int
}

type e239F struct {
	C  struct{}         `json:"x, omitempty"`
	Ab *struct{ A int } `json:"b;c"`
}

type L240B = e240B
type l240C = E240C
type E240A struct {
	P6 []int `json:"p7"`
	C  int   `json:"a" api:"x/y"`
	B  *int
	D  map[string]int `json:"C,omitemptystring" api:"-"`
	P2 map[string]int `json:"q2,omitempty"`
	P1 float64        `json:"q1,omitempty"`
	P9 [2]int
	e240B
	P5 int
	P7 **int `json:"p6"`
	P0 **int
	é  int
	P3 *string
	P8 *int
	P4 int
}

type e240B struct {
	É int         `api:"x/y"`
	é interface{} `json:",,omitempty"`
	D int         `json:"a'b"`
	C uint8
}

type E240C struct {
	D map[string]int
	A int `api:"B,string,omitempty"`
	a int `json:"C"`
}

type E241A struct {
	P2   [2]int `json:"q2,omitempty"`
	P4   int
	P0   **int
	P3   interface{} `json:"q3,omitempty"`
	C    int
	P1   int `json:"q1,omitempty"`
	A    int `json:"x"`
	nstr `json:"A"`
}

type E241B struct {
	*E241A
	É struct{} `json:"A,OmitEmpty"`
}

type E242A struct {
	P0 *string `json:"q0,omitempty"`
	P1 int
	P2 int   `json:"p3"`
	É  int   `json:"-" api:"-,"`
	é  int   `json:",omitempty"`
	P3 **int `json:"q3,omitempty"`
	E242D
	e242E
	P4 []int `json:"q4,omitempty"`
	P6 int   `json:"p7"`
	P5 []int `json:"p4"`
	E242C
	P7 string
}

type E242B struct {
	A int `json:"A"`
}

type E242C struct {
	é interface{} `json:"Ab"`
	E242D
	B string `json:"a,omitempty"`
	É int    `json:"-"`
}

type E242D struct {
	*E242C
	nint
	A  string `json:"A"`
	C  int    `json:"-,"`
	Ab int    `json:"K"`
}

type e242E struct {
	Ab uint8   `json:"-" api:"-,"`
	A  *string `json:"x"`
}

type E243A struct {
	P6 int     `json:"q6,omitempty"`
	P7 int     `json:"q7,omitempty"`
	D  float64 `json:"x"`
	P5 *int
	P0 string  `json:"q0,omitempty"`
	P1 *string `json:"q1,omitempty"`
	P2 interface{}
	P3 int
	E243B
	B  string  `json:"-"`
	P4 *string `json:"p5"`
}

type E243B struct {
	Ab uint8          `api:"C,omitemptystring"`
	a  int            `json:"-"`
	D  map[string]int `json:"-"`
	b  int
}

type E244A struct {
	P8 [2]int
	P9 struct{}
	P5 []int `json:"p4"`
	B  int
	P6 **int    `json:"q6,omitempty"`
	é  struct{} `json:"B,string,omitempty"`
	P1 int      `json:"q1,omitempty"`
	P2 []int
	P0 int `json:"q0,omitempty"`
	Ab int
	P3 int
	P7 uint8 `json:"p6"`
	*nint
	P4 bool
}

type e244B struct {
	*e244B
	b int   `json:"C"`
	a []int `json:"€"`
}

type L245C = E245C
type L245E = e245E
type L245F = E245F
type E245A struct {
	P7 bool
	E245B
	P8 string `json:"p9"`
	E245D
	P6 int            `json:"p7"`
	P0 map[string]int `json:"p1"`
	P5 struct{}
	C  int `api:"-,"`
	e245E
	P4 int `json:"q4,omitempty"`
	P2 int
	P3 float64 `json:"p2"`
	P1 int
}

type E245B struct {
	L245F
	*E245C
	É *struct{ A int }
	B int `json:"x"`
}

type E245C struct {
	*e245E
	É int
	é int `json:"€"`
}

type E245D struct {
	nstr `json:"" api:"b"`
	b    int
	C    *string
}

type e245E struct {
	é bool `json:"A" api:"x"`
	a int
	*L245F
}

type E245F struct {
	A int   `json:"A" api:"x, omitempty"`
	b int   `json:"C,omitemptystring"`
	B []int `json:"a'b"`
}

type L246B = E246B
type l246D = E246D
type l246E = e246E
type L246F = e246F
type E246A struct {
	P3 map[string]int `json:"p2"`
	a  int            `json:"A"`
	P6 interface{}
	P2 int
	P4 int
	Ab struct{} `json:"C,omitemptystring"`
	P5 int
	*e246E
	P0 interface{} `json:"q0,omitempty"`
	P7 int         `json:"p6"`
	P1 int
	P8 int
}

type E246B struct {
	a **int `json:"b;c"`
	l246D
	D map[string]int `json:"a"`
}

type E246C struct {
	D int `json:""`
	B int `json:"b;c" api:"€"`
}

type E246D struct {
	*NInt
	*l246E
	a *int `json:",string"`
	C interface{}
}

type e246E struct {
	L246F
	é *int `json:"x"`
	*e246F
}

type e246F struct {
	Ab bool `api:"x/y"`
	A  int
	é  [2]int `json:"a,omitempty"`
	C  **int  `json:"B"`
}

type E247A struct {
	P1 string   `json:"p0"`
	P7 struct{} `json:"q7,omitempty"`
	É  int
	P5 *struct{ A int } `json:"q5,omitempty"`
	C  int              `json:"b" api:"B,string,omitempty"`
	A  bool             `json:"C,omitemptystring"`
	P6 int
	P3 []int
	P0 int
	P4 map[string]int
	e247D
	D     int
	P8    *struct{ A int } `json:"q8,omitempty"`
	E247B `json:"b;c"`
	P2    int
}

type E247B struct {
	a int
	*E247A
}

type E247C struct {
	b      int `json:",omitempty" api:"k,"`
	*e247D `json:"K"`
	É      uint8
}

type e247D struct {
	B *int `json:",,omitempty"`
	NInt
	b int
}

type E248A struct {
	P4 []int `json:"q4,omitempty"`
	b  int   `json:""`
	P0 float64
	P1 []int
	P6 map[string]int
	A  uint8 `json:"B"`
	P2 **int `json:"q2,omitempty"`
	P3 **int
	nint
	P7 *string `json:"p6"`
	P5 uint8   `json:"p4"`
}

type e248B struct {
	B *string          `api:"A"`
	é *struct{ A int } `api:"k,"`
	C string           `json:"€"`
	D uint8            `json:""`
}

type E248C struct {
	D int `api:"Ab"`
	*e248B
}

type L249B = e249B
type L249C = E249C
type L249D = E249D
type L249E = e249E
type E249A struct {
	C      int
	*L249E `api:"é"`
	P6     int
	a      int
	P4     int
	*L249B
	P2 interface{}
	P1 int `json:"q1,omitempty"`
	P7 *string
	P0 interface{} `json:"p1"`
	P5 bool        `json:"p4"`
	P3 bool        `json:"p2"`
}

type e249B struct {
	É      *struct{ A int } `json:"b,omitempty,string"`
	C      struct{}         `api:"é"`
	*e249E `json:"a b"`
	b      struct{}
	L249E
	*NInt
}

type E249C struct {
	C  int  `json:",,omitempty"`
	Ab bool `json:"B"`
}

type E249D struct {
	*e249E
	é **int
	D *string `json:"x, omitempty" api:"k,"`
	a int     `json:"b;c"`
	A *int
}

type e249E struct {
	*E249F
	a bool
}

type E249F struct {
	B bool `json:"b;c"`
	É int
}

type E250A struct {
	P10   interface{} `json:"p11"`
	P13   *struct{ A int }
	P1    int
	P4    string
	P0    string `json:"p1"`
	P5    int    `json:"p4"`
	P3    int    `json:"q3,omitempty"`
	P11   *string
	E250B `json:"-"`
	P2    []int
	P12   int
	P8    int      `json:"q8,omitempty"`
	P14   *string  `json:"q14,omitempty"`
	P9    int      `json:"q9,omitempty"`
	a     struct{} `json:"-,"`
	É     int      `json:"a,omitempty"`
	P7    int      `json:"q7,omitempty"`
	P6    bool     `json:"q6,omitempty"`
}

type E250B struct {
	E250D
	b  int              `json:"x/y"`
	B  *struct{ A int } `json:"Ab"`
	Ab interface{}
}

type E250C struct {
	Ab []int
	É  *struct{ A int }
	*E250B
	C int `json:"C,omitemptystring"`
	E250F
	*E250E `json:"x"`
	é      int
}

type E250D struct {
	é *struct{ A int } `json:"a b"`
	E250E
	a int
}

type E250E struct {
	*E250B
	A interface{} `api:"B"`
	NInt
	C map[string]int `json:"B,string,omitempty"`
}

type E250F struct {
	B       int `json:"b;c"`
	NString `json:"b,omitempty,string"`
	*E250A
}

type E251A struct {
	P4 int
	P0 *struct{ A int }
	P9 map[string]int
	P6 int `json:"q6,omitempty"`
	é  int `json:"Ab"`
	P8 **int
	P3 int `json:"q3,omitempty"`
	P7 string
	*E251A
	P5  int `json:"q5,omitempty"`
	P1  int
	P10 *struct{ A int } `json:"p11"`
	A   int              `api:"-"`
	P11 float64
	*E251B
	C  []int `json:"a"`
	P2 *int
}

type E251B struct {
	*E251A `json:"A"`
	A      struct{} `json:"b" api:"Ab"`
	D      int
	B      *struct{ A int } `api:"Ab"`
	*E251B
	é int `json:"A,OmitEmpty"`
}

type E252A struct {
	P4 string
	P1 string
	Ab map[string]int
	P0 int
	P2 int      `json:"p3"`
	B  int      `json:"a,omitempty"`
	P3 struct{} `json:"p2"`
}

type E252B struct {
	B int `json:"A" api:"é"`
	*E252C
	A float64
}

type E252C struct {
	b  int   `json:"b,omitempty,string"`
	A  **int `json:"é" api:"-,"`
	Ab *int
}

type L253B = E253B
type L253C = e253C
type L253D = e253D
type l253E = E253E
type L253F = e253F
type E253A struct {
	P1 uint8
	P7 bool
	P2 *struct{ A int } `json:"p3"`
	P5 []int            `json:"p4"`
	P3 int
	a  int `json:",omitempty"`
	P0 int
	D  *string
	NInt
	P4 bool
	P6 float64
	P8 int `json:"p9"`
}

type E253B struct {
	a     [2]int `api:"Ab"`
	b     int
	A     int `json:"b,omitempty,string"`
	L253F `api:"C,omitemptystring"`
}

type e253C struct {
	e253F
	*L253D
	B  *struct{ A int } `json:"-,"`
	Ab [2]int           `json:",string" api:"b,omitempty,string"`
}

type e253D struct {
	é int
}

type E253E struct {
	*e253F
	B int `api:"C,omitemptystring"`
}

type e253F struct {
	D int `json:"Ab"`
	a []int
}

type L254B = E254B
type L254E = E254E
type L254F = E254F
type E254A struct {
	P0  int
	P1  int
	P7  **int `json:"p6"`
	Ab  []int
	P9  int
	P10 string
	b   int
	P4  int
	e254D
	P5  float64 `json:"q5,omitempty"`
	P11 int
	*E254E
	P3 uint8
	P2 map[string]int
	P8 *string
	P6 int `json:"q6,omitempty"`
	B  int `json:"C" api:",omitempty"`
}

type E254B struct {
	C int `api:"x/y"`
	é int
	E254C
	L254F
	E254E `json:"x/y"`
	A     int `json:"a,omitempty" api:"a"`
	a     int `json:"a,omitempty"`
}

type E254C struct {
	*e254D
	É int
}

type e254D struct {
	C **int `json:"a'b"`
}

type E254E struct {
	D *string
	C int `json:"B"`
	*L254F
	b [2]int `json:"B,string,omitempty" api:"C"`
	É int    `json:"C,omitemptystring"`
}

type E254F struct {
	D  int `api:"a"`
	Ab int `json:",string"`
}

type E255A struct {
	P3 int  `json:"p2"`
	C  int  `json:",omitempty" api:"a b"`
	P4 int  `json:"p5"`
	P1 *int `json:"p0"`
	P5 int  `json:"p4"`
	P2 []int
	*E255E
	P6 int   `json:"p7"`
	b  uint8 `json:"b,omitempty,string"`
	P0 bool
	P7 uint8 `json:"q7,omitempty"`
	E255D
}

type E255B struct {
	*E255B `json:"x/y"`
	E255C
	a interface{} `json:"Ab"`
	E255E
}

type E255C struct {
	é *int     `json:"-"`
	B string   `json:"b,omitempty,string"`
	É struct{} `api:"k,"`
	E255D
	b [2]int `json:"a,omitempty"`
}

type E255D struct {
	Ab *int
}

type E255E struct {
	*E255A
	Ab bool
}

type E256A struct {
	P3 bool
	P2 *string  `json:"q2,omitempty"`
	P9 struct{} `json:"q9,omitempty"`
	A  float64  `json:"x/y"`
	P7 int      `json:"q7,omitempty"`
	P5 int      `json:"p4"`
	E256C
	P4 int `json:"q4,omitempty"`
	P1 int `json:"p0"`
	B  int
	P8 []int
	*e256B
	P0 int      `json:"p1"`
	P6 struct{} `json:"p7"`
}

type e256B struct {
	E256C `json:"C"`
	b     int `json:"a,omitempty"`
}

type E256C struct {
	É float64 `json:"B"`
}

type L257B = E257B
type E257A struct {
	Ab     int `json:"b,omitempty,string"`
	P0     **int
	P4     string
	P9     int `json:"q9,omitempty"`
	P7     int `json:"q7,omitempty"`
	P11    int `json:"p10"`
	P6     **int
	P10    int `json:"p11"`
	P5     struct{}
	*E257B `json:"€" api:"-,"`
	NBytes `json:"é" api:"-"`
	P2     struct{} `json:"q2,omitempty"`
	b      int      `api:""`
	É      float64  `json:"b" api:"b,omitempty,string"`
	P1     int
	P3     struct{} `json:"q3,omitempty"`
	P8     int
}

type E257B struct {
	É  int
	Ab int `json:"Ab"`
	B  int `json:"-"`
}

type L258B = e258B
type E258A struct {
	a  *struct{ A int }
	B  int
	P1 *int
	P0 int
	P7 int `json:"p6"`
	P3 *int
	P4 float64
	P5 *string `json:"p4"`
	P6 int
	P2 bool `json:"q2,omitempty"`
	P8 bool `json:"q8,omitempty"`
}

type e258B struct {
	A struct{}
}

type E259A struct {
	B   map[string]int `api:"x"`
	P7  int
	P11 string `json:"p10"`
	P6  int
	P10 int
	P2  *int `json:"p3"`
	E259C
	P1 int `json:"q1,omitempty"`
	P3 *int
	P5 bool `json:"p4"`
	P8 int  `json:"p9"`
	P0 bool
	P9 int   `json:"q9,omitempty"`
	P4 uint8 `json:"q4,omitempty"`
}

type e259B struct {
	é      interface{} `json:"a b"`
	*e259B `json:"-"`
	A      int `api:"B,string,omitempty"`
	Ab     int
	*E259C
}

type E259C struct {
	Ab uint8 `json:"B"`
	D  int
	B  string
	C  int `json:"a'b"`
}

var structRoots = []reflect.Type{
	rtOf(E0A{}),
	rtOf(E0B{}),
	rtOf(E1A{}),
	rtOf(e1B{}),
	rtOf(E2A{}),
	rtOf(E3A{}),
	rtOf(e3B{}),
	rtOf(E4A{}),
	rtOf(E5A{}),
	rtOf(E5B{}),
	rtOf(E6A{}),
	rtOf(E6B{}),
	rtOf(E7A{}),
	rtOf(E7B{}),
	rtOf(E8A{}),
	rtOf(E9A{}),
	rtOf(E9B{}),
	rtOf(E10A{}),
	rtOf(E10B{}),
	rtOf(E11A{}),
	rtOf(E11B{}),
	rtOf(E12A{}),
	rtOf(e12B{}),
	rtOf(E13A{}),
	rtOf(E14A{}),
	rtOf(E15A{}),
	rtOf(E16A{}),
	rtOf(e16B{}),
	rtOf(E17A{}),
	rtOf(E17B{}),
	rtOf(E18A{}),
	rtOf(E18B{}),
	rtOf(E19A{}),
	rtOf(E19B{}),
	rtOf(E20A{}),
	rtOf(E21A{}),
	rtOf(E21B{}),
	rtOf(E22A{}),
	rtOf(E23A{}),
	rtOf(E24A{}),
	rtOf(E25A{}),
	rtOf(E25B{}),
	rtOf(E26A{}),
	rtOf(E27A{}),
	rtOf(E27B{}),
	rtOf(E28A{}),
	rtOf(e28B{}),
	rtOf(E29A{}),
	rtOf(E30A{}),
	rtOf(E31A{}),
	rtOf(E32A{}),
	rtOf(e32B{}),
	rtOf(E33A{}),
	rtOf(E34A{}),
	rtOf(E34B{}),
	rtOf(E35A{}),
	rtOf(E36A{}),
	rtOf(E37A{}),
	rtOf(E37B{}),
	rtOf(E38A{}),
	rtOf(E38B{}),
	rtOf(E39A{}),
	rtOf(e39B{}),
	rtOf(E40A{}),
	rtOf(E41A{}),
	rtOf(E42A{}),
	rtOf(E43A{}),
	rtOf(E44A{}),
	rtOf(E44B{}),
	rtOf(E45A{}),
	rtOf(E45B{}),
	rtOf(E46A{}),
	rtOf(E46B{}),
	rtOf(E47A{}),
	rtOf(E48A{}),
	rtOf(e48B{}),
	rtOf(E49A{}),
	rtOf(E49B{}),
	rtOf(E50A{}),
	rtOf(E51A{}),
	rtOf(E51B{}),
	rtOf(E52A{}),
	rtOf(E53A{}),
	rtOf(E54A{}),
	rtOf(E54B{}),
	rtOf(E55A{}),
	rtOf(E56A{}),
	rtOf(E57A{}),
	rtOf(E57B{}),
	rtOf(E58A{}),
	rtOf(E58B{}),
	rtOf(E59A{}),
	rtOf(E60A{}),
	rtOf(E61A{}),
	rtOf(E62A{}),
	rtOf(E63A{}),
	rtOf(E63B{}),
	rtOf(E64A{}),
	rtOf(E65A{}),
	rtOf(E66A{}),
	rtOf(E67A{}),
	rtOf(E68A{}),
	rtOf(E69A{}),
	rtOf(E70A{}),
	rtOf(E70B{}),
	rtOf(E71A{}),
	rtOf(E72A{}),
	rtOf(e72B{}),
	rtOf(E73A{}),
	rtOf(E74A{}),
	rtOf(E74B{}),
	rtOf(E75A{}),
	rtOf(E76A{}),
	rtOf(E76B{}),
	rtOf(E77A{}),
	rtOf(E77B{}),
	rtOf(E78A{}),
	rtOf(E79A{}),
	rtOf(E80A{}),
	rtOf(e80B{}),
	rtOf(E81A{}),
	rtOf(E81B{}),
	rtOf(E82A{}),
	rtOf(E82B{}),
	rtOf(E83A{}),
	rtOf(E84A{}),
	rtOf(e84B{}),
	rtOf(E85A{}),
	rtOf(E86A{}),
	rtOf(e86B{}),
	rtOf(E87A{}),
	rtOf(E88A{}),
	rtOf(E89A{}),
	rtOf(E90A{}),
	rtOf(E90B{}),
	rtOf(E91A{}),
	rtOf(E92A{}),
	rtOf(E93A{}),
	rtOf(E94A{}),
	rtOf(E94B{}),
	rtOf(E95A{}),
	rtOf(E96A{}),
	rtOf(E97A{}),
	rtOf(e97B{}),
	rtOf(E98A{}),
	rtOf(e98B{}),
	rtOf(E99A{}),
	rtOf(e99B{}),
	rtOf(E100A{}),
	rtOf(E101A{}),
	rtOf(e101B{}),
	rtOf(E102A{}),
	rtOf(E102B{}),
	rtOf(E103A{}),
	rtOf(e103B{}),
	rtOf(E104A{}),
	rtOf(E105A{}),
	rtOf(E106A{}),
	rtOf(E106B{}),
	rtOf(E107A{}),
	rtOf(E108A{}),
	rtOf(E108B{}),
	rtOf(E109A{}),
	rtOf(E110A{}),
	rtOf(E110B{}),
	rtOf(E111A{}),
	rtOf(E112A{}),
	rtOf(e112B{}),
	rtOf(E113A{}),
	rtOf(E113B{}),
	rtOf(E114A{}),
	rtOf(E115A{}),
	rtOf(E115B{}),
	rtOf(E116A{}),
	rtOf(E117A{}),
	rtOf(E118A{}),
	rtOf(E119A{}),
	rtOf(E119B{}),
	rtOf(E120A{}),
	rtOf(e120B{}),
	rtOf(E121A{}),
	rtOf(e121B{}),
	rtOf(E122A{}),
	rtOf(E123A{}),
	rtOf(E124A{}),
	rtOf(E124B{}),
	rtOf(E125A{}),
	rtOf(E125B{}),
	rtOf(E126A{}),
	rtOf(e126B{}),
	rtOf(E127A{}),
	rtOf(E127B{}),
	rtOf(E128A{}),
	rtOf(E128B{}),
	rtOf(E129A{}),
	rtOf(e129B{}),
	rtOf(E130A{}),
	rtOf(E131A{}),
	rtOf(E131B{}),
	rtOf(E132A{}),
	rtOf(E133A{}),
	rtOf(E134A{}),
	rtOf(E135A{}),
	rtOf(e135B{}),
	rtOf(E136A{}),
	rtOf(E137A{}),
	rtOf(E138A{}),
	rtOf(E138B{}),
	rtOf(E139A{}),
	rtOf(E140A{}),
	rtOf(E140B{}),
	rtOf(E141A{}),
	rtOf(E142A{}),
	rtOf(E143A{}),
	rtOf(E144A{}),
	rtOf(E145A{}),
	rtOf(E145B{}),
	rtOf(E146A{}),
	rtOf(E147A{}),
	rtOf(e147B{}),
	rtOf(E148A{}),
	rtOf(E149A{}),
	rtOf(E150A{}),
	rtOf(E150B{}),
	rtOf(E151A{}),
	rtOf(E152A{}),
	rtOf(E152B{}),
	rtOf(E153A{}),
	rtOf(E154A{}),
	rtOf(E155A{}),
	rtOf(E156A{}),
	rtOf(E157A{}),
	rtOf(E158A{}),
	rtOf(E159A{}),
	rtOf(E160A{}),
	rtOf(E161A{}),
	rtOf(E162A{}),
	rtOf(E162B{}),
	rtOf(E163A{}),
	rtOf(E164A{}),
	rtOf(E165A{}),
	rtOf(E165B{}),
	rtOf(E166A{}),
	rtOf(E167A{}),
	rtOf(E168A{}),
	rtOf(E169A{}),
	rtOf(E170A{}),
	rtOf(E171A{}),
	rtOf(E171B{}),
	rtOf(E172A{}),
	rtOf(e172B{}),
	rtOf(E173A{}),
	rtOf(E174A{}),
	rtOf(E175A{}),
	rtOf(E176A{}),
	rtOf(E176B{}),
	rtOf(E177A{}),
	rtOf(E177B{}),
	rtOf(E178A{}),
	rtOf(e178B{}),
	rtOf(E179A{}),
	rtOf(E179B{}),
	rtOf(E180A{}),
	rtOf(e180B{}),
	rtOf(E181A{}),
	rtOf(e181B{}),
	rtOf(E182A{}),
	rtOf(e182B{}),
	rtOf(E183A{}),
	rtOf(E183B{}),
	rtOf(E184A{}),
	rtOf(E185A{}),
	rtOf(E186A{}),
	rtOf(e186B{}),
	rtOf(E187A{}),
	rtOf(E188A{}),
	rtOf(E188B{}),
	rtOf(E189A{}),
	rtOf(E190A{}),
	rtOf(E190B{}),
	rtOf(E191A{}),
	rtOf(E192A{}),
	rtOf(E192B{}),
	rtOf(E193A{}),
	rtOf(E193B{}),
	rtOf(E194A{}),
	rtOf(E195A{}),
	rtOf(E196A{}),
	rtOf(e196B{}),
	rtOf(E197A{}),
	rtOf(E197B{}),
	rtOf(E198A{}),
	rtOf(E199A{}),
	rtOf(E200A{}),
	rtOf(E201A{}),
	rtOf(e201B{}),
	rtOf(E202A{}),
	rtOf(E203A{}),
	rtOf(E204A{}),
	rtOf(E205A{}),
	rtOf(E205B{}),
	rtOf(E206A{}),
	rtOf(E207A{}),
	rtOf(E208A{}),
	rtOf(E209A{}),
	rtOf(E209B{}),
	rtOf(E210A{}),
	rtOf(E211A{}),
	rtOf(E212A{}),
	rtOf(E213A{}),
	rtOf(E214A{}),
	rtOf(E214B{}),
	rtOf(E215A{}),
	rtOf(E215B{}),
	rtOf(E216A{}),
	rtOf(E217A{}),
	rtOf(E218A{}),
	rtOf(E219A{}),
	rtOf(E220A{}),
	rtOf(E221A{}),
	rtOf(E221B{}),
	rtOf(E222A{}),
	rtOf(E223A{}),
	rtOf(E224A{}),
	rtOf(E225A{}),
	rtOf(E226A{}),
	rtOf(E227A{}),
	rtOf(E228A{}),
	rtOf(E229A{}),
	rtOf(E229B{}),
	rtOf(E230A{}),
	rtOf(e230B{}),
	rtOf(E231A{}),
	rtOf(E232A{}),
	rtOf(e232B{}),
	rtOf(E233A{}),
	rtOf(E234A{}),
	rtOf(E234B{}),
	rtOf(E235A{}),
	rtOf(E236A{}),
	rtOf(E237A{}),
	rtOf(E237B{}),
	rtOf(E238A{}),
	rtOf(E238B{}),
	rtOf(E239A{}),
	rtOf(E239B{}),
	rtOf(E240A{}),
	rtOf(E241A{}),
	rtOf(E242A{}),
	rtOf(E242B{}),
	rtOf(E243A{}),
	rtOf(E244A{}),
	rtOf(E245A{}),
	rtOf(E245B{}),
	rtOf(E246A{}),
	rtOf(E246B{}),
	rtOf(E247A{}),
	rtOf(E247B{}),
	rtOf(E248A{}),
	rtOf(E249A{}),
	rtOf(e249B{}),
	rtOf(E250A{}),
	rtOf(E250B{}),
	rtOf(E251A{}),
	rtOf(E252A{}),
	rtOf(E253A{}),
	rtOf(E253B{}),
	rtOf(E254A{}),
	rtOf(E254B{}),
	rtOf(E255A{}),
	rtOf(E255B{}),
	rtOf(E256A{}),
	rtOf(E257A{}),
	rtOf(E258A{}),
	rtOf(E259A{}),
}
