// Package sqlexec checks the SQL executor (C17, C18) on SQLite.
package sqlexec

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"strconv"
	"strings"
	"time"

	"gorm.io/datatypes"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

// ---- field types of their own ----

type Color int

// Money is a value type with unexported state.
type Money struct {
	cents int64
	cur   string
}

func (m Money) Value() (driver.Value, error) { return fmt.Sprintf("%d %s", m.cents, m.cur), nil }
func (m *Money) Scan(v any) error {
	var s string
	switch x := v.(type) {
	case string:
		s = x
	case []byte:
		s = string(x)
	case nil:
		*m = Money{}
		return nil
	}
	a, b, _ := strings.Cut(s, " ")
	c, err := strconv.ParseInt(a, 10, 64)
	*m = Money{c, b}
	return err
}

// Digits is a value type made of unexported parts that Go cannot compare, like a big decimal.
type Digits struct {
	neg bool
	abs []uint8
}

func (d Digits) Value() (driver.Value, error) {
	s := ""
	if d.neg {
		s = "-"
	}
	for _, x := range d.abs {
		s += strconv.Itoa(int(x))
	}
	return s + "d", nil
}

func (d *Digits) Scan(v any) error {
	s := strings.TrimSuffix(fmt.Sprintf("%s", v), "d")
	*d = Digits{}
	for _, c := range s {
		if c == '-' {
			d.neg = true
		} else {
			d.abs = append(d.abs, uint8(c-'0'))
		}
	}
	return nil
}

// Tags is a list kept in one column.
type Tags []string

func (l Tags) Value() (driver.Value, error) {
	if l == nil {
		return nil, nil
	}
	return "[" + strings.Join(l, ",") + "]", nil
}

func (l *Tags) Scan(v any) error {
	if v == nil {
		*l = nil
		return nil
	}
	s := strings.Trim(fmt.Sprintf("%s", v), "[]")
	*l = strings.Split(s, ",")
	return nil
}

type Nest struct {
	Name string
	Num  int64
	P    *int
}

type Addr struct {
	City string
	Zip  int
	Geo  Geo `gorm:"embedded;embeddedPrefix:geo_"`
}

type Geo struct {
	Lat float64
	Set *bool
}

type Stamp struct {
	Author string
	At     time.Time
}

// ---- models ----

type Flat struct {
	ID    string `gorm:"primaryKey"`
	B     bool
	I     int
	I8    int8
	I64   int64
	U32   uint32
	U8    uint8
	F     float64
	F32   float32
	S     string
	T     time.Time
	Raw   []byte
	Kind  Color
	Cost  Money
	Big   Digits
	Label Tags `gorm:"type:text"`
}

type Nullable struct {
	ID    string `gorm:"primaryKey;column:uid"`
	PI    *int
	PS    *string
	PB    *bool
	PT    *time.Time
	PF    *float64
	PCost *Money
	PBig  *Digits
	NS    sql.NullString
	NI    sql.NullInt64
	NB    sql.NullBool
	NT    sql.NullTime
	J     datatypes.JSON
	L     []string       `gorm:"type:json;serializer:json"`
	M     map[string]int `gorm:"type:json;serializer:json"`
	PSt   *Nest          `gorm:"type:json;serializer:json"`
	St    Nest           `gorm:"type:json;serializer:json"`
	Sts   []*Nest        `gorm:"type:json;serializer:json"`
	Unix  int64          `gorm:"serializer:unixtime;type:datetime"`
	Skip  string         `gorm:"-"`
}

type Embedded struct {
	Stamp `gorm:"embedded;embeddedPrefix:stamp_"`
	Addr
	ID     string `gorm:"primaryKey"`
	Author string
	Zip    int    `gorm:"column:outer_zip"`
	Home   Addr   `gorm:"embeddedPrefix:home_;embedded"`
	Work   Addr   `gorm:"comment:where from;EMBEDDED;EMBEDDEDPREFIX:work_"`
	Last   Stamp  `gorm:"embedded;embeddedPrefix:last_"`
	Name   string `gorm:"column:title"`
	Title  string `gorm:"column:caption"`
}

// Line has a composite key whose parts may be zero.
type Line struct {
	OrderID string `gorm:"primaryKey"`
	No      int    `gorm:"primaryKey;autoIncrement:false"`
	Text    string
	Count   *int
}

// Tri has three key parts.
type Tri struct {
	A string `gorm:"primaryKey"`
	B string `gorm:"primaryKey"`
	C bool   `gorm:"primaryKey"`
	V int
}

// Anon embeds, without names, structs that are single columns.
type Anon struct {
	ID string `gorm:"primaryKey"`
	Money
	sql.NullString
	Digits `gorm:"column:exact"`
	Geo
	N int
}

// Value and Scan hide the ones that would be promoted.
func (o *Anon) Value() {}
func (o *Anon) Scan()  {}

// Num has a numeric key.
type Num struct {
	ID   int64 `gorm:"primaryKey;autoIncrement:false;column:num_id"`
	Name string
	On   *bool
}

func (o *Anon) GetID() string     { return o.ID }
func (o *Anon) TableName() string { return "m_anon" }

func (o *Num) GetID() string     { return strconv.FormatInt(o.ID, 10) }
func (o *Num) TableName() string { return "m_num" }

func (o *Flat) GetID() string     { return o.ID }
func (o *Nullable) GetID() string { return o.ID }
func (o *Embedded) GetID() string { return o.ID }
func (o *Line) GetID() string     { return fmt.Sprintf("%s/%d", o.OrderID, o.No) }
func (o *Tri) GetID() string      { return o.A + "/" + o.B }

func (o *Flat) TableName() string     { return "m_flat" }
func (o *Nullable) TableName() string { return "m_nullable" }
func (o *Embedded) TableName() string { return "m_embedded" }
func (o *Line) TableName() string     { return "m_line" }
func (o *Tri) TableName() string      { return "m_tri" }

// ---- generated values: every field is decided by a small number, so that scenarios are plain data ----

var instants = []time.Time{{}, time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC), time.Date(2020, 1, 2, 3, 4, 5, 1000, time.UTC),
	time.Date(1969, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(2038, 5, 6, 7, 8, 9, 123456000, time.UTC)}

var strs = []string{"", "a", "b", "A", "it's \"q\" `t` \\ % ?", "日本", "0", "null", " "}

func pick[T any](l []T, v int) T { return l[v%len(l)] }
func ptr[T any](v T) *T          { return &v }

// opt is nil for 0.
func opt[T any](v int, f func(int) T) *T {
	if v == 0 {
		return nil
	}
	return ptr(f(v - 1))
}

func str(v int) string   { return pick(strs, v) }
func num(v int) int      { return pick([]int{0, 1, -1, 2, 100, 127, -128}, v) }
func flt(v int) float64  { return pick([]float64{0, 1, -1, 0.5, 1e300, 1e-7, 3}, v) }
func at(v int) time.Time { return pick(instants, v) }
func money(v int) Money  { return pick([]Money{{}, {1, "EUR"}, {1, "USD"}, {-250, "EUR"}}, v) }
func digits(v int) Digits {
	return pick([]Digits{{}, {false, []uint8{1}}, {true, []uint8{1}}, {false, []uint8{1, 2}}, {false, []uint8{2, 1}}}, v)
}
func nest(v int) Nest {
	return pick([]Nest{{}, {"n", 0, nil}, {"n", 1, nil}, {"", 0, ptr(0)}, {"", 0, ptr(3)}}, v)
}
func cond(v int, n int) int { return v % n }

func geo(v int) Geo {
	return Geo{Lat: flt(v % 3), Set: opt(v/3%3, func(v int) bool { return v == 1 })}
}
func addr(v int) Addr {
	return Addr{City: str(v % 4), Zip: num(v / 4 % 3), Geo: geo(v / 12)}
}
func stamp(v int) Stamp { return Stamp{Author: str(v % 4), At: at(v / 4)} }

const span = 108 // distinct values per field

// model makes a model of a kind from a key and one number per field.
func model(kind int, key int, f []int) interface{ GetID() string } {
	g := func(i int) int { return f[i%len(f)] }
	switch kind {
	case 0:
		return &Flat{ID: fmt.Sprintf("k%d", key), B: g(0)%2 == 1, I: num(g(1)), I8: int8(num(g(2))), I64: int64(num(g(3))) << 32, U32: uint32(num(g(4)) & 0xff),
			U8: uint8(num(g(5))), F: flt(g(6)), F32: float32(num(g(7))), S: str(g(8)), T: at(g(9)),
			Raw: pick([][]byte{nil, {}, {0}, {1, 2, 255}, []byte("x")}, g(10)), Kind: Color(num(g(11))), Cost: money(g(12)), Big: digits(g(13)),
			Label: pick([]Tags{nil, {"a"}, {"a", "b"}, {"b", "a"}}, g(14))}
	case 1:
		return &Nullable{ID: fmt.Sprintf("k%d", key), PI: opt(g(0)%5, num), PS: opt(g(1)%6, str), PB: opt(g(2)%3, func(v int) bool { return v == 1 }), PT: opt(g(3)%6, at),
			PF: opt(g(4)%5, flt), PCost: opt(g(5)%5, money), PBig: opt(g(6)%6, digits),
			NS: sql.NullString{Valid: g(7)%5 > 0, String: pick([]string{"", "", "a", "b", "null"}, g(7))},
			NI: sql.NullInt64{Valid: g(8)%4 > 0, Int64: pick([]int64{0, 0, 1, -1}, g(8))},
			NB: sql.NullBool{Valid: g(9)%3 > 0, Bool: g(9)%3 == 2},
			NT: sql.NullTime{Valid: g(10)%4 > 0, Time: pick([]time.Time{{}, {}, instants[1], instants[2]}, g(10))},
			J:  pick([]datatypes.JSON{nil, datatypes.JSON(`{}`), datatypes.JSON(`{"a":1}`), datatypes.JSON(`[1]`)}, g(11)),
			L:  pick([][]string{nil, {}, {""}, {"a"}, {"a", "b"}}, g(12)), M: pick([]map[string]int{nil, {}, {"a": 0}, {"a": 1}, {"a": 1, "b": 2}}, g(13)),
			PSt: opt(g(14)%6, nest), St: nest(g(15)), Sts: pick([][]*Nest{nil, {}, {{Name: "x"}}, {{Name: "x"}, {Num: 2}}}, g(16)),
			Unix: pick([]int64{1, 2, 1700000000}, g(17)), Skip: str(g(18))}
	case 2:
		return &Embedded{Stamp: stamp(g(0)), Addr: addr(g(1)), ID: fmt.Sprintf("k%d", key), Author: str(g(2)), Zip: num(g(3)), Home: addr(g(4)), Work: addr(g(5)),
			Last: stamp(g(6)), Name: str(g(7)), Title: str(g(8))}
	case 3:
		return &Line{OrderID: pick([]string{"o1", "o2", ""}, key), No: key / 3 % 3, Text: str(g(0)), Count: opt(g(1)%4, num)}
	}
	if kind == 6 {
		return &Anon{ID: fmt.Sprintf("k%d", key), Money: money(g(0)), NullString: sql.NullString{Valid: g(1)%5 > 0, String: pick([]string{"", "", "a", "b", "null"}, g(1))},
			Digits: digits(g(2)), Geo: geo(g(3)), N: num(g(4))}
	}
	if kind == 5 {
		return &Num{ID: int64(key + 1), Name: str(g(0)), On: opt(g(1)%3, func(v int) bool { return v == 1 })}
	}
	return &Tri{A: pick([]string{"x", "y", ""}, key), B: pick([]string{"x", "", "z"}, key/3), C: key/9%2 == 1, V: num(g(0))}
}

const kinds = 7

var fields = []int{15, 19, 9, 2, 1, 2, 5}
var keys = []int{9, 9, 9, 9, 18, 9, 9}

func genFields(t *rapid.T, kind int) []int {
	f := make([]int, fields[kind])
	for i := range f {
		f[i] = kit.N(t, span, "field")
	}
	return f
}
