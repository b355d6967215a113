package element

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"
)

var vReInt = regexp.MustCompile(`^[0-9]+$`)
var vReAmt = regexp.MustCompile(`^-?([0-9]+,?[0-9]*|,[0-9]+)$`)
var vReAmtOK = regexp.MustCompile(`^(0|[1-9][0-9]*),[0-9]*$`)

type vScalar struct {
	name string
	mk   func() DataElement
	ok   func(s string) (string, bool) // the value a wire form denotes, if it is of the type
}

func vIntOf(s string) (string, bool) {
	if !vReInt.MatchString(s) {
		return "", false
	}
	n, err := strconv.Atoi(s)
	return fmt.Sprint(n), err == nil
}

func vDay(t time.Time) string { return t.Format("2006-01-02") }
func vHMS(t time.Time) string { return t.Format("15:04:05") }
func vAmt(f float64) string   { return strconv.FormatFloat(f, 'g', -1, 64) }
func vBinOf(s string) (string, bool) {
	if len(s) < 3 || s[0] != '@' {
		return "", false
	}
	i := strings.IndexByte(s[1:], '@')
	if i < 1 {
		return "", false
	}
	if !vReInt.MatchString(s[1 : 1+i]) {
		return "", false
	}
	n, _ := new(big.Int).SetString(s[1:1+i], 10)
	d := s[i+2:]
	return d, n.Cmp(big.NewInt(int64(len(d)))) == 0
}

func vShow(d DataElement) string {
	switch x := d.Value().(type) {
	case int:
		return fmt.Sprint(x)
	case float64:
		return vAmt(x)
	case []byte:
		return string(x)
	case bool:
		return fmt.Sprint(x)
	case time.Time:
		if _, ok := d.(*TimeDataElement); ok {
			return vHMS(x)
		}
		return vDay(x)
	}
	return fmt.Sprintf("%T", d.Value())
}

func TestVerifC04(t *testing.T) {
	v := vStart(t)
	v.Rule("round trips of numbers, digits of width 1-12, amounts, booleans, every day of 1900-2100, every second of a day, country codes and binary values; reading of all strings up to length 4 over 11 characters, of edits of valid forms and of random strings into each of 12 kinds, fresh and previously filled, compared with the type's grammar")
	round := func(key string, d, back DataElement, wire, val string) {
		v.Case(key, func() error {
			w, err := d.MarshalHBCI()
			if err != nil {
				return err
			}
			if string(w) != wire {
				return fmt.Errorf("written as %q, not %q", w, wire)
			}
			if d.String() != wire {
				return fmt.Errorf("printed as %q, not %q", d.String(), wire)
			}
			if err := back.UnmarshalHBCI(w); err != nil {
				return fmt.Errorf("%q does not read back: %v", w, err)
			}
			if g := vShow(back); g != val {
				return fmt.Errorf("%q reads back as %s", w, g)
			}
			w2, err := back.MarshalHBCI()
			if err != nil || string(w2) != wire {
				return fmt.Errorf("%q, read and written again, is %q, %v", w, w2, err)
			}
			return nil
		})
	}
	ints := []int{0, 1, 5, 9, 10, 99, 100, 101, 999, 1000, 12345678, 99999999, 2147483647, 2147483648, math.MaxInt64}
	for i := 0; i < 1100; i++ {
		ints = append(ints, i)
	}
	for i := 0; i < v.N(2000, 20000); i++ {
		ints = append(ints, int(v.R.Int63()>>uint(v.R.Intn(63))))
	}
	for _, n := range ints {
		s := strconv.Itoa(n)
		round(fmt.Sprintf("number(%d)", n), NewNumber(n, 20), &NumberDataElement{}, s, s)
		round(fmt.Sprintf("virtual date(%d)", n), NewVirtualDate(n), NewVirtualDate(0), s, s)
		for w := 1; w <= 12; w++ {
			if n > 1100 && w != 3 && w != 12 {
				continue
			}
			p := s
			for len(p) < w {
				p = "0" + p
			}
			round(fmt.Sprintf("digit(%d,%d)", n, w), NewDigit(n, w), &DigitDataElement{}, p, s)
			if w == 3 {
				round(fmt.Sprintf("country(%d)", n), NewCountryCode(n), &CountryCodeDataElement{}, p, s)
			}
		}
	}
	amt := func(f float64) {
		key := vAmt(f)
		v.Case("amount("+key+")", func() error {
			for _, d := range []DataElement{NewFloat(f, 30), NewValue(f)} {
				w, err := d.MarshalHBCI()
				if err != nil {
					return err
				}
				abs := strings.TrimPrefix(string(w), "-")
				if strings.Count(string(w), ",") != 1 || !vReAmtOK.MatchString(abs) {
					return fmt.Errorf("written as %q", w)
				}
				if x, err := strconv.ParseFloat(strings.Replace(string(w), ",", ".", 1), 64); err != nil || x != f {
					return fmt.Errorf("written as %q", w)
				}
				if string(w) != d.String() {
					return fmt.Errorf("printed as %q", d.String())
				}
				for _, b := range []DataElement{&FloatDataElement{}, &ValueDataElement{}, NewFloat(-3.5, 2), NewValue(8.25)} {
					if err := b.UnmarshalHBCI(w); err != nil {
						return fmt.Errorf("%q does not read back: %v", w, err)
					}
					if b.Value().(float64) != f {
						return fmt.Errorf("%q reads back as %v", w, b.Value())
					}
				}
			}
			if f >= 0 {
				var a AmountDataElement
				w, err := NewAmount(f, "EUR").MarshalHBCI()
				if err != nil {
					return err
				}
				if err := a.UnmarshalHBCI(w); err != nil || a.Val().Amount != f || a.Val().Currency != "EUR" {
					return fmt.Errorf("with currency: %q reads back as %v, %v", w, a.Val(), err)
				}
			}
			return nil
		})
	}
	for _, f := range []float64{0, 0.01, 0.1, 0.5, 1, 1.5, 10, 100, 1234.56, 0.000001, 1e9, 123456789012.34, 1e21, 1e22, 1e-7, 4.35, 0.29, 1.005, -1, -0.01, -1e21, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 9007199254740993} {
		amt(f)
	}
	for i := 0; i < v.N(4000, 40000); i++ {
		amt(float64(v.R.Int63()>>uint(v.R.Intn(63))) / 100)
		f := math.Float64frombits(v.R.Uint64())
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			amt(f)
		}
	}
	round("boolean(true)", NewBoolean(true), &BooleanDataElement{}, "J", "true")
	round("boolean(false)", NewBoolean(false), NewBoolean(true), "N", "false")
	zones := []*time.Location{time.UTC, time.FixedZone("e", 13*3600), time.FixedZone("w", -12*3600), time.FixedZone("i", 19800)}
	for d := time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC); d.Year() <= 2100; d = d.AddDate(0, 0, 1) {
		n := time.Date(d.Year(), d.Month(), d.Day(), v.R.Intn(24), v.R.Intn(60), v.R.Intn(60), v.R.Intn(1e9), zones[d.Day()%4])
		round("date("+n.String()+")", NewDate(n), &DateDataElement{}, fmt.Sprintf("%04d%02d%02d", d.Year(), d.Month(), d.Day()), vDay(d))
	}
	for _, y := range []int{1, 7, 999, 1000, 1582, 9999} {
		d := time.Date(y, 2, 28, 23, 59, 59, 0, zones[y%4])
		round("date("+d.String()+")", NewDate(d), NewDate(time.Now()), fmt.Sprintf("%04d0228", y), vDay(d))
	}
	for s := 0; s < 86400; s++ {
		d := time.Date(2000+s%40, time.Month(1+s%12), 1+s%28, s/3600, s/60%60, s%60, s%7*1000, zones[s%4])
		round("time("+vHMS(d)+")", NewTime(d), &TimeDataElement{}, d.Format("150405"), vHMS(d))
	}
	bin := func(s string) {
		wire := fmt.Sprintf("@%d@%s", len(s), s)
		round(fmt.Sprintf("binary(%q)", s), NewBinary([]byte(s), 3), &BinaryDataElement{}, wire, s)
		round(fmt.Sprintf("dtaus(%q)", s), NewDtausCharset([]byte(s), 3), &DtausCharsetDataElement{}, wire, s)
		v.Case(fmt.Sprintf("independent(%q)", s), func() error {
			in := []byte(s)
			d := NewBinary(in, 3)
			w, err := d.MarshalHBCI()
			if err != nil {
				return err
			}
			var b BinaryDataElement
			if err := b.UnmarshalHBCI(w); err != nil {
				return err
			}
			for i := range w {
				w[i]++
			}
			if !bytes.Equal(in, []byte(s)) || string(b.Val()) != s {
				return fmt.Errorf("the value changes along with the written bytes")
			}
			return nil
		})
	}
	for i := 0; i < 256; i++ {
		bin(string([]byte{byte(i)}))
		bin(string([]byte{'a', byte(i), '@'}))
		bin(strings.Repeat("x'", i))
	}
	for i := 0; i < 500; i++ {
		b := make([]byte, v.R.Intn(40))
		v.R.Read(b)
		bin(string(b))
	}

	// reading
	day := func(s string) (string, bool) {
		if len(s) != 8 || !vReInt.MatchString(s) {
			return "", false
		}
		y, _ := strconv.Atoi(s[:4])
		m, _ := strconv.Atoi(s[4:6])
		d, _ := strconv.Atoi(s[6:])
		x := time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)
		if m < 1 || m > 12 || d < 1 || x.Day() != d {
			return "", false
		}
		return vDay(x), true
	}
	hms := func(s string) (string, bool) {
		if len(s) != 6 || !vReInt.MatchString(s) || s[:2] > "23" || s[2:4] > "59" || s[4:] > "59" {
			return "", false
		}
		return s[:2] + ":" + s[2:4] + ":" + s[4:], true
	}
	amount := func(s string) (string, bool) {
		if !vReAmt.MatchString(s) {
			return "", false
		}
		f, err := strconv.ParseFloat(strings.Replace(s, ",", ".", 1), 64)
		return vAmt(f), err == nil
	}
	boolean := func(s string) (string, bool) { return fmt.Sprint(s == "J"), s == "J" || s == "N" }
	kinds := []vScalar{
		{"number", func() DataElement { return &NumberDataElement{} }, vIntOf},
		{"number reused", func() DataElement { return NewNumber(77, 2) }, vIntOf},
		{"digit", func() DataElement { return &DigitDataElement{} }, vIntOf},
		{"country", func() DataElement { return &CountryCodeDataElement{} }, vIntOf},
		{"float", func() DataElement { return &FloatDataElement{} }, amount},
		{"value", func() DataElement { return &ValueDataElement{} }, amount},
		{"boolean", func() DataElement { return &BooleanDataElement{} }, boolean},
		{"boolean reused", func() DataElement { return NewBoolean(true) }, boolean},
		{"date", func() DataElement { return &DateDataElement{} }, day},
		{"time", func() DataElement { return &TimeDataElement{} }, hms},
		{"binary", func() DataElement { return &BinaryDataElement{} }, vBinOf},
		{"dtaus", func() DataElement { return &DtausCharsetDataElement{} }, vBinOf},
	}
	read := func(s string) {
		v.Case(fmt.Sprintf("read(%q)", s), func() error {
			for _, k := range kinds {
				d := k.mk()
				err := d.UnmarshalHBCI([]byte(s))
				val, ok := k.ok(s)
				if !ok {
					if err == nil {
						return fmt.Errorf("accepted as %s: %s", k.name, vShow(d))
					}
					continue
				}
				if err != nil {
					return fmt.Errorf("rejected as %s: %v", k.name, err)
				}
				if g := vShow(d); g != val {
					return fmt.Errorf("read as %s: %s, not %s", k.name, g, val)
				}
			}
			return nil
		})
	}
	v.Strings("01529,.-+JN@", v.N(4, 5), read)
	valid := []string{"5", "00123", "12,5", "0,01", "1000,", ",5", "J", "N", "20200229", "20190229", "19991231", "235959", "000000", "@3@abc", "@0@", "@03@abc", "9223372036854775807", "9223372036854775808", "99999999999999999999", "-1", "-1,5", "1e5", "0x10", "1_0", "inf", "NaN", "+5", " 5", "5 ", "j", "n", "true", "1,5,5", "1.5", "\xb2", "20201301", "20200001", "20200100", "20200132", "246060", "240000", "2400", "12345.", "1234,5", "@@", "@x@", "@-1@a", "@+1@a", "@1@", "@2@a", "@1@ab", "@ 1@a", "@18446744073709551617@a", "@9223372036854775808@"}
	for i := 0; i < v.N(60, 400); i++ {
		valid = append(valid, time.Unix(v.R.Int63n(4e9), 0).UTC().Format("20060102"), time.Unix(v.R.Int63n(4e9), 0).UTC().Format("150405"))
	}
	for _, s := range append(valid, v.Seeds()...) {
		read(s)
		for _, c := range "0159,.-+ JN@?e\x00\xe4" {
			for i := 0; i <= len(s); i++ {
				read(s[:i] + string([]byte{byte(c)}) + s[i:])
				if i < len(s) {
					read(s[:i] + string([]byte{byte(c)}) + s[i+1:])
				}
			}
		}
		for i := range s {
			read(s[:i] + s[i+1:])
		}
	}
	for i := 0; i < 256; i++ {
		read(string([]byte{byte(i)}))
	}
	for m := 0; m < 100; m++ {
		for d := 0; d < 100; d++ {
			read(fmt.Sprintf("2023%02d%02d", m, d))
			read(fmt.Sprintf("%02d%02d30", m, d))
		}
	}
	for y := 1890; y < 2110; y++ {
		read(fmt.Sprintf("%d0229", y))
	}
	v.End(t)
}
