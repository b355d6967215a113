package domain

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
	"testing"
	"time"
)

func TestVerifC24(t *testing.T) {
	v := vStart(t)
	v.Rule("every day from 1895 to 2105 (deep: every day of the years 1 to 9999) and the bounds of the four-digit years, written as text, JSON (as pointer, value, field, list item, map value) and read back, into a fresh and into a used receiver; timeframes of such days through JSON and query forms; points in time at every hour in 9 locations; queries with bounds missing, repeated, misspelt, truncated, extended, out of the calendar")
	same := func(a ShortDate, y, m, d int) error {
		ay, am, ad := a.Date()
		if ay != y || int(am) != m || ad != d {
			return fmt.Errorf("got %04d-%02d-%02d, want %04d-%02d-%02d", ay, int(am), ad, y, m, d)
		}
		if h, mi, s := a.Clock(); h != 0 || mi != 0 || s != 0 || a.Nanosecond() != 0 {
			return fmt.Errorf("time of day %d:%d:%d.%d", h, mi, s, a.Nanosecond())
		}
		return nil
	}
	used := time.Date(1999, 12, 31, 23, 59, 59, 7, time.FixedZone("x", 3600))
	day := func(y, m, d int) {
		ref := time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)
		y, m, d = ref.Year(), int(ref.Month()), ref.Day()
		v.Case(fmt.Sprintf("day %04d-%02d-%02d", y, m, d), func() error {
			x := Date(y, time.Month(m), d, time.Local)
			if err := same(x, y, m, d); err != nil {
				return fmt.Errorf("Date: %v", err)
			}
			var back, back2 ShortDate
			back2.Time = used
			text, err := x.MarshalText()
			if err != nil {
				return fmt.Errorf("text: %v", err)
			}
			for _, b := range []*ShortDate{&back, &back2} {
				if err := b.UnmarshalText(text); err != nil {
					return fmt.Errorf("text %q: %v", text, err)
				}
				if err := same(*b, y, m, d); err != nil {
					return fmt.Errorf("text %q: %v", text, err)
				}
			}
			read := func(form string, js []byte, err error) error {
				if err != nil {
					return fmt.Errorf("%s: %v", form, err)
				}
				for _, b := range []*ShortDate{{}, {Time: used}} {
					if err := json.Unmarshal(js, b); err != nil {
						return fmt.Errorf("%s %s: %v", form, js, err)
					}
					if err := same(*b, y, m, d); err != nil {
						return fmt.Errorf("%s %s: %v", form, js, err)
					}
				}
				return nil
			}
			js, err := x.MarshalJSON()
			if err := read("MarshalJSON", js, err); err != nil {
				return err
			}
			js, err = json.Marshal(&x)
			if err := read("JSON of pointer", js, err); err != nil {
				return err
			}
			js, err = json.Marshal(x)
			if err := read("JSON of value", js, err); err != nil {
				return err
			}
			type box struct {
				D ShortDate
				P *ShortDate
				L []ShortDate
				M map[string]ShortDate
				T Timeframe
			}
			bx := box{x, &x, []ShortDate{x, x}, map[string]ShortDate{"k": x}, Timeframe{x, Date(2020, 2, 29, time.UTC)}}
			js, err = json.Marshal(bx)
			if err != nil {
				return fmt.Errorf("struct: %v", err)
			}
			var got box
			if err := json.Unmarshal(js, &got); err != nil {
				return fmt.Errorf("struct %s: %v", js, err)
			}
			all := []ShortDate{got.D}
			if got.P == nil || len(got.L) != 2 || len(got.M) != 1 {
				return fmt.Errorf("struct %s: read as %+v", js, got)
			}
			all = append(all, *got.P, got.L[0], got.L[1])
			for _, e := range got.M {
				all = append(all, e)
			}
			if ref.Year() != 1 || ref.YearDay() != 1 { // the unset date makes the timeframe an unset one
				all = append(all, got.T.StartDate)
				if err := same(got.T.EndDate, 2020, 2, 29); err != nil {
					return fmt.Errorf("struct %s: %v", js, err)
				}
			}
			for i, a := range all {
				if err := same(a, y, m, d); err != nil {
					return fmt.Errorf("struct %s (%d): %v", js, i, err)
				}
			}
			return nil
		})
	}
	from, to := 1895, 2105
	if v.Deep {
		from, to = 1, 9999
	}
	for d := time.Date(from, 1, 1, 0, 0, 0, 0, time.UTC); d.Year() <= to; d = d.AddDate(0, 0, 1) {
		day(d.Year(), int(d.Month()), d.Day())
	}
	for _, y := range []int{1, 2, 3, 4, 9, 10, 99, 100, 400, 999, 1000, 1582, 1600, 1700, 4000, 9998, 9999} {
		for m := 1; m <= 12; m++ {
			for _, d := range []int{1, 2, 9, 10, 11, 28} {
				day(y, m, d)
			}
			e := time.Date(y, time.Month(m)+1, 0, 0, 0, 0, 0, time.UTC)
			day(y, m, e.Day())
		}
	}

	frame := func(a, b ShortDate) {
		v.Case(fmt.Sprintf("timeframe %s..%s", a.Format("2006-01-02"), b.Format("2006-01-02")), func() error {
			chk := func(form string, tf Timeframe) error {
				if err := same(tf.StartDate, a.Year(), int(a.Month()), a.Day()); err != nil {
					return fmt.Errorf("%s start: %v", form, err)
				}
				if err := same(tf.EndDate, b.Year(), int(b.Month()), b.Day()); err != nil {
					return fmt.Errorf("%s end: %v", form, err)
				}
				return nil
			}
			tf := Timeframe{a, b}
			q := tf.ToQuery()
			for _, form := range []url.Values{q, func() url.Values { x, _ := url.ParseQuery(q.Encode()); return x }()} {
				got, err := TimeframeFromQuery(form)
				if err != nil {
					return fmt.Errorf("query %q: %v", q.Encode(), err)
				}
				if err := chk("query "+q.Encode(), got); err != nil {
					return err
				}
			}
			for i, x := range []interface{}{tf, &tf} {
				js, err := json.Marshal(x)
				if err != nil {
					return fmt.Errorf("JSON: %v", err)
				}
				for _, got := range []Timeframe{{}, {ShortDate{used}, ShortDate{used}}} {
					if err := json.Unmarshal(js, &got); err != nil {
						return fmt.Errorf("JSON %s: %v", js, err)
					}
					if err := chk(fmt.Sprintf("JSON(%d) %s", i, js), got); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	var days []ShortDate
	for _, y := range []int{2, 33, 444, 1000, 1999, 2000, 2014, 2024, 9999} {
		for _, md := range [][2]int{{1, 1}, {2, 28}, {2, 29}, {9, 10}, {10, 9}, {12, 31}} {
			days = append(days, Date(y, time.Month(md[0]), md[1], time.UTC))
		}
	}
	for _, z := range []*time.Location{time.FixedZone("w", -11*3600), time.FixedZone("e", 14*3600)} {
		days = append(days, ShortDate{time.Date(2019, 6, 30, 0, 0, 0, 0, z)}, ShortDate{time.Date(2020, 1, 1, 0, 0, 0, 0, z)})
	}
	for _, a := range days {
		for _, b := range days {
			frame(a, b)
		}
	}
	for i := 0; i < v.N(300, 20000); i++ {
		base := time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC)
		r := func() ShortDate {
			n := 0
			for _, c := range v.Rand([]string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}, 5) {
				n = n*10 + int(c-'0')
			}
			return NewShortDate(base.AddDate(0, 0, n))
		}
		frame(r(), r())
	}

	var locs []*time.Location
	for _, h := range []int{-12, -11, -5, 0, 1, 2, 9, 14} {
		locs = append(locs, time.FixedZone(fmt.Sprint("z", h), h*3600))
	}
	for _, n := range []string{"Europe/Berlin", "America/New_York", "America/Sao_Paulo", "Asia/Kathmandu", "Pacific/Apia"} {
		if l, err := time.LoadLocation(n); err == nil {
			locs = append(locs, l)
		}
	}
	for _, l := range locs {
		for _, d := range days {
			for h := 0; h < 24; h++ {
				p := time.Date(d.Year(), d.Month(), d.Day(), h, 59-2*h, h, 999999999-h, l)
				v.Case("point "+p.Format(time.RFC3339Nano), func() error {
					y, m, dd := p.Date()
					return same(NewShortDate(p), y, int(m), dd)
				})
			}
		}
	}

	good := func(s string) bool {
		if len(s) != 8 {
			return false
		}
		n := make([]int, 3)
		for i, p := range []string{s[:4], s[4:6], s[6:]} {
			for _, c := range p {
				if c < '0' || c > '9' {
					return false
				}
				n[i] = n[i]*10 + int(c-'0')
			}
		}
		r := time.Date(n[0], time.Month(n[1]), n[2], 0, 0, 0, 0, time.UTC)
		return r.Year() == n[0] && int(r.Month()) == n[1] && r.Day() == n[2]
	}
	query := func(q url.Values) {
		v.Case("query "+q.Encode(), func() error {
			a, b := "", ""
			if len(q["from"]) > 0 {
				a = q["from"][0]
			}
			if len(q["to"]) > 0 {
				b = q["to"][0]
			}
			tf, err := TimeframeFromQuery(q)
			if err != nil {
				if good(a) && good(b) {
					return fmt.Errorf("rejected: %v", err)
				}
				return nil
			}
			if !good(a) || !good(b) {
				return fmt.Errorf("accepted as %s to %s", tf.StartDate.Format("2006-01-02"), tf.EndDate.Format("2006-01-02"))
			}
			if x := tf.StartDate.Format("20060102"); x != a {
				return fmt.Errorf("start is %s", x)
			}
			if x := tf.EndDate.Format("20060102"); x != b {
				return fmt.Errorf("end is %s", x)
			}
			return nil
		})
	}
	vals := []string{"", "20140201", "20140401", "20140229", "20160229", "20140230", "20140431", "20141301", "20140001", "20140100", "2014021", "201402011", "140201", "2014-02-01", "2014 201", " 20140201", "20140201 ", "abcde", "00000000", "00010101", "99991231", "2014020a", "+0140201", "-0140201", "2014.201", "20140201T", "２０１４０２０１", "\x00", "20140201,20140401"}
	query(nil)
	for _, a := range vals {
		query(url.Values{"from": {a}})
		query(url.Values{"to": {a}})
		query(url.Values{"From": {a}, "to": {a}})
		query(url.Values{"from": {}, "to": {a}})
		query(url.Values{"from": {a}, "to": nil})
		for _, b := range vals {
			query(url.Values{"from": {a}, "to": {b}})
			query(url.Values{"from": {a, b}, "to": {b, a}})
		}
	}
	for i := 0; i < v.N(2000, 200000); i++ {
		r := func() string {
			return v.Rand([]string{"0", "1", "2", "3", "0", "1", "2", "20", "19", "02", "12", "29", "31", "x", "-"}, 8)
		}
		a, b := r(), r()
		if strings.ContainsAny(v.Rand([]string{"a", "b", "c"}, 1), "ab") {
			b = "20140401"
		}
		query(url.Values{"from": {a}, "to": {b}})
		query(url.Values{"from": {b}, "to": {a}})
	}
	// texts that are not a day are never read as one
	bad := []string{`"2014-02-30"`, `"2014-13-01"`, `"2014-2-1"`, `"20140201"`, `"2014-02-01x"`, `"abc"`, `2014`, `"2014-02-01 "`, `{}`, `true`}
	for _, s := range bad {
		v.Case("bad "+s, func() error {
			var d ShortDate
			if err := json.Unmarshal([]byte(s), &d); err == nil {
				return fmt.Errorf("read as %s", d.Format("2006-01-02"))
			}
			if err := d.UnmarshalText([]byte(strings.Trim(s, `"`))); err == nil {
				return fmt.Errorf("text read as %s", d.Format("2006-01-02"))
			}
			return nil
		})
	}
	v.End(t)
}
