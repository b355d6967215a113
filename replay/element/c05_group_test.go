package element

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC05(t *testing.T) {
	v := vStart(t)
	vOrder(v)
	v.Rule("groups of up to 3 elements over all leaf kinds and 23 texts, random groups of up to 9 elements; splitting of all strings up to length 5 (6 thorough) over 7 bytes and of random strings; the caller's bytes beyond the group stay as they are")
	texts := []string{"", "a", "+", ":", "'", "?", "@", "a+", "a:", "a'", "a?", "+a", ":::", "'+:?@", "@3@abc", "??", "0", "x\x00y", "  ", "+'", "++", "?+", "?:"}
	leaves := []vField{
		{(*AlphaNumericDataElement)(nil), ""},
		{(*NumberDataElement)(nil), ""},
		{NewNumber(0, 3), "0"},
		{NewDigit(7, 3), "007"},
		{NewBoolean(false), "N"},
		{NewValue(0.25), "0,25"},
	}
	for _, x := range texts {
		leaves = append(leaves, vField{NewAlphaNumeric(x, 99), vEsc(x)}, vField{NewText(x, 99), vEsc(x)},
			vField{NewBinary([]byte(x), 99), fmt.Sprintf("@%d@%s", len(x), x)})
	}
	one := func(fs []vField) {
		var want []string
		for _, f := range fs {
			want = append(want, f.wire)
		}
		for len(want) > 0 && want[len(want)-1] == "" {
			want = want[:len(want)-1]
		}
		wire := strings.Join(want, ":")
		v.Case(fmt.Sprintf("group(%q)", wire), func() error {
			g := &vGrp{}
			for _, f := range fs {
				g.es = append(g.es, f.de)
			}
			for n, d := range []DataElement{NewDataElementGroup(0, len(fs), g), NewGroupDataElementGroup(0, len(fs), g)} {
				got, err := d.MarshalHBCI()
				if err != nil {
					return err
				}
				if string(got) != wire {
					return fmt.Errorf("%d: written as %q", n, got)
				}
				if len(want) == 0 {
					continue
				}
				back, err := ExtractElements(got)
				if err != nil {
					return err
				}
				if len(back) != len(want) {
					return fmt.Errorf("read back as %q", back)
				}
				for i := range want {
					if string(back[i]) != want[i] {
						return fmt.Errorf("element %d read back as %q", i, back[i])
					}
				}
			}
			return nil
		})
	}
	for _, a := range leaves {
		one([]vField{a})
		for _, b := range leaves {
			one([]vField{a, b})
		}
	}
	for i := 0; i < v.N(4000, 50000); i++ {
		var fs []vField
		for k := v.R.Intn(9); k > 0; k-- {
			f := leaves[v.R.Intn(len(leaves))]
			if v.R.Intn(3) == 0 {
				f = leaves[v.R.Intn(2)]
			}
			fs = append(fs, f)
		}
		one(fs)
	}
	split := func(s string) {
		v.Case(fmt.Sprintf("split(%q)", s), func() error {
			want, ok := vSubs(s)
			buf := []byte(s + "REST")
			got, err := ExtractElements(buf[:len(s)])
			if string(buf) != s+"REST" {
				return fmt.Errorf("the caller's bytes became %q", buf)
			}
			if (err == nil) != ok {
				return fmt.Errorf("error %v, well-formed %v", err, ok)
			}
			if err != nil {
				if len(got) != 0 {
					return fmt.Errorf("error and result %q", got)
				}
				return nil
			}
			if len(got) != len(want) {
				return fmt.Errorf("got %q, want %q", got, want)
			}
			for i := range want {
				if string(got[i]) != want[i] {
					return fmt.Errorf("got %q, want %q", got, want)
				}
			}
			return nil
		})
	}
	for _, s := range v.Seeds() {
		split(s)
	}
	v.Strings("'+:a?@1", v.N(5, 6), split)
	for i := 0; i < v.N(3000, 40000); i++ {
		split(v.Rand([]string{"'", "+", ":", ":", "a", "12", "0", "007", "0,5", "?'", "?+", "??", "?:", "?@", "@1@'", "@3@+':", "@0@", "@2@a", "\x00", "\xe4", " "}, 20))
	}
	v.End(t)
}
