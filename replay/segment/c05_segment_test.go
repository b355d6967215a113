package segment

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mitch000001/go-hbci/element"
)

type vSeg struct{ es []element.DataElement }

func (s *vSeg) Version() int                    { return 7 }
func (s *vSeg) ID() string                      { return "HKXXX" }
func (s *vSeg) referencedId() string            { return "" }
func (s *vSeg) sender() string                  { return senderUser }
func (s *vSeg) elements() []element.DataElement { return s.es }

type vGrp struct {
	element.DataElement
	es []element.DataElement
}

func (g *vGrp) GroupDataElements() []element.DataElement { return g.es }

func vGroup(es ...element.DataElement) element.DataElement {
	g := &vGrp{es: es}
	g.DataElement = element.NewDataElementGroup(0, len(es), g)
	return g
}

// a field and its written form
type vField struct {
	de   element.DataElement
	wire string
}

func vEsc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if vSyn(s[i]) {
			b.WriteByte('?')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func vLeaves(texts []string) []vField {
	r := []vField{
		{(*element.AlphaNumericDataElement)(nil), ""},
		{(*element.NumberDataElement)(nil), ""},
		{element.NewNumber(0, 3), "0"},
		{element.NewNumber(120, 3), "120"},
		{element.NewDigit(7, 3), "007"},
		{element.NewBoolean(true), "J"},
		{element.NewValue(12.5), "12,5"},
		{element.NewCountryCode(280), "280"},
		{element.NewAmount(3, "EUR"), "3,:EUR"},
	}
	for _, t := range texts {
		r = append(r,
			vField{element.NewAlphaNumeric(t, 99), vEsc(t)},
			vField{element.NewText(t, 99), vEsc(t)},
			vField{element.NewIdentification(t), vEsc(t)},
			vField{element.NewBinary([]byte(t), 99), fmt.Sprintf("@%d@%s", len(t), t)})
	}
	return r
}

var vTexts = []string{"", "a", "+", ":", "'", "?", "@", "a+", "a:", "a'", "a?", "+a", ":::", "'+:?@", "@3@abc", "??", "0", "x\x00y", "  ", "+'", "++", "?+", "?:"}

func vLess(s []string) []string {
	for len(s) > 0 && s[len(s)-1] == "" {
		s = s[:len(s)-1]
	}
	return s
}

func TestVerifC05(t *testing.T) {
	v := vStart(t)
	vOrder(v)
	v.Rule("segments of up to 3 fields over all leaf kinds and 23 texts, random segments of up to 9 fields with nested groups; splitting of all strings up to length 5 (6 thorough) over 7 bytes and of random strings")
	leaves := vLeaves(vTexts)
	one := func(fs []vField, pos, ref int) {
		want := []string{fmt.Sprintf("HKXXX:%d:7", pos)}
		if ref >= 0 {
			want[0] += fmt.Sprintf(":%d", ref)
		}
		for _, f := range fs {
			want = append(want, f.wire)
		}
		want = vLess(want)
		wire := strings.Join(want, "+") + "'"
		v.Case(fmt.Sprintf("marshal(%q)", wire), func() error {
			s := &vSeg{}
			for _, f := range fs {
				s.es = append(s.es, f.de)
			}
			var seg *segment
			if ref >= 0 {
				seg = NewReferencingBasicSegment(pos, ref, s)
			} else {
				seg = NewBasicSegment(pos, s)
			}
			got, err := seg.MarshalHBCI()
			if err != nil {
				return err
			}
			if string(got) != wire {
				return fmt.Errorf("written as %q", got)
			}
			back, err := ExtractElements(got)
			if err != nil {
				return fmt.Errorf("reading back: %v", err)
			}
			if len(back) != len(want) {
				return fmt.Errorf("read back %q", back)
			}
			for i := range want {
				if string(back[i]) != want[i] {
					return fmt.Errorf("field %d read back as %q", i, back[i])
				}
			}
			return nil
		})
	}
	one(nil, 1, -1)
	one(nil, 12, 3)
	for _, a := range leaves {
		one([]vField{a}, 3, -1)
		one([]vField{a}, 3, 4)
		for _, b := range leaves {
			one([]vField{a, b}, 3, -1)
		}
	}
	for i := 0; i < v.N(4000, 60000); i++ {
		var fs []vField
		for k := v.R.Intn(9); k > 0; k-- {
			f := leaves[v.R.Intn(len(leaves))]
			if v.R.Intn(3) == 0 {
				f = leaves[v.R.Intn(2)]
			}
			if v.R.Intn(4) == 0 {
				var es []element.DataElement
				var ws []string
				for n := v.R.Intn(5); n > 0; n-- {
					g := leaves[v.R.Intn(len(leaves))]
					es = append(es, g.de)
					ws = append(ws, g.wire)
				}
				f = vField{vGroup(es...), strings.Join(vLess(ws), ":")}
			}
			fs = append(fs, f)
		}
		one(fs, 1+v.R.Intn(999), v.R.Intn(5)-1)
	}
	split := func(s string) {
		v.Case(fmt.Sprintf("split(%q)", s), func() error {
			want, ok := vFields(s)
			// a text without any field is no segment
			ok = ok && len(want) > 0
			raw := []byte(s)
			got, err := ExtractElements(raw)
			if string(raw) != s {
				return fmt.Errorf("input modified")
			}
			if (err == nil) != ok {
				return fmt.Errorf("error %v, well-formed %v", err, ok)
			}
			if err != nil {
				if len(got) != 0 {
					return fmt.Errorf("error and result %q", got)
				}
				return nil
			}
			if len(got) != len(want) {
				return fmt.Errorf("got %q, want %q", got, want)
			}
			for i := range want {
				if string(got[i]) != want[i] {
					return fmt.Errorf("got %q, want %q", got, want)
				}
			}
			return nil
		})
	}
	for _, s := range v.Seeds() {
		split(s)
		split(s + "'")
	}
	v.Strings("'+:a?@1", v.N(5, 6), split)
	for i := 0; i < v.N(3000, 40000); i++ {
		split(v.Rand([]string{"'", "+", ":", "a", "12", "0", "007", "0,5", "?'", "?+", "??", "?:", "?@", "@1@'", "@3@+':", "@0@", "@2@a", "\x00", "\xe4", " "}, 20) + "'")
	}
	v.End(t)
}
