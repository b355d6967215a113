package element

import (
	"fmt"
	"testing"

	"github.com/mitch000001/go-hbci/token"
)

type vTextField struct {
	name string
	mk   func(string) DataElement
	back func() DataElement
}

var vTextFields = []vTextField{
	{"AlphaNumeric", func(s string) DataElement { return NewAlphaNumeric(s, 99) }, func() DataElement { return &AlphaNumericDataElement{} }},
	{"Text", func(s string) DataElement { return NewText(s, 99) }, func() DataElement { return &TextDataElement{} }},
	{"Code", func(s string) DataElement { return NewCode(s, 99, []string{"b", "a"}) }, func() DataElement { return &CodeDataElement{} }},
	{"Identification", func(s string) DataElement { return NewIdentification(s) }, func() DataElement { return &IdentificationDataElement{} }},
	{"Currency", func(s string) DataElement { return NewCurrency(s) }, func() DataElement { return &CurrencyDataElement{} }},
	{"AlphaNumeric reused", func(s string) DataElement { return NewAlphaNumeric(s, 1) }, func() DataElement { return NewAlphaNumeric("old'value", 3) }},
	{"Code reused", func(s string) DataElement { return NewCode(s, 1, nil) }, func() DataElement { return NewCode("old", 3, []string{"x"}) }},
	{"Text reused", func(s string) DataElement { return NewText(s, 0) }, func() DataElement { return NewText("??", 3) }},
}

// vFloatLike tells whether the wire form starts like a number with superfluous zeros.
func vFloatLike(s string) bool {
	if s == "" || s[0] != '0' {
		return false
	}
	k := 0
	for k < len(s) && s[k] >= '0' && s[k] <= '9' {
		k++
	}
	return k > 1 && k < len(s) && s[k] == ','
}

func TestVerifC03(t *testing.T) {
	v := vStart(t)
	v.Rule("8 text field kinds; all byte texts up to length 4 (5 thorough) over 9 characters (syntax characters, letters, digits, umlaut), all 1- and 2-byte texts with one of 256 bytes each, random longer ones; written, scanned with each following delimiter and more data behind, read back by the field itself and as an element of a group")
	one := func(lat string) {
		txt := vUTF(lat)
		v.Case(fmt.Sprintf("text(%q)", txt), func() error {
			for _, f := range vTextFields {
				w, err := f.mk(txt).MarshalHBCI()
				if err != nil {
					return fmt.Errorf("%s: %v", f.name, err)
				}
				if string(w) != vEsc(lat) {
					return fmt.Errorf("%s: written as %q", f.name, w)
				}
				keep := string(w)
				b := f.back()
				if err := b.UnmarshalHBCI(w); err != nil {
					return fmt.Errorf("%s: %q does not read back: %v", f.name, w, err)
				}
				if string(w) != keep {
					return fmt.Errorf("%s: reading changed the bytes to %q", f.name, w)
				}
				if got, _ := b.Value().(string); got != txt {
					return fmt.Errorf("%s: %q reads back as %q", f.name, w, got)
				}
				// the field read is independent of the bytes it was read from
				for i := range w {
					w[i] = 'Z'
				}
				if got, _ := b.Value().(string); got != txt {
					return fmt.Errorf("%s: changed along with the bytes read", f.name)
				}
			}
			w := vEsc(lat)
			if lat == "" {
				return nil
			}
			if vFloatLike(w) {
				toks := token.NewLexer("", []byte(w+"+"))
				if toks.HasNext() && toks.Next().Type() == token.ERROR {
					v.Known("leading-zeros")
					return nil
				}
			}
			for _, d := range []string{"+", ":", "'"} {
				l := token.NewLexer("", []byte(w+d+"rest'"))
				tk := l.Next()
				if string(tk.Value()) != w || tk.Type() == token.ERROR {
					return fmt.Errorf("followed by %s: scanned as %v %q", d, tk.Type(), tk.Value())
				}
				if tk = l.Next(); string(tk.Value()) != d || tk.Pos() != len(w) {
					return fmt.Errorf("followed by %s: then scanned %q at %d", d, tk.Value(), tk.Pos())
				}
			}
			g := &vGrp{es: []DataElement{NewText(txt, 99), NewAlphaNumeric(txt, 99)}}
			gw, err := NewDataElementGroup(0, 2, g).MarshalHBCI()
			if err != nil {
				return err
			}
			es, err := ExtractElements(gw)
			if err != nil || len(es) != 2 {
				return fmt.Errorf("in a group: %q, %v", es, err)
			}
			for _, e := range es {
				var a AlphaNumericDataElement
				if err := a.UnmarshalHBCI(e); err != nil || a.Val() != txt {
					return fmt.Errorf("in a group: read back as %q, %v", a.Val(), err)
				}
			}
			return nil
		})
	}
	v.Strings("a+:'?@0,\xe4", v.N(4, 5), one)
	for i := 0; i < 256; i++ {
		one(string([]byte{byte(i)}))
		for j := 0; j < 256; j++ {
			one(string([]byte{byte(i), byte(j)}))
		}
	}
	for _, s := range v.Seeds() {
		one(s)
	}
	ps := []string{"a", "+", ":", "'", "?", "@", "??", "?'", "\xff", "\x80", "\x9f", "\xc3\xa4", "@3@abc", "\r\n", "\x00", "12", "01,5", " ", "%s", "\\"}
	for i := 0; i < v.N(4000, 40000); i++ {
		one(v.Rand(ps, 14))
	}
	v.End(t)
}
