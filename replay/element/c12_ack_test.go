package element

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/mitch000001/go-hbci/domain"
)

func TestVerifC12(t *testing.T) {
	v := vStart(t)
	v.Rule("acknowledgement fields from 18 codes, 9 references, 20 texts and 12 parameter lists decoded, fresh and into a used element; all strings up to length 6 (7 thorough) over 5 bytes, edits of valid fields and random strings compared with the field grammar; codes -2..12000 classified")
	// an element is decoded to the texts the institute wrote
	read := func(s string) {
		v.Case(fmt.Sprintf("read(%q)", s), func() error {
			es, ok := vSubs(s)
			want := domain.Acknowledgement{}
			if ok = ok && len(es) >= 3; ok {
				want.Code, ok = vNum(es[0])
				want.ReferenceDataElement = vUnesc(es[1])
				want.Text = vUnesc(es[2])
				for _, e := range es[3:] {
					want.Params = append(want.Params, vUnesc(e))
				}
			}
			used := NewAcknowledgement(domain.Acknowledgement{Code: 77, Text: "old", ReferenceDataElement: "2", Params: []string{"x", "y"}})
			used.SetReferencingSegmentPosition(5)
			used.SetType(domain.SegmentAcknowledgement)
			for i, a := range []*AcknowledgementDataElement{{}, used} {
				err := a.UnmarshalHBCI([]byte(s))
				if !ok {
					if err == nil {
						return fmt.Errorf("accepted as %v", a.Val())
					}
					continue
				}
				if err != nil {
					return fmt.Errorf("rejected: %v", err)
				}
				got := a.Val()
				if len(got.Params) != len(want.Params) || got.Code != want.Code || got.Text != want.Text || got.ReferenceDataElement != want.ReferenceDataElement {
					return fmt.Errorf("%d: decoded to %#v instead of %#v", i, got, want)
				}
				for i := range got.Params {
					if got.Params[i] != want.Params[i] {
						return fmt.Errorf("%d: decoded to %#v instead of %#v", i, got, want)
					}
				}
				w, err := a.MarshalHBCI()
				if err != nil {
					return err
				}
				b := &AcknowledgementDataElement{}
				if err := b.UnmarshalHBCI(w); err == nil {
					if x, y := b.Val(), a.Val(); x.Code != y.Code || x.Text != y.Text || x.ReferenceDataElement != y.ReferenceDataElement {
						return fmt.Errorf("written again as %q", w)
					}
				}
				a.SetType("T")
				a.SetReferencingSegmentPosition(31)
				a.SetReferencingMessage(domain.MessageReference{DialogID: "d", MessageNumber: 3})
				if again := a.Val(); again.Type != "T" || again.ReferencingSegmentNumber != 31 || again.ReferencingMessage.DialogID != "d" || again.Text != want.Text || !reflect.DeepEqual(again.Params, got.Params) {
					return fmt.Errorf("%#v after setting type and references", again)
				}
			}
			return nil
		})
	}
	codes := []string{"0010", "0020", "3040", "3920", "9800", "9010", "10", "0", "1", "0999", "1000", "2999", "3000", "3999", "4000", "8999", "9000", "9999"}
	refs := []string{"", "3", "2,4", "a", "?:", "7?'1", "x??", "\xe4", "5:"[:1]}
	texts := []string{"", "OK", "Auftrag ausgef\xfchrt.", "a?:b", "?+?+", "??", "?@1?@", "x?'", "Kontostand 1,23?+", "???:", "??.", "1,0", "0", "a", "?:?:?:", " ", "\xff\x80", "Die Nachricht enth\xe4lt Fehler", "?@", "?'"}
	params := [][]string{nil, {"a"}, {""}, {"x", "y"}, {"", "b"}, {"c", ""}, {"?:", "?+"}, {"??", "?'", "?@"}, {"1", "2", "3", "4", "5", "6", "7", "8", "9", "10"}, {"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11"}, {"Touchdown?:1", ""}, {"", "", ""}}
	for i, c := range codes {
		for _, r := range refs {
			for j, x := range texts {
				for k, ps := range params {
					if (i+j+k)%3 != 0 && !v.Deep {
						continue
					}
					s := c + ":" + r + ":" + x
					if ps != nil {
						s += ":" + strings.Join(ps, ":")
					}
					read(s)
				}
			}
		}
	}
	v.Strings("1:A?0", v.N(6, 7), read)
	for _, s := range append([]string{"0010::OK", "9050:1,2:a?:b:p:q", "3040::weiter:ab?@c", "::", ":a:b", "0010", "0010:", "0010:a", "x:a:b", "+5:a:b", "-1::t", " 1::t", "1a::t", "0x1::t", "@1@1::t", "99999999999999999999::t", "0010::@2@::", "0010::a+b", "0010::a'b", "0010::?"}, v.Seeds()...) {
		read(s)
		for _, c := range "059:+'?@-,xA \x00" {
			for i := 0; i <= len(s); i++ {
				read(s[:i] + string([]byte{byte(c)}) + s[i:])
				if i < len(s) {
					read(s[:i] + string([]byte{byte(c)}) + s[i+1:])
				}
			}
		}
		for i := range s {
			read(s[:i] + s[i+1:])
		}
	}
	ps := []string{"0010", ":", ":", ":", "1", "23", "?:", "?", "+", "@1@", "x", "-", "0", "\xe4"}
	for i := 0; i < v.N(20000, 200000); i++ {
		read(v.Rand(ps, 9))
	}
	for c := -2; c <= 12000; c++ {
		v.Case(fmt.Sprintf("class(%d)", c), func() error {
			for _, a := range []domain.Acknowledgement{{Code: c}, domain.NewMessageAcknowledgement(c, "1", "t", nil), domain.NewSegmentAcknowledgement(c, "", "t", []string{"p"}), NewAcknowledgement(domain.Acknowledgement{Code: c}).Val()} {
				if a.IsSuccess() != (1 <= c && c <= 999) || a.IsWarning() != (3000 <= c && c <= 3999) || a.IsError() != (c >= 9000) {
					return fmt.Errorf("success %v, warning %v, error %v", a.IsSuccess(), a.IsWarning(), a.IsError())
				}
			}
			return nil
		})
	}
	v.End(t)
}
