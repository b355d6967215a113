package message

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/segment"
)

func TestVerifC12(t *testing.T) {
	v := vStart(t)
	v.Rule("random responses with up to 3 message-level acknowledgements, up to 5 acknowledgement segments of up to 3 acknowledgements, other and unknown segments in between, in every position of the message-level segment; plus all combinations of up to 2 segments with up to 2 acknowledgements")
	type ack struct {
		wire string
		a    domain.Acknowledgement
	}
	pool := []ack{
		{"0010::OK", domain.Acknowledgement{Code: 10, Text: "OK"}},
		{"0020:3:Auftrag ausgef\xfchrt?:", domain.Acknowledgement{Code: 20, ReferenceDataElement: "3", Text: "Auftrag ausgef\u00fchrt:"}},
		{"3040::weitere Daten:ab?@c??", domain.Acknowledgement{Code: 3040, Text: "weitere Daten", Params: []string{"ab@c?"}}},
		{"9010:2,4:x?'y?+z:1:2", domain.Acknowledgement{Code: 9010, ReferenceDataElement: "2,4", Text: "x'y+z", Params: []string{"1", "2"}}},
		{"9800::", domain.Acknowledgement{Code: 9800}},
		{"3920::Zugelassen:::901", domain.Acknowledgement{Code: 3920, Text: "Zugelassen", Params: []string{"", "", "901"}}},
	}
	type resp struct {
		raw  string
		want []domain.Acknowledgement
	}
	refs := []string{"", ":0", ":3", ":12", ":999"}
	refn := []int{-1, 0, 3, 12, 999}
	build := func(msg []int, segs [][]int, ref []int, at int, mref int, noise []int) resp {
		var r resp
		var parts []string
		hirmg := "HIRMG:2:2" + refs[mref]
		for _, k := range msg {
			hirmg += "+" + pool[k].wire
			a := pool[k].a
			a.Type = domain.MessageAcknowledgement
			a.ReferencingMessage = domain.MessageReference{DialogID: "dlg?", MessageNumber: 7}
			if mref > 0 {
				a.ReferencingSegmentNumber = refn[mref]
			}
			r.want = append(r.want, a)
		}
		other := []string{"", "HIXYZ:9:1+a:b+c'", "HIRMX:8:2+0010::no'", "HNSHA:6:1+1'"}
		for i, s := range segs {
			if i == at && msg != nil {
				parts = append(parts, hirmg+"'")
			}
			parts = append(parts, other[noise[i]%len(other)])
			x := fmt.Sprintf("HIRMS:%d:2%s", i+3, refs[ref[i]])
			for _, k := range s {
				x += "+" + pool[k].wire
				a := pool[k].a
				a.Type = domain.SegmentAcknowledgement
				a.ReferencingSegmentNumber = refn[ref[i]]
				r.want = append(r.want, a)
			}
			parts = append(parts, x+"'")
		}
		if at >= len(segs) && msg != nil {
			parts = append(parts, hirmg+"'")
		}
		r.raw = strings.Join(parts, "")
		return r
	}
	check := func(r resp) {
		v.Case(fmt.Sprintf("response(%q)", r.raw), func() error {
			h := segment.NewReferencingMessageHeaderSegment(100, 300, "dlg", 7, domain.MessageReference{DialogID: "dlg?", MessageNumber: 7})
			m, err := NewDecryptedMessage(h, segment.NewMessageEndSegment(9, 7), []byte(r.raw))
			if err != nil {
				return err
			}
			got := m.Acknowledgements()
			if len(got) != len(r.want) {
				return fmt.Errorf("%d acknowledgements instead of %d: %v", len(got), len(r.want), got)
			}
			for i, g := range got {
				w := r.want[i]
				if g.Code != w.Code || g.Text != w.Text || g.ReferenceDataElement != w.ReferenceDataElement || strings.Join(g.Params, "|") != strings.Join(w.Params, "|") || len(g.Params) != len(w.Params) {
					return fmt.Errorf("acknowledgement %d is %#v instead of %#v", i, g, w)
				}
				if g.Type != w.Type || g.ReferencingSegmentNumber != w.ReferencingSegmentNumber || w.Type == domain.MessageAcknowledgement && g.ReferencingMessage != w.ReferencingMessage {
					return fmt.Errorf("acknowledgement %d is %#v instead of %#v", i, g, w)
				}
				if g.IsMessageAcknowledgement() == g.IsSegmentAcknowledgement() {
					return fmt.Errorf("acknowledgement %d is of both or of no kind", i)
				}
			}
			if again := m.Acknowledgements(); !reflect.DeepEqual(got, again) {
				return fmt.Errorf("%v the second time", again)
			}
			return nil
		})
	}
	var lists [][]int
	for i := range pool {
		lists = append(lists, []int{i})
		for j := range pool {
			lists = append(lists, []int{i, j})
		}
	}
	for i, m := range lists {
		check(build(m, nil, nil, 0, 0, nil))
		for j, s := range lists {
			check(build(m, [][]int{s}, []int{(i + j) % 5}, i%2, 0, []int{i + j}))
			if (i+j)%7 == 0 || v.Deep {
				for k, s2 := range lists {
					check(build(m, [][]int{s, s2}, []int{i % 5, k % 5}, (i+k)%3, (i/5)%5, []int{j, k}))
				}
			}
		}
	}
	for n := 0; n < v.N(3000, 60000); n++ {
		var msg []int
		for i := v.R.Intn(4); i > 0; i-- {
			msg = append(msg, v.R.Intn(len(pool)))
		}
		var segs [][]int
		var ref, noise []int
		for i := v.R.Intn(6); i > 0; i-- {
			var s []int
			for k := v.R.Intn(4); k > 0; k-- {
				s = append(s, v.R.Intn(len(pool)))
			}
			segs = append(segs, s)
			ref = append(ref, v.R.Intn(5))
			noise = append(noise, v.R.Intn(4))
		}
		check(build(msg, segs, ref, v.R.Intn(6), v.R.Intn(5), noise))
	}
	for _, c := range []string{"", "x", "+5", "-1", "1a", " 1", "0x10", "@1@1", "99999999999999999999"} {
		for _, seg := range []string{"HIRMG:2:2+%s::t'", "HIRMS:3:2:4+%s::t'", "HIRMG:2:2+0010::t+%s::t'", "HIRMG:2:2+0010::t'HIRMS:3:2:4+0010::x'HIRMS:4:2:5+0010::x+%s:1:t:p'"} {
			raw := fmt.Sprintf(seg, c)
			v.Case(fmt.Sprintf("malformed(%q)", raw), func() error {
				h := segment.NewMessageHeaderSegment(100, 300, "dlg", 7)
				m, err := NewDecryptedMessage(h, segment.NewMessageEndSegment(9, 7), []byte(raw))
				if err == nil {
					return fmt.Errorf("accepted: %v", m.Acknowledgements())
				}
				return nil
			})
		}
	}
	v.End(t)
}
