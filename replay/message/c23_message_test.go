package message

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/segment"
)

func TestVerifC23(t *testing.T) {
	v := vStart(t)
	v.Rule("messages of up to 6 pieces out of segments of every known type with random fields and broken ones: unmarshaling, finding segments, building the decrypted message and decrypting")
	head := []string{"HNHBK:1:3+000000000100+220+abcde+1+abcde:1'", "HNHBK:1:3+000000000100+300+abcde+1'", "HNHBK:1:3'", "HNHBK:1:3+1'", "HNHBK:1:3++220'", "HNHBK:1:3+++++'", "HNHBK:1:3+1+999'", "HNHBK:1:3+x+y+z+w'"}
	field := []string{"", "", "J", "N", "1", "0", "220", "-1", "99999999999999999999", "123,45", "C", "EUR", "20140101", "101010", "text", "?'", "?", "a:b", "280:12345678", "0010::ok.", "3040::Weiter:ref", "9010:1,2:Text:P1:P2", ":", ":::::::::", "@0@", "@3@abc", "@3@'+:", "@5@12", "@", "1:@2@ab:3", "C:1,5:EUR:20140101"}
	seg := func() string {
		id := []string{"HIRMG:2:2", "HIRMS:3:2:4", "HNHBS:5:1", "HIUPA:4:2:3", "HIUPD:5:3:4", "HNVSK:998:2", "HNVSD:999:1", "HIBPA:3:2:1", "HIKOM:4:3", "HISHV:4:2", "HISAL:4:5:3", "HIKAZ:4:5:3", "DIPINS:4:1", "HITANS:4:6:3", "HITAN:4:6:3", "HNSHA:3:1", "HNSHK:2:3", "HIRMG:2:1", "HIRMS:3:1", "HIRMS:3:3", "XXXXX:1:1", "HIRMG", "", ":", "HIRMG:x:y"}[v.R.Intn(25)]
		n := v.R.Intn(8)
		f := []string{id}
		for i := 0; i < n; i++ {
			f = append(f, field[v.R.Intn(len(field))])
		}
		return strings.Join(f, "+") + []string{"'", "'", "'", "'", "'", "", "+", "''"}[v.R.Intn(8)]
	}
	var h0 *segment.MessageHeaderSegment
	one := func(b string) {
		v.Case(fmt.Sprintf("%q", b), func() error {
			u := NewUnmarshaler([]byte(b))
			u.CanUnmarshal("HIRMG", 2)
			err := u.Unmarshal()
			for _, id := range []string{"HNHBK", "HIRMG", "HIRMS", "", "HIUPD", "HNVSD"} {
				u.SegmentsByID(id)
				u.SegmentByID(id)
				u.MarshaledSegmentsByID(id)
				u.MarshaledSegmentByID(id)
				for _, n := range []int{1, 2, 3} {
					NewUnmarshaler([]byte(b)).UnmarshalSegment(id, n)
				}
			}
			u.MarshaledSegments()
			h := h0
			hs, ok := u.SegmentByID("HNHBK").(*segment.MessageHeaderSegment)
			if err == nil && ok {
				h = hs
				h.ReferencingMessage()
			}
			d, err := NewDecryptedMessage(h, nil, []byte(b))
			if (err == nil) == (d == nil) {
				return fmt.Errorf("message %v, error %v", d, err)
			}
			if err == nil {
				d.Acknowledgements()
				d.SupportedSegments()
				d.FindSegment("HIRMS")
				d.FindSegments("HIRMS")
				d.FindMarshaledSegment("HIRMS")
				d.SegmentPosition("HIRMS")
				d.SegmentPosition("HIRMG")
			}
			e := NewEncryptedMessage(h, nil, segment.HBCI220)
			if es, ok := u.SegmentByID("HNVSD").(*segment.EncryptedDataSegment); ok {
				e.EncryptedData = es
			}
			p := NewPinTanCryptoProvider(domain.NewPinKey("12345", domain.NewPinTanKeyName(domain.BankID{CountryCode: 280, ID: "1"}, "u", "S")), "id")
			_, err = e.Decrypt(p)
			_ = err
			return nil
		})
	}
	h0 = segment.NewMessageHeaderSegment(0, 220, "abc", 1)
	v.Strings("'+:?@1H", v.N(4, 6), one)
	for i := 0; i < v.N(30000, 2000000); i++ {
		b := ""
		if v.R.Intn(4) > 0 {
			b = head[v.R.Intn(len(head))]
		}
		for n := v.R.Intn(6); n > 0; n-- {
			b += seg()
		}
		one(b)
		if len(b) > 0 && v.R.Intn(3) == 0 {
			p := v.R.Intn(len(b))
			one(b[:p])
			one(b[:p] + v.Rand([]string{"'", "+", ":", "?", "@", "@9@", "x"}, 2) + b[p+1:])
		}
	}
	v.End(t)
}
