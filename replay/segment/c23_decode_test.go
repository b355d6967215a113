package segment

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

// vWire are contents of fields in the wire syntax, well-formed and not.
var vWire = []string{"", "", "J", "N", "1", "0", "2", "007", "300", "-1", "99999999999999999999", "12345678", "123,45", "0,", ",", "C", "D", "EUR", "20140101", "20140231", "101010", "10:20", "text", "Text mit Umlaut \xfc\xe4\xff", "?'", "?+?:", "?", "a:b", "a:b:c", "280:12345678", "0010::Nachricht entgegengenommen.", "3040::Weiter:ref", "9010:1,2:Text:P1:P2:P3:P4:P5:P6:P7:P8:P9:P10:P11", "x:y:z", ":", "::", ":::::::::::::::::::::::", "@0@", "@3@abc", "@3@'+:", "@5@12", "@", "@x@y", "@-1@", "1:@2@ab:3", "1:2:3:4:5:6:7:8:9:10:11:12:13:14:15:16:17:18:19:20:21:22:23:24:25:26:27:28:29:30", "C:1,5:EUR:20140101", "C:1,5:EUR:20140101:101010", "D:1,5:EUR", "J:J:J", "1:J:N:999:0", "DKKKU:2:HKSAL:1", "HKSAL:J:HKUEB:N", "HKSAL:1:E:100,:EUR:7", "GIRO", "220:300", "1:2", "\x00", "\xff", "DE89370400440532013000:COBADEFFXXX:532013000::280:37040044"}

func vIDs() []VersionedSegment {
	var r []VersionedSegment
	for k := range KnownSegments.segmentMap {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		return r[i].ID < r[j].ID || r[i].ID == r[j].ID && r[i].Version < r[j].Version
	})
	return r
}

func TestVerifC23(t *testing.T) {
	v := vStart(t)
	v.Rule("for every known institute segment and version: all values of each single field out of " + fmt.Sprint(len(vWire)) + " contents, random lists of up to 12 of them, random headers, truncations and byte alterations of those, and all strings up to length 4 over ' + : ? @ 1 A")
	try := func(k VersionedSegment, b string) {
		v.Case(fmt.Sprintf("%s %q", k, b), func() error {
			if !KnownSegments.IsUnmarshaler(k) {
				return nil
			}
			u, err := KnownSegments.UnmarshalerForSegment(k)
			if err != nil {
				return err
			}
			if err := u.UnmarshalHBCI([]byte(b)); err != nil {
				if err.Error() == "" && false {
					return err
				}
				return nil
			}
			switch s := u.(type) {
			case *MessageAcknowledgement:
				s.Acknowledgements()
			case *SegmentAcknowledgement:
				s.Acknowledgements()
			}
			return nil
		})
	}
	ids := vIDs()
	for _, k := range ids {
		head := fmt.Sprintf("%s:4:%d", k.ID, k.Version)
		v.Strings("'+:?@1A", v.N(3, 4), func(s string) { try(k, s) })
		for _, h := range []string{head, head + ":3", "", ":", "::", k.ID, k.ID + ":x:y", head + ":", head + ":x", head + ":3:4:5", "@3@abc:1:2", "?':1:2"} {
			for _, tail := range []string{"", "'", "+", "+'", "+1'", "++++++++++++++++'", "+@0@'"} {
				try(k, h+tail)
			}
		}
		for n := 0; n < 20; n++ {
			for _, f := range vWire {
				try(k, head+strings.Repeat("+", n+1)+f+"'")
				try(k, head+strings.Repeat("+1", n)+"+"+f+"'")
				try(k, head+strings.Repeat("+J", n)+"+"+f+"+1'")
			}
		}
		for i := 0; i < v.N(400, 40000); i++ {
			b := head + "+" + strings.Join(vPick(v, 12), "+") + "'"
			try(k, b)
			if len(b) > 0 {
				p := v.R.Intn(len(b))
				try(k, b[:p])
				try(k, b[:p]+"'")
				try(k, b[:p]+v.Rand([]string{"'", "+", ":", "?", "@", "@9@", "x"}, 2)+b[p+1:])
			}
		}
	}
	for i := 0; i < v.N(2000, 100000); i++ {
		b := v.Rand([]string{"'", "+", ":", "?", "@", "@1@", "@2@", "1", "x", "HIRMG", "HNHBK:1:3"}, 12)
		v.Case(fmt.Sprintf("elements %q", b), func() error { ExtractElements([]byte(b)); return nil })
		v.Case(fmt.Sprintf("header %q", b), func() error { SegmentFromHeaderBytes([]byte(b), &MessageAcknowledgement{}); return nil })
	}
	v.End(t)
}

func vPick(v *vT, n int) []string {
	var r []string
	for i := v.R.Intn(n + 1); i > 0; i-- {
		r = append(r, vWire[v.R.Intn(len(vWire))])
	}
	return r
}
