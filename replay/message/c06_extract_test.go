package message

import (
	"fmt"
	"strings"
	"testing"
)

func vStrs(b [][]byte) []string {
	var r []string
	for _, x := range b {
		r = append(r, string(x))
	}
	return r
}

func vSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestVerifC06(t *testing.T) {
	v := vStart(t)
	v.Rule("all strings up to length 5 (6 thorough) over 7 bytes, random messages of up to 30 pieces; extraction repeated, identifiers present, absent, shortened and lengthened, returned lists altered")
	one := func(s string) {
		v.Case(fmt.Sprintf("extract(%q)", s), func() error {
			want, ok := vSegs(s)
			raw := []byte(s)
			e := NewSegmentExtractor(raw)
			if r := e.Segments(); len(r) != 0 {
				return fmt.Errorf("segments before extraction: %q", r)
			}
			for round := 0; round < 2; round++ {
				got, err := e.Extract()
				if (err == nil) != ok {
					return fmt.Errorf("round %d: error %v, well-formed %v", round, err, ok)
				}
				if string(raw) != s {
					return fmt.Errorf("message modified")
				}
				if !ok {
					if len(got) != 0 {
						return fmt.Errorf("error with a result: %q", got)
					}
					return nil
				}
				if !vSame(vStrs(got), want) {
					return fmt.Errorf("round %d: got %q, want %q", round, got, want)
				}
				if j := strings.Join(vStrs(got), ""); !strings.HasPrefix(s, j) {
					return fmt.Errorf("not a prefix of the message: %q", j)
				}
				for i := range got {
					got[i] = []byte("X")
				}
				if again := e.Segments(); !vSame(vStrs(again), want) {
					return fmt.Errorf("segments() = %q after the caller altered its list, want %q", again, want)
				} else {
					for i := range again {
						again[i] = nil
					}
				}
				if again := e.Segments(); !vSame(vStrs(again), want) {
					return fmt.Errorf("segments() = %q after the caller altered its list, want %q", again, want)
				}
				ids := map[string]bool{"": true, "X": true, "HIRMG": true, "HIRM": true, "hirmg": true, "H": true}
				for _, w := range want {
					id := vID(w)
					ids[id] = true
					ids[id+"X"] = true
					ids[w] = true
					if len(id) > 0 {
						ids[id[:len(id)-1]] = true
						ids[id[1:]] = true
					}
				}
				for id := range ids {
					var sel []string
					for _, w := range want {
						if vID(w) == id {
							sel = append(sel, w)
						}
					}
					f := e.FindSegment(id)
					if len(sel) == 0 && f != nil || len(sel) > 0 && (f == nil || string(f) != sel[0]) {
						return fmt.Errorf("FindSegment(%q) = %q, want the first of %q", id, f, sel)
					}
					if fs := e.FindSegments(id); !vSame(vStrs(fs), sel) {
						return fmt.Errorf("FindSegments(%q) = %q, want %q", id, fs, sel)
					}
				}
			}
			return nil
		})
	}
	for _, s := range v.Seeds() {
		one(s)
		one(s + "'")
	}
	for _, s := range []string{
		"HNHBK:1:3+000000000123+220+abc+1'HNVSK:998:2+998+1'HIRMG:2:2+0010::ok'HIRMS:3:2:4+0020::ok+0030::b'HIRMS:4:2:5+9010::no'HNHBS:5:1+1'",
		"HIRMS:3:2:4+@12@HIRMS:4'+x:y'HIRMS:5:2'", "HIRMS'HIRMS:1'HIRMSX:2'HIRM:3'", "a'b", "a'b'c'd+",
	} {
		one(s)
	}
	v.Strings("'+:a?@1", v.N(5, 6), one)
	for i := 0; i < v.N(3000, 40000); i++ {
		one(v.Rand(vMsgPieces, 30))
	}
	// well-formed messages with many segments
	for i := 0; i < v.N(500, 5000); i++ {
		var b strings.Builder
		for k := v.R.Intn(12); k > 0; k-- {
			b.WriteString([]string{"HIRMG", "HIRMS", "HNHBK", "HIRM", "", "HI?:X"}[v.R.Intn(6)])
			for m := v.R.Intn(6); m > 0; m-- {
				b.WriteString([]string{":", "+"}[v.R.Intn(2)])
				b.WriteString([]string{"", "a", "12", "0", "007", "@4@'+:@", "x?'y", "?+", "@0@"}[v.R.Intn(9)])
			}
			b.WriteString("'")
		}
		one(b.String())
	}
	v.End(t)
}
