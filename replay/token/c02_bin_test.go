package token

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC02(t *testing.T) {
	v := vStart(t)
	v.Rule("binary contents up to length 4 over 9 special bytes and random contents up to 600 bytes, each framed with every delimiter, with every announced length from 0 to 3 more than the content")
	one := func(data string) {
		for _, d := range []string{"+", ":", "'"} {
			lens := []int{len(data)}
			if len(data) < 4 {
				lens = []int{0, 1, 2, 3, 4, 5, 6}
			}
			for _, n := range lens {
				s := fmt.Sprintf("@%d@%s%s", n, data, d)
				v.Case(fmt.Sprintf("lex(%q)", s), func() error {
					r, err := vLex(s, false)
					if err != nil {
						return err
					}
					if err := vExact(s, r); err != nil {
						return err
					}
					if n == len(data) && (len(r) != 3 || r[0].typ != BINARY_DATA || r[0].val != s[:len(s)-1]) {
						return fmt.Errorf("the field is not one token: %v", r)
					}
					return nil
				})
			}
		}
	}
	for _, s := range v.Seeds() {
		one(s)
		v.Case(fmt.Sprintf("lex(%q)", s), func() error {
			r, err := vLex(s, false)
			if err != nil {
				return err
			}
			return vExact(s, r)
		})
	}
	v.Strings("+:'?@1a\x00\xff", v.N(3, 4), one)
	// other ways to write the length
	for n := 0; n < 40; n++ {
		for _, f := range []string{"%02d", "%03d", "%010d", "0x%d", "%d_0", "+%d", "-%d", "%d,", " %d", "%d ", "%x", "0b%b", "%de0"} {
			for k := 0; k <= n+1; k++ {
				s := "@" + fmt.Sprintf(f, n) + "@" + strings.Repeat("'", k) + "a+"
				v.Case(fmt.Sprintf("lex(%q)", s), func() error {
					r, err := vLex(s, false)
					if err != nil {
						return err
					}
					return vExact(s, r)
				})
			}
		}
	}
	for i := 0; i < v.N(2000, 20000); i++ {
		one(v.Rand(vPieces, 60))
	}
	for _, s := range []string{"@", "@'", "@+", "@5", "@5@", "@@'", "@@@'", "@x@'", "@-1@a'", "@+1@a'", "@ 1@a'", "@1@", "@1@a", "@9223372036854775807@a'", "@9223372036854775800@a'", "@99999999999999999999@a'", "@01@a'", "@1@ab'"} {
		v.Case(fmt.Sprintf("lex(%q)", s), func() error {
			r, err := vLex(s, false)
			if err != nil {
				return err
			}
			return vExact(s, r)
		})
	}
	v.End(t)
}
