package token

import (
	"fmt"
	"testing"
)

func TestVerifC01(t *testing.T) {
	v := vStart(t)
	v.Rule("all strings up to length 4 (5 thorough) over 12 characters, random strings of up to 14 pieces and the solvers' counterexamples; distinct inputs counted; every input is non-trivial")
	one := func(s string) {
		v.Case(fmt.Sprintf("lex(%q)", s), func() error {
			r, err := vLex(s, false)
			if err != nil {
				return err
			}
			if err := vLossless(s, r); err != nil {
				return err
			}
			return vExact(s, r)
		})
	}
	for _, s := range v.Seeds() {
		one(s)
	}
	v.Strings("+:'?@01,a\n\x00\xe4", v.N(4, 5), one)
	for i := 0; i < v.N(30000, 400000); i++ {
		one(v.Rand(vPieces, 14))
	}
	v.End(t)
}
