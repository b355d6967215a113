package iban

import (
	"fmt"
	"math/big"
	"strings"
	"testing"
)

func vAlnum(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z') {
			return false
		}
	}
	return true
}

// vMod is the ISO 7064 checksum of the rearranged text.
func vMod(s string) int {
	m := new(big.Int)
	s = strings.ToUpper(s)
	for _, c := range s[4:] + s[:4] {
		d := int64(c - '0')
		f := int64(10)
		if c >= 'A' {
			d = int64(c-'A') + 10
			f = 100
		}
		m.Mul(m, big.NewInt(f))
		m.Add(m, big.NewInt(d))
	}
	return int(m.Mod(m, big.NewInt(97)).Int64())
}

func TestVerifC15(t *testing.T) {
	v := vStart(t)
	v.Rule("IBANs generated for all country codes of two letters and all in the country table, account numbers of every length up to the limit over digits and letters in either case, random; every single-character alteration of valid IBANs; all strings up to length 5 over 6 bytes and random strings over letters, digits, signs, spaces and non-ASCII bytes validated; printing of all of them")
	sound := func(s string) error {
		for i, ok := range []bool{IsValid(s), IBAN(s).Valid(), func() bool { _, err := From(s); return err == nil }()} {
			if ok && (len(s) < 5 || !vAlnum(s) || vMod(s) != 1) {
				return fmt.Errorf("accepted (%d)", i)
			}
		}
		if i, err := From(s); err == nil && string(i) != strings.ToUpper(s) {
			return fmt.Errorf("read as %q", i)
		}
		return nil
	}
	check := func(s string) { v.Case(fmt.Sprintf("validate(%q)", s), func() error { return sound(s) }) }
	printed := func(s string) {
		v.Case(fmt.Sprintf("print(%q)", s), func() error {
			want := ""
			for i := 0; i < len(s); i++ {
				if i > 0 && i%4 == 0 {
					want += " "
				}
				want += s[i : i+1]
			}
			if got := Print(IBAN(s)); got != want {
				return fmt.Errorf("printed as %q", got)
			}
			return nil
		})
	}
	alter := 0
	gen := func(cc, bban string) {
		v.Case(fmt.Sprintf("New(%q, %q)", cc, bban), func() error {
			i, err := New(cc, bban)
			max, known := ibanMaxLengthForCountry[strings.ToUpper(cc)]
			if !known {
				max = 34
			}
			if !vAlnum(cc) || !vAlnum(bban) || len(cc) != 2 || bban == "" || len(bban) > max-4 {
				if err == nil {
					return fmt.Errorf("accepted as %q", i)
				}
				return nil
			}
			if err != nil {
				return err
			}
			s := string(i)
			if len(s) != 4+len(bban) || s[:2] != strings.ToUpper(cc) || s[4:] != strings.ToUpper(bban) || s[2] < '0' || s[2] > '9' || s[3] < '0' || s[3] > '9' {
				return fmt.Errorf("generated %q", i)
			}
			if m := vMod(s); m != 1 {
				return fmt.Errorf("generated %q with checksum %d", i, m)
			}
			if i.CountryCode() != s[:2] || i.ProofNumber() != s[2:4] || i.BBAN() != s[4:] || i.String() != s {
				return fmt.Errorf("parts of %q: %q %q %q", s, i.CountryCode(), i.ProofNumber(), i.BBAN())
			}
			for _, x := range []string{s, strings.ToLower(s), strings.ToLower(s[:2]) + s[2:], s[:4] + strings.ToLower(s[4:])} {
				if !IsValid(x) || !IBAN(x).Valid() {
					return fmt.Errorf("generated %q, but %q is not valid", s, x)
				}
			}
			if alter++; alter%5 == 0 || v.Deep {
				for p := 0; p < len(s); p++ {
					if s[p] < '0' || s[p] > '9' {
						continue
					}
					for d := byte('0'); d <= '9'; d++ {
						if d == s[p] {
							continue
						}
						x := s[:p] + string([]byte{d}) + s[p+1:]
						if IsValid(x) || IBAN(x).Valid() {
							return fmt.Errorf("altered from %q, %q is accepted", s, x)
						}
					}
				}
			}
			return sound(s)
		})
		if i, err := New(cc, bban); err == nil {
			printed(string(i))
		}
	}
	ccs := []string{"de", "Gb", "XX", "ZZ", "AA", "12", "D1", "", "D", "DEU", "D ", "-1", "+D", "\xc3\xa4", "\xff\xfe", "D_"}
	for a := 'A'; a <= 'Z'; a++ {
		for b := 'A'; b <= 'Z'; b++ {
			gen(string([]rune{a, b}), "1")
			gen(string([]rune{a, b}), "37040044532013000")
			gen(string([]rune{a, b}), "BaNk0123456789")
		}
	}
	for cc := range ibanMaxLengthForCountry {
		ccs = append(ccs, cc)
	}
	for _, cc := range ccs {
		for n := 0; n <= 36; n++ {
			for _, x := range []string{"0", "9", "z", "Q7"} {
				gen(cc, strings.Repeat(x, n)[:n])
			}
		}
		for _, b := range []string{"-1", "+1", "-0", "1_0", " 1", "1 ", "12.3", "1e5", "0x1", "\u017f1", "\u0131", "\xe4", "1\x00", "1\n", "\u0661"} {
			gen(cc, b)
		}
	}
	al := "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
	for n := 0; n < v.N(20000, 300000); n++ {
		k := 1 + v.R.Intn(30)
		var b []byte
		w := 10
		if n%2 == 0 {
			w = len(al)
		}
		for i := 0; i < k; i++ {
			b = append(b, al[v.R.Intn(w)])
		}
		gen(ccs[v.R.Intn(len(ccs))], string(b))
	}
	// every account number with each check digit pair
	for n := 0; n < 200; n++ {
		for _, p := range []string{"DE", "XX"} {
			for d := 0; d < 100; d++ {
				check(fmt.Sprintf("%s%02d%d", p, d, n*7919))
			}
		}
	}
	v.Strings("D0-+ \xc5", 5, check)
	ps := []string{"D", "E", "0", "1", "9", "5", "-", "+", " ", "\xe4", "\u017f", "\u212a", "_", "\x00", "de", "GB", "97", "98", "02"}
	for i := 0; i < v.N(30000, 300000); i++ {
		s := v.Rand(ps, 12)
		check(s)
	}
	for _, s := range append([]string{"DE\u017f1", "DE97-1", "DE98-0", "DE-98", "DE+98123", strings.Repeat("9", 40), "\u0131\u0131\u0131\u0131"}, v.Seeds()...) {
		check(s)
		// some digits make the sum right: only a well-formed text may be accepted then
		for d := 0; d < 100; d++ {
			if len(s) > 4 {
				check(s[:2] + fmt.Sprintf("%02d", d) + s[4:])
			}
		}
	}
	v.Strings("1A", 9, printed)
	v.End(t)
}
