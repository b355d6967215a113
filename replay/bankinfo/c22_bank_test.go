package bankinfo

import (
	"fmt"
	"testing"
)

func TestVerifC22(t *testing.T) {
	v := vStart(t)
	v.Rule("lookup of every bank code in the directory, of all its proper prefixes, of every alteration of one character (quick: of every seventh code), of codes with blanks around them and of random digit strings; versions of every pair out of all known version names and numbers, the texts of the directory and alterations of them; version of every directory entry")
	entries := map[string][]BankInfo{}
	for _, e := range data {
		entries[e.BankID] = append(entries[e.BankID], e)
	}
	look := func(id string) {
		v.Case(fmt.Sprintf("find(%q)", id), func() error {
			got := FindByBankID(id)
			want, ok := entries[id]
			if !ok {
				if got != (BankInfo{}) {
					return fmt.Errorf("no entry has this code, got %+v", got)
				}
				return nil
			}
			for _, w := range want {
				if w == got {
					return nil
				}
			}
			return fmt.Errorf("got %+v, the directory has %+v", got, want)
		})
	}
	look("")
	ids := []string{}
	seen := map[string]bool{}
	for _, e := range data {
		if !seen[e.BankID] {
			seen[e.BankID] = true
			ids = append(ids, e.BankID)
		}
	}
	for i, id := range ids {
		look(id)
		if i%7 != 0 && !v.Deep {
			continue
		}
		for _, x := range []string{" " + id, id + " ", id + "0", "0" + id, id + "\n", id + id} {
			look(x)
		}
		for j := range id {
			look(id[:j])
			for d := byte('0'); d <= '9'; d++ {
				look(id[:j] + string([]byte{d}) + id[j+1:])
			}
		}
	}
	for i := 0; i < v.N(2000, 100000); i++ {
		look(v.Rand([]string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}, 8))
	}

	names := map[string]int{"": -1, "HBCI 2.2 Erweiterung PIN/TAN V1.01": 220, "FinTS V3.0": 300, "FinTS V4.0": 400, "FinTS V4.1": 410}
	numbers := map[string]int{"": -1, "2.1": 210, "2.2": 220, "3.0": 300, "4.0": 400, "4.1": 410}
	variants := func(m map[string]int) []string {
		var res []string
		add := func(s string) { res = append(res, s) }
		for s := range m {
			add(s)
			add(" " + s)
			add(s + " ")
			add(s + "0")
			add(s + "\n")
			for i := range s {
				add(s[:i])
				add(s[i:])
				add(s[:i] + "x" + s[i+1:])
				add(s[:i] + "9" + s[i+1:])
			}
		}
		return append(res, "%", "%d%s", "5.0", "FinTS V5.0", "FinTS v3.0", "fints v3.0", "300", "HBCI 2.2", "2,2", "3.0 ", "V3.0")
	}
	version := func(name, number string) {
		a, okA := names[name]
		b, okB := numbers[number]
		want := a
		if b > a {
			want = b
		}
		v.Case(fmt.Sprintf("version(%q,%q)", name, number), func() error {
			got, err := hbciVersion(name, number)
			if (err == nil) != (okA && okB) {
				return fmt.Errorf("error is %v", err)
			}
			if err == nil && want >= 0 && got != want {
				return fmt.Errorf("got %d, want %d", got, want)
			}
			return nil
		})
		v.Case(fmt.Sprintf("HbciVersion(%q,%q)", name, number), func() error {
			got, paniced := 0, false
			func() {
				defer func() { paniced = recover() != nil }()
				got = BankInfo{VersionName: name, VersionNumber: number}.HbciVersion()
			}()
			if paniced == (okA && okB) {
				return fmt.Errorf("panic: %v", paniced)
			}
			if !paniced && want >= 0 && got != want {
				return fmt.Errorf("got %d, want %d", got, want)
			}
			return nil
		})
	}
	na, nu := variants(names), variants(numbers)
	for i, n := range na {
		for j, m := range nu {
			_, kn := names[n]
			_, km := numbers[m]
			if kn || km || v.Deep || (i+j)%5 == 0 {
				version(n, m)
			}
		}
	}
	for _, e := range data {
		version(e.VersionName, e.VersionNumber)
	}
	v.End(t)
}
