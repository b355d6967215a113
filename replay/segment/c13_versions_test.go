package segment

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/mitch000001/go-hbci/domain"
)

type vKind struct {
	name, seg, req string
	vs             []int
	build          func(b Builder) (ClientSegment, error)
}

var vKinds = []vKind{
	{"balance", "HISALS", "HKSAL", []int{6, 5}, func(b Builder) (ClientSegment, error) {
		r, err := b.AccountBalanceRequest(domain.AccountConnection{AccountID: "1", CountryCode: 280, BankID: "10000000"}, true)
		if r == nil {
			return nil, err
		}
		return r, err
	}},
	{"sepa balance", "HISALS", "HKSAL", []int{8, 7}, func(b Builder) (ClientSegment, error) {
		r, err := b.SepaAccountBalanceRequest(domain.InternationalAccountConnection{IBAN: "DE1", BIC: "B"}, false)
		if r == nil {
			return nil, err
		}
		return r, err
	}},
	{"transactions", "HIKAZS", "HKKAZ", []int{6, 5}, func(b Builder) (ClientSegment, error) {
		r, err := b.AccountTransactionRequest(domain.AccountConnection{AccountID: "1", CountryCode: 280, BankID: "10000000"}, false)
		if r == nil {
			return nil, err
		}
		return r, err
	}},
	{"sepa transactions", "HIKAZS", "HKKAZ", []int{7}, func(b Builder) (ClientSegment, error) {
		r, err := b.SepaAccountTransactionRequest(domain.InternationalAccountConnection{IBAN: "DE1", BIC: "B"}, true)
		if r == nil {
			return nil, err
		}
		return r, err
	}},
	{"status", "HIPROS", "HKPRO", []int{4, 3}, func(b Builder) (ClientSegment, error) {
		r, err := b.StatusProtocolRequest(time.Now(), time.Now(), 10, "")
		if r == nil {
			return nil, err
		}
		return r, err
	}},
}

func vNewest(list []VersionedSegment, k vKind) int {
	for _, v := range k.vs {
		for _, s := range list {
			if s.ID == k.seg && s.Version == v {
				return v
			}
		}
	}
	return 0
}

func vCheckKind(b Builder, list []VersionedSegment, k vKind) error {
	r, err := k.build(b)
	want := vNewest(list, k)
	if want == 0 {
		if err == nil || r != nil {
			return fmt.Errorf("no implemented version of %s is advertised, got %v, %v", k.seg, r, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s version %d is advertised, got error %v", k.seg, want, err)
	}
	h := r.Header()
	if h.ID.Val() != k.req || h.Version.Val() != want {
		return fmt.Errorf("want %s version %d, got %s version %d", k.req, want, h.ID.Val(), h.Version.Val())
	}
	return nil
}

func TestVerifC13(t *testing.T) {
	v := vStart(t)
	v.Rule("version lists up to length 4 for the segment of each request kind, and random lists over several segments")
	v.Bounded("lists of up to 4 versions from 0..9 enumerated; random lists of up to 12 segments")
	one := func(list []VersionedSegment) {
		v.Case(fmt.Sprintf("advertised %v", list), func() error {
			in := append([]VersionedSegment(nil), list...)
			b := NewBuilder(in)
			// every kind, then again with the same builder
			for round := 0; round < 2; round++ {
				for _, k := range vKinds {
					if err := vCheckKind(b, list, k); err != nil {
						return fmt.Errorf("%s request (round %d): %v", k.name, round+1, err)
					}
				}
			}
			if !reflect.DeepEqual(in, list) {
				return fmt.Errorf("the list of advertised segments was changed to %v", in)
			}
			return nil
		})
	}
	for _, id := range []string{"HISALS", "HIKAZS", "HIPROS"} {
		var rec func(list []VersionedSegment, n int)
		rec = func(list []VersionedSegment, n int) {
			one(list)
			if n == 0 {
				return
			}
			for ver := 0; ver <= 9; ver++ {
				rec(append(append([]VersionedSegment(nil), list...), VersionedSegment{id, ver}), n-1)
			}
		}
		rec(nil, v.N(3, 4))
	}
	ids := []string{"HISALS", "HIKAZS", "HIPROS", "HKSAL", "HKKAZ", "HKPRO", "HIPRO", "HISAL", "HIKAZ", "", "HISALSS"}
	for i := 0; i < v.N(20000, 300000); i++ {
		var list []VersionedSegment
		for j := v.R.Intn(13); j > 0; j-- {
			list = append(list, VersionedSegment{ids[v.R.Intn(len(ids))], v.R.Intn(12) - 1})
		}
		one(list)
	}
	v.End(t)
}
