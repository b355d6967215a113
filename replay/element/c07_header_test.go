package element

import (
	"fmt"
	"strconv"
	"strings"
	"testing"
)

func TestVerifC07(t *testing.T) {
	v := vStart(t)
	v.Rule("headers from 14 identifiers, 16 numbers, 16 versions and 17 references written and read back, fresh and into a previously filled header, also after renumbering; reading of all strings up to length 6 (7 thorough) over 5 bytes, of edits of valid headers and of random strings compared with the header grammar")
	type hd struct {
		id       string
		pos, ver int
		ref      int // -1: none
	}
	show := func(h *SegmentHeader) (r hd, err error) {
		defer func() {
			if x := recover(); x != nil {
				err = fmt.Errorf("incomplete header: %v", x)
			}
		}()
		return hd{h.ID.Val(), h.Position.Val(), h.Version.Val(), h.ReferencingSegment()}, nil
	}
	nums := []int{0, 1, 2, 3, 7, 9, 10, 11, 42, 99, 100, 101, 255, 999, 1000, 123456789}
	back := func(w []byte, want hd) error {
		old := NewReferencingSegmentHeader("OLDID", 88, 77, 66)
		for i, h := range []*SegmentHeader{{}, old, NewSegmentHeader("X", 1, 2)} {
			if err := h.UnmarshalHBCI(w); err != nil {
				return fmt.Errorf("%q does not read back: %v", w, err)
			}
			got, err := show(h)
			if err != nil || got != want {
				return fmt.Errorf("%d: %q reads back as %v, %v", i, w, got, err)
			}
			w2, err := h.MarshalHBCI()
			if err != nil || string(w2) != string(w) {
				return fmt.Errorf("%d: %q read and written again is %q, %v", i, w, w2, err)
			}
			if (h.Ref == nil) != (want.ref < 0) {
				return fmt.Errorf("%d: %q read back with reference %v", i, w, h.Ref)
			}
		}
		return nil
	}
	for _, id := range []string{"HKIDN", "HNHBK", "HIRMS", "A", "HICCSS", "LONGIDENTIFIER", "a+b", "x:y", "q?", "'", "@1@", "\u00e4\u00df", "0", "12"} {
		for _, p := range nums {
			for _, ve := range nums {
				for k, ref := range append([]int{-1}, nums...) {
					if p > 11 && ve > 11 && k > 4 && !v.Deep {
						continue
					}
					want := hd{id, p, ve, ref}
					v.Case(fmt.Sprintf("header%v", want), func() error {
						h := NewSegmentHeader(id, p, ve)
						wire := vEscUTF(id) + ":" + strconv.Itoa(p) + ":" + strconv.Itoa(ve)
						if ref >= 0 {
							h = NewReferencingSegmentHeader(id, p, ve, ref)
							wire += ":" + strconv.Itoa(ref)
						}
						if got, err := show(h); err != nil || got != want {
							return fmt.Errorf("created as %v, %v", got, err)
						}
						w, err := h.MarshalHBCI()
						if err != nil {
							return err
						}
						if string(w) != wire {
							return fmt.Errorf("written as %q", w)
						}
						if err := back(w, want); err != nil {
							return err
						}
						h.SetPosition(ve + 1)
						h.SetReference(p)
						w, err = h.MarshalHBCI()
						if err != nil {
							return err
						}
						return back(w, hd{id, ve + 1, ve, p})
					})
				}
			}
		}
	}
	read := func(s string) {
		v.Case(fmt.Sprintf("read(%q)", s), func() error {
			h := &SegmentHeader{}
			err := h.UnmarshalHBCI([]byte(s))
			es, ok := vSubs(s)
			want := hd{ref: -1}
			if ok = ok && len(es) >= 3 && es[0] != ""; ok {
				for i := 0; i+1 < len(es[0]); i++ {
					if es[0][i] == '?' {
						es[0] = es[0][:i] + es[0][i+1:]
					}
				}
				want.id = vUTF(es[0])
				for i, p := range []*int{&want.pos, &want.ver, &want.ref} {
					if i+1 >= len(es) || i == 2 && es[3] == "" {
						continue
					}
					n, e := strconv.Atoi(es[i+1])
					if e != nil || strings.ContainsAny(es[i+1], "+-") {
						ok = false
					}
					*p = n
				}
			}
			if !ok {
				if err == nil {
					g, _ := show(h)
					return fmt.Errorf("accepted as %v", g)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("rejected: %v", err)
			}
			if g, err := show(h); err != nil || g != want {
				return fmt.Errorf("read as %v, not %v, %v", g, want, err)
			}
			return nil
		})
	}
	v.Strings("1A:+?", v.N(6, 7), read)
	for _, s := range append([]string{"HKIDN:2:2", "HIRMS:12:3:4", "HNHBK:1:3:", "HITAN:5:6:0", ":1:2", "A::2", "A:1:", "A:1", "A", "", "A:1:2:x", "A:x:2", "A:1:x", "A:+1:2", "A:1:-2", "A:1:2:3:4", "A?:1:2:3", "A:1?:2:3", "A:99999999999999999999:1", "A:1:2:@1@3", "@1@A:1:2", "A:1,0:2", "A: 1:2", "A:1:2:-1"}, v.Seeds()...) {
		read(s)
		for _, c := range "0159:+'?@-,xA \x00\xe4" {
			for i := 0; i <= len(s); i++ {
				read(s[:i] + string([]byte{byte(c)}) + s[i:])
				if i < len(s) {
					read(s[:i] + string([]byte{byte(c)}) + s[i+1:])
				}
			}
		}
		for i := range s {
			read(s[:i] + s[i+1:])
		}
	}
	ps := []string{"HKX", ":", ":", ":", "1", "23", "?", "+", "@1@", "x", "-", "0"}
	for i := 0; i < v.N(20000, 200000); i++ {
		read(v.Rand(ps, 9))
	}
	v.End(t)
}
