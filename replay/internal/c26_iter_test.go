package internal

import (
	"fmt"
	"testing"
)

func TestVerifC26(t *testing.T) {
	v := vStart(t)
	v.Rule("field lists of length 0 to 6 and lists of up to 3 nil, empty or equal fields, every sequence of Next/NextString/Remainder calls up to 8 steps")
	var lists [][][]byte
	var names []string
	for n := 0; n <= 6; n++ {
		var data [][]byte
		for i := 0; i < n; i++ {
			data = append(data, []byte{byte('a' + i), byte(i)})
		}
		lists = append(lists, data)
		names = append(names, fmt.Sprintf("%d fields", n))
	}
	odd := [][]byte{nil, {}, {0}, []byte("'"), []byte("a"), []byte("a")}
	v.Strings("012345", 3, func(s string) {
		var data [][]byte
		for _, c := range s {
			data = append(data, odd[c-'0'])
		}
		lists = append(lists, data)
		names = append(names, fmt.Sprintf("%q (%s)", data, s))
	})
	for li := range lists {
		data, n, depth := lists[li], len(lists[li]), 4
		if li <= 6 {
			depth = 8
		}
		v.Strings("nsr", depth, func(s string) {
			v.Case(fmt.Sprintf("iterate %s: %s", names[li], s), func() error {
				it := NewIterator(data)
				pos := 0
				for k, c := range s {
					if it.HasNext() != (pos < n) {
						return fmt.Errorf("step %d: HasNext is %v", k, it.HasNext())
					}
					want := ""
					if pos < n {
						want = string(data[pos])
					}
					switch c {
					case 'r':
						r := it.Remainder()
						if len(r) != n-pos {
							return fmt.Errorf("step %d: remainder has %d items, want %d", k, len(r), n-pos)
						}
						for i := range r {
							if string(r[i]) != string(data[pos+i]) {
								return fmt.Errorf("step %d: remainder item %d is %q", k, i, r[i])
							}
						}
						continue
					case 'n':
						if g := it.Next(); string(g) != want || pos >= n && g != nil {
							return fmt.Errorf("step %d: %q, want %q", k, g, want)
						}
					case 's':
						if g := it.NextString(); g != want {
							return fmt.Errorf("step %d: %q, want %q", k, g, want)
						}
					}
					if pos < n {
						pos++
					}
				}
				return nil
			})
		})
	}
	v.End(t)
}
