package token

import (
	"fmt"
	"testing"
)

func TestVerifC26(t *testing.T) {
	v := vStart(t)
	v.Rule("token lists of length 0 to 6 and lists of up to 3 tokens of other types, every interleaving of HasNext/Next/Backup calls up to 9 steps that stays inside the list")
	var lists [][]Token
	for n := 0; n <= 6; n++ {
		var toks []Token
		for i := 0; i < n; i++ {
			toks = append(toks, New(ALPHA_NUMERIC, []byte{byte('a' + i)}, i*3))
		}
		lists = append(lists, toks)
	}
	odd := []Token{New(EOF, nil, 0), New(ERROR, []byte("e"), 1), New(DATA_ELEMENT_SEPARATOR, []byte("+"), 2), New(SEGMENT_END_MARKER, []byte("'"), 3), New(BINARY_DATA, []byte("@0@"), 4), New(TEXT, []byte{}, 4)}
	v.Strings("012345", 3, func(s string) {
		var toks []Token
		for _, c := range s {
			toks = append(toks, odd[c-'0'])
		}
		lists = append(lists, toks)
	})
	for li := range lists {
		toks, n, depth := lists[li], len(lists[li]), 4
		if li <= 6 {
			depth = 9
		}
		v.Strings("nb", depth, func(s string) {
			v.Case(fmt.Sprintf("iterate %v: %s", toks, s), func() error {
				it := &Iterator{tokens: toks}
				pos := 0
				for k, c := range s {
					if it.HasNext() != (pos < n) {
						return fmt.Errorf("step %d: HasNext is %v", k, it.HasNext())
					}
					if c == 'b' {
						if pos == 0 {
							return nil
						}
						it.Backup()
						pos--
						continue
					}
					tk := it.Next()
					if pos >= n {
						if tk.Type() != EOF {
							return fmt.Errorf("step %d: %v instead of the end", k, tk)
						}
						continue
					}
					if tk.Type() != toks[pos].Type() || string(tk.Value()) != string(toks[pos].Value()) || tk.Pos() != toks[pos].Pos() {
						return fmt.Errorf("step %d: token %v, want number %d", k, tk, pos)
					}
					pos++
				}
				return nil
			})
		})
	}
	v.End(t)
}
