package charset

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC21(t *testing.T) {
	v := vStart(t)
	v.Rule("every byte, every pair of bytes, random byte strings and texts up to 300 characters")
	one := func(b []byte) {
		v.Case(fmt.Sprintf("%q", b), func() error {
			s := ToUTF8(b)
			rs := []rune(s)
			if len(rs) != len(b) {
				return fmt.Errorf("%d characters", len(rs))
			}
			for i := range rs {
				if rs[i] != rune(b[i]) {
					return fmt.Errorf("character %d is %q", i, rs[i])
				}
			}
			if back := ToISO8859_1(s); !bytes.Equal(back, b) {
				return fmt.Errorf("back %q", back)
			}
			return nil
		})
	}
	for i := 0; i < 256; i++ {
		one([]byte{byte(i)})
		for j := 0; j < 256; j++ {
			one([]byte{byte(i), byte(j)})
		}
	}
	one(nil)
	for i := 0; i < v.N(500, 20000); i++ {
		b := make([]byte, v.R.Intn(300))
		v.R.Read(b)
		one(b)
	}
	v.End(t)
}
