package token

import (
	"fmt"
	"strconv"
)

type vTok struct {
	typ Type
	val string
	pos int
}

func vDelim(b byte) bool { return b == '+' || b == ':' || b == '\'' }

// vTokEnd is the independent oracle for the end of the token at i, -1 if malformed.
func vTokEnd(s string, i int) int {
	if vDelim(s[i]) {
		return i + 1
	}
	if s[i] == '@' {
		j := i + 1
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if j == i+1 || j >= len(s) || s[j] != '@' {
			return -1
		}
		n, err := strconv.Atoi(s[i+1 : j])
		if err != nil || n >= len(s)-j-1 || !vDelim(s[j+1+n]) {
			return -1
		}
		return j + 1 + n
	}
	if s[i] == '0' {
		j := i + 1
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if j > i+1 && j < len(s) && s[j] == ',' {
			return -1 // known finding: rejected as a malformed float
		}
	}
	for j := i; j < len(s); j++ {
		if vDelim(s[j]) {
			return j
		}
		if s[j] == '?' {
			j++
			if j >= len(s) || !(vDelim(s[j]) || s[j] == '?' || s[j] == '@') {
				return -1
			}
		}
	}
	return -1
}

func vLex(s string, swift bool) ([]vTok, error) {
	var l *Lexer
	if swift {
		l = NewSwiftLexer("v", []byte(s)).Lexer
	} else {
		l = NewLexer("v", []byte(s))
	}
	var r []vTok
	for l.HasNext() {
		if len(r) > 2*len(s)+3 {
			return r, fmt.Errorf("more tokens than bytes")
		}
		t := l.Next()
		r = append(r, vTok{t.Type(), string(t.Value()), t.Pos()})
	}
	return r, nil
}

// vLossless checks the token stream of an input.
func vLossless(s string, r []vTok) error {
	pos := 0
	for i, t := range r {
		last := i == len(r)-1
		if t.typ == ERROR || t.typ == EOF {
			if !last {
				return fmt.Errorf("token %d is final but not last", i)
			}
			if t.typ == EOF && (pos != len(s) || t.val != "" || t.pos != len(s)) {
				return fmt.Errorf("end token at %d (offset %d, value %q) of %d bytes", t.pos, pos, t.val, len(s))
			}
			continue
		}
		if last {
			return fmt.Errorf("the scan ends without an end or error token")
		}
		if t.pos != pos {
			return fmt.Errorf("token %d reports offset %d, is at %d", i, t.pos, pos)
		}
		if pos+len(t.val) > len(s) || s[pos:pos+len(t.val)] != t.val {
			return fmt.Errorf("token %d has value %q at offset %d", i, t.val, pos)
		}
		pos += len(t.val)
	}
	if len(r) == 0 {
		return fmt.Errorf("no token")
	}
	return nil
}

// vExact checks the token boundaries against the oracle.
func vExact(s string, r []vTok) error {
	i := 0
	for k, t := range r {
		if i >= len(s) {
			if t.typ != EOF {
				return fmt.Errorf("token %d is %v, want the end", k, t.typ)
			}
			return nil
		}
		e := vTokEnd(s, i)
		if e < 0 {
			if t.typ != ERROR {
				return fmt.Errorf("token %d is %v %q, want an error", k, t.typ, t.val)
			}
			return nil
		}
		if t.typ == ERROR || t.typ == EOF || len(t.val) != e-i {
			return fmt.Errorf("token %d is %v %q, want %q", k, t.typ, t.val, s[i:e])
		}
		sep := t.typ == DATA_ELEMENT_SEPARATOR || t.typ == GROUP_DATA_ELEMENT_SEPARATOR || t.typ == SEGMENT_END_MARKER
		switch {
		case s[i] == '+' && t.typ != DATA_ELEMENT_SEPARATOR, s[i] == ':' && t.typ != GROUP_DATA_ELEMENT_SEPARATOR,
			s[i] == '\'' && t.typ != SEGMENT_END_MARKER, !vDelim(s[i]) && sep, (s[i] == '@') != (t.typ == BINARY_DATA):
			return fmt.Errorf("token %d %q has type %v", k, t.val, t.typ)
		}
		i = e
	}
	return fmt.Errorf("the scan stops at %d of %d", i, len(s))
}

var vPieces = []string{"+", ":", "'", "?", "@", "?+", "?'", "??", "?@", "?:", "0", "1", "9", "12", "007", ",", "a", "Z", " ", "\n", "\r", "\x00", "\xe4", "\xff", "@1@", "@2@+'", "@3@abc", "@0@", "@12@hello world!", "@99999999999999999999@", "@9223372036854775807@", "HNHBK:1:3+", "abc"}
