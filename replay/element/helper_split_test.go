package element

import (
	"strconv"
	"strings"
)

// vCut splits raw wire data at unescaped separators. ok is false when the data is malformed
// in a way every reader of the protocol must notice: an incomplete binary field, a lone
// escape character or a field without a delimiter.
type vTok struct {
	val string
	sep bool
}

func vDelim(b byte) bool { return b == '+' || b == '\'' || b == ':' }
func vSyn(b byte) bool   { return vDelim(b) || b == '?' || b == '@' }

func vCut(s string) (r []vTok, ok bool) {
	i := 0
	for i < len(s) {
		if vDelim(s[i]) {
			r = append(r, vTok{s[i : i+1], true})
			i++
			continue
		}
		if s[i] == '@' {
			j := i + 1
			n := 0
			for j < len(s) && s[j] >= '0' && s[j] <= '9' && n <= len(s) {
				n = 10*n + int(s[j]-'0')
				j++
			}
			if j == i+1 || j >= len(s) || s[j] != '@' || j+1+n >= len(s) || !vDelim(s[j+1+n]) {
				return r, false
			}
			r = append(r, vTok{s[i : j+1+n], false})
			i = j + 1 + n
			continue
		}
		j := i
		if s[i] == '0' {
			k := i
			for k < len(s) && s[k] >= '0' && s[k] <= '9' {
				k++
			}
			if k > i+1 && k < len(s) && s[k] == ',' {
				return r, false // not a number (known finding of C03)
			}
		}
		for j < len(s) && !vDelim(s[j]) {
			if s[j] == '?' {
				if j+1 >= len(s) || !vSyn(s[j+1]) {
					return r, false
				}
				j++
			}
			j++
		}
		if j >= len(s) {
			return r, false
		}
		r = append(r, vTok{s[i:j], false})
		i = j
	}
	return r, true
}

// vSubs are the elements of a group, ok as for vCut.
func vSubs(s string) ([]string, bool) {
	toks, ok := vCut(s + "+")
	if !ok {
		return nil, false
	}
	var r []string
	cur := ""
	for i, t := range toks {
		if t.sep {
			if !(i == len(toks)-1 && i > 0 && toks[i-1].sep && toks[i-1].val != ":") {
				r = append(r, cur)
			}
			cur = ""
			continue
		}
		cur += t.val
	}
	return r, true
}

type vGrp struct {
	DataElement
	es []DataElement
}

func (g *vGrp) GroupDataElements() []DataElement { return g.es }
func (g *vGrp) Elements() []DataElement          { return g.es }

type vField struct {
	de   DataElement
	wire string
}

func vEsc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if vSyn(s[i]) {
			b.WriteByte('?')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// vUTF is the text whose ISO-8859-1 form is s.
func vUTF(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteRune(rune(s[i]))
	}
	return b.String()
}

// vEscUTF is the wire form of a text.
func vEscUTF(s string) string {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return vEsc(string(b))
}

// vUnesc is the text whose ISO-8859-1 wire form is s.
func vUnesc(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '?' && i+1 < len(s) && vSyn(s[i+1]) {
			i++
		}
		b = append(b, s[i])
	}
	return vUTF(string(b))
}

// vNum is the value of a wire number.
func vNum(s string) (int, bool) {
	n, err := strconv.Atoi(s)
	return n, err == nil && !strings.ContainsAny(s, "+-")
}
