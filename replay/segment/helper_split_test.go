package segment

// vCut splits raw wire data at unescaped separators. ok is false when the data is malformed
// in a way every reader of the protocol must notice: an incomplete binary field, a lone
// escape character or a field without a delimiter.
type vTok struct {
	val string
	sep bool
}

func vDelim(b byte) bool { return b == '+' || b == '\'' || b == ':' }
func vSyn(b byte) bool   { return vDelim(b) || b == '?' || b == '@' }

func vCut(s string) (r []vTok, ok bool) {
	i := 0
	for i < len(s) {
		if vDelim(s[i]) {
			r = append(r, vTok{s[i : i+1], true})
			i++
			continue
		}
		if s[i] == '@' {
			j := i + 1
			n := 0
			for j < len(s) && s[j] >= '0' && s[j] <= '9' && n <= len(s) {
				n = 10*n + int(s[j]-'0')
				j++
			}
			if j == i+1 || j >= len(s) || s[j] != '@' || j+1+n >= len(s) || !vDelim(s[j+1+n]) {
				return r, false
			}
			r = append(r, vTok{s[i : j+1+n], false})
			i = j + 1 + n
			continue
		}
		j := i
		if s[i] == '0' {
			k := i
			for k < len(s) && s[k] >= '0' && s[k] <= '9' {
				k++
			}
			if k > i+1 && k < len(s) && s[k] == ',' {
				return r, false // not a number (known finding of C03)
			}
		}
		for j < len(s) && !vDelim(s[j]) {
			if s[j] == '?' {
				if j+1 >= len(s) || !vSyn(s[j+1]) {
					return r, false
				}
				j++
			}
			j++
		}
		if j >= len(s) {
			return r, false
		}
		r = append(r, vTok{s[i:j], false})
		i = j
	}
	return r, true
}

// vFields are the fields of a segment, ok as for vCut.
func vFields(s string) ([]string, bool) {
	toks, ok := vCut(s)
	if !ok {
		return nil, false
	}
	var r []string
	cur := ""
	for _, t := range toks {
		if t.sep && t.val != ":" {
			if t.val == "+" || cur != "" {
				r = append(r, cur)
			}
			cur = ""
			continue
		}
		cur += t.val
	}
	return r, true
}
