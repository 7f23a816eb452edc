package gen

import "strconv"

var fixedWords = func() map[string]bool {
	m := map[string]bool{}
	for _, s := range []string{"actor", "and", "application", "attr", "action", "case", "class", "consumes", "default", "define", "else", "elsif", "environment", "false",
		"function", "if", "import", "in", "inherits", "node", "or", "private", "produces", "resource", "site", "step", "style", "true", "type", "undef", "unless",
		"workflow", "parameters", "returns", "repeat", "require", "realize", "include", "contain", "tag", "debug", "info", "notice", "warning", "err", "fail",
		"alert", "crit", "emerg", "break", "next", "return", "u", "x", "n", "t", "r", "s", "src", "pp", "epp", "Integer", "String", "Array", "Hash", "Any"} {
		m[s] = true
	}
	return m
}()

func wordByte(c byte) bool {
	return c == '_' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

// Renumber returns the source with other names, words and numbers. Equal words stay equal
func Renumber(s []byte, n int) []byte {
	if n == 0 {
		return s
	}
	sfx := []byte{'q'}
	for k := n; k > 0; k /= 26 {
		sfx = append(sfx, byte('a'+k%26))
	}
	r := make([]byte, 0, len(s)+len(s)/2)
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && wordByte(s[j]) {
			j++
		}
		if i == j {
			r = append(r, s[i])
			i++
			continue
		}
		w := s[i:j]
		r = append(r, w...)
		var before byte
		if i > 0 {
			before = s[i-1]
		}
		switch {
		case before == '\\' || before == '/' || fixedWords[string(w)]:
		case w[0] >= '1' && w[0] <= '9' && len(w) < 6:
			if x, err := strconv.Atoi(string(w)); err == nil && before != '.' && before != '$' {
				r = strconv.AppendInt(r[:len(r)-len(w)], int64(x+n), 10)
			}
		case w[0] < '0' || w[0] > '9':
			r = append(r, sfx...)
		}
		i = j
	}
	return r
}
