package fontconfig

import (
	"strings"
	"testing"
)

// v6glob: dynamic programming on the suffixes
func v6glob(glob, s string) bool {
	m := make([][]bool, len(glob)+1)
	for i := len(glob); i >= 0; i-- {
		m[i] = make([]bool, len(s)+1)
		for j := len(s); j >= 0; j-- {
			switch {
			case i == len(glob):
				m[i][j] = j == len(s)
			case glob[i] == '*':
				m[i][j] = m[i+1][j] || (j < len(s) && m[i][j+1])
			case glob[i] == '?':
				m[i][j] = j < len(s) && m[i+1][j+1]
			default:
				m[i][j] = j < len(s) && s[j] == glob[i] && m[i+1][j+1]
			}
		}
	}
	return m[0][0]
}

func (k *vcase) v6word(alphabet string, n int) string {
	var b strings.Builder
	for i := k.Intn(n + 1); i > 0; i-- {
		b.WriteByte(alphabet[k.Intn(len(alphabet))])
	}
	return b.String()
}

func TestVerifF06(t *testing.T) {
	verifRun(t, "globs", 60000, func(k *vcase) {
		s := k.v6word("aabB/.", 9)
		g := k.v6word("aab*?/.", 7)
		switch k.Intn(3) {
		case 0: // a glob derived from the string
			b := []byte(s)
			var out []byte
			for i := 0; i < len(b); i++ {
				switch k.Intn(5) {
				case 0:
					out = append(out, '?')
				case 1:
					out = append(out, '*')
					i += k.Intn(3) - 1
				default:
					out = append(out, b[i])
				}
			}
			if k.Intn(4) == 0 {
				out = append(out, '*')
			}
			g = string(out)
			if len(g) > 14 {
				g = g[:14]
			}
		}
		k.in("glob %q, string %q", g, s)
		k.check(strGlobMatch(g, s) == v6glob(g, s), "strGlobMatch = %v, want %v", strGlobMatch(g, s), v6glob(g, s))
		best, d := compareFilename(String(g), String(s))
		want := float32(3)
		switch {
		case g == s:
			want = 0
		case strings.ToLower(g) == strings.ToLower(s):
			want = 1
		case v6glob(g, s):
			want = 2
		}
		k.check(best == String(s) && d == want, "compareFilename = %v, %v, want %v", best, d, want)
	})
}
