package fribidi

import "testing"

var verifTypes = []CharType{LTR, RTL, EN, ON, WLTR, WRTL, PDF, LRI, RLI, FSI, BS, NSM, AL, AN, CS, ET, PDI, LRO, RLO, RLE, LRE, WS, ES, BN, SS}

func vrev(a []int) {
	for i, j := 0, len(a)-1; i < j; i, j = i+1, j-1 {
		a[i], a[j] = a[j], a[i]
	}
}

// vorder is rule L3 (on request) then L2 applied to the identity
func vorder(types []CharType, lev []Level, nsm bool) []int {
	n := len(lev)
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	if nsm {
		for i := n - 1; i >= 0; i-- {
			if lev[i]%2 == 1 && types[i] == NSM {
				start := i - 1
				for start >= 0 && lev[start] == lev[i] && types[start]&(maskEXPLICIT|maskBN|maskNSM) != 0 {
					start--
				}
				// the base character goes with its marks
				if start < 0 || lev[start] != lev[i] {
					start++
				}
				vrev(m[start : i+1])
				i = start
			}
		}
	}
	for l := Level(127); l >= 1; l-- {
		for i := 0; i < n; {
			j := i
			for j < n && lev[j] >= l {
				j++
			}
			vrev(m[i:j])
			if j == i {
				j++
			}
			i = j
		}
	}
	return m
}

func TestVerifB01(t *testing.T) {
	verifRun(t, "B01", 20000, func(k *vcase) {
		pad, pad2 := k.Intn(4), k.Intn(4)
		n := k.Intn(14)
		if k.Intn(20) == 0 {
			n = 60
		}
		total := pad + n + pad2
		types := make([]CharType, total)
		lev := make([]Level, total)
		str := make([]rune, total)
		mp := make([]int, total)
		top := []int{1, 2, 3, 5, 127}[k.Intn(5)]
		few := []CharType{LTR, RTL, NSM, WS, BN, NSM}
		for i := range types {
			types[i] = verifTypes[k.Intn(len(verifTypes))]
			if k.Intn(2) == 0 {
				types[i] = few[k.Intn(len(few))]
			}
			lev[i] = Level(k.Intn(top))
			if i > 0 && k.Intn(2) == 0 {
				lev[i] = lev[i-1]
			}
			str[i] = rune(1000 + i)
			mp[i] = i
		}
		base := []ParType{LTR, RTL, ON, WLTR, WRTL}[k.Intn(5)]
		flags := []Options{0, ReorderNSM, DefaultFlags, DefaultFlags &^ ReorderNSM}[k.Intn(4)]
		var vis []rune
		var m []int
		if k.Intn(4) != 0 {
			vis = append([]rune{}, str...)
		}
		if k.Intn(4) != 0 {
			m = append([]int{}, mp...)
		}
		k.in("types %v\nlevels %v\noff %d length %d base %v flags %d visual %v map %v", types, lev, pad, n, base, flags, vis != nil, m != nil)
		types0 := append([]CharType{}, types...)
		// L1
		want := append([]Level{}, lev...)
		for i := pad + n - 1; i >= pad && types[i]&(maskEXPLICIT|maskBN|maskWS) != 0; i-- {
			want[i] = 0
			if base&maskRTL != 0 {
				want[i] = 1
			}
		}
		max := Level(0)
		for _, l := range want[pad : pad+n] {
			if l > max {
				max = l
			}
		}
		order := vorder(types[pad:pad+n], want[pad:pad+n], flags&ReorderNSM != 0)
		got := ReorderLine(flags, types, n, pad, base, lev, vis, m)
		k.check(got == max+1, "returned %d for a maximum level of %d", got, max)
		for i := range lev {
			k.check(lev[i] == want[i], "level %d is %d, expected %d", i, lev[i], want[i])
			k.check(types[i] == types0[i], "bidi type %d changed", i)
			src := i
			if i >= pad && i < pad+n {
				src = pad + order[i-pad]
			}
			if m != nil {
				k.check(m[i] == src, "map[%d] is %d, expected %d: %v", i, m[i], src, m)
			}
			if vis != nil {
				k.check(vis[i] == str[src], "visual[%d] is logical %d, expected %d", i, vis[i]-1000, src)
			}
		}
		if m != nil && pad == 0 && pad2 == 0 {
			v := Visual{Str: vis, VisualToLogical: m, EmbeddingLevels: lev}
			inv := v.LogicalToVisual()
			k.check(len(inv) == len(m), "inverse has %d entries", len(inv))
			for i, l := range m {
				k.check(inv[l] == i, "LogicalToVisual()[%d] is %d, expected %d", l, inv[l], i)
			}
		}
	})
}
