package fribidi

import "testing"

var verifRunes = []rune{'a', 'b', ' ', '1', 0x5D0, 0x627, 0x64B, 0x200E, 0x200F, 0x202A, 0x202B, 0x202C, 0x202D, 0x202E, 0x2066, 0x2067, 0x2068, 0x2069, 0x00AD, 0xFEFF, 0x200D, 0x200C, 0x1, 0x85, 0x2029, '(', ')', 0x2068, 0x61C, 0x1F600}

func TestVerifB02(t *testing.T) {
	verifRun(t, "B02", 20000, func(k *vcase) {
		n := k.Intn(12)
		str := make([]rune, n)
		levels := make([]Level, n)
		for i := range str {
			str[i] = verifRunes[k.Intn(len(verifRunes))]
			if k.Intn(5) == 0 {
				str[i] = rune(k.Intn(0x3000))
			}
			levels[i] = Level(k.Intn(60))
		}
		var to, from []int
		toAll := k.Perm(n)
		fromAll := make([]int, n)
		for i, p := range toAll {
			fromAll[p] = i
		}
		if k.Intn(3) != 0 {
			to = append([]int{}, toAll...)
		}
		if k.Intn(2) != 0 {
			from = append([]int{}, fromAll...)
		}
		var lv []Level
		if k.Intn(2) != 0 {
			lv = append([]Level{}, levels...)
		}
		k.in("str %U\nto %v\nfrom %v\nlevels %v", str, to, from, lv)
		var keep []int
		newPos := make([]int, n)
		for i, r := range str {
			newPos[i] = -1
			ty := GetBidiType(r)
			drop := r == 0x200E || r == 0x200F
			switch ty {
			case LRE, RLE, LRO, RLO, PDF, BN, LRI, RLI, FSI, PDI:
				drop = true
			}
			if !drop {
				newPos[i] = len(keep)
				keep = append(keep, i)
			}
		}
		in := append([]rune{}, str...)
		out := RemoveBidiMarks(in, to, from, lv)
		k.check(len(out) == len(keep), "%d characters kept, expected %d", len(out), len(keep))
		for j, i := range keep {
			k.check(out[j] == str[i], "character %d is %U, expected %U", j, out[j], str[i])
			if lv != nil {
				k.check(lv[j] == levels[i], "level %d is %d, expected %d", j, lv[j], levels[i])
			}
			if from != nil {
				k.check(from[j] == fromAll[i], "positionFromThis[%d] is %d, expected %d", j, from[j], fromAll[i])
			}
		}
		for i := range to {
			k.check(to[i] == newPos[toAll[i]], "positionsToThis[%d] is %d, expected %d", i, to[i], newPos[toAll[i]])
		}
	})
}
