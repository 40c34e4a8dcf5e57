package main

// hardOrder gives the values an order sorting algorithms find hard.
func hardOrder(v []float64, kind int) {
	n := len(v)
	for i := range v {
		switch kind {
		case 1:
			v[i] = float64(i)
		case 2:
			v[i] = float64(n - i)
		case 3: // up and down
			v[i] = float64(min(i, n-i))
		case 4: // saw teeth
			v[i] = float64(i % 17)
		case 5: // all equal but a few
			v[i] = float64(i % 13 / 12)
		}
	}
	if kind >= 6 {
		for i, r := range killer(n) {
			v[i] = float64(r)
		}
	}
}

// killer is an order that a quick sort taking the median of three, or of three medians of three, finds as hard as can
// be: McIlroy's adversary decides the values while the sort compares them, so that every pivot is a bad one.
func killer(n int) []int {
	val := make([]int, n)
	at := make([]int, n) // which item is where
	for i := range val {
		val[i], at[i] = n, i
	}
	next, cand := 0, -1
	cmp := func(x, y int) int {
		if val[x] == n && val[y] == n {
			if x == cand {
				val[x] = next
			} else {
				val[y] = next
			}
			next++
		}
		if val[x] == n {
			cand = x
		} else if val[y] == n {
			cand = y
		}
		return val[x] - val[y]
	}
	less := func(i, j int) bool { return cmp(at[i], at[j]) < 0 }
	swap := func(i, j int) { at[i], at[j] = at[j], at[i] }
	med := func(a, b, c int) {
		if less(a, b) {
			swap(a, b)
		}
		if less(c, a) {
			swap(c, a)
		}
		if less(a, b) {
			swap(a, b)
		}
	}
	var sort func(lo, hi int)
	sort = func(lo, hi int) {
		for hi-lo > 7 {
			m := lo + (hi-lo)/2
			if hi-lo > 40 {
				s := (hi - lo) / 8
				med(lo, lo+s, lo+2*s)
				med(m, m-s, m+s)
				med(hi-1, hi-1-s, hi-1-2*s)
			}
			med(lo, m, hi-1)
			p := at[lo]
			a, b, c, d := lo+1, lo+1, hi, hi
			for {
				for b < c {
					if k := cmp(at[b], p); k < 0 {
						b++
					} else if k == 0 {
						swap(a, b)
						a++
						b++
					} else {
						break
					}
				}
				for b < c {
					if k := cmp(p, at[c-1]); k < 0 {
						c--
					} else if k == 0 {
						c--
						d--
						swap(c, d)
					} else {
						break
					}
				}
				if b >= c {
					break
				}
				c--
				swap(b, c)
				b++
			}
			for i, k := 0, min(b-a, a-lo); i < k; i++ {
				swap(lo+i, b-k+i)
			}
			for i, k := 0, min(hi-d, d-c); i < k; i++ {
				swap(c+i, hi-k+i)
			}
			l, h := lo+b-a, hi-(d-c)
			if l-lo < hi-h {
				sort(lo, l)
				lo = h
			} else {
				sort(h, hi)
				hi = l
			}
		}
		for i := lo + 1; i < hi; i++ {
			for j := i; j > lo && less(j, j-1); j-- {
				swap(j, j-1)
			}
		}
	}
	sort(0, n)
	for i := range val {
		val[i] = min(val[i], next) // the ones never told apart
	}
	return val
}
