package main

import (
	"fmt"
	"math"
	"strings"
)

// IntSet is a finite union of closed intervals, sorted and non-adjacent.
type IntSet [][2]int64

const (
	minI = math.MinInt64 / 4
	maxI = math.MaxInt64 / 4
)

func fullSet() IntSet              { return IntSet{{minI, maxI}} }
func rangeSet(lo, hi int64) IntSet { return IntSet{{lo, hi}} }
func single(v int64) IntSet        { return IntSet{{v, v}} }
func (s IntSet) empty() bool       { return len(s) == 0 }
func (s IntSet) min() int64        { return s[0][0] }
func (s IntSet) max() int64        { return s[len(s)-1][1] }
func (s IntSet) isSingle() bool    { return len(s) == 1 && s[0][0] == s[0][1] }
func (s IntSet) has(v int64) bool {
	for _, r := range s {
		if r[0] <= v && v <= r[1] {
			return true
		}
	}
	return false
}

func (s IntSet) size() int64 {
	var n int64
	for _, r := range s {
		n += r[1] - r[0] + 1
		if n < 0 || n > maxI {
			return maxI
		}
	}
	return n
}

func (s IntSet) equal(t IntSet) bool {
	if len(s) != len(t) {
		return false
	}
	for i := range s {
		if s[i] != t[i] {
			return false
		}
	}
	return true
}

func (s IntSet) inter(t IntSet) IntSet {
	var out IntSet
	i, j := 0, 0
	for i < len(s) && j < len(t) {
		lo, hi := max(s[i][0], t[j][0]), min(s[i][1], t[j][1])
		if lo <= hi {
			out = append(out, [2]int64{lo, hi})
		}
		if s[i][1] < t[j][1] {
			i++
		} else {
			j++
		}
	}
	return out
}

func (s IntSet) union(t IntSet) IntSet {
	var out IntSet
	i, j := 0, 0
	add := func(r [2]int64) {
		if n := len(out); n > 0 && r[0] <= out[n-1][1]+1 {
			if r[1] > out[n-1][1] {
				out[n-1][1] = r[1]
			}
			return
		}
		out = append(out, r)
	}
	for i < len(s) || j < len(t) {
		if j >= len(t) || (i < len(s) && s[i][0] <= t[j][0]) {
			add(s[i])
			i++
		} else {
			add(t[j])
			j++
		}
	}
	return out
}

func (s IntSet) complement() IntSet {
	var out IntSet
	lo := int64(minI)
	for _, r := range s {
		if r[0] > lo {
			out = append(out, [2]int64{lo, r[0] - 1})
		}
		lo = r[1] + 1
	}
	if lo <= maxI {
		out = append(out, [2]int64{lo, maxI})
	}
	return out
}

func (s IntSet) minus(t IntSet) IntSet  { return s.inter(t.complement()) }
func (s IntSet) subsetOf(t IntSet) bool { return s.minus(t).empty() }
func (s IntSet) shift(k int64) IntSet {
	out := make(IntSet, len(s))
	for i, r := range s {
		lo, hi := r[0], r[1]
		if lo > minI {
			lo += k
		}
		if hi < maxI {
			hi += k
		}
		out[i] = [2]int64{lo, hi}
	}
	return out
}

func (s IntSet) String() string {
	var sb strings.Builder
	sb.WriteByte('{')
	for i, r := range s {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i > 12 {
			fmt.Fprintf(&sb, "...%d more", len(s)-i)
			break
		}
		b := func(v int64) string {
			if v <= minI {
				return "-inf"
			}
			if v >= maxI {
				return "inf"
			}
			return fmt.Sprint(v)
		}
		if r[0] == r[1] {
			sb.WriteString(b(r[0]))
		} else {
			sb.WriteString(b(r[0]) + ".." + b(r[1]))
		}
	}
	sb.WriteByte('}')
	return sb.String()
}

// setOf collects the values of dom for which f holds.
func setOf(dom IntSet, f func(int64) bool) IntSet {
	var out IntSet
	for _, r := range dom {
		for v := r[0]; v <= r[1]; v++ {
			if f(v) {
				if n := len(out); n > 0 && out[n-1][1] == v-1 {
					out[n-1][1] = v
				} else {
					out = append(out, [2]int64{v, v})
				}
			}
		}
	}
	return out
}
