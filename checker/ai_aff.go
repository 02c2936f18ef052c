package main

// Linear equalities that hold in all the states joined.

import "sort"

// affineHull gives the linear equalities between the cells of G, and the
// symbols that are not generalised, that hold identically in each state: a basis
// of the solutions (alpha, beta, gamma) of
// sum alpha_a cell_a + sum beta_s s + gamma = 0 in every state.
func affineHull(cells [][]cell, G []int) (out []Lin) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(linOverflow); !is {
				panic(e)
			}
			out = nil
		}
	}()
	// symbols of all states: those of some state only cannot take part
	count := map[Sym]int{}
	for i := range cells {
		seen := map[Sym]bool{}
		for _, a := range G {
			for _, t := range cells[i][a].lin.t {
				if !seen[t.s] {
					seen[t.s] = true
					count[t.s]++
				}
			}
		}
	}
	var syms []Sym
	for s, n := range count {
		if n == len(cells) {
			syms = append(syms, s)
		}
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i] < syms[j] })
	// unknowns: the cells (last first, to be solved for), the symbols, the constant
	n := len(G) + len(syms) + 1
	if n > 120 {
		return nil
	}
	col := map[Sym]int{}
	for i, s := range syms {
		col[s] = len(G) + i
	}
	var rows [][]rat
	add := func(r []rat) {
		for _, p := range rows {
			k := lead(p)
			if r[k].n != 0 {
				f := r[k]
				for j := range r {
					if p[j].n != 0 {
						r[j] = r[j].sub(f.mul(p[j]))
					}
				}
			}
		}
		k := lead(r)
		if k < 0 {
			return
		}
		f := r[k].inv()
		for j := range r {
			r[j] = r[j].mul(f)
		}
		for _, p := range rows {
			if p[k].n != 0 {
				f := p[k]
				for j := range p {
					if r[j].n != 0 {
						p[j] = p[j].sub(f.mul(r[j]))
					}
				}
			}
		}
		rows = append(rows, r)
	}
	zero := func() []rat {
		r := make([]rat, n)
		for i := range r {
			r[i] = rint(0)
		}
		return r
	}
	for i := range cells {
		by := map[Sym][]rat{}
		k := zero()
		k[n-1] = rint(1)
		for j, a := range G {
			l := cells[i][a].lin
			k[len(G)-1-j] = rint(l.c)
			for _, t := range l.t {
				if by[t.s] == nil {
					by[t.s] = zero()
				}
				by[t.s][len(G)-1-j] = rint(t.k)
			}
		}
		add(k)
		var ss []Sym
		for s := range by {
			ss = append(ss, s)
		}
		for _, s := range syms {
			if by[s] == nil {
				by[s] = zero()
				ss = append(ss, s)
			}
			by[s][col[s]] = rint(1)
		}
		sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
		for _, s := range ss {
			add(by[s])
		}
		if len(rows) == n {
			return nil
		}
	}
	pivot := make([]int, n) // column -> row
	for i := range pivot {
		pivot[i] = -1
	}
	for i, p := range rows {
		pivot[lead(p)] = i
	}
	for f := 0; f < n; f++ {
		if pivot[f] >= 0 {
			continue
		}
		v := zero()
		v[f] = rint(1)
		for c, i := range pivot {
			if i >= 0 {
				v[c] = rows[i][f].neg()
			}
		}
		d := int64(1)
		for _, r := range v {
			d = mulOK(d/gcd(d, r.d), r.d)
		}
		l := K(0)
		for c, r := range v {
			if r.n == 0 {
				continue
			}
			k := mulOK(r.n, d/r.d)
			switch {
			case c < len(G):
				l = l.Add(S(cs(G[len(G)-1-c])).Mul(k))
			case c < n-1:
				l = l.Add(S(syms[c-len(G)]).Mul(k))
			default:
				l = l.AddK(k)
			}
		}
		if len(l.t) > 0 && len(l.t) <= 6 {
			out = append(out, l)
		}
	}
	return out
}

func lead(r []rat) int {
	for i := range r {
		if r[i].n != 0 {
			return i
		}
	}
	return -1
}
