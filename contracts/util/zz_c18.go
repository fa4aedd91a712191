package util

import vs "github.com/xaxys/bubbler/verifspec"

// Contracts of the insertion-ordered table, at int keys and values (the code is
// the same for every instantiation; 0 is the default key of anonymous entries).

type omap = OrderedMap[int, int]

// wfMap is the representation invariant: the index holds exactly the position
// of every entry that has a key of its own.
func wfMap(m *omap) bool {
	return vs.And(
		vs.Forall(0, len(m.entries), func(i int) bool {
			j, ok := m.index[m.entries[i].Key]
			return vs.Or(m.entries[i].Key == m.defaultK, vs.And(ok, j == i))
		}),
		vs.And(m.defaultK == 0, vs.ForallInt(func(k int) bool {
			j, ok := m.index[k]
			return vs.Implies(ok, j >= 0 && j < len(m.entries) && m.entries[j].Key == k)
		})))
}

// anyMap is an arbitrary table satisfying the invariant. On compiled code it is
// one reached by an arbitrary short history.
func anyMap() *omap {
	if vs.Symbolic() {
		m := vs.Any[*omap]("m")
		vs.Assume(wfMap(m))
		return m
	}
	m := NewOrderedMap[int, int]()
	n := vs.Choose("history", 5)
	for i := 0; i < n; i++ {
		switch vs.Choose("op", 4) {
		case 0:
			m.Put(vs.Choose("k", 4), 10+i)
		case 1:
			m.MustPut(vs.Choose("k", 4), 20+i)
		case 2:
			m.Remove(vs.Choose("k", 4))
		case 3:
			m.PutAnonymous(30 + i)
		}
		vs.Assert("the invariant holds after every operation", wfMap(m))
	}
	return m
}

func anyKey(name string) int { return int(vs.Int(name, -3, 1<<40)) }

func sameMap(a, b *omap) bool {
	return vs.And(len(a.entries) == len(b.entries), vs.And(
		vs.Forall(0, len(b.entries), func(i int) bool {
			return vs.And(a.entries[i].Key == b.entries[i].Key, a.entries[i].Value == b.entries[i].Value)
		}),
		vs.ForallInt(func(k int) bool {
			i, ok := a.index[k]
			j, ok2 := b.index[k]
			return vs.And(ok == ok2, vs.Implies(ok, i == j))
		})))
}

func Verify_C18_New() {
	m := NewOrderedMap[int, int]()
	vs.Assert("a new table is empty", m.Len() == 0)
	vs.Assert("a new table has no key", !m.Has(anyKey("k")))
	if !vs.Symbolic() {
		vs.Assert("a new table is well formed", wfMap(m))
	}
}

func Verify_C18_Put() {
	m := anyMap()
	k, v := anyKey("k"), anyKey("v")
	old := vs.Old(m)
	had := old.Has(k)
	r := m.Put(k, v)
	vs.Assert("Put reports whether the key was new", r == !had)
	if had {
		vs.Assert("a failed Put changes nothing", sameMap(m, old))
		return
	}
	n := len(old.entries)
	vs.Assert("Put appends one entry", len(m.entries) == n+1)
	vs.Assert("Put appends the entry at the end", vs.And(m.entries[n].Key == k, m.entries[n].Value == v))
	vs.Assert("Put keeps the other entries", vs.Forall(0, n, func(i int) bool {
		return vs.And(m.entries[i].Key == old.entries[i].Key, m.entries[i].Value == old.entries[i].Value)
	}))
	vs.Assert("Put keeps the table well formed", wfMap(m))
	g, ok := m.Get(k)
	vs.Assert("Get finds what Put added", ok && g == v)
}

func Verify_C18_MustPut() {
	m := anyMap()
	k, v := anyKey("k"), anyKey("v")
	old := vs.Old(m)
	had := old.Has(k)
	m.MustPut(k, v)
	g, ok := m.Get(k)
	vs.Assert("Get finds what MustPut stored", ok && g == v)
	n := len(old.entries)
	if had {
		p := old.Rank(k)
		vs.Assert("MustPut of a present key keeps the number of entries", len(m.entries) == n)
		vs.Assert("MustPut of a present key changes its value in place", vs.Forall(0, n, func(i int) bool {
			return vs.And(m.entries[i].Key == old.entries[i].Key, vs.Implies(i != p, m.entries[i].Value == old.entries[i].Value))
		}))
	} else {
		vs.Assert("MustPut of a new key appends", len(m.entries) == n+1 && m.entries[n].Key == k)
		vs.Assert("MustPut keeps the other entries", vs.Forall(0, n, func(i int) bool {
			return vs.And(m.entries[i].Key == old.entries[i].Key, m.entries[i].Value == old.entries[i].Value)
		}))
	}
	vs.Assert("MustPut keeps the table well formed", wfMap(m))
}

func Verify_C18_Lookup() {
	m := anyMap()
	k := anyKey("k")
	old := vs.Old(m)
	i, in := m.index[k]
	v, ok := m.Get(k)
	vs.Assert("Get succeeds exactly for present keys", ok == in)
	vs.Assert("Has agrees", m.Has(k) == in)
	r := m.Rank(k)
	if in {
		vs.Assert("Get returns the entry's value", m.entries[i].Key == k && v == m.entries[i].Value)
		vs.Assert("MustGet returns the entry's value", m.MustGet(k) == v)
		vs.Assert("Rank is the position", r == i)
		vs.Assert("Index returns the entry at a position", m.Index(r).Key == k && m.Index(r).Value == v)
	} else {
		vs.Assert("Rank of an absent key is -1", r == -1)
		vs.Assert("MustGet of an absent key is the default", m.MustGet(k) == m.defaultV)
	}
	vs.Assert("a present key is some entry's", vs.Implies(in, vs.Exists(0, m.Len(), func(j int) bool { return m.entries[j].Key == k })))
	if k != 0 {
		vs.Assert("an entry's key is present", vs.Forall(0, m.Len(), func(j int) bool { return vs.Implies(m.entries[j].Key == k, in) }))
		vs.Assert("keys are unique", vs.Forall(0, m.Len(), func(j int) bool { return vs.Implies(m.entries[j].Key == k, j == i) }))
	}
	vs.Assert("Len is the number of entries", m.Len() == len(m.entries))
	if m.Len() > 0 {
		vs.Assert("First is the first entry", m.First().Key == m.entries[0].Key && m.First().Value == m.entries[0].Value)
		vs.Assert("Last is the last entry", m.Last().Key == m.entries[m.Len()-1].Key && m.Last().Value == m.entries[m.Len()-1].Value)
	}
	vs.Assert("lookups change nothing", sameMap(m, old))
}

func Verify_C18_Remove() {
	m := anyMap()
	k := anyKey("k")
	old := vs.Old(m)
	m.Remove(k)
	p, had := old.index[k]
	if !had {
		vs.Assert("Remove of an absent key changes nothing", sameMap(m, old))
		return
	}
	n := len(old.entries)
	vs.Assert("Remove takes one entry out", len(m.entries) == n-1)
	vs.Assert("Remove keeps the entries before", vs.Forall(0, p, func(i int) bool {
		return vs.And(m.entries[i].Key == old.entries[i].Key, m.entries[i].Value == old.entries[i].Value)
	}))
	vs.Assert("Remove moves the entries after down by one", vs.Forall(p, n-1, func(i int) bool {
		return vs.And(m.entries[i].Key == old.entries[i+1].Key, m.entries[i].Value == old.entries[i+1].Value)
	}))
	vs.Assert("the key is gone", !m.Has(k))
	o := anyKey("other")
	if o != k {
		vs.Assert("Remove keeps the other keys", m.Has(o) == old.Has(o))
		vs.Assert("Remove keeps the other keys' values", m.MustGet(o) == old.MustGet(o))
	}
	vs.Assert("Remove keeps the table well formed", wfMap(m))
}

func Inv_OrderedMap_Remove_1(m, old_m *omap, key, index, i int) bool {
	return vs.And(index <= i && i <= len(m.entries), vs.ForallInt(func(k int) bool {
		j, ok := m.index[k]
		oj, ook := old_m.index[k]
		return vs.And(ok == (ook && k != key),
			vs.Implies(ok, vs.And(vs.Implies(oj <= index || oj-1 >= i, j == oj), vs.Implies(oj > index && oj-1 < i, j == oj-1))))
	}))
}

func Verify_C18_Clear() {
	m := anyMap()
	m.Clear()
	k := anyKey("k")
	vs.Assert("Clear empties the table", m.Len() == 0)
	vs.Assert("Clear forgets every key", !m.Has(k))
	vs.Assert("a cleared table accepts every key", m.Put(k, 1) && m.Len() == 1 && m.Rank(k) == 0)
}

func Verify_C18_PutAnonymous() {
	m := anyMap()
	old := vs.Old(m)
	v := anyKey("v")
	m.PutAnonymous(v)
	n := len(old.entries)
	vs.Assert("PutAnonymous appends one entry", len(m.entries) == n+1 && m.entries[n].Value == v)
	vs.Assert("PutAnonymous keeps the other entries", vs.Forall(0, n, func(i int) bool {
		return vs.And(m.entries[i].Key == old.entries[i].Key, m.entries[i].Value == old.entries[i].Value)
	}))
	k := anyKey("k")
	vs.Assert("PutAnonymous adds no key", m.Has(k) == old.Has(k) && m.Rank(k) == old.Rank(k))
	vs.Assert("PutAnonymous keeps the table well formed", wfMap(m))
}

func Verify_C18_Keys() {
	m := anyMap()
	ks := m.Keys()
	vs.Assert("Keys lists the keys in order", len(ks) == m.Len() && vs.Forall(0, m.Len(), func(i int) bool { return ks[i] == m.entries[i].Key }))
}

func Inv_OrderedMap_Keys_1(m *omap, keys []int, idx_ int) bool {
	return vs.And(len(keys) == idx_+1, vs.And(idx_ >= -1 && idx_ < len(m.entries), vs.Forall(0, len(keys), func(i int) bool { return keys[i] == m.entries[i].Key })))
}

func Verify_C18_Values() {
	m := anyMap()
	vals := m.Values()
	vs.Assert("Values lists the values in order", len(vals) == m.Len() && vs.Forall(0, m.Len(), func(i int) bool { return vals[i] == m.entries[i].Value }))
	es := m.Entries()
	vs.Assert("Entries lists the entries in order", len(es) == m.Len() && vs.Forall(0, m.Len(), func(i int) bool { return es[i].Key == m.entries[i].Key && es[i].Value == m.entries[i].Value }))
}

func Inv_OrderedMap_Values_1(m *omap, values []int, idx_ int) bool {
	return vs.And(len(values) == idx_+1, vs.And(idx_ >= -1 && idx_ < len(m.entries), vs.Forall(0, len(values), func(i int) bool { return values[i] == m.entries[i].Value })))
}

func Verify_C18_Sub() {
	m := anyMap()
	n := m.Len()
	lo, hi := int(vs.Int("a", 0, 1<<40)), int(vs.Int("b", 0, 1<<40))
	checkSub(m, lo, hi, lo, hi, n)
}

func Verify_C18_SubFromEnd() {
	m := anyMap()
	n := m.Len()
	a, b := int(vs.Int("a", -1<<40, -1)), int(vs.Int("b", -1<<40, -1))
	checkSub(m, a, b, a+n, b+n, n)
}

func checkSub(m *omap, a, b, lo, hi, n int) {
	vs.Assume(lo >= 0 && lo <= n && hi >= 0 && hi <= n)
	old := vs.Old(m)
	s := m.Sub(a, b)
	if lo > hi {
		vs.Assert("Sub of a reversed range is nil", s == nil)
		return
	}
	vs.Assert("Sub has the entries of the range", s.Len() == hi-lo)
	vs.Assert("Sub keeps keys, values and order", vs.Forall(0, hi-lo, func(i int) bool {
		return vs.And(s.entries[i].Key == old.entries[lo+i].Key, s.entries[i].Value == old.entries[lo+i].Value)
	}))
	k := anyKey("k")
	r, in := old.index[k]
	vs.Assert("Sub finds the keys of the range", s.Has(k) == (in && r >= lo && r < hi))
	vs.Assert("Sub ranks the keys of the range", vs.Implies(in && r >= lo && r < hi, s.Rank(k) == r-lo))
	vs.Assert("Sub leaves the table as it was", sameMap(m, old))
}

func Inv_OrderedMap_Sub_1(m *omap, start, end int, copy *omap, idx_ int) bool {
	return vs.And(len(copy.entries) == idx_+1, vs.And(idx_ >= -1 && idx_ < end-start, vs.And(vs.Forall(0, len(copy.entries), func(i int) bool {
		return vs.And(copy.entries[i].Key == m.entries[start+i].Key, copy.entries[i].Value == m.entries[start+i].Value)
	}), vs.ForallInt(func(k int) bool {
		j, ok := copy.index[k]
		oj, ook := m.index[k]
		return vs.And(ok == (ook && oj >= start && oj <= start+idx_), vs.Implies(ok, j == oj-start))
	}))))
}

func init() {
	vs.Register("C18", "Verify_C18_New", Verify_C18_New)
	vs.Register("C18", "Verify_C18_Put", Verify_C18_Put)
	vs.Register("C18", "Verify_C18_MustPut", Verify_C18_MustPut)
	vs.Register("C18", "Verify_C18_Lookup", Verify_C18_Lookup)
	vs.Register("C18", "Verify_C18_Remove", Verify_C18_Remove)
	vs.Register("C18", "Verify_C18_Clear", Verify_C18_Clear)
	vs.Register("C18", "Verify_C18_PutAnonymous", Verify_C18_PutAnonymous)
	vs.Register("C18", "Verify_C18_Keys", Verify_C18_Keys)
	vs.Register("C18", "Verify_C18_Values", Verify_C18_Values)
	vs.Register("C18", "Verify_C18_Sub", Verify_C18_Sub)
	vs.Register("C18", "Verify_C18_SubFromEnd", Verify_C18_SubFromEnd)
}
