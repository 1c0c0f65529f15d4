package rt

// The simulator's own tables do not use Go maps: in the race-detector build the
// runtime's map functions would report the accesses, which the simulator keeps
// apart by passing the baton, in a way hidden from the detector.

// tab is an open-addressing hash table that only grows.
type tab[K comparable, V any] struct {
	keys []K
	vals []V
	used []bool
	n    int
	hash func(K) uint64
}

//go:norace
func (t *tab[K, V]) find(k K) int {
	m := uint64(len(t.used))
	for i := t.hash(k) % m; ; i = (i + 1) % m {
		if !t.used[i] || t.keys[i] == k {
			return int(i)
		}
	}
}

//go:norace
func (t *tab[K, V]) get(k K) (v V, ok bool) {
	if t.n == 0 {
		return v, false
	}
	i := t.find(k)
	return t.vals[i], t.used[i]
}

// at returns the place of k's value, created as needed.
//
//go:norace
func (t *tab[K, V]) at(k K) *V {
	if 2*(t.n+1) > len(t.used) {
		o := *t
		c := 2*len(o.used) + 16
		t.keys, t.vals, t.used = make([]K, c), make([]V, c), make([]bool, c)
		for i, u := range o.used {
			if u {
				j := t.find(o.keys[i])
				t.keys[j], t.vals[j], t.used[j] = o.keys[i], o.vals[i], true
			}
		}
	}
	i := t.find(k)
	if !t.used[i] {
		t.keys[i], t.used[i] = k, true
		t.n++
	}
	return &t.vals[i]
}

func hashKey(k Key) uint64 {
	return mix64(uint64(k.Task)<<32|uint64(k.Op)) ^ mix64(uint64(k.Tag)<<32|uint64(k.K)+1)
}

func hashPtr(p uintptr) uint64 { return mix64(uint64(p)) }

func hashStr(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
