package simrt

// Assoc is a small map kept in a slice, in order of insertion. The race detector
// sees the operations of built-in maps even in code it does not instrument, and
// what the tasks of the harness share is ordered by the scheduler, which the
// detector is not told about.
type Assoc[K comparable, V any] struct {
	keys []K
	vals []V
}

//go:norace
func (a *Assoc[K, V]) find(k K) int {
	for i := range a.keys {
		if a.keys[i] == k {
			return i
		}
	}
	return -1
}

// Get2 returns the value of k and whether there is one.
//
//go:norace
func (a *Assoc[K, V]) Get2(k K) (v V, ok bool) {
	if i := a.find(k); i >= 0 {
		return a.vals[i], true
	}
	return v, false
}

// Get returns the value of k, or the zero value.
//
//go:norace
func (a *Assoc[K, V]) Get(k K) V { v, _ := a.Get2(k); return v }

// Set stores a value.
//
//go:norace
func (a *Assoc[K, V]) Set(k K, v V) {
	if i := a.find(k); i >= 0 {
		a.vals[i] = v
		return
	}
	a.keys, a.vals = append(a.keys, k), append(a.vals, v)
}

// Del removes a key.
//
//go:norace
func (a *Assoc[K, V]) Del(k K) {
	n := a.find(k)
	if n < 0 {
		return
	}
	for i := n + 1; i < len(a.keys); i++ {
		a.keys[i-1], a.vals[i-1] = a.keys[i], a.vals[i]
	}
	a.keys, a.vals = a.keys[:len(a.keys)-1], a.vals[:len(a.vals)-1]
}

// Len counts the keys.
//
//go:norace
func (a *Assoc[K, V]) Len() int { return len(a.keys) }

// Each calls f for every key, which may change the value but not the set of keys.
//
//go:norace
func (a *Assoc[K, V]) Each(f func(K, V)) {
	for i := range a.keys {
		f(a.keys[i], a.vals[i])
	}
}

// Map returns a built-in map with the same content.
//
//go:norace
func (a *Assoc[K, V]) Map() map[K]V {
	m := make(map[K]V, len(a.keys))
	for i := range a.keys {
		m[a.keys[i]] = a.vals[i]
	}
	return m
}

// Counts counts things by name.
type Counts struct{ Assoc[string, int] }

// Add counts one more.
//
//go:norace
func (c *Counts) Add(k string) { c.Set(k, c.Get(k)+1) }
