//go:build go1.23 && !race

package kit

// Race tells whether the race detector watches.
const Race = false
