//go:build !verif

package lib

// The repository's hook can't be built: do without it.
const haveHook = false

func setFirst(n uint32) {}
