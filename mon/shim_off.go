//go:build !shim
// +build !shim

package main

import "hash"

// Without the overlay (or if the internal packages were reorganised) the
// checksums are only observed through streams and events.
const haveShim = false

func implCRC() hash.Hash32   { return nil }
func implAdler() hash.Hash32 { return nil }
