//go:build maporder

package main

import _ "unsafe"

//go:linkname verifOrder internal/runtime/maps.VerifOrder
var verifOrder uint64

// setMapOrder makes every iteration over a map start at offset n-1; 0 gives the
// choice back to the runtime.
func setMapOrder(n uint64) { verifOrder = n }
