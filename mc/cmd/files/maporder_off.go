//go:build !maporder

package main

func setMapOrder(n uint64) { panic("harness: built without the map order overlay") }
