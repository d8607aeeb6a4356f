//go:build !verifyield

package main

// setYield does nothing without the overlay of tools/yield.
func setYield(seed uint64) {}
