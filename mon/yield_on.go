//go:build verifyield

package main

import (
	"github.com/cybozu-go/aptutil/cacher"
	"github.com/cybozu-go/aptutil/mirror"
)

// setYield switches the injected delays in this process on (seed) or off (0).
func setYield(seed uint64) {
	cacher.VerifYieldSet(seed)
	mirror.VerifYieldSet(seed)
}
