//go:build verifrt

package main

import "github.com/akito0107/xsqlparser/verifrt"

const instrumented = true

func setHook(h func(class int)) { verifrt.Hook = h }

// countSteps runs f with at most limit steps (0: any) and tells how many it took and whether it was cut off.
func countSteps(limit uint64, f func()) (steps uint64, cut bool) {
	verifrt.Steps, verifrt.Limit = 0, limit
	defer func() {
		r := recover()
		steps = verifrt.Steps
		cut = limit != 0 && steps > limit
		verifrt.Limit = 0
		if _, ok := r.(verifrt.Cut); r != nil && !ok && !cut {
			panic(r)
		}
	}()
	f()
	return
}
