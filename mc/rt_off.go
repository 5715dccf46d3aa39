//go:build !verifrt

package main

const instrumented = false

func setHook(h func(class int)) { panic("not instrumented") }

func countSteps(limit uint64, f func()) (uint64, bool) { panic("not instrumented") }
