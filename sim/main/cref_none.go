//go:build !cgo

package main

import "verif.local/main/core"

// The 32-bit build has no C reference.
func crefCheck(c *Ctx, op string, a []core.Val) string { return "" }
