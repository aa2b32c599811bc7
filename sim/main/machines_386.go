package main

import (
	"verif.local/main/ad/gen"
	"verif.local/main/ad/r51"
	"verif.local/main/core"
)

// The assembly is for amd64 only: 32-bit platforms have two builds.
var machines = map[string]core.Machine{"r51": r51.M{}, "gen": gen.M{}, "asm": r51.M{}}
