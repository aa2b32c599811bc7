package main

import (
	"verif.local/main/ad/asm"
	"verif.local/main/ad/gen"
	"verif.local/main/ad/r51"
	"verif.local/main/core"
)

var machines = map[string]core.Machine{"r51": r51.M{}, "gen": gen.M{}, "asm": asm.M{}}
