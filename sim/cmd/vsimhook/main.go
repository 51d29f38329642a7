package main

import (
	"verifsim/core"
	_ "verifsim/hookchecks"
)

func main() { core.Main() }
