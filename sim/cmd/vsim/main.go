package main

import (
	_ "verifsim/checks"
	"verifsim/core"
)

func main() { core.Main() }
