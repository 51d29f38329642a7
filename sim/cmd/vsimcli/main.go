package main

import (
	_ "verifsim/clichecks"
	"verifsim/core"
)

func main() { core.Main() }
