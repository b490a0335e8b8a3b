package main

import "xpdfsim/core"

func main() { core.Main() }
