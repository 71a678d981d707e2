// Command mc decides the sequential properties.
package main

import (
	_ "verifmc/props"
	"verifmc/run"
)

func main() { run.Main() }
