// Command mcc decides the properties of concurrent and random code; it is built against the
// instrumented sources.
package main

import (
	_ "verifmc/conc"
	"verifmc/run"
)

func main() { run.Main() }
