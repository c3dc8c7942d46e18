// Command vh runs the checks of the properties.
package main

import (
	"os"

	"verif/harness/core"
	"verif/harness/props"
)

func main() { os.Exit(core.Main(props.All, os.Args[1:])) }
