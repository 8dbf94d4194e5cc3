// Command simv2 is the simulated world around the default (gnet) build.
package main

import (
	srv "github.com/yusank/godis/cmd/server"

	"simgodis/harness"
)

func main() { harness.Run(srv.Main) }
