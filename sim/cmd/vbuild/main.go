// Command vbuild builds the simulated servers into a directory (development aid).
package main

import (
	"fmt"
	"os"

	"simgodis/internal/build"
)

func main() {
	o, err := build.Build(os.Args[1], os.Args[2], os.Args[3], os.Args[4:])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Println(len(o.Sites), "sites", o.Bin)
}
