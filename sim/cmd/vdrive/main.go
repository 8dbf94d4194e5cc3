// Command vdrive is the check: it builds the simulated server from the current
// tree, searches seeds, and reports.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"time"

	"simgodis/driver"
	"simgodis/gen"
	"simgodis/spec"
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: vdrive check <property> quick|thorough | replay <file> | run <spec.json> | gen <property> <n>")
		os.Exit(2)
	}
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = 1
	}
	o := driver.Options{
		Seed: seed, Repo: env("SIM_REPO", "/repo"), Verif: env("SIM_VERIF", "/verif"),
		Par: max(2, runtime.NumCPU()), Tier: "quick",
	}
	switch os.Args[1] {
	case "check":
		o.Prop = os.Args[2]
		if len(os.Args) > 3 {
			o.Tier = os.Args[3]
		}
		o.Runs, o.Wall, o.Minimum = 40000, 60*time.Second, 35*time.Second
		if p := gen.Lookup(o.Prop); p != nil && p.Quick > 0 {
			o.Runs = p.Quick
		}
		if o.Tier == "thorough" {
			o.Runs, o.Wall, o.Minimum = 1<<30, 10*time.Minute, 2*time.Minute
		}
		if v, err := time.ParseDuration(os.Getenv("SIM_WALL")); err == nil {
			o.Wall, o.Runs = v, 1<<30
		}
		if v, err := time.ParseDuration(os.Getenv("SIM_MIN")); err == nil {
			o.Minimum = v
		}
		if v, err := strconv.Atoi(os.Getenv("SIM_RUNS")); err == nil {
			o.Runs = v
		}
		os.Exit(driver.Check(o))
	case "setup":
		_, took, done, err := driver.Prepare(&o, "v2", "v1", "dbg2", "race2", "race1")
		done()
		if err != nil {
			fmt.Println("build failed:", err)
			os.Exit(2)
		}
		fmt.Printf("all simulators build from %s in %.1fs\n", o.Repo, took.Seconds())
	case "replay":
		os.Exit(driver.DoReplay(o, os.Args[2]))
	case "gen":
		n, _ := strconv.ParseUint(os.Args[3], 10, 64)
		b, _ := json.MarshalIndent(gen.Make(gen.Lookup(os.Args[2]), n), "", " ")
		fmt.Println(string(b))
	case "run":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		sp := &spec.Spec{}
		if err := json.Unmarshal(b, sp); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		os.Exit(driver.RunOne(o, sp))
	}
}
