package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "module to analyse")
	dbg := flag.Bool("debug", false, "analyse the named functions and print what is left undecided")
	list := flag.Bool("list", false, "list the functions of the module")
	prop := flag.String("prop", "", "property to decide")
	unit := flag.String("unit", "", "(internal) one unit of work of the property")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	flag.Parse()
	debug.SetGCPercent(800)
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(25 * time.Second); pprof.StopCPUProfile(); os.Exit(3) }()
		defer pprof.StopCPUProfile()
	}
	switch {
	case *unit != "":
		runWorker(*repo, *prop, *unit, *tier)
	case *prop != "":
		os.Exit(runCheck(*repo, *verif, *prop, *tier))
	default:
		P, err := Load(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if *list {
			for _, f := range P.all {
				fmt.Println(relName(f))
			}
		}
		if *dbg {
			debugRun(P, flag.Args())
		}
	}
}
