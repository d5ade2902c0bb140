package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"
)

func itoa(i int) string { return strconv.Itoa(i) }

func main() {
	debug.SetGCPercent(600)
	subDebug = os.Getenv("SADEBUG") != ""
	if f := os.Getenv("SAPROF"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		go func() {
			time.Sleep(60 * time.Second)
			pprof.StopCPUProfile()
			os.Exit(9)
		}()
	}
	if len(os.Args) > 2 {
		switch os.Args[1] {
		case "pass":
			b, _ := json.Marshal(runPass(os.Args[2]))
			os.Stdout.Write(b)
			return
		case "check":
			rc := 0
			for _, id := range os.Args[2:] {
				if r := checkProp(id); r > rc {
					rc = r
				}
			}
			os.Exit(rc)
		}
	}
	if len(os.Args) == 2 && os.Args[1] == "list" {
		for id := range props {
			fmt.Println(id)
		}
		return
	}
	w, err := load(repoDir(), "linux", true)
	if err != nil {
		fmt.Println("ERR", err)
		os.Exit(2)
	}
	if err := w.begin(); err != nil {
		fmt.Println("ERR", err)
		os.Exit(2)
	}
	fmt.Println("init", w.initBad, w.initNotes)
	for _, n := range os.Args[1:] {
		t0 := time.Now()
		var mon *Mon
		if f := debugMons[n]; f != nil {
			mon = f()
		}
		x, outs, err := w.runDebug(n, mon, os.Getenv("SADEBUG") != "", debugThen[n])
		fmt.Println(n, time.Since(t0), "err", err)
		if x == nil {
			continue
		}
		fmt.Println("outcomes", len(outs), "steps", x.steps)
		good := 0
		for _, k := range x.rec.sorted() {
			o := x.rec.m[k]
			if o.bad == 0 {
				good++
				continue
			}
			fmt.Println("BAD", o.pos, k.kind, k.what, o.detail, o.path)
		}
		fmt.Println("good", good)
		var ns []string
		for n, c := range x.rec.notes {
			ns = append(ns, fmt.Sprintf("%s x%d", n, c))
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Println("note", n)
		}
	}
}
