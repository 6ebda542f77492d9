package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(checkProperty(os.Args[2], tier))
	}
	p, err := LoadProgram(repoDir())
	if err != nil {
		fmt.Println("load error:", err)
		os.Exit(1)
	}
	if len(os.Args) > 2 && os.Args[1] == "ssa" {
		for _, a := range os.Args[2:] {
			p.funcs[a].WriteTo(os.Stdout)
		}
		return
	}
	sp := LoadSpecs(os.Getenv("GOVC_SPECS"))
	var sel []*Contract
	for _, id := range sp.order {
		for _, a := range os.Args[1:] {
			if strings.Contains(id, a) && !sp.con[id].assumed {
				sel = append(sel, sp.con[id])
				break
			}
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, con := range sel {
		wg.Add(1)
		go func(con *Contract) {
			defer wg.Done()
			sem <- true
			u := VerifyUnit(p, sp, con)
			<-sem
			mu.Lock()
			defer mu.Unlock()
			bad := 0
			cnt := map[string]int{}
			for _, k := range u.OblOrder {
				if !u.Obl[k].OK {
					bad++
					cnt[u.Obl[k].Label+" @ "+u.Obl[k].Pos]++
				}
			}
			fmt.Printf("%s: %d obligations, %d failed, %d exits, reached %d, %d queries (%d unknown) %.1fs solver %.1fs total\n", u.Name, len(u.Obl), bad, u.Exits, u.Reached, u.Queries, u.Unknown, u.SolverS, u.Secs)
			for _, e := range u.Errors {
				fmt.Println("  ERROR", e)
			}
			for _, k := range sortedKeys(cnt) {
				fmt.Printf("  FAIL x%d %s\n", cnt[k], k)
			}
		}(con)
	}
	wg.Wait()
}

func repoDir() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}
