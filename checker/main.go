// Command bondcheck decides the properties of go-bond/bond by static analysis
// of its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "the repository")
	verif := flag.String("verif", "/verif", "where evidence is written")
	prop := flag.String("property", "", "the property to decide")
	dbg := flag.Bool("debug", false, "interpret one function")
	paths := flag.String("paths", "", "print the paths of a function")
	list := flag.Bool("list", false, "list the properties")
	flag.Parse()
	if *dbg {
		os.Args = append(os.Args[:1], flag.Args()...)
		debugMain()
		return
	}
	if *paths != "" {
		pathsMain(*paths, flag.Args())
		return
	}
	if *list {
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	pr := registry[*prop]
	if pr == nil {
		fmt.Printf("unknown property %q\nVIOLATION property=%s replay=none\n", *prop, *prop)
		os.Exit(1)
	}
	os.Exit(pr.run(*repo, *verif, tier, seed, time.Now()))
}
