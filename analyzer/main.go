package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
)

func main() {
	repo, verif := "/repo", "/verif"
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	if len(os.Args) == 3 && os.Args[1] == "check" {
		if os.Args[2] == "all" {
			var ids []string
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			rc := 0
			for _, id := range ids {
				if r := runCheck(id, repo, verif); r > rc {
					rc = r
				}
			}
			os.Exit(rc)
		}
		os.Exit(runCheck(os.Args[2], repo, verif))
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		dump(repo, os.Args[2])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "dumpmain" {
		dumpMain(repo)
		return
	}
	if len(os.Args) > 4 && os.Args[1] == "dumphint" {
		nin, _ := strconv.Atoi(os.Args[3])
		nout, _ := strconv.Atoi(os.Args[4])
		dumpHint(repo, os.Args[2], nin, nout)
		return
	}
	fmt.Println("usage: analyzer check <property>")
	os.Exit(2)
}
