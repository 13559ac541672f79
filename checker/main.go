package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	if v := os.Getenv("CHECK_REPO"); v != "" {
		repoDir = v
	}
	if exe, err := os.Executable(); err == nil && filepath.Base(filepath.Dir(exe)) == ".build" {
		verifDir = filepath.Dir(filepath.Dir(exe))
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: checker setup | all | ID [quick|thorough]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "setup":
		if err := setupDeps(repoDir, filepath.Join(verifDir, ".build/deps")); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	case "vocab":
		pr, err := load(repoDir, filepath.Join(verifDir, ".build/deps"))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, n := range pr.vocabulary() {
			fmt.Println(n)
		}
	case "calls":
		dumpCalls(os.Args[2])
	case "list":
		for _, id := range ids() {
			fmt.Println(id)
		}
	case "all":
		rc := 0
		for _, id := range ids() {
			if runCheck(id, "quick") != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	default:
		tier := "quick"
		if len(os.Args) > 2 {
			tier = os.Args[2]
		}
		os.Exit(runCheck(os.Args[1], tier))
	}
}

func ids() []string {
	var r []string
	for id := range checks {
		r = append(r, id)
	}
	sort.Strings(r)
	return r
}
