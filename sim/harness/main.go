package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
)

func main() {
	fix := os.Getenv("VERIF_FIXTURES")
	if fix == "" {
		fix = "/verif/fixtures"
	}
	if err := loadFixtures(fix); err != nil {
		fmt.Fprintln(os.Stderr, "fixtures:", err)
		os.Exit(2)
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|run|replay|plan ...")
		os.Exit(2)
	}
	fl := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	var (
		prop   = fl.String("prop", "", "property")
		base   = fl.Uint64("seed", 1, "base seed")
		tier   = fl.String("tier", "quick", "tier")
		race   = fl.Bool("race", false, "plans of the race build")
		from   = fl.Int("from", 0, "first plan")
		count  = fl.Int("count", 0, "number of plans")
		w      = fl.Int("w", 0, "worker")
		n      = fl.Int("n", 1, "workers")
		skip   = fl.Int("after", -1, "only plans after this one")
		capS   = fl.Float64("cap", 1e9, "seconds")
		plain  = fl.String("plain", "", "plain build")
		raceB  = fl.String("racebin", "", "race build")
		verif  = fl.String("verif", "/verif", "verification directory")
		info   = fl.String("info", "", "build information")
		tmp    = fl.String("tmp", "", "scratch directory")
		budget = fl.Float64("budget", 0, "seconds to explore")
	)
	switch os.Args[1] {
	case "worker":
		_ = fl.Parse(os.Args[2:])
		list := indices(*prop, *race, *from, *count, *w, *n)
		for len(list) > 0 && list[0] <= *skip {
			list = list[1:]
		}
		workerMain(*prop, *base, *tier, list, *capS)
	case "run", "log":
		os.Exit(runMain(os.Args[2], os.Args[1] == "log"))
	case "plan": // print one plan: plan PROP SEED INDEX
		s, _ := strconv.ParseUint(os.Args[3], 10, 64)
		i, _ := strconv.Atoi(os.Args[4])
		b, _ := json.MarshalIndent(makePlan(os.Args[2], s, i, "quick"), "", " ")
		fmt.Println(string(b))
	case "headers": // print the headers of the archives of a replay file
		b, _ := os.ReadFile(os.Args[2])
		var rp Replay
		if json.Unmarshal(b, &rp) == nil && rp.Plan != nil {
			for i := range rp.Plan.Insts {
				a := built(rp.Plan, i)
				fmt.Printf("%d: % x | % x\n", i, a.Hdrs[0], a.Hdrs[1])
			}
		}
	case "check", "replay":
		_ = fl.Parse(os.Args[2:])
		c := &checker{prop: *prop, base: *base, tier: *tier, count: *count, plain: *plain, race: *raceB, verif: *verif, info: *info, tmp: *tmp, capS: *capS, budget: *budget}
		if os.Args[1] == "replay" {
			os.Exit(c.replay(strings.Join(fl.Args(), " ")))
		}
		os.Exit(c.check())
	default:
		os.Exit(2)
	}
}
