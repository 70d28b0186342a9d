package main

// Compiled into cmd/gen2coin by build.sh only: makes its random choices a function of VERIF_RND, and
// answers which dates schedules have.

import (
	"encoding/json"
	"math/rand"
	"os"
	"strconv"
	"time"
)

func init() {
	if s := os.Getenv("VERIF_RND"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(err)
		}
		rnd = rand.New(rand.NewSource(n))
	}
	if os.Getenv("VERIF_DATES") == "" {
		return
	}
	var ins []struct {
		Monthly         bool
		Count, Interval int
		Days            []int
		Begin, End      string
	}
	if err := json.NewDecoder(os.Stdin).Decode(&ins); err != nil {
		panic(err)
	}
	parse := func(s string) time.Time {
		t, err := time.Parse("2006/01/02", s)
		if err != nil {
			panic(err)
		}
		return t
	}
	out := [][]string{}
	for _, in := range ins {
		days := []string{}
		var g dateGen
		if in.Monthly {
			g = monthly(in.Count, in.Interval, in.Days...)
		} else {
			var ds []time.Weekday
			for _, d := range in.Days {
				ds = append(ds, time.Weekday(d))
			}
			g = weekly(in.Count, in.Interval, ds...)
		}
		for _, d := range g(parse(in.Begin), parse(in.End)) {
			days = append(days, d.Format("2006/01/02"))
		}
		out = append(out, days)
	}
	json.NewEncoder(os.Stdout).Encode(out)
	os.Exit(0)
}
