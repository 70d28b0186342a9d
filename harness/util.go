package main

import (
	"math/big"
	"regexp"
	"strings"
	"sync"
)

var imatchCache sync.Map

// imatch is a case-insensitive regular expression search.
func imatch(pat, s string) bool {
	r, ok := imatchCache.Load(pat)
	if !ok {
		r = regexp.MustCompile("(?i)" + pat)
		imatchCache.Store(pat, r)
	}
	return r.(*regexp.Regexp).MatchString(s)
}

func bsum(ps []*mPost) *big.Int {
	s := new(big.Int)
	for _, p := range ps {
		s.Add(s, p.Q)
	}
	return s
}

// bars splits a table row.
func bars(line string) []string {
	fs := strings.Split(line, "|")
	for i := range fs {
		fs[i] = strings.TrimSpace(fs[i])
	}
	return fs
}

func lines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

// mustOK is a violation unless the command succeeded quietly.
func mustOK(o *Out, what string, args ...any) error {
	if o.TimedOut {
		return viol("%s: hangs", what)
	}
	if o.Code != 0 {
		return viol("%s: failed with %d: %v\n%s%s", what, o.Code, args, o.Stdout, o.Stderr)
	}
	return nil
}

func firstDiff(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "<nothing>", "<nothing>"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return "got  " + g + "\nwant " + w
		}
	}
	return ""
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
