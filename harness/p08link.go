package main

import (
	"os"
	"path/filepath"

	"pgregory.net/rapid"
)

// A c08Link is a rewrite of files that may be symbolic links, with all sorts of permissions.
type c08Link struct {
	c08Case
	How  []int // by file
	Mode []int
}

func c08LinkGen(t *rapid.T) (in c08Link) {
	in.c08Case = c08Gen(t)
	in.Pad = 0
	for range in.Order {
		in.How = append(in.How, num(t, "how", 0, 5))
		in.Mode = append(in.Mode, pick(t, "mode", 0o644, 0o600, 0o640, 0o664, 0o444, 0o755, 0o666, 0o400))
	}
	return in
}

func c08LinkCheck(c *Ctx, in c08Link) error {
	d := c.Dir()
	old, new, err := in.oldNew(c, d)
	if err != nil {
		return err
	}
	dir, files := in.setup(d, "linked")
	store := filepath.Join(d, "store", "deep")
	infraIf(os.MkdirAll(store, 0o755))
	infraIf(os.Symlink("store", filepath.Join(d, "by")))
	place := map[string]string{} // where a file really is
	links := map[string]string{} // link -> where it leads to
	linked := 0
	link := func(to, at string) {
		infraIf(os.Symlink(to, at))
		links[at] = to
		linked++
	}
	for i, f := range files {
		at := filepath.Join(dir, f)
		to := filepath.Join(store, "real-"+f)
		place[f] = to
		if in.How[i] > 0 {
			infraIf(os.Rename(at, to))
		}
		switch in.How[i] {
		case 0:
			place[f] = at
		case 1:
			link("../store/deep/real-"+f, at)
		case 2:
			link(to, at)
		case 3: // through another link
			link("other-"+f, filepath.Join(d, "store", "first-"+f))
			link(to, filepath.Join(d, "store", "other-"+f))
			link("../store/first-"+f, at)
		case 4: // in a directory that is one
			link("../by/deep/real-"+f, at)
		case 5: // in the same directory
			place[f] = filepath.Join(dir, "real-"+f)
			infraIf(os.Rename(to, place[f]))
			link("real-"+f, at)
		}
		infraIf(os.Chmod(place[f], os.FileMode(in.Mode[i])))
	}
	names := func() map[string]bool {
		m := map[string]bool{}
		infraIf(filepath.Walk(d, func(p string, i os.FileInfo, err error) error {
			m[p] = true
			return err
		}))
		return m
	}
	before := names()
	args := in.args(files)
	o := c.Run(dir, d, "coin", args...)
	if err := mustOK(o, "rewriting links", args); err != nil {
		return err
	}
	changed := false
	for i, f := range files {
		for what, p := range map[string]string{"": filepath.Join(dir, f), " leads to a file that": place[f]} {
			if s := readFile(p); s != new[f] {
				return viol("rewrite: %s%s is\n%s\n--- want\n%s", f, what, s, new[f])
			}
		}
		st, err := os.Lstat(place[f])
		infraIf(err)
		if m := int(st.Mode()); m != in.Mode[i] {
			return viol("rewrite: %s has mode %o, had %o", f, m, in.Mode[i])
		}
		changed = changed || new[f] != old[f]
	}
	for at, to := range links {
		if s, err := os.Readlink(at); err != nil || s != to {
			return viol("rewrite: %s was a link to %s, is to %q (%v)", filepath.Base(at), to, s, err)
		}
	}
	for p := range names() {
		if !before[p] {
			return viol("rewrite: leaves %s behind", filepath.Base(filepath.Dir(p)))
		}
		delete(before, p)
	}
	for p := range before {
		return viol("rewrite: %s is gone", filepath.Base(p))
	}
	c.NonTrivial(linked > 0 && changed)
	c.Label("%s", in.Cmd)
	return nil
}
