package main

import (
	"bufio"
	"encoding/json"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

// A viewer is a process that runs the bundled browser viewer on exported documents.
type viewer struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type vStep map[string]any

type vResult struct {
	OK    json.RawMessage `json:"ok"`
	Error string          `json:"error"`
	Stack string          `json:"stack"`
}

// get decodes the result of a step; a step that failed gives the failure.
func (r *vResult) get(v any) error {
	if r.Error != "" {
		return viol("the viewer fails: %s\n%s", r.Error, r.Stack)
	}
	infraIf(json.Unmarshal(r.OK, v))
	return nil
}

func (c *Ctx) startViewer() *viewer {
	cmd := exec.Command("node", filepath.Join(verifDir(), "overlay/js/driver.mjs"), filepath.Join(c.bin, "viewer.js"), "/repo/cmd/coin2html/js/body.html")
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + c.root, "TZ=UTC"}
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	infraIf(err)
	out, err := cmd.StdoutPipe()
	infraIf(err)
	infraIf(cmd.Start())
	v := &viewer{cmd, in, bufio.NewReaderSize(out, 1<<20)}
	c.closers = append(c.closers, func() { cmd.Process.Kill(); cmd.Wait() })
	return v
}

// view runs the steps in the viewer of document html; false if the viewer hangs.
func (c *Ctx) view(tz, html string, page bool, steps ...vStep) ([]vResult, bool) {
	v, _ := c.res["viewer"].(*viewer)
	if v == nil {
		v = c.startViewer()
		c.res["viewer"] = v
	}
	b, err := json.Marshal(map[string]any{"tz": tz, "html": html, "page": page, "steps": steps})
	infraIf(err)
	hang := false
	timer := time.AfterFunc(60*time.Second, func() { hang = true; v.cmd.Process.Kill() })
	defer timer.Stop()
	_, err = v.in.Write(append(b, '\n'))
	if err == nil {
		b, err = v.out.ReadBytes('\n')
	}
	if err != nil {
		delete(c.res, "viewer")
		if hang {
			return nil, false
		}
		infraf("viewer process: %v", err)
	}
	var a struct {
		Error   string
		Results []vResult
	}
	infraIf(json.Unmarshal(b, &a))
	if a.Error != "" {
		if strings.Contains(a.Error, "stand-in lacks") {
			panic(undecided{a.Error})
		}
		infraf("viewer: %s", a.Error)
	}
	for i := range a.Results {
		if strings.Contains(a.Results[i].Error, "stand-in lacks") {
			panic(undecided{a.Results[i].Error})
		}
	}
	return a.Results, true
}

// viewOK is view for steps that all have to succeed, decoded into vs.
func (c *Ctx) viewOK(tz, html string, steps []vStep, vs ...any) error {
	rs, ok := c.view(tz, html, false, steps...)
	if !ok {
		return viol("the viewer hangs")
	}
	for i := range rs {
		if i < len(vs) {
			if err := rs[i].get(vs[i]); err != nil {
				return viol("step %v in time zone %s: %v", steps[i], tz, err)
			}
		}
	}
	if len(rs) < len(vs) {
		infraf("viewer did %d of %d steps", len(rs), len(steps))
	}
	return nil
}

// export gives the document that coin2html makes of the ledger in d.
func (c *Ctx) export(d string) (string, error) {
	o := c.Run(d, d, "coin2html")
	if err := mustOK(o, "coin2html"); err != nil {
		return "", err
	}
	return o.Stdout, nil
}

var viewerErr = regexp.MustCompile(`Cannot convert`)

// iso turns a day of the ledger into the form of the viewer.
func iso(d string) string { return strings.ReplaceAll(d, "/", "-") }
