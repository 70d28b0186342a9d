package main

// Compiled into cmd/ofx2coin by build.sh only: feeds the repair filter and prints what comes out.

import (
	"encoding/json"
	"errors"
	"io"
	"os"
)

type verifSrc struct {
	data   []byte
	chunks []int
	i      int
	end    error
	with   bool // the end comes together with the last bytes
}

func (s *verifSrc) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, s.end
	}
	n := len(s.data)
	if len(s.chunks) > 0 {
		n = s.chunks[s.i%len(s.chunks)]
		s.i++
	}
	n = min(n, len(s.data), len(p))
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if len(s.data) == 0 && s.with {
		return n, s.end
	}
	return n, nil
}

func init() {
	if os.Getenv("VERIF_BMO") == "" {
		return
	}
	var in struct {
		Data         []byte
		Chunks, Bufs []int
		Fail, With   bool
	}
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		panic(err)
	}
	src := &verifSrc{data: in.Data, chunks: in.Chunks, end: io.EOF, with: in.With}
	boom := errors.New("boom")
	if in.Fail {
		src.end = boom
	}
	r := newBMOReader(src)
	var out struct {
		Data []byte
		End  string
	}
	idle := 0
	for i := 0; ; i++ {
		p := make([]byte, in.Bufs[i%len(in.Bufs)])
		n, err := r.Read(p)
		out.Data = append(out.Data, p[:n]...)
		if err == io.EOF {
			out.End = "EOF"
			break
		} else if err != nil {
			out.End = err.Error()
			break
		}
		if idle++; n > 0 {
			idle = 0
		}
		if idle > 1000 || len(out.Data) > 2*len(in.Data)+100 {
			out.End = "endless"
			break
		}
	}
	json.NewEncoder(os.Stdout).Encode(&out)
	os.Exit(0)
}
