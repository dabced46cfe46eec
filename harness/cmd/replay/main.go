// Command replay runs harness functions natively on solver models. It reads
// one JSON object per line ({"h":name,"vals":{...}}) and writes one line per
// input with the observed trace.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"verif/harness/h4"
	"verif/harness/h6"
	"verif/harness/hip"
	"verif/harness/sym"
)

type input struct {
	H    string            `json:"h"`
	Vals map[string]uint64 `json:"vals"`
}

type output struct {
	Trace  []string `json:"trace"`
	Failed []string `json:"failed"`
	Panic  string   `json:"panic,omitempty"`
	Assume bool     `json:"assume,omitempty"`
	Err    string   `json:"err,omitempty"`
}

func run(in input) (out output) {
	var f func()
	for _, t := range []map[string]func(){h4.All, h6.All, hip.All} {
		if g, ok := t[in.H]; ok {
			f = g
		}
	}
	if f == nil {
		out.Err = "unknown harness " + in.H
		return
	}
	st := sym.Begin(in.Vals)
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(sym.AssumeFailed); ok {
				out.Assume = true
			} else {
				out.Panic = fmt.Sprint(x)
			}
		}
		out.Trace, out.Failed = st.Trace, st.Failed
	}()
	f()
	return
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	w := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		var in input
		if err := json.Unmarshal(sc.Bytes(), &in); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		b, _ := json.Marshal(run(in))
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}
