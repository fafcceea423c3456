// Command oracle answers one request and exits: what a call does when it is
// the only one ever made in the process.
package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"os"

	"verifsim/obs"
)

func main() {
	arg := os.Args[1]
	if arg == "-" { // too long for an argument
		in, err := io.ReadAll(os.Stdin)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		arg = string(in)
	}
	b, err := base64.StdEncoding.DecodeString(arg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var r obs.Req
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	obs.Pristine = true
	os.Stdout.WriteString("A" + r.Answer())
}
