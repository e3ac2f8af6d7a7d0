//go:build go1.22

// Command octo checks the octorpki program from outside: C18, C19, C21, C22,
// C27, C28, C29, C31, C34.
package main

import (
	"io"
	"log"
	"os"

	"github.com/sirupsen/logrus"

	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

func main() {
	names := []string{"octorpki"}
	for _, a := range os.Args {
		if a == "C29" {
			names = []string{"octorpki-race", "ctrpki-race"}
		}
	}
	prog.Prepare(names...)
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	pbt.Main(propC18(), propC19(), propC21(), propC22(), propC27(), propC28(), propC29(), propC31(), propC34(), propC35())
}
