//go:build go1.22

// Command cli checks the programs localrpki and ctrpki, and octorpki's
// submissions, from outside: C23, C26.
package main

import (
	"io"
	"log"

	"github.com/sirupsen/logrus"

	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

func main() {
	prog.Prepare("localrpki", "ctrpki", "octorpki")
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	pbt.Main(propC23(), propC26())
}
