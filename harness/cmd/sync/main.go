//go:build go1.22

// Command sync checks the repository synchronisation library: C16, C17, C25.
package main

import (
	"io"
	"log"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

func main() {
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	pbt.Main(propC16(), propC17(), propC25(), propC32())
}

func stamps(m map[string]bool) map[string]time.Time {
	r := map[string]time.Time{}
	for k := range m {
		r[k] = time.Unix(0, 0)
	}
	return r
}
