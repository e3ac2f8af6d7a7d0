//go:build go1.22

// Command pki checks repository validation: C01-C07, C09, C13, C14, C30.
package main

import (
	"io"

	log "github.com/sirupsen/logrus"

	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

func main() {
	log.SetOutput(io.Discard)
	pbt.Main(propC01(), propC02(), propC03(), propC04(), propC05(), propC06(), propC07(), propC09(), propC13(), propC14(), propC30(), propC33())
}
