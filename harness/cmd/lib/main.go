//go:build go1.22

// Command lib checks the object library: C08, C10, C11, C12, C15.
package main

import "github.com/cloudflare/cfrpki/verifharness/pbt"

func main() {
	pbt.Main(propC08(), propC10(), propC11(), propC12(), propC15())
}
