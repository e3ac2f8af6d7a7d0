//go:build go1.22

package main

import (
	"fmt"
	"strings"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// strictHistory changes the setting of several validators in any order and
// checks after each step what each of them, and the package functions, accept.
func strictHistory(t *pbt.T) {
	fs := algForms()
	type sample struct {
		kind string
		der  []byte
		ok   bool // acceptable when strict
	}
	var objs []sample
	for _, kind := range []string{"roa", "mft"} {
		objs = append(objs,
			sample{kind, strictObject(t, kind, fs[0], fs[0], true), true},
			sample{kind, strictObject(t, kind, fs[1+t.Intn(3)], fs[0], true), false})
	}
	// refused tells whether the decoder refused the object (validation of its
	// certificate always fails here: it has no issuer).
	add := func(v *pki.Validator, s sample) bool {
		f := &pki.PKIFile{Path: "rsync://h/m/a." + s.kind, Type: pki.TYPE_ROA}
		if s.kind == "mft" {
			f.Type = pki.TYPE_MFT
		}
		_, _, res, err := v.AddResource(f, append([]byte(nil), s.der...))
		return res == nil && err != nil
	}
	type val struct {
		v      *pki.Validator
		strict bool
	}
	var vals []*val
	var hist []string
	for i := t.Range(2, 10); i > 0; i-- {
		switch {
		case len(vals) == 0 || len(vals) < 4 && t.Chance(1, 3):
			vals = append(vals, &val{pki.NewValidator(), true})
			hist = append(hist, "new")
		default:
			k := t.Intn(len(vals))
			vals[k].strict = t.Bool()
			vals[k].v.DecoderConfig.ValidateStrict = vals[k].strict
			hist = append(hist, fmt.Sprintf("set(%d,%v)", k, vals[k].strict))
		}
		for _, s := range objs {
			for k, v := range vals {
				want := s.ok || !v.strict
				if got := !add(v.v, s); got != want {
					t.Failf("after %s: validator %d (strict=%v): %s (well-formed algorithms: %v) decoded=%v, want %v", strings.Join(hist, " "), k, v.strict, s.kind, s.ok, got, want)
				}
			}
			var err error
			if s.kind == "roa" {
				_, err = librpki.DecodeROA(append([]byte(nil), s.der...))
			} else {
				_, err = librpki.DecodeManifest(append([]byte(nil), s.der...))
			}
			if (err == nil) != s.ok {
				t.Failf("after %s: package function: %s (well-formed algorithms: %v) error %v", strings.Join(hist, " "), s.kind, s.ok, err)
			}
		}
	}
	t.Label("validators %d", len(vals))
	t.NonTrivial("%s", strings.Join(hist, " "))
	t.Sample("%s", strings.Join(hist, " "))
}

func propC15() pbt.Property {
	return pbt.Property{
		ID:   "C15",
		Rule: "non-trivial: distinct objects, and distinct histories of configuration changes",
		Suites: []pbt.Suite{
			{Name: "matrix", Rule: "all pairs of signature algorithm identifiers in CMS and certificate, intact and tampered, strict and not", Quick: 8000, Thorough: 200000, Prop: strictMatrix},
			{Name: "history", Rule: "2-10 operations creating validators and changing their setting; every validator and the package functions probed after each", Quick: 1500, Thorough: 50000, Prop: strictHistory},
		},
	}
}
