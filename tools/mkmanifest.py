#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties whose check exists (DONE)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C08": ("property-based testing: generated signed objects, forgery classes and byte mutations against an independent CMS writer", "Search over generated contents, keys and forgeries; the oracle is the generator's own construction. Trusts crypto/rsa and crypto/x509."),
 "C10": ("property-based testing: round trip and differential against an independent RFC 3779 DER writer", "Search over resource sets of both families; ::ffff:0:0/96 left out."),
 "C11": ("property-based testing: round trip of library-produced objects, checked by decoding, crypto/x509 and content alteration", "Search over contents and keys; CRLs are verified by crypto/x509."),
 "C12": ("property-based testing: random BER trees against their DER form, truncations, differential against a second parser", "Search; a few BER forms listed as matters of taste may be accepted or refused."),
 "C01": ("property-based testing: generated repository trees with injected faults, payloads compared with a reference model that knows what may be authorised", "Search over trees of up to 10 CAs and 6 faults; the model is independent of the library's decoders. Cryptographic soundness of RSA/SHA-256 is assumed."),
 "C02": ("property-based testing: generated valid trees and self-contained faults, exact payload counts against a reference model", "Search over tree shapes, resources and encodings."),
 "C03": ("property-based testing: random certificate hierarchies against a set-containment model; ROA coverage against the same", "Search; ::ffff:0:0/96 left out of generated resources here, covered by a fixed regression in C10."),
 "C04": ("stateful property-based testing: histories of certificates, signed objects and CRLs in any order against a set-based model, and whole trees", "Search over histories of up to 12 (24) objects and 4 CRLs."),
 "C05": ("property-based testing: trees with injected listing faults, output compared with the forbidden subtree (strict) and the model (lax)", "Search over the place, kind and order of the fault."),
 "C06": ("metamorphic property-based testing: the same tree with and without faults or hostile constructions, payloads of unrelated CAs compared", "Search over a catalogue of about 60 fault and attack kinds; one known finding (ski-claim) is probed separately."),
 "C09": ("property-based testing: TAL codec round trips and differential, trust anchor substitutions in generated trees", "Search over key sizes, TAL layouts and substitution kinds."),
 "C13": ("metamorphic property-based testing: time shift of whole repositories, and boundary times against the model", "Search; times at 1 ns to 1 day from each end of generated periods."),
 "C14": ("metamorphic property-based testing: permutations of manifests, trust anchors, walking modes and repetitions", "Search; directory walking is compared for publication points with a directory of their own."),
 "C15": ("property-based testing: algorithm identifier matrix, and histories of configuration changes over several validators", "Search; the matrix is covered completely many times over in one run."),
 "C20": ("property-based testing: payload sets and routes against a bit-by-bit RFC 6811 oracle", "Search over prefixes that nest, touch and diverge at every bit; prefixes with host bits set are not generated."),
 "C24": ("property-based testing: XML round trips, and messages of an independent writer in many styles read by the library", "Search over field values, message kinds and writing styles; encoding/xml is trusted as a parser."),
 "C16": ("stateful property-based testing: an RRDP client follows a model server through generated histories; local copy and events against the model", "Search over histories of up to 8 updates; the server is written from RFC 8182."),
 "C17": ("stateful property-based testing with fault injection: corrupted notification, snapshot and delta documents in generated histories", "Search over about 30 kinds of corruption at any document."),
 "C25": ("property-based testing: generated directories, mappings and requests against a model of the mapping", "Search in scratch directories; run as root, so permission failures are not produced, unreadable files are directories."),
 "C07": ("fuzzing: random and structure-aware mutated inputs through every decoder, and generated repositories with malformed but correctly signed content; crash, hang and memory oracle", "Search; a crash of the process counts (isolated child); memory is judged by what the process holds, 128 MB plus 2000 times the input."),
 "C18": ("stateful property-based testing: histories of RRDP events with hostile URIs, certificates, TALs and rsync links against the running program; cache and surroundings compared with a model; kill and restart at random points", "Search over histories of up to 9 updates; rsync is replaced by a program that copies as rsync does."),
 "C19": ("model-based property testing: the running program against HTTP and rsync servers of the harness with injected failures; the log of all fetches is explained by a model of the loop, and the output compared", "Search over trees of up to 8 CAs, lasting and transient failures, restarts on the same cache; loopback HTTP, a stand-in for rsync."),
 "C21": ("property-based testing: the running program on generated trees with repeated payloads; the list against the model, signatures by an implementation of the harness, altered lists", "Search over payload sets, curves, names and validity periods; file and HTTP output, conditional requests."),
 "C22": ("stateful property-based testing: the serving program is asked while the harness holds back fetches and changes what is published; every reply must be explained by the state of a model of the loop", "Search over histories of up to 4 states of the repositories, request times, iteration limits; one-off runs on chains up to 24 deep."),
  "C27": ("property-based testing with injected faults: GetXML and octorpki's trust anchor download against scripted HTTP servers, result compared with what the script sent", "Search over statuses, framings, compression, redirections and premature ends at any octet; sizes around the limits; stalled servers. HTTP/1.x on loopback, no TLS."),
  "C23": ("property-based testing: ctrpki and octorpki over generated repositories, with a scripted log; the received chains compared with those of a model, byte for byte", "Search over trees with faults, thread counts and answers of the log; trees up to about 60 certificates."),
  "C26": ("model-based property testing: localrpki over generated local repositories, options and TALs, its output compared with a reference model", "Search over trees with faults, settings, ways to give the time and directory maps; trees up to about 60 certificates."),
  "C28": ("model-based property testing: list, resources, information page and metrics of the running program in one stable state, against the model of what was fetched and is valid, and against one another", "Search over trees with faults, failing fetches, 1-3 epochs; a certificate whose publication point is not in order may be listed or not; file counts and time of fetches in the metrics are not looked at."),
  "C29": ("property-based testing with the race detector of Go as the oracle: octorpki and ctrpki, built with -race, under generated trees, failures, changes, submissions and concurrent requests", "Search; the detector reports races between accesses that a run performs, in whatever order they came."),
  "C30": ("property-based testing: generated repositories with faults explored by the library; reports compared with what was read, accepted and refused, and with the planted fault", "Search over trees with single and several faults, strict and lax modes."),
  "C32": ("property-based testing with injected faults: a stand-in for rsync with generated output and ends, against what it was told to do; generated URLs and sets of URLs against models", "Search over URLs, lines, delays, statuses, hangs. The real rsync is not run; names with carriage returns or lines beyond 64 KB are not drawn."),
  "C33": ("differential property-based testing over generated repository trees (read directly and through a gRPC server), and generated files, refusals and interrupted streams against what the server holds", "Search over repositories and faults of the server; the stand-in server gives files their full URI."),
  "C34": ("model-based property testing: octorpki in one-off mode over generated sites with faults, all settings of strictness, broken TALs; its list against a reference model", "Search over trees of up to 7 CAs with up to four faults; payloads the model leaves open may be listed or not."),
  "C35": ("model-based property testing: octorpki started with generated settings (paths, address, origins, users, modes, keys, outputs); what it answers at each path and to each origin, and what it leaves behind, against what the settings say", "Search over settings, in serving mode and one-off mode; the rule for origins is written down again in the harness."),
  "C31": ("model-based property testing with injected crashes and write failures: octorpki over RRDP, rsync and HTTPS repositories that change, killed after drawn numbers of fetches or limited in what it can write; list of the next run against the model", "Search over trees, 1-4 cut-short runs, times of the kill in steps of fetches and microseconds, file size limits. No loss of data that was written, except a state file that is cut off."),
}
import sys
extra = os.path.join(root, "tools", "checks.json")
if os.path.exists(extra): T.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []; na = []
for p in props:
    if p in T:
        tech, note = T[p]
        checks.append(dict(property=p, quick_cmd=f"./run.sh {p} quick", thorough_cmd=f"./run.sh {p} thorough",
                           technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=p, reason="the check is not finished yet"))
m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="verif", enable="no hooks were needed: the checks use go build -overlay only", source_commits=[]),
         checks=checks, not_applicable=na, notes="run.sh builds each check from /repo's working tree; see DESIGN.md")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
