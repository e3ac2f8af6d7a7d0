#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

PKI = "validator/pki/pki.go"
prop("C01", "Every published VRP is authorised by a complete valid chain",
 "Every route-origin payload (VRP) that validation outputs comes from a ROA whose CMS signature and digest verify under its embedded end-entity certificate, where that certificate and every CA certificate above it is inside its validity period, signed by its issuer, not revoked by its issuer's CRL and inside its issuer's IP and AS resources, up to a trust anchor certificate matching the configured TAL. The VRP's origin AS, prefix and maximum length are exactly those written in the ROA, the maximum length is between the prefix length and the address size, and the prefix lies inside the end-entity certificate's address space. Nothing in any published file (whatever combination of faults it carries) can make another payload appear.",
 ["inputs", "configurations"], "all repository trees (depth, fan-out, resources, inherit, families) and all combinations of injected faults in certificates, CRLs, manifests and ROAs",
 "Unit tests validate one or two hard-coded objects with stubbed parents; they never compose a tree with several simultaneous faults, nor check that an invalid branch contributes nothing.",
 [PKI, "validator/lib/roa.go", "validator/lib/cms.go", "validator/lib/cert.go", "cmd/localrpki/localrpki.go", "cmd/octorpki/octorpki.go"],
 [("certificate chain checks", PKI + " ValidateCertificate/AddCert"), ("ROA checks", PKI + " AddROA, validator/lib/roa.go DecodeROA"), ("invalidations", PKI + " InvalidateObject")],
 ["Validator.ValidROA and ROA.Valids after exploring a file tree", "localrpki / octorpki JSON output"],
 [("ValidObjects", "certificates accepted so far, by subject key", PKI), ("ValidROA", "accepted ROAs, by EE subject key", PKI)])

prop("C02", "Every valid ROA is published, and a bad object costs only itself",
 "When a trust anchor, its manifests, CRLs, CA certificates and ROAs are all valid, validation outputs exactly one payload per ROA entry, for any tree depth and fan-out, IPv4 and IPv6, prefixes or address ranges or inherited resources, absent or explicit maximum length, and single or segmented octet-string content. A ROA that is invalid by itself (bad signature, expired or overclaiming end-entity certificate, bad maximum length, undecodable but correctly listed) removes only its own payloads, and a child CA certificate that is invalid by itself removes only that CA's subtree: all other payloads are still output.",
 ["inputs", "configurations"], "all valid repository trees, and all valid trees with any set of self-contained object faults",
 "Existing tests check single objects; whether the whole walk reaches and keeps every valid object in an arbitrary tree is never exercised.",
 [PKI, "validator/lib/roa.go", "validator/lib/manifest.go", "validator/lib/cert.go", "sync/lib/fetch.go"],
 [("tree walk", PKI + " SimpleManager.Explore/ExploreAdd/PutFiles"), ("ROA decoding", "validator/lib/roa.go"), ("segmented content", "validator/lib/cms.go BadFormatGroup")],
 ["Validator.ValidROA after Explore", "localrpki JSON output"])

prop("C03", "Resource containment is exact, including through inherit chains",
 "A CA or end-entity certificate is accepted only if each IP prefix, IP range, AS number and AS range it lists is contained in one block held by its issuer, where an issuer that uses 'inherit' for a resource type holds what its own issuer holds, through any number of inheriting levels; a certificate contained in this way, or using 'inherit' itself, is never rejected for its resources. The same containment decides which ROA prefixes count as covered by their end-entity certificate. The comparison never mixes address families.",
 ["inputs"], "all combinations of prefixes, ranges, AS numbers and inherit over chains of certificates of any length",
 "The tests contain one fixed parent/child pair per outcome and at most one level of inheritance.",
 [PKI, "validator/lib/cert.go", "validator/lib/roa.go"],
 [("containment", "validator/lib/cert.go IsIPRangeInCertificate/IsASRangeInCertificate/ValidateIPCertificateList/ValidateASNCertificateList"), ("inherit chain walk", PKI + " ValidateCertificate")],
 ["validity verdict of Validator.AddCert", "ROA Valids/Invalids/CheckParent"])

prop("C04", "Revocation takes effect in any order and only where it applies",
 "A certificate listed in a correctly signed CRL of its issuer, and everything issued below it, is not valid once both have been processed, whichever of the CRL, the certificate and its descendants was processed first. A CRL revokes only certificates of the CA that signed it: certificates of other issuers (whatever their serial numbers or key identifiers), and unlisted certificates of the same issuer, keep their validity; a CRL with a wrong signature or unknown issuer revokes nothing.",
 ["histories", "inputs"], "all orders of adding CA, end-entity certificates and CRLs (parents before children), all serial numbers and key identifiers",
 "Tests add one CRL in one order for one serial number; order and cross-issuer collisions are never explored.",
 [PKI], [("revocation index", PKI + " AddCRL, Revoked, CertsSerial"), ("cascade", PKI + " InvalidateObject")],
 ["Validator.ValidObjects / ValidROA / ValidManifest after a history of Add* calls"])

prop("C05", "A CA with an inconsistent manifest publishes nothing (strict mode)",
 "With the default strict settings, if a file listed on a CA's manifest is absent, cannot be read, or does not have the listed SHA-256 hash, or the manifest is outside its thisUpdate..nextUpdate window, then no ROA of that CA or of its descendants is output, wherever in the listing the faulty entry stands and whatever its type. With strict manifest checking disabled, a listed file that is absent, or that has another hash while hashes are checked, costs only itself (and what it certifies): the remaining objects are still processed.",
 ["inputs", "configurations", "fault_sequences"], "all positions and kinds of manifest/file disagreements, all listing orders, both settings",
 "The tests have no manifest-versus-directory disagreement at all.",
 [PKI, "sync/lib/fetch.go"], [("strict manifest", PKI + " Explore, InvalidateManifestParent"), ("hashing", "sync/lib/fetch.go LocalFetch.GetFile")],
 ["Validator.ValidROA after Explore", "localrpki output"])

prop("C06", "A fault in one CA or trust anchor never affects unrelated ones",
 "Whatever a CA publishes at its own publication point (missing, truncated, corrupt, wrongly signed, expired, hostile or inconsistent files), the payloads of every CA that is not below it, and of every other trust anchor, are the same as if it published nothing faulty. This holds for any order in which files and trust anchors are processed.",
 ["inputs", "fault_sequences"], "all trees, all faulty CAs, all byte-level and structural faults within one publication point",
 "No test has two CAs, let alone a faulty and a healthy one side by side.",
 [PKI, "cmd/localrpki/localrpki.go"], [("per-CA invalidation", PKI + " InvalidateObject/InvalidateManifestParent"), ("per-file error handling", PKI + " Explore/ExploreAdd")],
 ["Validator.ValidROA of the healthy CAs"])

prop("C07", "No published content can crash or hang the validator",
 "Decoding or validating any byte string as a certificate, ROA, manifest, CRL, TAL, XML message, BER object or RRDP document returns a value or an error: it never panics, overflows the stack, loops forever or holds memory out of proportion to its input. The same holds for validating a whole repository in which any files carry correctly signed but malformed or inconsistent content, and each such file is at most treated as invalid.",
 ["inputs"], "all byte strings for every decoder, all structurally mutated and re-signed objects inside a repository",
 "Tests feed a handful of recorded well-formed objects.",
 ["validator/lib/ber.go", "validator/lib/cms.go", "validator/lib/cert.go", "validator/lib/roa.go", "validator/lib/manifest.go", "validator/lib/tal.go", "validator/lib/xml.go", PKI, "sync/lib/rrdp.go"],
 [("bounds and error checks in decoders", "validator/lib/*.go"), ("per-file errors", PKI + " AddResource")],
 ["return value or error of Decode*/BER2DER/AddResource/Explore"])

prop("C08", "A signed object is accepted only if its content is exactly what was signed",
 "A ROA, manifest or RPKI XML message is reported as intact if and only if the SHA-256 digest of its content equals its message-digest attribute and its signature is a correct RSA PKCS#1 v1.5 SHA-256 signature over the DER encoding of its signed attributes under the embedded certificate's key. Changing any byte of the content, of a signed attribute or of the signature, substituting another certificate, or presenting a signature value built without the private key makes it not intact; a signed object of that form is never refused.",
 ["inputs"], "all contents, keys (including low public exponents), attribute orders, single and multiple byte changes and constructed forgeries",
 "Tests verify only recorded good objects, never a modified or forged one.",
 ["validator/lib/cms.go", "validator/lib/roa.go", "validator/lib/manifest.go", "validator/lib/xml.go"],
 [("digest and signature check", "validator/lib/cms.go CMS.Validate")],
 ["InnerValid of DecodeROA/DecodeManifest/DecodeXML", "validity verdict of Validator.AddResource"])

prop("C09", "Only the self-signed certificate with the TAL's key becomes a trust anchor",
 "A trust anchor certificate is accepted for a TAL only if its public key equals the key in the TAL and it is correctly self-signed with that key and inside its validity period; with any other certificate at the TAL's location nothing below that trust anchor is output. Parsing a TAL yields its URIs in order and its key for LF or CRLF line ends, comment lines and any base64 line width, and encoding then parsing a TAL, or parsing then encoding it, preserves URIs and key for every RSA key size.",
 ["inputs"], "all TAL texts and RSA keys, all substitutions of the trust anchor certificate",
 "One recorded TAL is parsed and one key size encoded; a mismatching or not self-signed certificate is never presented.",
 ["validator/lib/tal.go", PKI], [("key comparison", "validator/lib/tal.go CheckCertificate"), ("TAL codec", "validator/lib/tal.go DecodeTAL/EncodeTALSize"), ("trust anchor acceptance", PKI + " AddResource/ValidateCertificate")],
 ["Validator verdict for the trust anchor", "DecodeTAL/EncodeTAL results"])

prop("C10", "Resource and access extensions survive an encode/decode round trip",
 "Encoding any set of IP prefixes, IP ranges, inherited families, AS numbers, AS ranges, routing domain identifiers or access descriptions as a certificate extension and decoding it yields the same resources in the same order per address family, and a prefix is encoded as the canonical DER of RFC 3779 (bit length equal to the mask, unused bits zero). Decoding an RFC 3779 extension produced by another encoder yields exactly the addresses it denotes, with range ends filled with ones, and decoded resources can be re-encoded to the same set.",
 ["inputs"], "all resource sets, address families, prefix lengths and range ends, in canonical and non-canonical bit strings",
 "Tests compare a few literal prefixes; range ends at every bit position, both families and re-encoding of decoded values are not covered.",
 ["validator/lib/cert.go"], [("encoders", "validator/lib/cert.go EncodeIPAddressBlock/EncodeASN/EncodeSIA"), ("decoders", "validator/lib/cert.go DecodeIPAddressBlock/DecodeASN/DecodeSubjectInformationAccess")],
 ["decoded resource lists", "extension bytes"])

prop("C11", "Signed objects and CRLs produced by the library verify and decode to their input",
 "For any AS number, ROA entries, manifest content (numbers, times, file names, hashes), XML payload or revocation list, the object the library builds and signs decodes to exactly that content, is reported intact, carries the given signing time, and fails once the content is altered; what it signs has the content types and, for ROAs and manifests, the encoding of RFC 6482, 6486 and 8181 (so that other software reads it too). A CRL it creates verifies under the issuer and lists exactly the given serial numbers, issuer key identifier, CRL number and dates. A signature the library makes over a digest verifies as PKCS #1 v1.5 with SHA-256, and the digest is recovered from it with the public key.",
 ["inputs"], "all contents and RSA keys",
 "Tests build one object of each kind with fixed content.",
 ["validator/lib/roa.go", "validator/lib/manifest.go", "validator/lib/xml.go", "validator/lib/crl.go", "validator/lib/cms.go"],
 [("encoders", "validator/lib EncodeROAEntries/EncodeManifestContent/EncodeXMLData/EncodeCMS/Sign/CreateCRL"), ("decoders", "validator/lib DecodeROA/DecodeManifest/DecodeXML")],
 ["decoded objects"])

prop("C12", "BER to DER conversion keeps the value and yields definite-length DER",
 "Converting a well-formed BER value (indefinite or long-form definite lengths, any nesting up to the depth limit, high tag numbers) yields the same tree of tags and primitive contents with minimal definite lengths; DER input is returned unchanged and the conversion is idempotent. Truncated or inconsistent input (a child running past its parent, a missing end-of-contents marker) is refused with an error, and nothing from outside the object's own encoding enters the result.",
 ["inputs"], "all BER value trees and all encodings of each",
 "No test converts anything but whole recorded manifests.",
 ["validator/lib/ber.go"], [("reader", "validator/lib/ber.go readObject"), ("writer", "validator/lib/ber.go encodeTo")],
 ["BER2DER output or error"])

prop("C13", "Validity periods are judged at the configured validation time",
 "Whether certificates and manifests are current is decided only by the validation time given to the validator, inclusive of both ends of the validity period: shifting every date in a repository and the validation time by the same amount leaves the output unchanged, and an object contributes only at times inside its own, its manifest's and all its ancestors' periods.",
 ["inputs", "configurations"], "all validity windows, validation times at, before and after each end, all time shifts",
 "Tests use recorded objects at one fixed time.",
 [PKI, "validator/lib/cert.go", "cmd/localrpki/localrpki.go"], [("certificate dates", "validator/lib/cert.go ValidateTime"), ("manifest dates", PKI + " Explore")],
 ["Validator.ValidROA for varying Validator.Time", "localrpki -valid.time"])

prop("C14", "Output depends only on the repository content, not on order",
 "The set of payloads is the same for every order of entries on manifests, every order of trust anchors, repeated validation runs, validating trust anchors together or separately, and walking publication points by manifest or by directory listing when every publication point has a directory of its own that holds exactly the listed files. Duplicate or repeated references to the same file do not change it.",
 ["inputs", "configurations"], "all permutations of listings and trust anchors over all generated trees (valid or with faults whose effect is defined)",
 "Each test runs one order.",
 [PKI, "cmd/localrpki/localrpki.go", "sync/lib/fetch.go"], [("work list", PKI + " PutFiles/Explore"), ("repository mode", "sync/lib/fetch.go GetRepository")],
 ["set of VRPs across runs"])

prop("C15", "Decoder strictness is enforced, and configured per validator",
 "With strict decoding, a ROA or manifest whose CMS signature algorithm does not match its certificate's signature algorithm identifier, or lacks the explicit NULL parameter, is refused; with strict decoding off it is judged on its other merits. Changing this setting on one validator never changes what another validator, or the package-level decoding functions, accept.",
 ["inputs", "configurations", "histories"], "all algorithm identifier combinations and all interleavings of configuration changes across validators",
 "Tests never set the option.",
 ["validator/lib/cms.go", "validator/lib/roa.go", PKI], [("strict check", "validator/lib/cms.go CheckSignaturesMatch"), ("configuration", PKI + " NewValidator DecoderConfig")],
 ["error or success of DecodeROA/DecodeManifest"])

prop("C16", "After a successful RRDP update the local copy equals the server's state",
 "Whenever an RRDP fetch reports success, replaying the publish and withdraw events it delivered over the previous local copy gives exactly the set of files (URI and content) the server had at the serial and session it reports, for every server history of publishes, updates, withdrawals, delta windows and session resets, every previous client position, and interrupted earlier attempts. When the client is already current nothing is delivered; a contiguous delta chain is applied in serial order, otherwise the snapshot is used, whose content replaces the copy. No document is fetched twice in an update.",
 ["histories", "fault_sequences"], "all server histories and client positions, with fetch failures at any document",
 "There is no test of the RRDP client at all.",
 ["sync/lib/rrdp.go", "sync/lib/rrdp_struct.go", "cmd/octorpki/rrdp_fetcher.go"], [("state machine", "sync/lib/rrdp.go FetchRRDP/GetRRDP"), ("session and serial", "sync/lib/rrdp.go RRDPSystem")],
 ["callback stream", "SessionID and Serial after a fetch"],
 [("SessionID/Serial", "position of the local copy", "sync/lib/rrdp.go")])

prop("C17", "RRDP data that fails its hash, session, serial or format is not accepted",
 "If a snapshot or delta document does not have the hash announced in the notification, carries a different session or serial, is truncated, is not a well-formed RRDP document of the expected kind, or cannot be applied, the fetch ends in an error or recovers through the snapshot: it never reports success for it, and the recorded session and serial never move past data that was not completely applied, so that a later fetch from an honest server ends up with exactly the server's state.",
 ["fault_sequences", "inputs"], "all corruptions of notification, snapshot and delta documents at any point in a history",
 "There is no test of the RRDP client at all.",
 ["sync/lib/rrdp.go"], [("document checks", "sync/lib/rrdp.go ParseRoot/ParseNode/FetchRRDP"), ("position update", "sync/lib/rrdp.go")],
 ["error and position after a fetch", "local copy after recovery"])

prop("C18", "Repository updates touch exactly the named file inside the cache",
 "Applying an RRDP publish writes exactly that content at the URI's place in the cache directory, and a withdraw removes that file; a URI that is not an rsync URI of the repository's own host, or that contains parent-directory components, changes nothing on disk. Whatever URIs, module names or file names remote data contains, no file or directory outside the cache directory is created, modified, removed or used as a synchronisation target, not even through symbolic links that a repository delivered by rsync contains; and the process keeps running.",
 ["inputs", "histories"], "all URIs and sequences of publishes and withdrawals, all certificate- and TAL-supplied URIs",
 "No test covers writing repository data to disk.",
 ["cmd/octorpki/rrdp_fetcher.go", "cmd/octorpki/rsync_fetcher.go", "cmd/octorpki/octorpki.go", "sync/lib/fetch.go", "sync/lib/rsync.go", "sync/lib/utils.go"],
 [("path checks", "cmd/octorpki/octorpki.go cachePath/WriteRsyncFileOnDisk/RemoveRsyncFileFromDisk, cmd/octorpki/rrdp_fetcher.go"), ("module extraction", "sync/lib/utils.go ExtractRsyncDomainModule"), ("rsync invocation", "sync/lib/rsync.go RunRsync")],
 ["directory tree before and after", "arguments given to rsync"])

prop("C19", "Every repository is fetched once by RRDP, or by rsync when RRDP cannot be",
 "In each iteration, each publication point referenced by a valid certificate is fetched through RRDP if it announces it, and through rsync if it does not or if the RRDP fetch fails and failover is enabled; a repository whose RRDP fetch succeeded is not fetched by rsync, and no repository is fetched twice. With RRDP disabled everything is fetched by rsync; with failover disabled a failed RRDP repository is not fetched by rsync; a failing or hanging repository never prevents the others from being validated. A trust anchor certificate is fetched from the TAL's URIs in order, by rsync when that fails, and again as long as the one in the cache is not valid; a publication point that is not in order in the cache is fetched again.",
 ["histories", "fault_sequences", "configurations"], "all sets of repositories with and without RRDP, all failure combinations, all settings",
 "No test runs a fetch loop.",
 ["cmd/octorpki/octorpki.go", "cmd/octorpki/rrdp_fetcher.go", "cmd/octorpki/rsync_fetcher.go", "sync/lib/rsync.go"],
 [("job maps", "cmd/octorpki/octorpki.go MainReduce/mainRRDP/mainRsync")],
 ["requests seen by HTTP servers", "rsync invocations", "output of the iteration"])

prop("C20", "Route origin validation follows RFC 6811",
 "For every set of payloads and every route (prefix, origin AS), the verdict is Valid if some payload covers the prefix with the same AS (AS 0 matches nothing) and a maximum length not below the route's prefix length, Invalid if payloads cover it but none matches, and Not Found if none covers it, together with the covering payloads that explain it; IPv4 and IPv6 never interact, and payload order and duplicates do not matter.",
 ["inputs"], "all payload sets and routes in both families",
 "A dozen literal cases.",
 ["ov/ov.go"], [("lookup", "ov/ov.go OriginValidator.Validate"), ("index", "ov/ov.go NewOV")],
 ["verdict of Validate"])

prop("C21", "The served list is exactly the validated payloads, filtered, unique and signed",
 "The JSON list octorpki serves or writes holds exactly the distinct (AS, prefix, maximum length) triples of the validated ROAs with their trust anchor names, minus IPv4 prefixes longer than /24 and IPv6 prefixes longer than /48 when filtering is on, and its metadata counts, generation and expiry times agree with its content. When signing is on, its signature and timestamp signature verify with the public half of the configured key over that content, and fail for any other content; validity expires after the configured duration.",
 ["inputs", "configurations"], "all validated payload sets and output settings",
 "Only the filter helper has a table test.",
 ["cmd/octorpki/octorpki.go", "cmd/octorpki/filter.go", "cmd/localrpki/localrpki.go"],
 [("filter", "cmd/octorpki/filter.go FilterDuplicates/FilterInvalidPrefixLen"), ("output and signing", "cmd/octorpki/octorpki.go generateROAList")],
 ["served /output.json", "one-off output file"])

prop("C22", "octorpki serves only complete results, and stops when it should",
 "Until a first stable result exists, the payload list and health endpoints answer with 503 and no payloads; and they answer so again while the program explores a changed repository; any list served is the complete result of a stable iteration, never a partial one, whatever happens in later iterations. After a stable result it waits for -refresh, and then validates again. In one-off mode the program writes the complete stable result and exits, and with an iteration limit it always terminates, with a result.",
 ["histories", "schedules", "configurations"], "all sequences of iterations with growing, failing and recovering repositories, all request times",
 "No test starts the program.",
 ["cmd/octorpki/octorpki.go"], [("stability tracking", "cmd/octorpki/octorpki.go main loop, Stable/HasPreviousStable"), ("handlers", "cmd/octorpki/octorpki.go ServeROAs/ServeHealth")],
 ["HTTP status and body over time", "exit and output of one-off mode"])

prop("C23", "Certificate transparency submissions carry each valid chain completely",
 "For every valid certificate (of a CA, and of a validated ROA or manifest) ctrpki, and octorpki when it is told to and has a result, submit one chain: that certificate followed by its issuers in order up to the trust anchor, each exactly as published and each once; nothing that was not validated is submitted. A log that refuses, fails, breaks off or never answers does not stop the other submissions, and the program ends or goes on.",
 ["inputs", "schedules"], "all repository trees, worker counts and log responses",
 "No test exists for the submission tools.",
 ["cmd/ctrpki/ctrpki.go", "cmd/octorpki/ct.go"], [("chain building", "cmd/ctrpki/ctrpki.go, cmd/octorpki/ct.go"), ("workers", "cmd/ctrpki/ctrpki.go")],
 ["requests received by an add-chain endpoint"])

prop("C24", "Provisioning and publication messages survive a round trip",
 "Every RFC 8183 setup message and RFC 8181 publication message the library models (child_request, parent_response, publisher_request, repository_response, msg with publish, withdraw, list, success and report_error elements) is marshalled as well-formed XML in the namespace and with the attribute names of the RFC, whatever text its fields hold, and reading it back yields an equal value. Messages of another implementation, in whatever XML style, are decoded to their attributes and to their elements in order with tag, uri, hash, error_code and content; a message cut short, of another kind or in another namespace is refused.",
 ["inputs"], "all field values, including markup and non-ASCII characters, and all message sequences",
 "No test covers the message types.",
 ["ca/xml.go"], [("XML mapping", "ca/xml.go struct tags and constructors")],
 ["XML text and decoded messages"])

prop("C25", "Local file access maps URIs to the right file, hash and outcome",
 "Reading a file through the local fetcher returns the bytes of the file at the mapped location for its URI together with their SHA-256 hash, reports an absent file as not found and any other failure as an error, never returns another file's content, and never reads outside the mapped directories; listing a repository delivers every regular file in it exactly once with the same path, content and hash, and type by extension.",
 ["inputs", "configurations"], "all URI/path mappings, file names, directory contents and missing or unreadable files",
 "One test maps one path.",
 ["sync/lib/fetch.go", "sync/lib/utils.go"], [("mapping", "sync/lib/fetch.go GetLocalPath/ReplacePath"), ("reading", "sync/lib/fetch.go GetFile/GetRepository")],
 ["SeekFile returned", "callback calls"])

prop("C26", "The localrpki command reports exactly what the library validates",
 "For any local repository and options, the command line validator exits normally and writes a JSON list holding exactly the payloads of all given TALs' valid ROAs, each labelled with the published URI of its ROA, with the same strictness, time and manifest settings as given on the command line; when a trust anchor is missing or broken the others are still reported.",
 ["inputs", "configurations"], "all repositories, sets of TALs and option settings",
 "No test runs the command.",
 ["cmd/localrpki/localrpki.go"], [("main loop", "cmd/localrpki/localrpki.go main")],
 ["exit status and JSON output"])

prop("C27", "Remote fetches are bounded and fail cleanly",
 "A document fetched over HTTP(S) is accepted only on a success status and only if completely received and within the size limit; oversized, truncated, failing or refused responses give an error and no content, without unbounded buffering, and a server response never stops the program. Only what the protocol reveals counts: the end of a body that is delimited by the connection cannot be told from its truncation.",
 ["inputs", "fault_sequences"], "all response sizes, statuses, headers, encodings and premature ends",
 "No test performs an HTTP fetch.",
 ["sync/lib/rrdp.go", "cmd/octorpki/octorpki.go", "cmd/octorpki/rrdp_fetcher.go"], [("limits", "sync/lib/rrdp.go HTTPFetcher.GetXML"), ("trust anchor download", "cmd/octorpki/octorpki.go fetchTAL over HTTPS")],
 ["fetch result or error"])

prop("C28", "What octorpki tells about a validation agrees with it",
 "When octorpki is in a stable state, /resources.json lists exactly the valid certificates, ROAs and manifests that the payload list comes from, each with its trust anchor, URI, SHA-256 hash, key identifiers, name, serial number and validity, a certificate with its resources and access URIs, a ROA with its AS and payloads, a manifest with its number, times and files; /infos gives the state, the iteration and time of that validation, the number of payloads in the list and of each trust anchor, and the repositories in use; /metrics gives the same counts, state and times, and for each repository the number of fetches that failed and the RRDP serial reached.",
 ["inputs", "histories", "configurations"], "all repository trees, sequences of successful and failing fetches, output settings",
 "No test starts the program or asks these endpoints.",
 ["cmd/octorpki/octorpki.go", "api/schemas/schemas.go"],
 [("resources", "cmd/octorpki/octorpki.go generateROAList"), ("information page", "cmd/octorpki/octorpki.go ServeInfo"), ("metrics", "cmd/octorpki/octorpki.go fetchRRDP/fetchRsync/validationLoop")],
 ["/resources.json, /infos, /metrics and /output.json in one stable state"])

prop("C29", "The programs that work concurrently have no data races",
 "Whatever is fetched, fails and changes, and whatever is asked of its HTTP endpoints meanwhile, octorpki never reads or writes memory that another of its goroutines writes without synchronisation, nor does ctrpki with any number of submission threads.",
 ["schedules", "histories", "configurations"], "all interleavings of fetches, validation, submissions and requests",
 "The tests are not run with the race detector and start no program.",
 ["cmd/octorpki/octorpki.go", "cmd/octorpki/ct.go", "cmd/ctrpki/ctrpki.go"],
 [("shared state", "cmd/octorpki/octorpki.go OctoRPKI"), ("fetch jobs", "cmd/octorpki/octorpki.go rsyncFetchJobManager"), ("submission threads", "cmd/octorpki/ct.go, cmd/ctrpki/ctrpki.go")],
 ["reports of the race detector"])

prop("C30", "What validation refuses is reported",
 "Exploring a repository by its manifests reports each file that was read and refused exactly once on the manager's error channel, with the file it read, the file's hash and the kind of reason (expired or not yet valid, issuer or signature, revoked, resources, conflict, other hash than the manifest's, unreadable), and reports no file that was accepted; in strict mode a certification authority whose publication point is dropped for what it published is reported with the file that caused it. No report is empty.",
 ["inputs", "configurations"], "all repository trees, with any objects faulty in any way, in strict and lax modes",
 "No test reads the error channel.",
 ["validator/pki/pki.go", "validator/pki/errors.go"],
 [("refusals", "validator/pki/pki.go AddResource and the Add* functions"), ("reports", "validator/pki/pki.go ExploreAdd, validator/pki/errors.go")],
 ["values received from SimpleManager.Errors"])

prop("C31", "octorpki recovers from being cut short",
 "However a run of octorpki ends - killed at any point of fetching, writing or validating, failing fetches, a disk on which it cannot write, its RRDP state file cut off - the next run that is left alone, on the cache and state that were left behind, publishes exactly the payload list of what the repositories then hold, as a run without that past would; provided that no directory is published by two RRDP repositories.",
 ["crash_points", "histories", "fault_sequences"], "all points of interruption, failed writes, and changes of the repositories in between",
 "No test starts the program, let alone stops it.",
 ["cmd/octorpki/octorpki.go", "cmd/octorpki/rrdp_fetcher.go", "sync/lib/rrdp.go"],
 [("state file", "cmd/octorpki/octorpki.go LoadRRDPInfo/saveRRDPInfo"), ("cache", "cmd/octorpki/octorpki.go WriteRsyncFileOnDisk"), ("serials", "sync/lib/rrdp.go FetchRRDP")],
 ["output.json of the run after"])

prop("C32", "A run of rsync is reported as it went, and rsync URLs are taken apart right",
 "For any URL, any output and any end of the rsync program, RunRsync makes the target directory, starts the program once with the URL and the directory as its last arguments, and reports exactly the files with an extension of the RPKI (cer, mft, crl, roa, gbr) that the program named, in order, with their full URL and whether they were deleted; it returns an error if and only if the program could not be started, ended with a status other than 0, or did not end in the time of the context, and it returns soon after that time. The file path, folders, module and domain taken from a URL are its own, and the same for everything below a module; the reduction of a set of URLs gives, for each module, the deepest path that all its URLs have in common, in whatever order they were added.",
 ["inputs", "fault_sequences"], "all URLs, outputs and ends of the program, sets of URLs in all orders",
 "Tests look at three URLs and one line.",
 ["sync/lib/rsync.go", "sync/lib/utils.go"], [("running", "sync/lib/rsync.go RunRsync"), ("URLs", "sync/lib/rsync.go, sync/lib/utils.go ExtractRsyncDomainModule"), ("reduction", "sync/lib/utils.go AddInMap/ReduceMap")],
 ["returned list and error", "command line", "results of the exported functions"])

prop("C33", "Validation through the repository API gives what validation of the files gives",
 "A validator that reads a repository through the API client (sync/api) outputs exactly the payloads it outputs when it reads the same files directly, in strict and lax modes, with whatever faults, and with files the server refuses taken as files that are not there. Each file read by name or in a listing has the server's content (converted to DER where it can be, otherwise as it is), the hash of that content as served, the type of its name, and a path by which it is read again; a refusal, and a listing that breaks off, are reported as errors. The messages of the API's other calls arrive as they were sent.",
 ["inputs", "fault_sequences", "configurations"], "all repositories, and all refusals and interruptions of the server",
 "No test uses the API.",
 ["sync/api/fetch.go", "sync/api/cfrpki.pb.go"], [("files", "sync/api/fetch.go FetchFile/GetFile"), ("listings", "sync/api/fetch.go GetRepository"), ("messages", "sync/api/cfrpki.pb.go")],
 ["pki.SeekFile and errors", "Validator.ValidROA"])

prop("C34", "octorpki lists what is valid under the settings it was given",
 "After octorpki's one-off mode has fetched all repositories it was led to, the list it outputs holds every payload that is valid under its settings, and none that is invalid: -strict.manifests, -strict.hash and -strict.cms each decide alone, in all combinations, what a fault in a publication point, a file that differs from what its manifest lists, and a content encoding that is not strict invalidate; -manifest.use=false takes all files of the directories instead of those listed. A fault in one trust anchor's TAL, in one object or in the location a certificate gives takes nothing from the list but what depends on it.",
 ["inputs", "configurations"], "all repositories with faults, all combinations of settings",
 "Tests neither run the program nor look at its settings.",
 ["cmd/octorpki/octorpki.go"], [("settings", "cmd/octorpki/octorpki.go mainValidation"), ("unusable locations", "cmd/octorpki/octorpki.go mainValidation: publishers"), ("TALs", "cmd/octorpki/octorpki.go mainTAL")],
 ["output.json"])

prop("C35", "octorpki answers and acts only where and for whom it was told to",
 "octorpki serves each thing at the path given for it (-output.roa, -http.metrics, -http.info, -http.health, /resources.json) and nothing at any other path, the profiles of -pprof only with that option, and only at the address of -http.addr. Web pages of an origin may read the answers (CORS headers, preflight requests) exactly if -cors.origins allows it, with credentials only if -cors.creds is set, and only by GET or POST. Requests it makes carry the -useragent. It refuses to do anything as user or group root without -allow.root, with a -mode that is none, or with a signing key that is none; it ends with an error status and without a list when it cannot write the output or listen; and with -output.roa= the list is on its standard output, which otherwise stays empty.",
 ["inputs", "configurations"], "all settings, paths, origins and users",
 "Tests never start the server nor the program.",
 ["cmd/octorpki/octorpki.go"], [("paths and origins", "cmd/octorpki/octorpki.go Serve"), ("refusals", "cmd/octorpki/octorpki.go main, runningAsRoot"), ("output", "cmd/octorpki/octorpki.go output"), ("User-Agent", "cmd/octorpki/octorpki.go, sync/lib/rrdp.go HTTPFetcher")],
 ["HTTP responses, exit status, standard output, files"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
