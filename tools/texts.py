prop("P01", "A presentation session's status only ever moves forward",
     "The status an application sees for a session only moves forward: request passed by reference, request delivered, "
     "response received, complete; delivering a request never disturbs a session that is already past that point, and a "
     "completed session never becomes incomplete again. A session is complete only once a response was verified, starts "
     "as 'by reference' exactly when its request has still to be fetched, and is marked delivered when it is fetched.",
     ["schedules", "histories", "crash_points", "fault_sequences"],
     "For every interleaving of retrievals, verifications, polls, removals and builds at store-call granularity, with "
     "failing store calls and operations dropped at any await point, for overlapping operations on the built-in store and "
     "sequential ones on any store.",
     "The tests run one straight history (build, submit, poll) of one session with no overlap, no store failure and no "
     "cancellation.",
     ["src/verifier/mod.rs", "src/verifier/session.rs", "openid4vp-frontend/src/lib.rs"],
     [("retrieve_authorization_request", "src/verifier/mod.rs"), ("verify_response", "src/verifier/mod.rs"),
      ("MemoryStore::update_status", "src/verifier/session.rs"), ("Status ordering", "openid4vp-frontend/src/lib.rs")],
     [("status", "how far a session has come", "src/verifier/session.rs")],
     ["Verifier::poll_status", "SessionStore::get_session"],
     "All schedules of 2 overlapping operations (with a fault and a cancellation), of 3 retrievals/verifications of one "
     "session, all sequential histories of 3 operations on an overwriting store, plus random longer ones; histories of real "
     "threads on the built-in store, explained (or not) by one moment per operation.")
prop("P02", "The recorded outcome is exactly what the response validator decided",
     "Verifying a response for a known session calls the caller's validator exactly once, with that session as stored and "
     "the response as submitted, and when verification returns success the session shows exactly the outcome the "
     "validator returned for it. No validator runs for an unknown session, no outcome appears that no validator of that "
     "session returned, and a failure to record is reported to the caller.",
     ["schedules", "histories", "inputs", "fault_sequences"],
     "For every outcome kind and content, every status the session is in, every overlap with other operations and every "
     "store failure or cancellation point.",
     "One test submits one response whose validator succeeds; no second submission, other outcome kinds, overlap or store "
     "failure is exercised.",
     ["src/verifier/mod.rs", "src/verifier/session.rs"],
     [("verify_response", "src/verifier/mod.rs"), ("MemoryStore::update_status", "src/verifier/session.rs")],
     [("status", "holds the outcome once complete", "src/verifier/session.rs")],
     ["Verifier::poll_status", "the arguments of the validator", "the result of verify_response"],
     "Same behaviours as P01; the formulas about outcomes and validators are evaluated on every recorded run.")
prop("P03", "Sessions are isolated and unknown references have no effect",
     "An operation on one session never changes another session, retrieving a session's request returns exactly the signed "
     "request built for it however often it is fetched, and an operation on an unknown or removed session fails without "
     "effect. An operation on a known session succeeds unless the store reports a failure, which is passed on to the "
     "caller.",
     ["schedules", "histories", "fault_sequences"],
     "For every interleaving of operations on two sessions, including with real threads contending for the store, and "
     "every point at which a store call fails.",
     "The tests use one session at a time from one task, and never an unknown reference, a removal, or a failing store.",
     ["src/verifier/mod.rs", "src/verifier/session.rs"],
     [("retrieve_authorization_request", "src/verifier/mod.rs"), ("MemoryStore", "src/verifier/session.rs")],
     [("session store", "map from session identifier to session", "src/verifier/session.rs")],
     ["Verifier::*", "SessionStore::*"],
     "Same behaviours as P01, plus a multi-threaded stress of the built-in store and histories of real threads that TLC checks for linearizability.")
prop("P04", "Building an authorization request is all or nothing",
     "A request is built exactly when it has a client, a query, a response type, a supported response mode, a nonce and a wallet "
     "that accepts the client's identifier prefix (only 'pre-registered' when it declares none), and signing and storing "
     "succeed; otherwise building fails. A failed build leaves no session behind, and a successful one leaves exactly one "
     "new session, retrievable under the identifier returned.",
     ["inputs", "configurations", "fault_sequences"],
     "For every combination of present, absent and ill-typed parameters, client kinds, delivery modes, wallet metadata and "
     "failing signer or store.",
     "Tests build a handful of complete, correct requests; no test omits or corrupts a parameter or fails the store.",
     ["src/verifier/request_builder.rs", "src/verifier/mod.rs"],
     [("RequestBuilder::build", "src/verifier/request_builder.rs"),
      ("RequestBuilder::build_dc_api", "src/verifier/request_builder.rs")],
     [("session store", "what sessions exist", "src/verifier/session.rs")],
     ["the result of build", "SessionStore::get_session"],
     "All configurations within distance 3 of valid ones.")
prop("P05", "A built request carries the verifier's identity and the caller's parameters",
     "The signed request of a session names the verifier's own client identifier whatever the caller set, directs the "
     "response to the verifier's submission endpoint for that very session, contains the caller's query and every other "
     "parameter unchanged, and is what the URL delivers by value or points to by reference. The session keeps the same "
     "request object and JWT.",
     ["inputs", "configurations"],
     "For every buildable configuration of parameters, defaults, delivery modes and wallet endpoints.",
     "Tests look at one or two built requests and a few of their members.",
     ["src/verifier/request_builder.rs", "src/verifier/mod.rs", "src/verifier/by_reference.rs"],
     [("RequestBuilder::build", "src/verifier/request_builder.rs"), ("ByReference::at", "src/verifier/by_reference.rs")],
     [("authorization_request_object", "the request as stored", "src/verifier/session.rs")],
     ["the URL returned by build", "the JWT's payload", "SessionStore::get_session"],
     "All successful configurations within distance 3 of valid ones.")
prop("P06", "Verifiers and requests come out exactly as they were set up",
     "A verifier is built exactly when it has a client, a session store and a submission endpoint, and uses the latest of each "
     "setting it was given: client, store, endpoint, delivery by value or by reference, default parameters. A request starts "
     "from its verifier's defaults, uses the latest query and parameters given to it in their place, and none of that shows in "
     "other requests of the verifier or in copies of the builders made before.",
     ["histories"],
     "For every history of calls on the two builders up to the bound, with a copy kept at any point.",
     "Tests set each thing once, in one order, and make one request per verifier.",
     ["src/verifier/mod.rs", "src/verifier/request_builder.rs", "src/verifier/by_reference.rs", "src/core/object/mod.rs"],
     [("VerifierBuilder", "src/verifier/mod.rs"), ("RequestBuilder", "src/verifier/request_builder.rs")],
     [("settings", "what was set so far", "src/verifier/mod.rs")],
     ["the result of build", "the URL, signed request and session that come out", "which store holds the session"],
     "All histories of up to 4 calls (thorough: and random ones of up to 10) from an empty and a complete set-up.")
prop("P07", "A wallet trusts no client whose identifier prefix was not authenticated",
     "A request is accepted only if the client identifier prefix is one the wallet declares (only 'pre-registered' when it "
     "declares none) and the one authentication routine for exactly that prefix ran on the received object and JWT and "
     "accepted; an unimplemented routine refuses. Reserved or unknown prefixes are never treated as another kind of "
     "client, and 'origin' is always refused.",
     ["inputs", "configurations"],
     "For every prefix, declared list of prefixes, way of passing the request and verdict of the routines.",
     "Tests cover two or three prefixes with accepting verifiers, never the mismatches between prefix and declaration.",
     ["src/core/authorization_request/verification/mod.rs", "src/core/authorization_request/parameters.rs"],
     [("verify_request", "src/core/authorization_request/verification/mod.rs"),
      ("RequestVerifier", "src/core/authorization_request/verification/mod.rs")],
     [], ["AuthorizationRequest::validate", "the calls to RequestVerifier"],
     "The whole product of the input domain.")
prop("P08", "A wallet accepts only the request it was sent, fetched once and intact",
     "A request URL is accepted only at the wallet's own endpoint (authority and path); the request object is the one "
     "passed by value, or fetched with a single successful GET of the request_uri, or the parameters themselves. A "
     "request object whose JWT is malformed or not typed 'oauth-authz-req+jwt' (redirect_uri clients excepted), whose "
     "client differs from the URL's, or that was not authenticated is refused, and what comes out is exactly what came in.",
     ["inputs", "configurations", "fault_sequences"],
     "For every near miss of the endpoint, way of passing the request, outer and inner client identifier, JWT header and "
     "shape, and HTTP reply.",
     "Tests use two or three well-formed URLs.",
     ["src/core/authorization_request/mod.rs", "src/wallet.rs", "src/core/util/mod.rs"],
     [("AuthorizationRequest::from_url", "src/core/authorization_request/mod.rs"),
      ("AuthorizationRequest::resolve_request", "src/core/authorization_request/mod.rs"),
      ("Wallet::validate_request", "src/wallet.rs")],
     [], ["Wallet::validate_request", "the HTTP requests sent", "the calls to RequestVerifier"],
     "All configurations within distance 3 of valid ones.")
prop("P12", "A request object is unambiguous about where and how to respond",
     "A request object is accepted only with a supported response mode (direct_post when absent), a nonce, a response "
     "type, and exactly the return address its mode calls for: a valid response_uri and no redirect_uri for the "
     "direct_post modes, neither for the dc_api modes. The typed accessors say what the JSON says, and an accepted object "
     "serialises back to the same JSON, unknown members included.",
     ["inputs"],
     "For every presence, type and near-miss value of each member, alone and in combination.",
     "Tests parse a few well-formed objects and one conflict.",
     ["src/core/authorization_request/mod.rs", "src/core/authorization_request/parameters.rs", "src/core/object/mod.rs"],
     [("TryFrom<UntypedObject> for AuthorizationRequestObject", "src/core/authorization_request/mod.rs"),
      ("UntypedObject", "src/core/object/mod.rs")],
     [], ["AuthorizationRequestObject's accessors and serialisation"],
     "All configurations within distance 3 (thorough: 4) of valid ones.")
prop("P13", "A wallet accepts an encrypted-response request only if it can encrypt for it",
     "A request with an encrypted response mode is accepted only if its client metadata has a key usable for encryption "
     "with an algorithm the wallet supports and a content encryption both sides support (with the specified defaults); "
     "malformed metadata is refused. A request with an unencrypted mode needs none of that.",
     ["inputs", "configurations"],
     "For every combination of keys (use, alg), declared encryption values on both sides, response modes and metadata "
     "shapes.",
     "Tests exercise one supported combination.",
     ["src/core/authorization_request/verification/mod.rs", "src/core/authorization_request/parameters.rs"],
     [("verify_request", "src/core/authorization_request/verification/mod.rs")],
     [], ["AuthorizationRequest::validate"],
     "All configurations within distance 3 (thorough: 4) of valid ones.")
prop("P09", "A DID client is authenticated by its own trusted DID's key",
     "did::verify_with_resolver accepts a signed request only if the DID in the JWT's kid (which must name a key with a "
     "fragment) is exactly the DID claimed as client_id, is in the wallet's list of trusted DIDs when one is given, and the "
     "signature verifies under the key the resolver returns for that very kid, with an algorithm the wallet metadata declares. "
     "Nothing untrusted or mismatching is ever resolved, a resolver failure refuses, 'none' is accepted only where the "
     "wallet declares it, and every properly signed request of a trusted DID is accepted.",
     ["inputs", "configurations", "fault_sequences"],
     "For every claimed identifier and kid (near misses included), algorithm label, declared algorithms, trust list, "
     "resolver answer, key type, tampering of the signature and malformation of the JWT.",
     "Tests accept one good request; no near miss, forgery or confusion is tried.",
     ["src/core/authorization_request/verification/did.rs", "src/core/authorization_request/verification/mod.rs"],
     [("verify_with_resolver", "src/core/authorization_request/verification/did.rs")],
     [], ["the result of verify_with_resolver", "the calls to the DIDResolver"],
     "All configurations within distance 3 of valid and of attacking ones, real signatures.")
prop("P10", "An x509_san_dns client is authenticated by its leaf certificate's DNS name",
     "x509_san::validate accepts a request only if it carries a certificate chain whose first certificate has a DNS subject "
     "alternative name equal to the claimed client_id (no wildcard, case folding, other name kinds or later certificates), "
     "the JWT is intact and signed with that certificate's key, and its algorithm is one the wallet metadata declares. "
     "When trusted roots are given the chain must lead to one of them, and every proper request is accepted.",
     ["inputs", "configurations"],
     "For every kind of leaf and following certificate, header encoding, claimed name, algorithm label, declared "
     "algorithms, signer, tampering and malformation.",
     "Tests accept one or two good requests; no other name kind, forgery or chain position is tried.",
     ["src/core/authorization_request/verification/x509_san.rs", "src/core/authorization_request/verification/verifier.rs"],
     [("validate", "src/core/authorization_request/verification/x509_san.rs"),
      ("P256Verifier", "src/core/authorization_request/verification/verifier.rs")],
     [], ["the result of validate"],
     "All configurations within distance 3 of valid and of attacking ones, real certificates and "
     "signatures; the trusted-roots clause is a known finding.")
prop("P11", "An x509_hash client is authenticated by the hash of its leaf certificate",
     "x509_hash::validate accepts a request only if it carries a certificate chain whose first certificate's SHA-256 hash "
     "(over the whole DER, base64url without padding) equals the claimed client_id, the JWT is intact and signed with that "
     "certificate's key, and its algorithm is one the wallet metadata declares. When trusted roots are given the chain must "
     "lead to one of them, and every proper request is accepted.",
     ["inputs", "configurations"],
     "For every kind of leaf and following certificate, header encoding, hash of something else or otherwise spelt, algorithm "
     "label, declared algorithms, signer, tampering and malformation.",
     "Tests accept one or two good requests; no other hash, forgery or chain position is tried.",
     ["src/core/authorization_request/verification/x509_hash.rs", "src/core/authorization_request/verification/verifier.rs"],
     [("validate", "src/core/authorization_request/verification/x509_hash.rs"),
      ("P256Verifier", "src/core/authorization_request/verification/verifier.rs")],
     [], ["the result of validate"],
     "All configurations within distance 3 of valid and of attacking ones, real certificates and "
     "signatures; the trusted-roots clause is a known finding.")
prop("P14", "A presentation leaves the wallet once, in the form the request asked for",
     "Submitting a response sends at most one HTTP POST, to the request's response_uri unchanged, as a form carrying exactly "
     "the response's vp_token and state or its JWT; a plain response to a direct_post.jwt request, or the reverse, is "
     "refused with nothing sent, and dc_api modes send nothing. Success means the verifier answered with a 2xx status, and "
     "the redirect returned is exactly the one in the reply (none if there is none; an unreadable reply is an error).",
     ["inputs", "configurations", "fault_sequences"],
     "For every response mode, response form and content, response_uri, HTTP status or network failure, and reply body.",
     "Tests submit one or two responses to an in-process verifier that always answers well.",
     ["src/wallet.rs", "src/core/response/mod.rs", "src/core/util/mod.rs"],
     [("Wallet::submit_response", "src/wallet.rs"), ("PostRedirection", "src/core/response/mod.rs")],
     [], ["the HTTP requests sent", "the result of submit_response"],
     "All configurations within distance 3 (thorough: 4) of valid ones.")
prop("P15", "Responses survive form encoding and no form is misread",
     "Encoding a response as a form and decoding it gives back the same response (presentations of every shape, state, "
     "JWT), and any standard form decoder reads the same members from it. Decoding an arbitrary form yields the JWT of its "
     "single response member, or else the presentation of its single vp_token with its state if any, and refuses everything "
     "else: missing, repeated or ill-formed members are never guessed.",
     ["inputs"],
     "For every text over characters special to forms, JSON and UTF-8 in every position, and every form of up to three "
     "members with good and bad escapes, names, order and repetition.",
     "Tests round-trip a few plain ASCII responses.",
     ["src/core/response/mod.rs", "src/core/response/parameters.rs"],
     [("AuthorizationResponse::from_x_www_form_urlencoded", "src/core/response/mod.rs"),
      ("UnencodedAuthorizationResponse::into_x_www_form_urlencoded", "src/core/response/mod.rs"),
      ("VpToken", "src/core/response/parameters.rs")],
     [], ["the encoded form", "the decoded response"],
     "Round trips over all texts of length up to 2 at one place and 1 at two places at once; all forms of up to 2 members and, over fewer names and values, "
     "3 (thorough: and random longer ones).")
prop("P22", "A verifier's client identifies itself only as what its key proves",
     "A verifier client can be made only from consistent material: a DID verification method whose resolved key is the "
     "signer's, or a non-empty certificate chain (with a DNS name in the leaf for x509_san_dns); its client_id is its prefix "
     "followed by that DID, that first DNS name or the hash of the leaf. Every request object it signs carries the object "
     "unchanged, names the key or chain in its header, and is accepted by the wallet's routine for that prefix; when the "
     "signer fails no request comes out.",
     ["inputs", "configurations", "fault_sequences"],
     "For every kind of client, verification method, certificate, resolver answer and point at which the signer fails.",
     "Tests make one client of each kind with good material and a signer that never fails.",
     ["src/verifier/client.rs", "src/verifier/request_signer.rs"],
     [("DIDClient", "src/verifier/client.rs"), ("X509SanDnsClient", "src/verifier/client.rs"),
      ("X509HashClient", "src/verifier/client.rs"), ("make_jwt", "src/verifier/client.rs")],
     [], ["Client::id", "Client::generate_request_object_jwt"],
     "All configurations within distance 4 of valid ones.")
prop("P23", "An authorization request URL carries exactly the request put in it",
     "Turning an authorization request into a URL for a wallet endpoint and parsing it back gives the same client_id and "
     "the same request (JWT by value, request_uri, or the parameters themselves), whatever characters they contain, and any "
     "standard URL parser finds the same query members. What a query cannot carry is refused rather than mangled.",
     ["inputs"],
     "For every wallet endpoint shape and every text over characters special to URLs, queries and UTF-8 in every position.",
     "Tests round-trip one or two URLs of plain ASCII.",
     ["src/core/authorization_request/mod.rs"],
     [("AuthorizationRequest::to_url", "src/core/authorization_request/mod.rs"),
      ("AuthorizationRequest::from_url", "src/core/authorization_request/mod.rs")],
     [], ["the URL", "the parsed request"],
     "All configurations within distance 2 (thorough: 3) of valid ones.")
prop("P16", "A DCQL query means the same before and after the wire, and is never empty",
     "A DCQL query reads back from its JSON to the same query and writes the same JSON (an absent meta as an empty object), "
     "however it was made; a query with an empty or ill-typed list of credentials, credential sets, options, claims, claim "
     "sets, path elements, values or trusted authorities, or with a member of the wrong type, is refused. Absent members "
     "mean what the specification says (holder binding and credential sets required, multiple not allowed), and for every "
     "path the namespace is its first element, the element identifier its second and the claim name its last text.",
     ["inputs", "histories"],
     "For every presence, type and content of each member, alone and in combination, parsed or made with setters.",
     "Tests read a few typical queries; few of the malformed ones and paths are tried.",
     ["src/core/dcql_query.rs", "src/utils.rs", "src/core/credential_format/mod.rs"],
     [("DcqlQuery and its parts", "src/core/dcql_query.rs"), ("NonEmptyVec", "src/utils.rs"),
      ("ClaimFormatDesignation", "src/core/credential_format/mod.rs")],
     [], ["reading and writing JSON", "the accessors"],
     "All queries within distance 2 (thorough: 3) of a minimal and of a rich one.")
prop("P17", "The session transcript is bound to exactly the parameters of the presentation",
     "A handover is the CBOR array of its type's name and the SHA-256 hash of the CBOR array of client_id (or origin), nonce, "
     "key thumbprint (null when there is none) and response_uri, for inputs of every length and content; the session "
     "transcript is [null, null, handover] whichever way it is written. Both read back unchanged, and anything else, "
     "the other kind of handover included, is refused; a JWK's thumbprint is RFC 7638's, and depends on nothing but the "
     "members that make up the key.",
     ["inputs"],
     "For every combination of texts (empty, at the length boundaries of CBOR, multi-byte, with special characters) and "
     "thumbprints, every malformed encoding, and every JWK shape.",
     "Tests compare two published vectors and a few lengths.",
     ["src/core/iso_18013_7/mod.rs"],
     [("Handover", "src/core/iso_18013_7/mod.rs"), ("DcApiHandover", "src/core/iso_18013_7/mod.rs"),
      ("SessionTranscript", "src/core/iso_18013_7/mod.rs"), ("compute_jwk_thumbprint", "src/core/iso_18013_7/mod.rs")],
     [], ["the CBOR bytes", "the hash", "what is read back"],
     "All inputs within distance 3 (quick) or 4 and more (thorough) of valid ones; CBOR is spelt out byte by byte in the "
     "specification and its injectivity checked there.")
prop("P18", "An encrypted response goes to the verifier's key, the one the transcript names",
     "A response is encrypted to the first of the verifier's keys that is for encryption (use 'enc' or unstated, alg ECDH-ES, "
     "P-256), with the first content encryption the verifier lists (A128GCM by default) and the key's kid, and contains "
     "exactly the vp_token and state; without such a key, or with unreadable metadata, nothing is encrypted. "
     "get_encryption_jwk_thumbprint names that same key whatever other keys surround it, and never one for signatures.",
     ["inputs", "configurations", "histories"],
     "For every list of up to three (thorough: random lists of five) keys of every kind, every metadata shape and response, and every "
     "history of up to four (thorough: random ones of eight) builder calls.",
     "The tests try two lists of keys and three incomplete builders, and the crate's JWE module is left out of the stable "
     "tests here.",
     ["src/core/jwe.rs", "src/core/iso_18013_7/mod.rs"],
     [("find_encryption_jwk", "src/core/jwe.rs"), ("build_encrypted_response", "src/core/jwe.rs"),
      ("JweBuilder", "src/core/jwe.rs"), ("get_encryption_jwk_thumbprint", "src/core/iso_18013_7/mod.rs")],
     [], ["the JWE", "the thumbprint"],
     "All lists of 3 keys (thorough: and random ones of 5); the cipher itself is not in the sandbox and is replaced by a stand-in that records "
     "what would be encrypted and to whom.")
prop("P19", "Typed parameters read, write and default exactly as the object says",
     "Reading a parameter from an untyped object gives its typed value when the member has the parameter's shape, fails when "
     "it has another, and gives absence or the specification's default when it is missing; inserting, replacing and removing "
     "affects that one member and returns what was there, and the object written out reads back the same with every unknown "
     "member kept. Wallet metadata shows exactly the algorithms, prefixes and formats it was made with or were added since, "
     "also after being written and read back, and the same lists appear under their names in its JSON.",
     ["inputs", "histories"],
     "For every parameter of requests, responses and metadata, every JSON value under its name, and every history of reads, "
     "inserts, removals and round trips up to the bound.",
     "Tests read a few well-formed metadata documents; no test puts a wrong type under a name or mixes typed and untyped use.",
     ["src/core/object/mod.rs", "src/core/authorization_request/parameters.rs", "src/core/metadata/mod.rs",
      "src/core/metadata/parameters/wallet.rs", "src/core/metadata/parameters/verifier.rs", "src/core/response/parameters.rs"],
     [("UntypedObject", "src/core/object/mod.rs"), ("WalletMetadata", "src/core/metadata/mod.rs"),
      ("the parameters", "src/core/authorization_request/parameters.rs")],
     [("object", "the members and their values", "src/core/object/mod.rs")],
     ["UntypedObject::{get, insert, remove, get_or_default}", "WalletMetadata's accessors", "the JSON"],
     "All histories of 2 calls (thorough: and random ones of up to 8) over every parameter and value, and of metadata changes likewise.")
prop("P20", "A session's status reaches the front end unchanged and in order",
     "Every status an application can see is written to JSON and read back as itself, with the error text, failure reason or "
     "success information it carries, and no two different statuses are written alike; statuses compare in the order a "
     "presentation advances: by reference before sent, before received, before every completed one, and of those an error "
     "before a failure before a success, whatever they carry. Status and outcome appear in the JSON under their own names, and what is not the JSON of a status is not read as one.",
     ["inputs"],
     "For every triple of statuses with every kind of outcome and content.",
     "No test writes, reads or compares a status.",
     ["openid4vp-frontend/src/lib.rs", "src/verifier/session.rs"],
     [("Status", "openid4vp-frontend/src/lib.rs"), ("Outcome", "src/verifier/session.rs")],
     [], ["the JSON of a status", "comparisons of statuses"],
     "All triples of the statuses listed in the specification.")
prop("P21", "Only the honest wallet's answer for a session can complete it with success",
     "Put together, verifier and wallet accept only what the other made: a wallet takes a request as a verifier's only if that "
     "verifier signed it, sends the presentation to nobody but the verifier whose request it answers, and a verifier's "
     "session succeeds only if the wallet presented for that very request; without interference the presentation always "
     "succeeds.",
     ["histories", "inputs", "fault_sequences"],
     "For every history of opened links, fetched, substituted, altered or lost request objects and delivered, lost or "
     "redirected responses, by a network run by another registered verifier, for every kind of client, delivery and "
     "response mode.",
     "One test runs one presentation to the end over an honest network.",
     ["src/wallet.rs", "src/verifier/mod.rs", "src/core/authorization_request/mod.rs"],
     [("Wallet::validate_request", "src/wallet.rs"), ("Wallet::submit_response", "src/wallet.rs"),
      ("Verifier::verify_response", "src/verifier/mod.rs"),
      ("Verifier::retrieve_authorization_request", "src/verifier/mod.rs")],
     [("status", "how far each session has come", "src/verifier/session.rs")],
     ["Verifier::poll_status", "what the wallet validates and where it submits"],
     "Every transition of the reachable states, reached by a shortest history, on the real verifier, wallet and keys; longer "
     "random histories when thorough.")
prop("P24", "The HTTP client passes requests and answers on whole or reports an error",
     "ReqwestClient sends the method, URL, headers and body it is given and returns the server's status, headers and body "
     "byte for byte, whatever the status and however the answer is framed; when the server cannot be reached, answers with "
     "nothing or nonsense, or is cut off before the end of the answer, it returns an error and never part of an answer.",
     ["inputs", "fault_sequences"],
     "For every combination of method, path, headers, body, status, framing and fault of the connection up to the bound.",
     "No test uses the real client at all; the wallet's tests use a stand-in.",
     ["src/core/util/mod.rs"],
     [("ReqwestClient", "src/core/util/mod.rs"), ("AsyncHttpClient::execute", "src/core/util/mod.rs")],
     [], ["the request on the wire", "the response returned"],
     "All exchanges within distance 3 of ordinary ones, against a server on the loopback network. "
     "Redirects are left open.")
prop("P25", "A vp_token holds exactly the presentations put under each query's id",
     "A vp_token answers each credential query with the list of presentations last put under its id, in order and each once, "
     "and no other query; ids are compared as written. A presentation given as text stays text whatever it looks like, one "
     "given as an object or as a presentation of the ssi library is exactly its JSON object. Writing the token as JSON, or "
     "into an object, and reading it back changes nothing.",
     ["histories", "inputs"],
     "For every history of insertions and round trips up to the bound, with presentations of every kind.",
     "Tests put one or two presentations into a token once.",
     ["src/core/response/parameters.rs", "src/core/object/mod.rs"],
     [("VpToken", "src/core/response/parameters.rs"), ("VpTokenItem", "src/core/response/parameters.rs")],
     [("vp_token", "query id to presentations", "src/core/response/parameters.rs")],
     ["VpToken::{get, iter, len, is_empty}", "the JSON of the token"],
     "All histories of 2 (thorough: and random ones of up to 8) insertions and round trips from every way of making a token.")
prop("P26", "A credential format is known by exactly its own name",
     "However a credential format identifier is read (from text, JSON, a key of a map, a query), the identifiers of the "
     "specification name their formats and every other name stays itself, near misses included; it is written back as it was "
     "read, and two identifiers are equal, also as keys, only if they are the same text. A claim format is designated by the "
     "name it is written under and writes back the same.",
     ["inputs"],
     "For every pair of standard, unknown and nearly standard names, every way of reading them, and every kind of claim format.",
     "Tests look at four names in one map.",
     ["src/core/credential_format/mod.rs"],
     [("ClaimFormatDesignation", "src/core/credential_format/mod.rs"), ("ClaimFormat::designation", "src/core/credential_format/mod.rs")],
     [], ["ClaimFormatDesignation's conversions", "ClaimFormat::designation", "the JSON"],
     "All pairs of 44 names, read in 15 ways, and the claim formats separately.")
prop("P27", "A nonce drawn is as long as asked, from the generator given, and new",
     "A nonce made by the library has exactly the length asked for, consists of letters and digits, all of which occur, and is "
     "made from fresh output of the generator it is given and from nothing else: another draw gives another nonce, the same state of the "
     "generator gives the same one, and other generators are left alone. However a nonce is passed on (as text, JSON, a "
     "parameter of a request), it stays the same text.",
     ["histories", "inputs"],
     "For every history of draws of any length from several generators, copied and started again.",
     "No test draws a nonce.",
     ["src/core/authorization_request/parameters.rs"],
     [("Nonce::random", "src/core/authorization_request/parameters.rs")],
     [("generator", "the state of the random number generator", "src/core/authorization_request/parameters.rs")],
     ["Nonce::random", "the text and JSON of a nonce"],
     "All histories of 3 (thorough: and random ones of up to 8) draws, copies and restarts of two generators, and 4000 draws of each length.")
prop("P28", "Whatever arrives gets an answer",
     "Whatever bytes, text or JSON the library is handed by the other side (a request URL, a request object by value or fetched, its "
     "header, its certificates, a response form, a reply, a query, metadata, keys, a status, a session transcript), it takes "
     "the message or returns an error: it never panics, crashes or hangs, gives the same message the same answer, and takes a "
     "proper message whatever came before. A signed request that was spoilt after signing is refused.",
     ["inputs", "histories"],
     "For every message spoilt by any of the edits up to the bound, anywhere in it.",
     "Tests parse messages that are well formed, or broken in one expected way.",
     ["src/core", "src/wallet.rs"],
     [("AuthorizationRequest::validate", "src/core/authorization_request/mod.rs"),
      ("AuthorizationResponse::from_x_www_form_urlencoded", "src/core/response/mod.rs"),
      ("verify_with_resolver", "src/core/authorization_request/verification/did.rs"),
      ("validate", "src/core/authorization_request/verification/x509_san.rs")],
     [], ["whether the message is taken or an error is returned"],
     "Every single edit of 17 kinds of message with 43 replacements, and every two edits with three of them (thorough: random ones of up to four edits with all).")
