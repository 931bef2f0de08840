"""The properties (source of properties.jsonl and MANIFEST.json; run tools/gen.py)."""
def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, na=na)
CORE, DIF, MAC = "crates/core/src/", "crates/dif-exch/src/", "crates/macros/src/"
ISS = "vercre-issuer/src/"
VER = "vercre-verifier/src/"
TK = "every path of the analysed endpoint; storage, metadata and subject services are uninterpreted, so the result holds for any implementation; the protocol crates are type-checked against stubs of their unavailable dependencies"
PROPS = [
P("C01", "Codes, tokens, nonces and state keys are unpredictable and fresh",
  "Every authorization code, access token, nonce, issuer state, URI token, transaction id and notification id is generated afresh on each call from at least 128 bits of randomness: every character is an independent uniform draw over the whole alphabet, no part of it is fixed, repeated or derived from the clock or an earlier value. Each is text safe to put in a URL (base64url without padding).",
  ["inputs", "histories"], "every call of every generator, in any order and number",
  "No test inspects the generators' distribution; a handful of sampled strings cannot show entropy, independence of characters or absence of a fixed seed.",
  [CORE + "gen.rs"], [("random text generators", "gen.rs: auth_code, token, nonce, issuer_state, uri_token, transaction_id, notification_id, random_string")],
  "value-flow (taint/provenance) analysis over MIR with entropy accounting", "decides structure and min-entropy of the generated term; fastrand's own quality is assumed"),
P("C02", "PKCE verifier, challenge and transaction PIN follow their specifications",
  "A generated PKCE code verifier is 43 to 128 characters long, each an independent random draw from the unreserved characters of RFC 7636 (letters, digits, '-', '.', '_', '~'). The code challenge of any verifier is exactly base64url-without-padding of the SHA-256 of the verifier's bytes. A transaction code (PIN) is six independently drawn decimal digits.",
  ["inputs"], "every generated verifier and PIN, every verifier text",
  "A test can only pin one verifier/challenge pair; it cannot rule out a length, alphabet or hashing difference for other inputs.",
  [CORE + "pkce.rs", CORE + "gen.rs"], [("verifier and challenge", "pkce.rs: code_verifier, code_challenge"), ("PIN", "gen.rs: tx_code")],
  "value-flow analysis over MIR: the result term must be the specified composition", "exact on all paths; SHA-256, base64 and fastrand are trusted"),
P("C03", "URL-encoded output: data can never be mistaken for structure",
  "In the URL-encoded form of any value, every character of a key's or value's data other than ASCII letters, digits, '-', '.', '_' and '~' appears only as one percent-escape (escaped exactly once), at the top level and at every nesting depth. So '&' and '=' appear unescaped only as separators of top-level members, and no field's content can add, end or alter another parameter.",
  ["inputs"], "every serialisable value: all string contents (128 ASCII characters and any non-ASCII), all nesting depths",
  "Existing tests encode a few fixed structs without reserved characters in them; the injection and double-escaping cases depend on content and nesting not sampled.",
  [CORE + "urlencode.rs", CORE + "urlencode/ser.rs"], [("encoder", "urlencode.rs: to_string; urlencode/ser.rs: Serializer")],
  "typestate and value-flow analysis of the encoder over MIR plus character-class computation", "per-context obligations for every reachable serializer state; composed by induction over the value"),
P("C04", "URL-encoded output: nesting is always well formed",
  "URL-encoding a struct or text-keyed map yields key=value members joined by single '&', in order and with none lost, and an enum variant its name, '=' and its members (none of them an empty text) in brackets; every nested struct, text-keyed map, sequence, tuple or enum variant is written as well-formed JSON text: matching brackets, members separated by single commas, keys and strings quoted and JSON-escaped, numbers and booleans bare. This holds for empty containers, skipped and absent members, and siblings after nested values at any depth.",
  ["inputs"], "every serialisable value built from the serde data model, any nesting",
  "Tests pin a few shapes; balance and separators depend on the order and depth of nested and empty containers.",
  [CORE + "urlencode/ser.rs"], [("encoder state", "urlencode/ser.rs: Serializer and its compound serializers")],
  "typestate and value-flow analysis of the encoder over MIR, one obligation per (state, data-model method)", "exact per state; induction over the value; three depths analysed and required to agree"),
P("C05", "URL-decoding splits on structure only and never guesses",
  "Decoding a query string yields exactly one member per '&'-separated pair, split at its first '=' before any percent-decoding, so escaped separators stay data; keys and values are each percent-decoded exactly once, and values that are JSON objects or arrays are read as such. A pair without '=' or a repeated key is an error, never silently dropped or overwritten, and no input makes the decoder panic.",
  ["inputs"], "every query string",
  "Tests decode a few well-formed strings; malformed, repeated and escaped-separator inputs are unbounded.",
  [CORE + "urlencode.rs"], [("decoder", "urlencode.rs: from_str")],
  "abstract interpretation of the decoder over MIR on query-string templates with opaque texts", "all pair shapes alone and in ordered pairs (triples in the thorough tier)"),
P("C06", "One-or-many and text-or-object values keep their contents and order",
  "A one-or-many value never loses, duplicates or reorders elements: adding appends at the end (turning a single element into two), and its size and emptiness queries agree with its contents. A single value is written as itself and several as an array, a text-or-object value as text or as the object, and each is read back as the same form; values are equal exactly when form and contents are, in order, and a copy equals its original.",
  ["inputs", "histories"], "every value, element type and sequence of additions",
  "Tests use one element type and short sequences.",
  [CORE + "lib.rs"], [("containers", "lib.rs: Quota, Kind")],
  "value-flow analysis over MIR per variant, and analysis of the derived (de)serialisers", "exact per variant; untagged order checked on the generated code"),
P("C07", "A credential satisfies constraints only if every required field matches",
  "A credential satisfies a set of constraints exactly when every field matches it, where a field marked optional also counts as matching if none of its paths selects anything; constraints with no fields are satisfied. A field that is present but does not match its filter is never satisfied, optional or not, and any error (credential unreadable as claims, malformed path, malformed filter) is reported and never ends in acceptance.",
  ["inputs"], "every constraints object and credential",
  "Tests use one credential and a few single-field constraints; combinations of required, optional, matching, mismatching and malformed fields are not covered.",
  [DIF + "matcher.rs"], [("constraint check", "matcher.rs: Constraints::satisfied, Field matching")],
  "abstract interpretation of the matcher over MIR on constraint templates, outcome compared with the rule", "all combinations of up to two fields of every class (three in the thorough tier)"),
P("C08", "Paths are tried in order and the first matching path decides",
  "A field's paths are tried in the order given; a path that selects nothing, or whose first selected value does not match the filter, moves on to the next path, and the first path whose first selected value matches makes the field match. Only values actually selected from the credential count: with no filter any selected value matches, with no paths or no selection nothing does. A malformed path reached before a match is an error.",
  ["inputs"], "every list of paths, credential and filter",
  "Tests use at most two paths and never a malformed or mismatching first path.",
  [DIF + "matcher.rs"], [("path evaluation", "matcher.rs: Field matching")],
  "abstract interpretation of the matcher over MIR on path-list templates", "all sequences of up to three path classes (four in the thorough tier)"),
P("C09", "Filters accept exactly the values they describe",
  "A const filter accepts a text only if it equals the constant character for character, a pattern filter only if the regular expression matches the text itself (not a quoted or escaped form of it); either accepts a list exactly when it contains such a text, and takes a number by its decimal text. A date or date-time format filter accepts only texts that parse, as a whole, as such. Null and objects are never accepted by any filter, nor are booleans by a pattern or lists by a format.",
  ["inputs"], "every filter and every JSON value",
  "Tests cover one constant and one pattern on one credential; equality of kinds, quoting and nested values need all inputs.",
  [DIF + "matcher.rs"], [("filter semantics", "matcher.rs: Filter matching")],
  "abstract interpretation of the matcher over MIR per filter kind x JSON value kind, acceptance condition proved equivalent to its definition", "opaque texts; lists up to length two"),
P("C10", "Matching never panics, whatever the definition or the credential",
  "Checking a credential against any constraints returns a result or an error for every presentation definition and every credential, including unknown formats, malformed paths and patterns, empty lists, and objects, numbers or nulls where text is expected. It never panics or aborts.",
  ["inputs"], "every presentation definition and credential",
  "Tests never supply malformed or mistyped input.",
  [DIF + "matcher.rs"], [("matcher", "matcher.rs: Constraints::satisfied and everything it calls")],
  "panic-reachability analysis over the MIR call graph of the matcher", "every panicking construct reachable from the entry point must be infeasible on every template"),
P("C11", "Presentation definitions and submissions keep their wire format",
  "Presentation definitions, input descriptors, fields, filters, submissions and descriptor maps are read and written under the member names of Presentation Exchange 2.0; absent optional members are left out when written and stay absent when read, and what is written reads back as the same value. A document missing a required member or repeating a member is an error, and so is a filter with a missing, unknown or second keyword, which would otherwise go unchecked.",
  ["inputs"], "every document and every value of these types",
  "No test reads or writes most of these types; each member's presence and absence is a separate case.",
  [DIF + "lib.rs"], [("wire types", "lib.rs: PresentationDefinition ... PathNested, Filter, FilterValue")],
  "value-flow analysis over the MIR of the (de)serialisers on document templates", "every optional member present/absent singly and complementarily; nested values opaque, composed by induction"),
P("C12", "Request macros reject undefined and repeated keys",
  "A request macro invocation with a top-level key that the request (for its grant type or credential form) does not define fails to compile, wherever the key stands and whatever its value; likewise a key given twice, at the top level or in a nested object. No top-level key is ever silently ignored, and no key overwritten.",
  ["inputs", "programs"], "every invocation of the four request macros",
  "Macro tests only compile accepted invocations; rejection for every other key text cannot be sampled.",
  [MAC + "parse.rs", MAC + "create_offer.rs", MAC + "authorization.rs", MAC + "token.rs", MAC + "credential.rs"], [("input parsing", "parse.rs: Json, Value"), ("consumption check", "parse.rs: check_consumed and its callers")],
  "abstract interpretation of the macros over MIR on token templates with an opaque key", "every acceptance must imply the key is an absent optional key; all positions, forms and value kinds"),
P("C13", "Request macros refuse requests that lack required information",
  "A request macro invocation that leaves out a required key fails to compile with an error naming that key, whatever other keys are present; an empty or non-array list of credential configurations, a nested authorization detail, credential definition or proof that lacks its own required members, or one that is not an object, also fails to compile. No default is made up for required information.",
  ["inputs", "programs"], "every invocation of the four request macros",
  "Macro tests only compile complete invocations.",
  [MAC + "parse.rs", MAC + "create_offer.rs", MAC + "authorization.rs", MAC + "token.rs", MAC + "credential.rs"], [("required keys", "parse.rs: Json::expect; request() of each macro")],
  "abstract interpretation of the macros over MIR on token templates with members left out", "every required member missing alone, in pairs, and with every optional key"),
P("C14", "Request macros put every given value in its own field",
  "The code a request macro generates is one request value in which each given key's value, whether a literal, variable, path, call, array or reference, ends up in the field of that name and nowhere else, converted where the field is text; an absent optional key yields no value (by-value sending and no PIN are the only defaults). Lists keep all their elements in order, authorization details and claims included, independently of key order and trailing commas.",
  ["inputs", "programs"], "every accepted invocation of the four request macros",
  "A few accepted invocations are compiled by tests, with few keys and one kind of value each.",
  [MAC + "parse.rs", MAC + "create_offer.rs", MAC + "authorization.rs", MAC + "token.rs", MAC + "credential.rs"], [("code generation", "request() of each macro; parse.rs: ToTokens for Value")],
  "abstract interpretation of the macros over MIR; generated tokens parsed and compared with a reference", "optional keys alone and in pairs, every value kind per key, every shape of authorization details"),
P("C15", "Request macros accept only the defined grant types, formats and proof types",
  "Wherever a request macro takes one of a fixed set of texts (grant types, credential format, proof type, authorization detail type), a literal outside the set fails to compile, and each member of the set selects its own variant, never another. A grant type, format or proof type that is not a literal text also fails to compile rather than being assumed.",
  ["inputs", "programs"], "every text and value in those positions",
  "Tests only use valid texts.",
  [MAC + "create_offer.rs", MAC + "authorization.rs", MAC + "token.rs", MAC + "credential.rs"], [("closed choices", "grant_types, grant_type, format, proof_type, type")],
  "abstract interpretation of the macros over MIR with an opaque literal in each position", "acceptance must imply membership; 26 positions"),
P("C16", "An access token is issued only for a live, unused code or grant",
  "A token request succeeds only if the presented pre-authorized or authorization code was issued by this server, belongs to the same kind of grant, has not expired, and the server supports that grant; in every other case no token is issued. Before the token is returned the code is removed, so it cannot be exchanged twice, and the token is a freshly generated one stored under exactly the value returned.",
  ["inputs", "histories"], "every token request and every stored state",
  "The issuer crate has no test that builds here; wrong-stage, expired and replayed codes form an unbounded set of histories.",
  [ISS + "token.rs", ISS + "state.rs"], [("token endpoint", "token.rs: token, Context::verify, Context::process")],
  "path-sensitive abstract interpretation of the endpoint over MIR with storage as uninterpreted effects", TK),
P("C17", "A token goes only to the client, PIN, redirect and verifier of its code",
  "A pre-authorized code is exchanged only with exactly the PIN set at offer time (and with none if none was set). An authorization code is exchanged only by the client it was issued to, with the same redirect URI as in the authorization request (absent only if absent there) and a code verifier whose SHA-256 challenge equals the stored challenge. The client must be registered with the server, unless a pre-authorized grant is used anonymously and the server supports that.",
  ["inputs", "histories"], "every token request and every stored state",
  "Each binding fails only for a mismatching pair of request and stored state, which no test supplies.",
  [ISS + "token.rs"], [("bindings", "token.rs: Context::verify")],
  "path-sensitive abstract interpretation of the endpoint over MIR; each binding proved on every successful path", TK),
P("C18", "A token grants exactly what was offered or authorized, never more",
  "The token's stored authorization and the returned authorization details contain only credentials that were offered (pre-authorized) or authorized for that subject; without a request for specific ones they contain all of them, with a request exactly the requested ones. A request naming anything not offered or authorized is refused, and the subject is carried over unchanged.",
  ["inputs", "histories"], "every token request and every stored grant",
  "Subset requests over stored grants of any size cannot be sampled by tests.",
  [ISS + "token.rs"], [("grant computation", "token.rs: Context::process, retain/verify of authorization details")],
  "abstract interpretation of the endpoint over MIR on stored grants of several shapes, results compared with the rule", "grants of up to two credentials, one or two identifiers each; opaque names"),
P("C19", "Authorization requests are accepted only if every requirement holds",
  "An authorization request, direct or pushed, gets a code (or request URI) only if client, server and issuer are known, the redirect URI is one the client registered, response type and authorization-code grant are allowed, the PKCE method is supported with a challenge of 43 to 128 characters, a subject is given, and an offer it refers to is live and for the same subject. A pushed request is used only while it is live, meets the same requirements, and a server requiring pushed requests refuses direct ones but accepts pushed ones.",
  ["inputs", "histories"], "every authorization and pushed authorization request, client, server and stored state",
  "Each requirement is a separate branch that only a violating request exercises; no issuer test builds here.",
  [ISS + "authorize.rs", ISS + "par.rs"], [("request checks", "authorize.rs: Context::verify; par.rs: par")],
  "path-sensitive abstract interpretation of the endpoints over MIR; each requirement proved on every successful path", TK),
P("C20", "An authorization code stands for exactly what was asked and approved",
  "The state stored under an authorization code holds the request's own client, redirect URI, challenge, method and subject, and the response returns that code with the request's state and redirect URI unchanged. What it authorizes is exactly the requested details and scope that the issuer supports and the subject service approved, with the identifiers that service gave; details naming unsupported configurations or claims are refused.",
  ["inputs", "histories"], "every authorization request, issuer metadata and subject decision",
  "The pairing of requested, supported and approved items is combinatorial; no issuer test builds here.",
  [ISS + "authorize.rs"], [("authorization", "authorize.rs: Context::process, verify_authorization_details, verify_scope")],
  "abstract interpretation of the endpoint over MIR on request templates, stored state and response compared with the rule", "up to two details or one scope item; opaque names and claims"),
P("C21", "A credential is issued only for a live token and valid proofs of possession",
  "A credential is issued, or its issuance deferred, only for an access token that this issuer granted, that has not expired, and that covers the requested credential. Where the credential's configuration asks for proofs of possession, at least one proof is given and every proof given has a checked signature, the key-proof type, the unexpired nonce last issued with the token, this issuer as audience and a named key. In every other case nothing is issued.",
  ["inputs", "histories"], "every credential request, stored token and issuer configuration",
  "Expired, replayed, foreign-audience and missing proofs among several are separate histories; no issuer test builds here.",
  [ISS + "credential.rs", ISS + "state.rs"], [("credential endpoint", "credential.rs: credential, Context::verify, Context::authorized")],
  "path-sensitive abstract interpretation of the endpoint over MIR; each guard proved on every path to issuance", TK + "; proofs: single, and lists of up to two"),
P("C22", "An issued credential holds exactly the authorized data of its subject",
  "An issued credential holds exactly the claims the issuer has for the token's subject and the granted credential, narrowed to the claims that were authorized and those the request names; its subject is the key holder who made the proof, its issuer, type and status are those of this issuer and credential, and it is signed by this issuer. While the data is pending a transaction holding the request is saved and no credential is returned. Every issuance replaces the nonce, saves the new one with the token and returns it.",
  ["inputs", "histories"], "every credential request, dataset and grant",
  "The content depends on the combination of grant, request and dataset; no issuer test builds here.",
  [ISS + "credential.rs", ISS + "token.rs"], [("issued content", "credential.rs: Context::process, issue_response, w3c_vc, dataset, defer_response")],
  "value-flow analysis of the endpoint over MIR; signed document compared with the rule", "literal configurations, identifiers and claim names, opaque values; claim subsets of every kind"),
P("C23", "An offer names exactly what was asked for and its PIN stays out of it",
  "An offer is made only for configurations and grants the issuer supports and, if pre-authorized, only for a named subject authorized for each configuration. It names exactly the issuer, configurations and grants asked for, with a fresh code under which its state is saved; by reference, the same offer is saved under the fresh token in its URI. A PIN is generated exactly if asked for with a pre-authorized grant: it is announced in the offer, saved with the code, returned beside the offer and never part of it.",
  ["inputs"], "every offer request and issuer configuration",
  "Grant combinations, PIN and sending form multiply; no issuer test builds here.",
  [ISS + "create_offer.rs"], [("offer endpoint", "create_offer.rs: create_offer, Context::verify, Context::process, credential_offer")],
  "value-flow analysis of the endpoint over MIR for every combination of grants, PIN and sending form", "two configurations; six grant lists; opaque texts"),
P("C24", "An offer by reference is handed out once, unchanged, to the right issuer",
  "Retrieving an offer by its reference succeeds only if such an offer was saved for retrieval under that reference, belongs to the issuer asked and has not expired. It is removed before it is handed out, so the reference works once, and what is returned is exactly the offer saved.",
  ["inputs", "histories"], "every retrieval and stored state",
  "Repeated, late and cross-issuer retrievals are histories.",
  [ISS + "credential_offer.rs"], [("retrieval", "credential_offer.rs: credential_offer")],
  "path-sensitive abstract interpretation of the endpoint over MIR, chained to the state the offer endpoint saves", TK),
P("C25", "Deferred issuance, notification and registration act only on live records",
  "A deferred credential is returned only for a live transaction, for the request saved with it and under all conditions of direct issuance; the transaction is removed when the credential is returned and kept while the data is pending. A notification is accepted once, only for a credential that was issued, and its id gives no access to anything else. A client is registered only with a live access token, with exactly the metadata sent.",
  ["inputs", "histories"], "every request to these endpoints and every stored state",
  "Records of another stage, expired records and repeated calls are histories.",
  [ISS + "deferred.rs", ISS + "notification.rs", ISS + "register.rs"], [("deferred", "deferred.rs: deferred"), ("notification", "notification.rs: notification"), ("registration", "register.rs: register")],
  "path-sensitive abstract interpretation of the endpoints over MIR, chained to the states the other endpoints save", TK),
P("C26", "Announced lifetimes are the lifetimes enforced",
  "Every record an issuer endpoint saves is given to the store with exactly the expiry kept inside it, a fixed time of at most an hour ahead. The lifetimes announced for access tokens, nonces and pushed requests equal the expiry saved for them, also when a rejected proof renews the nonce.",
  ["inputs", "histories"], "every saved record and every response",
  "A test would have to wait for or fake the clock at every boundary.",
  [ISS + "state.rs", ISS + "token.rs", ISS + "credential.rs", ISS + "par.rs", ISS + "create_offer.rs", ISS + "authorize.rs"], [("lifetimes", "state.rs: Expire; every save")],
  "value-flow analysis of every endpoint over MIR with time as a symbolic point", TK),
P("C27", "A storage failure is never reported as success",
  "Whatever an issuer endpoint does, it reports success only if every save to and every removal from the store it performed succeeded. So no code, token, offer or credential is handed out whose state was not saved, and none stays usable because its removal failed.",
  ["inputs", "faults"], "every endpoint, every request, every storage fault",
  "Faults at each storage call of each path are not injected by any test.",
  [ISS + "token.rs", ISS + "credential.rs", ISS + "create_offer.rs", ISS + "authorize.rs", ISS + "par.rs", ISS + "deferred.rs", ISS + "credential_offer.rs"], [("storage calls", "every StateStore::put and purge")],
  "path-sensitive abstract interpretation of every endpoint over MIR; success of each storage call proved", TK),
P("C28", "Presentation requests are fresh, saved as sent and given to the right party",
  "Every presentation request carries a fresh nonce, a fresh state value under which it is saved exactly as handed out, and the input descriptors asked for (at least one), and is made only for a known verifier. Cross-device requests are given by reference only, same-device ones by value only. A request is retrieved by reference only while it is live and only for the verifier it was made for, signed by that verifier and unchanged.",
  ["inputs", "histories"], "every request to the two endpoints",
  "Freshness and identity of saved and sent request hold for all requests or not at all.",
  [VER + "create_request.rs", VER + "request_object.rs"], [("request endpoints", "create_request.rs: create_request; request_object.rs: request_object")],
  "value-flow and must-fact analysis of the endpoints over MIR", TK),
P("C29", "A presentation is accepted only if it answers the request in full",
  "A presentation response succeeds only for a known, live request, and removes it. Every presentation in it is signed, carries the request's nonce and names this verifier as audience; the submission is for the request's definition. For every input descriptor the credential mapped to it is taken from those presentations, has a checked signature by its issuer and is presented by its subject, satisfies that descriptor's own constraints, is in a format asked for and has not expired.",
  ["inputs", "histories"], "every response, request and set of credentials",
  "Pairings of descriptors, mappings, presentations and credentials are combinatorial; no verifier test builds here.",
  [VER + "response.rs", "crates/w3c-vc/src/proof.rs"], [("response endpoint", "response.rs: response, verify, process"), ("proof verification", "proof.rs: verify")],
  "path-sensitive abstract interpretation of the endpoint over MIR, chained to the request saved", "up to two presentations and descriptors in every pairing; opaque paths and credentials; three known findings"),
P("C30", "No input makes the library panic",
  "No request, token, stored record, issuer, server or client metadata, credential or text given to any public function (protocol endpoints, parsers, conversions, builders) makes it panic: what is missing, empty, out of range or malformed is reported as an error. Status list construction and the libraries called are outside the claim.",
  ["inputs"], "every argument, stored state and metadata",
  "A panic takes one unlucky combination of request and metadata to show; tests sample well-formed ones.",
  ["vercre-issuer/src", "vercre-verifier/src", "vercre-holder/src", "crates/openid/src", "crates/w3c-vc/src", "crates/dif-exch/src"], [("public functions", "every function reachable from outside its crate")],
  "reachability of panicking operations by path-sensitive abstract interpretation over MIR, from every public function", "generic arguments; loops by invariants; other libraries taken not to panic; two known findings"),
P("C31", "Requested claims are accepted exactly when supported and complete",
  "Where a credential configuration describes its claims, a wallet's selection of claims is accepted exactly when every claim it names is described at the same place and level, no nested selection is made within a plain claim and no plain selection of a nested set, and every mandatory claim, however deeply nested, is selected. This holds for every credential format; a configuration that describes no claims accepts any selection.",
  ["inputs"], "every pair of described and selected claim trees",
  "The pairings of two trees are combinatorial and the check recurses over both; no test of it builds here.",
  ["crates/openid/src/issuer.rs"], [("claim check", "issuer.rs: CredentialConfiguration::verify_claims, claims_supported, claims_required")],
  "abstract interpretation of the claim check over MIR, on every pairing of claim trees within a bound, against a specification", "two names per level, three levels, all five formats: 4096 pairings and more"),
P("C32", "An error response keeps its code and text, whatever they contain",
  "Every protocol error can be written as JSON and as a query string. Its JSON form has the error code registered for it, the exact description given (quotes, backslashes, line breaks included), and, for a proof error, the fresh nonce and its lifetime, or for pending issuance the interval; nothing else. The query form is the URL encoding of the same members.",
  ["inputs"], "every error and every text in it",
  "Descriptions carry text from requests and other libraries; tests use plain words.",
  ["crates/openid/src/error.rs"], [("error serialisation", "error.rs: Error, Display, Serialize, to_json, to_querystring")],
  "value-flow analysis of the error's formatting and serialisation code over MIR, on opaque texts; unescaped insertion into JSON text is a violation", "all kinds of error; opaque texts and numbers; serde's data model trusted"),
P("C33", "The wallet's steps happen in order and each leaves its record whole",
  "Every wallet endpoint acts only on a stored issuance or presentation that is in the step before it (offer, accept, PIN if the offer asks for one, token or authorization, credentials; request, authorize, present); in any other step, or without a record, it fails, writes nothing and contacts nobody. A step puts the record back under its own id, in the next step, with everything it does not concern unchanged. Saving removes the record exactly when nothing is deferred, cancelling always does, and success is reported only if every write succeeded.",
  ["histories", "faults"], "every endpoint, every recorded step, arbitrary records",
  "Tests walk the happy path; the guarantee is about every other order of calls.",
  ["vercre-holder/src/issuance/*.rs", "vercre-holder/src/presentation/*.rs"], [("step checks", "status comparisons at the head of each endpoint"), ("record write-back", "StateStore::put / purge calls")],
  "exhaustive case analysis over the stored status plus value-flow analysis of every endpoint over MIR, effects recorded", "all statuses; arbitrary records; literal lists of up to two credentials in save"),
P("C34", "The wallet asks only for what was offered, accepted and authorized",
  "Every request the wallet sends is bound to its own issuance: metadata from the offer's (or chosen) issuer, token requests with the offer's code and the PIN entered or with the code received and the same redirect URI, the verifier of the challenge it sent, and its own selection; credential requests name exactly the authorized credentials selected and carry the access token and a fresh key proof for this issuer with the latest nonce. Only offered credentials can be accepted, without a selection all offered are asked for, and an authorization response to another request is refused.",
  ["inputs", "histories"], "every request, arbitrary stored values, lists of up to three credentials",
  "A mixed-up field is invisible in tests that use one credential and permissive mock peers.",
  ["vercre-holder/src/issuance/*.rs"], [("authorization and token requests", "issuance/authorize.rs, issuance/token.rs"), ("credential requests", "issuance/credentials.rs"), ("selection", "issuance/accept.rs")],
  "value-flow analysis of each request field over MIR against the protocol's bindings, on opaque values and literal lists", "one to three credentials per list; opaque values otherwise; peers answer arbitrarily or as listed"),
P("C35", "The wallet keeps only verified credentials, exactly as issued",
  "A credential enters the wallet's record, and from there its credential store, only if its proof was verified; what is kept is the verified content, the text received, and the issuer and display data of its own configuration. Every credential received is added to those kept, a deferred one is recorded with its configuration and dropped when answered, and a response without proofs is refused as a whole. The issuer is told of acceptance only after every credential was stored.",
  ["inputs", "faults"], "every kind of credential response",
  "Tests use one well-formed credential.",
  ["vercre-holder/src/issuance/credentials.rs", "vercre-holder/src/issuance/deferred.rs", "vercre-holder/src/issuance/save.rs", "vercre-holder/src/issuance/cancel.rs"], [("response processing", "credentials.rs: process_credential_response, credential"), ("saving", "save.rs: save")],
  "must-fact and value-flow analysis of response processing over MIR for every response kind", "responses of one or two credentials or a transaction id; opaque contents; signature checking itself trusted"),
P("C36", "A presentation holds the chosen credentials and answers the request made",
  "The wallet records a presentation request only from the link itself or from a fetched request object whose signature was verified, with the credentials its store finds for the request's constraints, and shows exactly those. The presentation it sends is signed as such, with the signer's DID as holder and issuer, the request's nonce and verifier, and exactly the stored credentials as issued; the submission answers each descriptor of the request's definition by id. It goes to the request's response address with the request's state.",
  ["inputs"], "every request, arbitrary stored credentials",
  "Tests use one descriptor and one credential.",
  ["vercre-holder/src/presentation/*.rs", "crates/w3c-vc/src/proof.rs"], [("request handling", "presentation/request.rs"), ("presentation and submission", "presentation/present.rs")],
  "value-flow and must-fact analysis of the presentation endpoints over MIR", "one or two descriptors and credentials; two known findings for requests with several descriptors"),
P("C37", "Request macros accept only one well-formed object",
  "A request macro accepts exactly one object in braces: text keys, each followed by a colon and one value (a text, whole number, boolean, array, object, or Rust expression), members and array elements separated by single commas with at most one trailing. Anything else, at any depth (a missing, doubled or different separator, a key that is not a text, a missing or second value, tokens before or after, other brackets), fails to compile; nothing written in an invocation is skipped.",
  ["inputs", "programs"], "every token sequence given to the four request macros",
  "Macro tests only compile well-formed invocations.",
  [MAC + "parse.rs", MAC + "lib.rs"], [("input parsing", "parse.rs: Parse for Json, Field and Value")],
  "abstract interpretation of the macros over MIR on spoilt token lists", "one fault per token list: every separator and every member of a template with all keys, at every depth; about 1,400 token lists"),
]
