#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the statements stay reviewable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None}})


MSG = "src/oidcmsg/message.py"
O2 = "src/oidcmsg/oauth2/__init__.py"
DA = "src/oidcmsg/oauth2/device_authorization.py"
OI = "src/oidcmsg/oidc/__init__.py"
SE = "src/oidcmsg/oidc/session.py"
IA = "src/oidcmsg/oidc/identity_assurance.py"
AB = "src/oidcmsg/storage/abfile.py"
EX = "src/oidcmsg/storage/extension.py"
SQ = "src/oidcmsg/storage/absqlalchemy.py"
CV = "src/oidcmsg/storage/converter.py"
CX = "src/oidcmsg/context.py"
TU = "src/oidcmsg/time_util.py"
IN = "src/oidcmsg/__init__.py"

prop("C01", "JSON and dict serialisation of every message type is lossless",
     "For every message type of the library and every set of well-typed parameter values (including unknown extra parameters, "
     "language-tagged parameters, nested messages and lists of them), converting the message to JSON or to a plain dictionary and "
     "parsing the result as the same type gives an equal message, and serialising that again gives the same document. "
     "Nested parameters come back as messages of the same kind, with all their members. Serialising a message does not change it.",
     ["inputs", "configurations"],
     "every message class x every declared parameter x boundary-rich value alphabet, all parameter pairs, nesting to depth 3",
     "The tests round-trip one or two example messages for a few of the ~70 classes; the (class, parameter, value) product and the nested "
     "combinations are never walked.",
     [MSG, O2, DA, OI, SE, IA],
     [("Message.to_dict / from_dict / _add_value", MSG), ("Message.to_json / from_json", MSG),
      ("per-parameter serializer/deserializer pairs in c_param", OI)],
     ["Message.to_json()/from_json()", "Message.to_dict()/from_dict()"])

prop("C02", "Form-urlencoded serialisation of every message type is lossless",
     "For every message type, encoding its parameters as application/x-www-form-urlencoded and parsing the result as the same type yields the same "
     "parameters with the same values for any Unicode or reserved characters, lists of space-free strings, JSON-valued and nested parameters; numbers and "
     "booleans declared as plain single values come back as their text. Encoding is refused when a required parameter is missing, "
     "and parsing refuses a single-valued parameter that occurs more than once and texts that are no form at all. Other spellings of the same form (order, escapes) give the same message. Encoding again gives the same string.",
     ["inputs", "configurations"],
     "every message class x every declared parameter x alphabet of characters and list shapes; all pairs of parameters",
     "Unit tests encode a handful of ASCII examples for a few classes; separators, percent signs, plus signs, non-ASCII text and "
     "parameter combinations of the other classes are not reached.",
     [MSG, O2, DA, OI, SE, IA],
     [("Message.to_urlencoded / from_urlencoded", MSG), ("list and message serializers", MSG)],
     ["Message.to_urlencoded()", "Message.from_urlencoded()"])

prop("C03", "Request URLs carry exactly the message and keep the target URL",
     "The URL produced for a message and a target location, as query or as fragment, begins with the target location unchanged, keeps every query parameter "
     "the target already had, and parsing its query (or fragment) gives exactly the message's parameters in addition. "
     "This holds for targets with and without an existing query and for every character in parameter values.",
     ["inputs"],
     "all targets in a URL alphabet (with/without path, query, repeated query keys, encoded characters) x all messages of a value alphabet x query/fragment",
     "Tests check two or three literal URLs.",
     [MSG], [("Message.request", MSG)], ["Message.request()"])

prop("C04", "Only authentically signed JWT content is accepted",
     "A signed message parses back to exactly the content that was signed, with the signature header exposed. A token whose header names a signature algorithm "
     "is accepted with verification on only when its signature is valid under a key that the key jar holds for the issuer named in the token (for symmetric "
     "algorithms possibly the receiver's own keys) and that the header's key id does not rule out: altering any part of the token, re-signing it with somebody else's key, using a "
     "public key as a MAC secret, or naming an unknown issuer leads to an error and never to content. The same holds inside an encryption layer, and a token encrypted to someone else is not readable.",
     ["inputs", "configurations"],
     "every signature algorithm family x every key placement (own, issuer, other issuer, absent; with/without/wrong key id) x every single-character tampering position x splice of two tokens",
     "Tests verify a few well-formed tokens and one wrong key; the tampering positions and key-placement configurations are not enumerated.",
     [MSG], [("Message.to_jwt / from_jwt", MSG), ("Message.to_jwe / from_jwe", MSG)],
     ["Message.from_jwt()", "Message.from_jwe()", "jws_header"])

prop("C05", "verify() accepts exactly messages with required and permitted values",
     "For every message type whose rules are purely declarative, verification succeeds (answers True) exactly when every required parameter is present with a value and every "
     "parameter with a list of permitted values holds only permitted ones; zero and False are values. "
     "For types with additional rules, a missing required parameter (unless a signed request object or request URI carries it) or a value outside the permitted list is always refused. Undeclared extra parameters never influence the verdict of declarative rules, and verification can be repeated with the same verdict.",
     ["inputs", "configurations"],
     "every message class x every subset of size <= 2 of required parameters removed or blanked x every permitted/unpermitted value, alone, in lists, at each list position",
     "Tests check required/permitted values for a few parameters of a few classes.",
     [MSG, O2, DA, OI, SE, IA],
     [("Message.verify / _type_check", MSG), ("c_param required flags and c_allowed_values per class", OI)],
     ["Message.verify()"])

prop("C06", "Wrongly typed values never enter a message",
     "However a declared text, integer or boolean parameter (or list of strings) is supplied - as constructor argument, item assignment, dictionary or JSON document - the message afterwards holds "
     "for it either a value of the declared type equal in meaning to the input, or nothing; anything else is refused with an error. "
     "Booleans are never taken for integers or text, decimal text is taken for integers, a number given for an integer may lose its fraction, where a message belongs a message with the given content is held, and a refused assignment leaves the message as it was.",
     ["inputs", "configurations"],
     "every message class x every declared parameter x alphabet of 60 Python/JSON values of all types x 6 entry points x previous value present/absent",
     "Tests try a few wrong values on a few hand-made classes.",
     [MSG, O2, OI, SE, IA, DA],
     [("Message._add_value", MSG), ("Message.__setitem__ / from_dict / from_json", MSG)],
     ["Message(**kw)", "Message[key] = value", "Message.from_dict", "Message.from_json"])

prop("C07", "A message behaves like a dictionary over every operation history",
     "Over any history of assignments (of values the parameter can hold), deletions, updates, merges of other messages, default-setting, copying, weeding of undeclared parameters and removal of blank "
     "ones, a message's keys, values, items, length, membership, lookup with default, equality and extra-parameter view agree with those of a plain dictionary that went through the same history. "
     "Two messages are equal exactly when they are of the same type and hold equal parameters; absent keys raise the lookup error and an update with something that holds no parameters is refused. A copy is equal and afterwards independent, also in its nested values.",
     ["histories"],
     "all operation histories up to depth 4 (thorough 5) over 3 keys (declared, declared list, undeclared), two messages; explicit-state search",
     "Tests exercise single operations on fresh messages.",
     [MSG],
     [("Message MutableMapping methods, update, copy, weed, rm_blanks, set_defaults, extra, only_extras", MSG)],
     ["Message mapping API"], [("_dict", "parameter store of one message", MSG)])

prop("C08", "Messages and message types never leak state into one another",
     "No operation on one message - construction with defaults, mutation of its values, parsing, serialisation, verification - changes any other existing message (save through values its user handed to both), the defaults of messages created later, "
     "or the rules (parameters, permitted values, defaults) of any message type. "
     "The rules of a message type are the same whether or not other modules of the library have been imported or other types have been used, in any order.",
     ["histories", "configurations", "programs"],
     "every message class x every history up to depth 3 of create/mutate/parse/verify/serialise operations on two instances; every import order of the library's message modules",
     "Shared mutable defaults show only when one instance is mutated and another created afterwards; tests use fresh instances and a single import order.",
     [MSG, O2, OI, SE, IA, DA],
     [("Message.__init__ default handling", MSG), ("class-level c_param/c_default/c_allowed_values inheritance by copying", OI)],
     ["defaults of new messages", "class rules before/after"],
     [("c_default / c_allowed_values / c_param", "class-level tables shared by all instances", MSG)])

prop("C09", "An ID Token is accepted exactly when its claims satisfy the receiver",
     "An ID Token verifies only if issuer, subject, audience, expiry and issue time are present; the issuer equals the expected one (when given); the expected client is in the audience; several audiences require an authorised party "
     "contained in them; an authorised party equals the expected client; the nonce equals the expected one (when both are given); it is not refused by time: now minus the allowed skew is not past the expiry, and not past issue time plus the storage time (default four hours). "
     "When all of these hold the token is accepted, whether verified on its own or inside a token response, authorization response, session request or logout request. No response is reported verified when the ID Token it carries is not.",
     ["inputs", "configurations"],
     "full product of per-claim alternatives (absent/blank/matching/mismatching/boundary times at +-1s) x verification arguments, against an independently written decision table, under a virtual clock",
     "Tests check isolated failures with the real clock; the interaction of audience, authorised party, skew and boundary seconds is not enumerated.",
     [OI, SE, TU],
     [("IdToken.verify", OI), ("verify_id_token", OI), ("utc_time_sans_frac", TU)],
     ["IdToken.verify()", "AccessTokenResponse.verify()", "AuthorizationResponse.verify()", "EndSessionRequest.verify()", "RefreshSessionRequest.verify()"])

prop("C10", "Token hashes bind an ID Token to the code and access token",
     "When an ID Token that carries an access token and/or an authorization code is turned into a JWT, the JWT contains the matching hash for the signing algorithm and never the code or token itself. "
     "An authorization response with a signed ID Token is accepted only if the ID Token contains the hash of every access token and code in that response, computed with the hash function of the signing algorithm; a missing or different hash is refused and matching hashes are accepted.",
     ["inputs", "configurations"],
     "all signing algorithms with 256/384/512 hashes x presence of code/token in message x hash absent/right/wrong/other-algorithm/swapped/truncated",
     "Tests cover one algorithm and one missing-hash example each.",
     [OI], [("IdToken.val_hash / pack / to_jwt", OI), ("verify_id_token(check_hash)", OI)],
     ["IdToken.to_jwt()", "AuthorizationResponse.verify()"])

prop("C11", "Unsigned or wrongly signed identity tokens are never accepted silently",
     "An ID Token, ID Token hint or logout token without a signature (algorithm none, or encryption only) is refused unless the receiver explicitly allowed unsigned tokens. "
     "If the receiver demands a signature algorithm, a token signed with any other algorithm is refused, and one signed with that algorithm by the issuer's key is accepted. A signed token of an issuer whose keys the receiver does not hold is refused.",
     ["inputs", "configurations"],
     "all message kinds that carry such a token x header algorithm (none, spelling variants, HS/RS/ES/PS) x signature (valid, stripped, foreign key) x all combinations of the receiver's algorithm settings",
     "Tests check one none-token against one message type.",
     [OI, SE, MSG], [("verify_id_token algorithm gate", OI), ("BackChannelLogoutRequest.verify / EndSessionRequest.verify", SE), ("Message.from_jwt", MSG)],
     ["verify() of token-carrying messages"])

prop("C12", "Verified-token slots only ever hold what verification produced",
     "After a token-carrying message has been verified successfully, each verified-token entry belonging to that message type holds the content of the token verified in this very call, or is absent when no such token was in the message. "
     "Nothing a sender puts into the message, its JSON/form encoding or into a signed request object, and nothing left from an earlier verification, survives as a verified entry.",
     ["inputs", "histories"],
     "all message kinds x all combinations of forged verified entries x token absent/valid/exchanged x direct/within request object x verify repeated after mutation",
     "A smuggled entry shows only in combination with an absent or replaced token, or nested in a request object; tests check the plain positive case.",
     [OI, SE, O2, IN], [("clear_verified_claims / verified_claim_name", OI), ("JWTSecuredAuthorizationRequest / PushedAuthorizationRequest.verify", O2), ("BackChannelLogoutRequest.verify", SE)],
     ["message entries after verify()"])

prop("C13", "Request objects override and bound the request parameters",
     "After verifying an OpenID authorization request or JWT-secured authorization request that carries a request object, the request's parameters are exactly those of the signed object (plus the verified object itself): parameters that appear only outside are gone, and conflicting values are the object's. "
     "A pushed authorization request keeps outside parameters the object lacks. Merging two requests follows the chosen treatment - strict, lax or white list - for every overlap; a request object with an invalid signature changes nothing and is refused.",
     ["inputs", "configurations"],
     "every assignment of {absent, inside only, outside only, both equal, both different} to 4 parameters x 3 request classes x signature valid/invalid; merge: all overlaps x treatments x white lists",
     "Tests merge one or two example requests.",
     [O2, OI], [("AuthorizationRequest.merge", O2), ("JWTSecuredAuthorizationRequest.verify, PushedAuthorizationRequest.verify", O2), ("oidc AuthorizationRequest.verify", OI), ("make_openid_request", OI)],
     ["message content after verify()/merge()"])

prop("C14", "OpenID authorization requests are accepted exactly when well formed",
     "An OpenID authorization request verifies exactly when response type, client, redirect URI and scope are present, the scope contains openid, display and prompt values are permitted ones, an ID Token response type comes with a nonce (equal to the expected one if given), "
     "offline access comes with prompt consent, and prompt none stands alone. The same conditions bind the effective request when its parameters come from a request object.",
     ["inputs", "configurations"],
     "full product of response types, scopes, prompts, display, nonce, required-parameter presence, direct and via request object",
     "Tests check single violations; the product and the request-object route are not covered.",
     [OI, O2], [("oidc AuthorizationRequest.verify", OI)], ["AuthorizationRequest.verify()"])

prop("C15", "Authorization responses meant for another client or issuer are refused",
     "A plain OAuth2 or OpenID authorization response that names a client or issuer is refused when it differs from the expected client or issuer, and an OpenID response whose audience lacks the expected client is refused. "
     "It is accepted when named and expected values agree or when one of the two is not given.",
     ["inputs", "configurations"],
     "full product of named/expected client, issuer and audience values incl. prefixes, case and trailing-slash variants, via dict, JSON and form encoding",
     "Tests check one match and one mismatch each.",
     [O2, OI], [("oauth2 AuthorizationResponse.verify", O2), ("oidc AuthorizationResponse.verify", OI)], ["AuthorizationResponse.verify()"])

prop("C16", "Logout tokens and end-session requests follow the logout rules",
     "A logout token is accepted exactly when it has issuer, audience, issue time, token id and a subject or session id, no nonce, exactly the back-channel logout event with an empty value, an audience containing the expected one and the expected issuer (when given), and an issue time not after now plus the allowed skew. "
     "A back-channel logout request is accepted exactly when the token in it is authentic and acceptable. An end-session request with a redirect URI but without ID Token hint is refused.",
     ["inputs", "configurations"],
     "full product of claim alternatives and verification arguments under a virtual clock, directly and inside a signed back-channel request; all end-session parameter subsets",
     "Tests check individual violations with the real clock.",
     [SE], [("LogoutToken.verify, BackChannelLogoutRequest.verify, EndSessionRequest.verify", SE)], ["LogoutToken.verify()", "BackChannelLogoutRequest.verify()", "EndSessionRequest.verify()"])

prop("C17", "JWT claim sets are accepted only inside their validity window",
     "A generic JWT claim set (and a client authentication token) is refused when now minus skew is past its expiry, when it was issued after now plus skew, when it is not valid until after now plus skew, when the expected audience is not among its audiences, or when its issuer differs from the expected one; "
     "otherwise, with required claims present, it is accepted.",
     ["inputs", "configurations"],
     "full product of exp/nbf/iat at boundary seconds, audience and issuer alternatives, skew values, under a virtual clock",
     "Tests have no case on the boundaries nor on the combination of several time claims.",
     [OI, TU], [("JsonWebToken.verify / AuthnToken", OI)], ["JsonWebToken.verify()"])

prop("C18", "Client registration messages obey the registration rules",
     "A registration request is accepted exactly when it has redirect URIs, permitted application and subject types, an https login-initiation URI (if any), no encryption method without the corresponding encryption algorithm, and no 'none' token endpoint signing algorithm; an algorithm without a method gets the default method A128CBC-HS256 and a given method is kept. "
     "A registration response is accepted only if it has a client id and either both or none of the registration URI and registration access token.",
     ["inputs", "configurations"],
     "full product over the three alg/enc pairs (absent/alg/enc/both), login URI, signing alg, types, redirect URIs; response presence product",
     "Tests check single examples of each rule for one of the three pairs.",
     [OI], [("RegistrationRequest.verify, RegistrationResponse.verify", OI)], ["RegistrationRequest.verify()", "RegistrationResponse.verify()"])

prop("C19", "Provider metadata is accepted exactly when it obeys discovery rules",
     "Provider metadata is accepted exactly when required members are present, supported scopes (if given) include openid and use only permitted scope characters, the issuer is https (unless http is explicitly allowed) without query or fragment, RS256 is among the ID Token signing algorithms, "
     "and a token endpoint is given when any supported response type involves a code.",
     ["inputs", "configurations"],
     "full product of issuer forms, scope lists (every ASCII character), algorithm lists, response type lists, endpoints and required members",
     "Tests check one good document and a few single faults; characters of scopes are not enumerated.",
     [OI], [("ProviderConfigurationResponse.verify, check_char_set", OI)], ["ProviderConfigurationResponse.verify()"])

prop("C20", "User info and error responses are accepted only with valid content",
     "User info with a birth date is refused unless the date is YYYY, YYYY-MM-DD or 0000-MM-DD and a real date, and is never reported valid if any claim is null. "
     "An error response is refused exactly when its description contains a character outside %x20-21 / %x23-5B / %x5D-7E or its error code is not one the message type permits; a message counts as an error exactly when it has an error code.",
     ["inputs", "configurations"],
     "every single character 0-0x17F and special planes at each position of a description; every error class x every known error code; every date shape, month and day incl. leap years; null at each claim",
     "Tests try three descriptions and two birth dates.",
     [O2, OI], [("ResponseMessage.verify", O2), ("OpenIDSchema.verify", OI)], ["ResponseMessage.verify()", "OpenIDSchema.verify()"])

prop("C21", "Claims are matched against claims requests as OpenID Connect defines",
     "A claim value matches a claims-request entry exactly when the entry is null, or has no value constraint (only essential), or equals its single value, or is contained in its value list; the essential flag and the order of members never matter. "
     "Claims requests keep each requested claim, with its null or its constraint, through every serialisation.",
     ["inputs"],
     "all claim specs over members {essential, value, values} in every order x all values of an alphabet; claims requests over all such specs through dict/JSON/form encoding and inside an authorization request",
     "Tests check about ten combinations.",
     [OI], [("claims_match", OI), ("ClaimsRequest, Claims, claims_ser / claims_deser / claims_request_deser", OI)], ["claims_match()", "ClaimsRequest"])

prop("C22", "Identity-assurance claims requests and evidence are validated",
     "A verified-claims request whose members are null or objects is accepted exactly when, for every requested claim and verification member of the schema, the object's essential flag is absent, null or boolean, its requested value(s) have the member's type and its purpose is 3-300 permitted characters long. "
     "Evidence is accepted exactly when it satisfies the rules of its stated kind, or, with no kind stated, of a kind whose members are all present, in which case that kind is recorded. A claims constructor takes only values of the declared type.",
     ["inputs", "configurations"],
     "every claim of the verified-claims schema x every constraint shape at each nesting level; all evidence kinds x all subsets of members; purposes at length boundaries and with every character class",
     "Tests check the draft's examples, nearly all positive.",
     [IA], [("verify_claims_request / _verify_claims_request_value", IA), ("Evidence.verify", IA), ("ClaimsConstructor", IA)],
     ["VerifiedClaimsRequest.verify()", "Evidence.verify()", "ClaimsConstructor"])

prop("C23", "Identity-assurance time stamps denote the same instant in any time zone",
     "Converting a point in time to the identity-assurance time format and back gives the same instant, whatever the local time zone, the season of the instant and the season in which the conversion happens; the same holds for time-stamped documents and verification elements sent from a host in one zone to a host in another. "
     "A time-zone-aware date-time keeps its instant; the date of an instant is its calendar day in the local (or its own) zone, and a date converted there and back or carried in a message stays the same day.",
     ["inputs", "configurations"],
     "all (instant, now, zone) triples over instants around DST switches and year ends x zones with/without DST, half-hour and negative offsets x now in both seasons",
     "Tests run in one zone (UTC) at the current time.",
     [IA], [("to_iso8601_2004 / from_iso8601_2004 / time_stamp_ser / time_stamp_deser", IA)], ["to_iso8601_2004_time", "from_iso8601_2004_time", "Document.to_dict/from_dict"])

prop("C24", "Time comparison, formatting and duration parsing are consistent",
     "Judging whether a point in time lies before or after now, or later than another, gives the same answer for every supported representation (text, seconds, broken-down time) and agrees with the order of the instants, in any local time zone; a missing point restricts nothing; formatting a time a given offset away and parsing it back gives exactly that instant to the second. "
     "Every well-formed duration text is split into exactly its components with its sign, and malformed ones are refused.",
     ["inputs", "configurations"],
     "all ordered pairs of instants around epoch, leap days, year ends x representations x zones under a virtual clock; all durations over component subsets and digit alphabets",
     "Tests use the real clock in UTC and one duration.",
     [TU], [("before, after, later_than, str_to_time, in_a_while, a_while_ago, epoch_in_a_while, utc_time_sans_frac, shift_time", TU), ("parse_duration", TU)],
     ["oidcmsg.time_util functions"])

prop("C25", "The file store is a persistent dictionary for every history",
     "Over any history of set, get, delete, update, membership, listing, length, clear and reopen, by one or several store objects on the same directory (with distinguishable file times; the directory may also be removed by others, which empties the store), each store object behaves like one shared dictionary: it returns the latest value, knows exactly the present keys and signals absent ones. A directory inside the store's directory is no item and stays as it is; files whose content cannot be read as a value do not disturb the other items. "
     "Every key text that (quoted) fits in a file name, including URLs and keys with path separators or reserved characters, maps to its own entry and never touches a file outside the store's directory.",
     ["histories", "inputs"],
     "explicit-state search over all operation histories to depth 4 (thorough 5) over 2-3 keys, 2 values, 2 store objects; all key pairs of a reserved-character alphabet",
     "Tests never use the file store except through one context construction.",
     [AB, CV], [("AbstractFileSystem", AB), ("QPKey, JSON, PassThru", CV)], ["AbstractFileSystem mapping API", "directory content"],
     [("storage / fmtime", "per-object cache and file times", AB)])

prop("C26", "Concurrent users of a file store see only complete, current values",
     "When several processes read, write, list and delete entries of the same file store at the same time, every read returns the complete value of some write (or reports the key absent when it may be), never a mixture, truncation or spurious error, and the operations on one key take effect in some order consistent with real time. "
     "Once the writers are done, every process reads the last value written. None of this depends on whether the store's directory existed before the processes opened the store.",
     ["schedules"],
     "all interleavings at system-call granularity of 2 processes (1-2 operations each) up to a preemption bound of 2 (thorough 3) for every pair of operation scripts",
     "Interleavings between processes are not exercised by any test.",
     [AB], [("FileLock around write/read/unlink, modification-time based cache invalidation", AB)],
     ["AbstractFileSystem operations from separate processes"], [("fmtime", "modification time a cached value belongs to", AB)])

prop("C27", "A crash while writing the file store never damages an entry",
     "If a process dies at any point while setting, updating or deleting an entry of a file store, every other process (and a restarted one) can still open, list, read and write the store: the affected entry has either its complete old or its complete new state, and all other entries are unchanged. "
     "An operation that had returned before the crash is never lost.",
     ["crash_points", "fault_sequences"],
     "every system call of every operation of short histories as crash point, before and after its effect, and every torn-write prefix class; also a failing write (disk full)",
     "No test kills a writer.",
     [AB], [("AbstractFileSystem.__setitem__ / __delitem__", AB)], ["store content after recovery"])

prop("C28", "Stores with different labels on one backing store never interfere",
     "Two labelled stores with different labels on the same directory (or one labelled in-memory store) behave like independent dictionaries: keys set, updated or deleted under one label are listed, readable and counted only under that label, with their original key text, "
     "for every key including empty ones and keys that look like labels.",
     ["histories", "inputs"],
     "explicit-state search over all histories to depth 4 of operations on 2 labelled stores (plus reopen), keys from a colliding alphabet; in-memory labelled store likewise",
     "Only one label is ever used in the tests.",
     [AB, EX], [("key_label, LabeledAbstractFileSystem, LabeledDict", AB)], ["labelled store API"])

prop("C29", "The SQL store is a persistent dictionary for every history",
     "Over any history of set, get, update, delete, membership tests and reopening, by one or several store objects on the same database, a get returns the latest value of the key or nothing when it is absent, membership is true exactly for present keys, listing and iterating show exactly the present entries, update changes only present keys, delete reports how many entries it removed, "
     "and every completed operation is visible to all other store objects and survives reopening.",
     ["histories"],
     "explicit-state search over all operation histories to depth 4 (thorough 5), 2 keys, values that look like keys, 2 store objects",
     "No test uses the SQL store.",
     [SQ, "src/oidcmsg/storage/db_setup.py"], [("AbstractStorageSQLAlchemy", SQ)], ["AbstractStorageSQLAlchemy API"])

prop("C30", "A context keeps keys and stored items across restarts",
     "A context built from a configuration holds exactly the configured keys under its own identity and, if an entity id is known, the same keys under that id; with a persistent key store they are available to a context built later on the same store, isolated per issuer. "
     "Items set in a context are returned unchanged by it and, with a persistent store, by later contexts; messages are returned as their dictionary form and building a context never alters its configuration.",
     ["configurations", "histories"],
     "product of store kinds (none, memory, file, labelled file, per-issuer directories) x key sources (none, definitions, key set, given jar) x entity id x restart histories",
     "Tests build three contexts and inspect owners.",
     [CX, "src/oidcmsg/storage/init.py", EX, AB], [("OidcContext._keyjar, set, get, add_boxes, add_issuer", CX), ("init_storage, storage_factory", "src/oidcmsg/storage/init.py")],
     ["OidcContext.keyjar", "OidcContext.get/set"])

prop("C31", "Message lookup by name yields the protocol's own message type",
     "Asking a protocol's factory for a message by type name with any parameters gives an instance of exactly the class of that name in that protocol, filled with the parameters; the OpenID factory falls back to OAuth2 types it does not define itself; unknown names give nothing.",
     ["inputs", "configurations"],
     "every class name of both modules and non-message names x parameter sets x both factories",
     "Tests look up one or two names.",
     [O2, OI], [("factory", O2), ("factory", OI)], ["oauth2.factory", "oidc.factory"])

prop("C32", "Configured paths are normalised without changing absolute ones",
     "A cleaned-up path always starts with './' and ends with '/', keeps the path's components, and cleaning it again changes nothing. Adding a base path to a configuration prefixes exactly the listed relative path items, at any nesting level, and leaves absolute paths, unlisted items and missing sections alone.",
     ["inputs", "configurations"],
     "all strings up to length 5 over {., /, a, -} for cleaning; all small configuration trees x item specifications for base paths",
     "Neither function is called by any test.",
     [IN], [("proper_path, add_base_path", IN)], ["proper_path()", "add_base_path()"])

prop("C33", "Concurrent users of the SQL store see whole values in one order",
     "When several processes get, set, update, delete and list entries of the same SQL store at the same time, every operation on a key takes effect completely at one moment between its call and its return: a reader sees the value of some completed or running write or no entry when there may be none, two deletions never both count the same entry, an update never revives a deleted key, and nothing fails with a spurious error or waits for ever. "
     "Afterwards every process and a new store read the same final content.",
     ["schedules"],
     "all interleavings at the level of database locks and commits of 2 processes (every pair of operations; 2 operations each) and 3 processes up to a preemption bound",
     "No test uses the SQL store, let alone from two processes.",
     [SQ], [("set, update, delete inside one session transaction", SQ)], ["AbstractStorageSQLAlchemy operations from separate processes"])

prop("C34", "A crash or full disk never damages the SQL store",
     "If a process dies, or a write fails because the disk is full, at any point while setting, updating or deleting an entry of the SQL store, every other process, the failed one and a new one can go on reading and writing the store: the affected key has either its complete old or its complete new state, all other entries are unchanged, "
     "an operation that had returned is never lost and a failed operation leaves no lock behind.",
     ["crash_points", "fault_sequences"],
     "every changing system call of every operation of short histories as crash point, torn-write class or failing write, alone or next to a concurrent operation",
     "No test kills a writer or fills the disk.",
     [SQ], [("commit / rollback around set, update, delete", SQ)], ["store content and usability after recovery"])

prop("C35", "A demanded encryption is enforced",
     "When a receiver demands a key encryption algorithm and/or a content encryption for a token (one value or a list of acceptable ones), a token is only accepted when it is encrypted exactly that way; tokens that are not encrypted, encrypted differently or only pretend to be are refused wherever tokens are read. "
     "A demand that is met, or an empty one, changes nothing about what is accepted and read.",
     ["inputs", "configurations"],
     "60 ways to encrypt and 24 other or malformed tokens x 20 demanded algorithms x 15 demanded content encryptions, through from_jwt, request objects and identity token carriers",
     "Tests try two demands on one token.",
     [MSG, O2, OI], [("Message.from_jwt, encalg/encenc", MSG)], ["Message.from_jwt", "verify() of messages carrying tokens"])

prop("C36", "Message types an application defines keep what they declare",
     "A message type built from the documented parameter templates, on its own or extending another type (adding, tightening or loosening parameters, defaults and permitted values, with rules of its own and a wildcard for undeclared parameters) holds exactly the values it is given or its defaults, takes only values of the declared kinds, "
     "is valid exactly when its required parameters are present, permitted values are used and the rules of all the types it extends hold, and survives dictionary, JSON and form transport. Defining a type never alters the type it extends.",
     ["inputs", "configurations"],
     "every ordered pair of 28 templates x 3 parents x default x permitted values x content combinations x 5 transports; 18 wildcards; chains of three types",
     "Tests define three types.",
     [MSG], [("c_param templates, c_default, c_allowed_values, Message.verify", MSG)], ["subclasses of Message"])

prop("C37", "Signing and encrypting carries every message unchanged",
     "Any message of any type can be sent as an unsigned, signed, encrypted or signed and encrypted token, through the methods or by naming the format, and its receiver gets an equal message: same parameters, values, value kinds and nested message types. The token holds exactly the message's content, and sending it changes nothing in the message "
     "(an ID Token alone gets its time of issue).",
     ["inputs"],
     "the content alphabet of C01 for every message class x 4 protections x 2 interfaces x plain or message-valued nesting",
     "Tests sign a handful of small messages.",
     [MSG, OI], [("Message.to_jwt, from_jwt, to_jwe, from_jwe, serialize, deserialize", MSG), ("IdToken.pack", OI)], ["Message.to_jwt/from_jwt/to_jwe/from_jwe"])

prop("C38", "The storage a configuration names is the storage that is used",
     "Each box of a context is kept exactly where its own section of the storage configuration says, else where the default section says, else in memory of its own; boxes whose sections name the same place share it and all others are independent; a place containing the issuer is separate for every issuer and refused without one. "
     "What a box holds is there again after a restart exactly when its place is persistent. Incomplete or wrong sections are refused without leaving anything behind, and the configuration is never altered.",
     ["configurations", "histories"],
     "9 kinds of storage for each of 3 sections x issuer or not x all histories of 2-3 events (set, delete, restart, other issuer); 400 faulty configurations",
     "Tests build one storage configuration.",
     [CX, "src/oidcmsg/storage/init.py", AB, EX, SQ], [("get_storage_conf, storage_factory, init_storage", "src/oidcmsg/storage/init.py"), ("OidcContext.add_boxes, add_issuer", CX)],
     ["OidcContext.db", "OidcContext.add_boxes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
