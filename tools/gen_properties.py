"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os

S = "src/psion/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": S + w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

NOOA = "The test suite has no OAuth tests at all: nothing under psion.oauth2 or psion.oidc is executed beyond import. "

prop("C01", "An authorization code yields tokens at most once",
 "However many token requests present the same authorization code, in any order and under any interleaving of their storage accesses within one provider, at most one of them is answered with tokens and access tokens are created at most once. Once any request that presented the code from an authenticated client allowed the grant has been answered, whether granted or refused, or was cancelled after the provider had looked the code up, no request started afterwards is granted tokens for that code.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving at storage awaits of 2-3 concurrent redemptions (right and wrong ones), every sequence of redemptions, every single storage fault or cancellation",
 NOOA + "A single sequential replay test could not reach the window between reading a code and deleting it.",
 ["oauth2/grants/authorization_code.py", "oauth2/endpoints/token.py"],
 [("code deleted when the token request ends, in-flight redemptions excluded", "oauth2/grants/authorization_code.py:AuthorizationCodeGrant.token")],
 [("stored authorization codes", "codes the adapter still knows", "oauth2/adapter.py")],
 ["token endpoint responses", "adapter.get_authorization_code/delete_authorization_code/create_access_token calls"])

prop("C02", "A code is redeemed only by its own client, redirect URI, user, in time",
 "A token request presenting an authorization code is granted only if the authenticated client is the one the code was issued to, the redirect URI equals the one of the authorization request and is still registered for the client, the code has not expired and its user still exists; otherwise it is refused. The access token and refresh token of a granted request are created for exactly that client, that user and the scopes recorded with the code. A request that meets all conditions, with the right verifier, is granted.",
 ["inputs", "histories"],
 "every combination of presenting client, redirect URI, verifier, clock position relative to expiry, and registration/user changes between authorization and redemption, from every reachable store within the bound",
 NOOA + "The conjunction has to hold for every combination; a missing conjunct shows only for one cell of the product.",
 ["oauth2/grants/authorization_code.py", "oauth2/endpoints/token.py"],
 [("comparison of request, client and stored code", "oauth2/grants/authorization_code.py:AuthorizationCodeGrant._validate_authorization_code")],
 [("stored authorization code", "client, user, redirect URI, scopes, challenge, expiry", "oauth2/mixins.py:AuthorizationCodeMixin")],
 ["token endpoint responses", "arguments of adapter.create_access_token/create_refresh_token"])

prop("C03", "PKCE is always required and always enforced",
 "No authorization code is issued unless the authorization request carries a code challenge of 43 to 128 characters and the method plain or S256, and exactly that challenge and method are stored with the code. A token request for a code is refused unless its code_verifier, transformed by the method stored with that code, equals the stored challenge; the matching verifier is accepted.",
 ["inputs", "histories"],
 "all combinations of challenge length (including the boundaries), method (absent, unknown, plain, S256) and verifier (absent, equal to the challenge, near misses, non-ASCII, matching under the other method)",
 NOOA + "The downgrade cases (verifier equal to an S256 challenge, method mix-ups between two live codes) are single points of a product space.",
 ["oauth2/grants/authorization_code.py"],
 [("challenge validation on authorize", "oauth2/grants/authorization_code.py:AuthorizationCodeGrant._validate_authorization_request"),
  ("verifier check on token", "oauth2/grants/authorization_code.py:S256_challenge, plain_challenge")],
 observe=["authorization redirects", "token endpoint responses"])

prop("C04", "The user agent is only ever redirected to a registered URI or the error page",
 "The authorization endpoint redirects only to a redirect URI registered for the client named in the request or to the provider's configured error page, and a missing parameter, unknown client or unregistered redirect URI always leads to the error page, whatever else is wrong with the request or whether a user is logged in. A redirect carries a code only if a user is authenticated, the client and redirect URI are valid, the client may use the response type, PKCE parameters are acceptable and all requested scopes are permitted; such a request does get a code bound to that client, user, redirect URI and scopes.",
 ["inputs", "configurations"],
 "every combination of absent/invalid/valid values of all authorization parameters, user present or not, client known or not",
 NOOA + "An open redirect needs one specific combination (for example no user plus unregistered URI) of otherwise independent faults.",
 ["oauth2/endpoints/authorization.py", "oauth2/grants/authorization_code.py"],
 [("order of validation and FatalError", "oauth2/endpoints/authorization.py:AuthorizationEndpoint.__call__")],
 observe=["Location header of the authorization response", "adapter.save_authorization_code arguments"])

prop("C05", "Redirects return state and result parameters unaltered",
 "Every redirect to the client's redirect URI, success or error, has a status that makes the user agent fetch it with GET and without the form (302 or 303), keeps the registered URI with its own query parameters and adds response parameters such that decoding the query yields exactly the code or error values produced, and exactly the state value of the request whenever the request had a non-empty one. Values survive for every character, including reserved, percent, plus, non-ASCII and control characters, and no value can add or split parameters or headers.",
 ["inputs"],
 "every state string over an adversarial alphabet up to a length bound, every outcome class, redirect URIs with and without a query",
 NOOA + "Encoding faults show only for particular characters or for redirect URIs that already have a query.",
 ["webtools.py", "oauth2/models/http.py", "oauth2/endpoints/authorization.py", "oauth2/grants/authorization_code.py"],
 [("query encoding", "webtools.py:urlencode"), ("Location quoting", "oauth2/models/http.py:RedirectResponse"), ("state carried by errors", "oauth2/exceptions.py:OAuth2Error.dump")],
 observe=["Location header"])

prop("C06", "Scopes never grow",
 "Tokens issued by any grant carry only scopes that the client is allowed (for a code, that it was allowed when the code was issued) and that were requested or, when none were requested, that belong to the grant being used (the client's allowed scopes for client credentials, the code's or refresh token's scopes otherwise); a request naming a scope that the provider does not support, the client is not allowed or the refresh token does not have is refused with invalid_scope. Along every chain of authorization, redemption and refreshes, the scopes of each new access or refresh token are a subset of those of the grant it came from. The scope member of a response, when present, names exactly the scopes issued, and it is present whenever those are not empty and differ from the ones asked for.",
 ["inputs", "histories", "configurations"],
 "every subset of a scope universe as requested/allowed/supported scopes, and every chain of grants and refreshes up to a depth, including allowed-scope changes in between",
 NOOA + "Escalation needs a particular relation between four scope sets, or a chain of refreshes.",
 ["oauth2/grants/base.py", "oauth2/grants/refresh_token.py", "oauth2/grants/client_credentials.py", "oauth2/grants/authorization_code.py"],
 [("scope validation", "oauth2/grants/base.py:BaseGrant._validate_requested_scopes"), ("narrowing on refresh", "oauth2/grants/refresh_token.py:RefreshTokenGrant._validate_requested_scopes")],
 observe=["adapter.create_access_token/create_refresh_token/save_authorization_code scopes", "scope member of token responses"])

prop("C07", "Only a correctly authenticated client is served",
 "The token and revocation endpoints act for a client only if the request authenticates that client with the one method registered for it: the right secret in the Basic header for client_secret_basic, the right secret in the body for client_secret_post, or its client_id alone in the body and no secret for a public client. Any other presentation (wrong, missing or another client's secret, another method than the registered one, unknown client, secret in the query string, secrets by two methods at once) is answered with invalid_client (refused Basic credentials with a Basic challenge in WWW-Authenticate) and has no effect; a public client can never use client_credentials. A correct presentation is accepted and the request is handled as that client.",
 ["inputs", "configurations"],
 "the full product of registered method, Basic credentials (absent, malformed, wrong, right, another client's), body credentials, query credentials and grant type/endpoint",
 NOOA + "Authentication bypasses are single cells of a large product of presentations.",
 ["oauth2/authentication/client_authentication.py", "oauth2/authentication/methods/client_secret_basic.py", "oauth2/authentication/methods/client_secret_post.py", "oauth2/authentication/methods/none.py", "oauth2/endpoints/token.py", "oauth2/endpoints/revocation.py", "webtools.py"],
 [("method dispatch", "oauth2/authentication/client_authentication.py:ClientAuthentication.__call__")],
 observe=["token and revocation responses", "client passed to the adapter"])

prop("C08", "Clients use only the grants and response types registered for them",
 "A token request is granted only for a grant type that the provider supports and the client is registered for, and an authorization request only for a response type likewise; otherwise the answer is unsupported_grant_type/unsupported_response_type or unauthorized_client and nothing is issued. A refresh token is issued only to clients registered for the refresh_token grant, and never by client_credentials; such clients do receive one from the other grants.",
 ["inputs", "configurations"],
 "every subset of grants configured in the provider, every subset registered for the client, every requested grant type and response type",
 NOOA + "The permission matrix has hundreds of cells.",
 ["oauth2/endpoints/token.py", "oauth2/endpoints/authorization.py", "oauth2/grants/authorization_code.py", "oauth2/grants/refresh_token.py", "oauth2/grants/client_credentials.py"],
 [("grant lookup and client permission", "oauth2/endpoints/token.py:TokenEndpoint.__call__"), ("response type permission", "oauth2/endpoints/authorization.py")],
 observe=["responses", "adapter.create_* calls"])

prop("C09", "A refresh token works only for its own client, user and lifetime",
 "A refresh request is granted only if the refresh token is known and not revoked, was issued to the authenticated client, has not expired and its user still exists; otherwise it is refused and nothing is issued. New tokens are created for exactly that client and user. A request meeting these conditions with permitted scopes is granted.",
 ["inputs", "histories"],
 "every sequence of issue, refresh, revoke, expire, user deletion and presentation by own or other client up to a depth, on both sides of the expiry instant",
 NOOA + "Requires histories (revoke, then refresh; user removed, then refresh) and boundary instants.",
 ["oauth2/grants/refresh_token.py", "oauth2/endpoints/revocation.py"],
 [("refresh token validation", "oauth2/grants/refresh_token.py:RefreshTokenGrant._validate_refresh_token, token")],
 observe=["token endpoint responses", "arguments of adapter.create_*"])

prop("C10", "Endpoints always answer, never raise",
 "For every request and every failure of the storage adapter, the authorization, token and revocation endpoints return a well-formed response and never raise or return nothing: a redirect with a Location for authorization; a JSON body for the others. A request that is at fault gets a 4xx (or redirect) with a registered OAuth error code rather than a server error; a storage failure is reported as server_error, never as success.",
 ["inputs", "fault_sequences"],
 "every combination of absent/odd values for every parameter and header, and an injected exception at each adapter call of each flow",
 NOOA + "Totality is over all malformed inputs and all fault points; the contract is stated in BaseEndpoint but nothing exercises it.",
 ["oauth2/endpoints/base.py", "oauth2/endpoints/token.py", "oauth2/endpoints/authorization.py", "oauth2/endpoints/revocation.py", "oauth2/grants/authorization_code.py", "webtools.py", "oauth2/models/http.py"],
 [("exception to response mapping", "oauth2/endpoints/token.py, authorization.py, revocation.py")],
 observe=["response object of each endpoint"])

prop("C11", "Revocation acts once, for the authenticated client, on the named token",
 "A revocation request from an authenticated client that names a token and no or a supported type hint asks the storage exactly once to revoke exactly that token with that hint on behalf of that client, and answers 200 whether or not the token exists. An unauthenticated request, a missing token or an unsupported hint revokes nothing and answers 401 with invalid_client, or 400 respectively. After a successful revocation of a refresh token by its client the token can no longer be used, while tokens of other clients are untouched.",
 ["inputs", "histories"],
 "all presentations of client, token (own, other client's, unknown, absent) and hint (absent, supported, unsupported), followed by refresh attempts",
 NOOA + "Needs multi-step histories across two endpoints.",
 ["oauth2/endpoints/revocation.py"],
 [("revocation flow", "oauth2/endpoints/revocation.py:RevocationEndpoint.__call__")],
 observe=["adapter.revoke_token calls", "responses"])

prop("C12", "Hooks affect only the provider and grant they were registered on",
 "A hook added to one provider for one grant type runs only in that provider's flows of that grant, with that provider's adapter and configuration, whatever other providers exist in the process and in whatever order providers are created and hooks added. In the authorization code flow each registered hook runs exactly once per request at each checkpoint it implements, given the data, code or token, client and user of that request, and the members it returns are added to that request's data or response and no other; a provider without hooks behaves as if hooks did not exist.",
 ["histories", "configurations"],
 "every sequence of provider creations and hook registrations up to a depth, followed by every flow on every provider",
 NOOA + "Cross-provider leakage needs at least two providers and a registration history.",
 ["oauth2/grants/base.py", "oauth2/grants/authorization_code.py", "oauth2/providers/base.py"],
 [("hook registry", "oauth2/grants/base.py:BaseGrant.__hooks__"), ("registration", "oauth2/providers/base.py:BaseProvider.add_hook")],
 [("hook registry", "hooks per checkpoint", "oauth2/grants/base.py:BaseGrant.__hooks__")],
 ["hook invocations", "token responses"])

prop("C13", "Concurrent requests do not influence each other",
 "Requests for different clients, users, codes and tokens handled concurrently by one provider get, under every interleaving of their storage accesses, exactly the responses and storage effects they would get alone: no parameter, client, user, scope, state, nonce, error or header of one request ever appears in the handling of another. The same holds for requests handled one after another.",
 ["schedules", "histories"],
 "every interleaving (within the stated preemption bound) of 2-3 requests drawn from all endpoint flows, including failing ones",
 NOOA + "Cross-request leakage needs a specific interleaving at an await; sequential tests cannot produce it.",
 ["oauth2/endpoints/authorization.py", "oauth2/endpoints/token.py", "oauth2/endpoints/revocation.py", "oauth2/grants/authorization_code.py", "oauth2/grants/refresh_token.py", "oauth2/grants/client_credentials.py", "oauth2/authentication/client_authentication.py", "oidc/flows/authorization_code.py"],
 [("request data kept in locals and on the request object only", "oauth2/endpoints, oauth2/grants")],
 observe=["responses and adapter calls per request"])

prop("C14", "An ID token is issued exactly for openid, and tells the truth",
 "With the OpenID flow enabled, a redeemed code yields an id_token if and only if openid is one of its granted scopes. The id_token verifies under the configured key and algorithm and its claims are: the provider as iss, the client as aud, the user's info for the granted scopes, iat the time of issue, exp exactly the configured lifetime later, at_hash the left half of the access token's digest, and nonce equal to the nonce of the authorization request when there was one and absent otherwise.",
 ["inputs", "configurations", "histories"],
 "every granted scope list over a universe including look-alikes of openid, nonce absent/present, every algorithm family and hash size, several lifetimes and clock/timezone settings, two codes with different nonces",
 NOOA + "ID token claims depend on the authorization request made earlier, on the key and on the clock.",
 ["oidc/flows/authorization_code.py", "oidc/claims.py", "webtools.py", "jose/jwt.py"],
 [("ID token generation", "oidc/flows/authorization_code.py:AuthorizationCodeFlow"), ("at_hash", "webtools.py:create_half_hash")],
 observe=["id_token member of the token response"])

prop("C15", "A verified signature covers exactly the token's header and payload",
 "When a signed token is deserialized or decoded with validation, for every signing algorithm, it is accepted only if the signature was made over exactly its header and payload segments with the key matching the verification key; changing, truncating, extending or swapping any octet of header, payload or signature, or using another key, is rejected. The payload and header returned are exactly those that were signed.",
 ["inputs"],
 "for each algorithm, every single-octet change and every truncation of every segment, every cross-combination of segments of two valid tokens and every other key of the same type",
 "The tests verify one valid HS256 token; TODO in the test file: 'Add tests that fail'. No tampered token is ever tried.",
 ["jose/jws.py", "jose/jwa/jws.py", "jose/jwa/jwk.py", "jose/jwt.py"],
 [("signature verification", "jose/jws.py:JsonWebSignature.deserialize"), ("algorithms", "jose/jwa/jws.py")],
 observe=["JsonWebSignature.deserialize", "JsonWebToken.decode", "JWS algorithm classes"])

prop("C16", "A key is only ever used as it was declared",
 "Signing and verifying succeed only if the key's type (and curve) is the one the header's algorithm requires, the key's declared alg, if any, equals the header's, the header's kid, if any, equals the key's, the key's declared use is sig and its declared key_ops, if any, are signature operations that include the one performed; signing needs a private or secret key. When the caller names an expected algorithm, a token with any other algorithm, including none, is rejected; every consistent combination works.",
 ["inputs", "configurations"],
 "full product of header algorithm, expected algorithm, key type/curve/privateness and declared alg, kid, use and key_ops, for signing and verifying",
 "The tests use one key per algorithm family with no restrictions and never a mismatching key.",
 ["jose/jws.py", "jose/jwa/jws.py", "jose/jwa/jwk.py"],
 [("key validation", "jose/jws.py:_validate_key"), ("type validation", "jose/jwa/jws.py:JWSAlgorithm.validate_key")],
 observe=["JsonWebSignature.serialize/deserialize", "JsonWebToken.encode/decode"])

prop("C17", "What is signed is what is read back",
 "For every payload byte string, header, supported algorithm and matching key, serializing and then deserializing returns the identical payload and header; for every non-empty JSON-representable claim set (null-valued members count as absent) the same holds for encoding and decoding a JSON Web Token, in text or bytes form. The serialized form is three unpadded URL-safe base64 segments whose first two decode to the header's JSON and the payload.",
 ["inputs"],
 "all payloads over an adversarial byte alphabet up to a length bound (all length classes modulo 3), claim sets of every JSON value shape up to a nesting bound, all algorithms",
 "The tests serialize one payload with one key and deserialize one other constant.",
 ["jose/jws.py", "jose/jwt.py", "webtools.py"],
 [("compact serialization", "jose/jws.py:JsonWebSignature.serialize"), ("base64url", "webtools.py:base64url_encode, base64url_decode")],
 observe=["JsonWebSignature", "JsonWebToken"])

prop("C18", "Signatures follow RFC 7518 byte for byte",
 "For every algorithm the signature segment is what RFC 7518 prescribes, so an independent implementation verifies psion's tokens and psion verifies tokens of an independent implementation: HMAC with the named hash, RSASSA-PKCS1-v1_5, RSASSA-PSS with MGF1 of the same hash and salt as long as the hash, and ECDSA as the fixed-width concatenation of R and S on the algorithm's curve. Signatures in any other format, hash, padding, salt length or width are rejected.",
 ["inputs", "configurations"],
 "every algorithm with several keys and messages, both directions, plus every other hash/padding/salt/encoding of the same key as a negative",
 "The tests only check psion against itself, so a consistently wrong format passes.",
 ["jose/jwa/jws.py", "jose/jwa/jwk.py"],
 [("sign and verify per algorithm", "jose/jwa/jws.py, jose/jwa/jwk.py")],
 observe=["signature segment", "verification verdict"])

prop("C19", "Malformed tokens are rejected cleanly",
 "Deserializing or decoding any byte string or text that is not a well-formed token, such as wrong number of segments, bad base64, bad JSON, a non-object or unusual header or claims, wrong types or nesting, always raises one of the library's JOSE errors. It never raises any other exception and never returns a token, with or without signature validation.",
 ["inputs"],
 "all tokens built from every combination of malformed and well-formed segment variants, for every key type, with and without expected algorithm and validation",
 "The tests never feed a malformed token.",
 ["jose/jws.py", "jose/jwt.py", "webtools.py"],
 [("token parsing", "jose/jws.py:JsonWebSignature.deserialize"), ("claims parsing", "jose/jwt.py:JsonWebToken.decode")],
 observe=["JsonWebSignature.deserialize", "JsonWebToken.decode"])

prop("C20", "Expired, premature or ill-typed claims are never accepted",
 "A claim set or decoded token is rejected as expired if its exp is at or before the current time, as not yet valid if nbf is after it, and as invalid if iat is in the future; times are UTC seconds whatever the host's time zone, and any integer value counts, zero and negative included. A present exp, nbf or iat that is not an integer, a present aud that is not a string or list of strings, or a present iss, sub or jti that is not a string is rejected; everything else is accepted. A null-valued claim counts as absent.",
 ["inputs", "configurations"],
 "all values of each claim over types and instants around the boundary, all pairs of time claims, all host time zones of a set including non-hour and both signs",
 "The tests use offsets of one hour in one time zone and a single wrong type per claim.",
 ["jose/jwt.py"],
 [("default claim validation", "jose/jwt.py:JsonWebTokenClaims._validate_default_claims")],
 observe=["JsonWebTokenClaims", "JsonWebToken.decode"])

prop("C21", "Every required claim option is enforced",
 "When validation options are given, a claim set or token is accepted only if every option is satisfied independently of the others and of their order: an essential claim is present, a claim with a required value equals it, and a claim with a list of allowed values equals one of them or, when it is itself a list, shares an element with it. If all options are satisfied and the default checks pass, the claims are accepted.",
 ["inputs", "configurations"],
 "all claim sets over small value domains against all ordered combinations of up to three options of every kind",
 "The test suite never passes options.",
 ["jose/jwt.py"],
 [("option validation", "jose/jwt.py:JsonWebTokenClaims._validate_claims")],
 observe=["JsonWebTokenClaims", "JsonWebToken.decode"])

prop("C22", "Keys survive every conversion unchanged",
 "Loading any valid JSON Web Key and dumping it again returns the same members, including fixed-width encoding of EC coordinates with leading zeros and all metadata; exporting a key to PEM (or Base64 for a secret) and parsing it back, from memory or from a file, or deriving its public half, yields the same key material. A key reloaded through any chain of conversions still verifies signatures of the original, and a private one still signs for it.",
 ["inputs", "histories"],
 "a key corpus covering every type, curve and leading-zero pattern, every secret over byte classes and lengths, through every chain of conversions up to a depth",
 "The tests use one fixed key per type, with no leading zeros, and do not look at the exported secret.",
 ["jose/jwk.py", "jose/jwa/jwk.py", "webtools.py"],
 [("dump/export/parse", "jose/jwa/jwk.py:ECKey, OCTKey, RSAKey"), ("integer encoding", "webtools.py:int_to_b64, b64_to_int")],
 observe=["JsonWebKey.dump/export/parse", "signatures"])

prop("C23", "Public views of asymmetric keys hold no private material",
 "Dumping or exporting the public view of an RSA or EC key or of a key set containing it, and any key parsed or rebuilt from such a view, contains none of the private parameters in any member or encoding and cannot sign; the public view carries all public parameters and metadata and verifies signatures of the private key. Asking a public key for its private view fails.",
 ["inputs", "histories"],
 "every key of the corpus, every subset of optional private members supplied, every chain of public/private dump, export, parse and key-set operations up to a depth",
 "The tests compare two fixed keys only in the all-members form.",
 ["jose/jwk.py", "jose/jwa/jwk.py"],
 [("public dump", "jose/jwk.py:JsonWebKey.dump, jose/jwa/jwk.py:*.dump")],
 observe=["JsonWebKey.dump/export", "JsonWebKeySet.dump"])

prop("C24", "A key set identifies every key unambiguously",
 "A key set is accepted only if it is a non-empty list of keys that all have an ID and no two share one; looking up an ID returns the key carrying exactly that ID and nothing for any other ID. Dumping a set and loading it back gives the same keys in the same order, and malformed sets are rejected.",
 ["inputs", "configurations"],
 "all lists of keys over a small pool of IDs (including absent) up to length 4, all lookups, all malformed set shapes",
 "The tests try one valid and two invalid sets.",
 ["jose/jwk.py"],
 [("key set validation and lookup", "jose/jwk.py:JsonWebKeySet")],
 observe=["JsonWebKeySet"])

prop("C25", "Invalid keys are rejected cleanly",
 "Constructing a key from any dictionary that lacks required members or has members of wrong type, encoding or value (off-curve points, mismatching private values, unknown curve or type) raises one of the library's JOSE errors, never another exception, and never yields a key. Members here are the key type and its key parameters; descriptive metadata is not judged. Asymmetric PEM text offered as a Base64 secret and PEM of the wrong key type are rejected likewise, and too small generated keys are refused.",
 ["inputs"],
 "for each key type every subset of members removed and every member replaced by each of a set of bad values, every PEM kind against every key type",
 "The tests try three invalid inputs.",
 ["jose/jwk.py", "jose/jwa/jwk.py"],
 [("key construction", "jose/jwk.py:JsonWebKey.__init__"), ("PEM type checks", "jose/jwa/jwk.py:*.parse")],
 observe=["JsonWebKey", "JsonWebKey.parse", "JsonWebKey.generate"])

prop("C26", "Header parameters are validated and critical ones understood",
 "A signature header is accepted only if it is a non-empty object with a supported alg, its kid, typ and cty, when present, are non-empty strings, and its crit, when present, is a non-empty list of non-empty strings all naming parameters that are present and that the library understands. A token that declares a critical parameter the library does not understand is rejected whatever its signature. Whether crit may name registered parameters is left open.",
 ["inputs"],
 "all headers over every value shape per parameter and all crit lists over a name universe up to a length",
 "The tests try a handful of headers, none with an unknown critical extension that is present.",
 ["jose/jws.py"],
 [("header validation", "jose/jws.py:JsonWebSignatureHeader")],
 observe=["JsonWebSignatureHeader", "JsonWebSignature.deserialize"])

prop("C27", "Encodings are exact inverses",
 "Base64url encoding, integer encoding, URL query encoding and JSON encoding are undone exactly by their decoders for every value of their domain; encoded forms use only the unpadded URL-safe alphabet and agree with the standard encoding. The none-free dictionary drops exactly the null-valued members at creation and on assignment and shares no structure with the dictionary it was created from.",
 ["inputs"],
 "all byte strings up to length 2 and all over an adversarial alphabet up to length 4, all integers up to 2^17 and around every byte boundary to 4096 bits, all query dictionaries over an adversarial character alphabet",
 "No test targets these helpers; they are reached with a few constants.",
 ["webtools.py"],
 [("codecs", "webtools.py:base64url_*, int_to_b64, b64_to_int, urlencode, urldecode, json_*"), ("FullDict", "webtools.py:FullDict")],
 observe=["psion.webtools functions"])

prop("C28", "Authorization codes and secrets are fresh and unpredictable",
 "Every authorization code issued is new: it never repeats one issued before, is at least 32 characters of the URL-safe alphabet, and depends on nothing an attacker can know or replay: same request, same time, same process state and same seeded pseudo-random generator still give unrelated codes. Generated secrets and tokens have the requested size and use every character of the alphabet; generated keys are likewise never repeated.",
 ["histories", "configurations"],
 "all issue histories up to a length, self-composed twice from identical process state, clock and pseudo-random seeds; every answer of the randomness source enumerated per position",
 NOOA + "Predictability is a relation between runs, not visible in one run.",
 ["webtools.py", "oauth2/grants/authorization_code.py", "jose/jwa/jwk.py"],
 [("token generation", "webtools.py:secret_token"), ("code generation", "oauth2/grants/authorization_code.py:AuthorizationCodeGrant.authorize")],
 observe=["adapter.save_authorization_code", "secret_token", "JsonWebKey.generate"])

prop("C29", "The web integration passes requests and responses through unchanged",
 "Requests received through the Starlette integration reach the endpoints with the same method, URL, query and form parameters (form over query), headers looked up case-insensitively, body and user, and responses leave with the same status, headers and body bytes. Running a flow over HTTP therefore gives the same result as running it directly.",
 ["inputs"],
 "all combinations of method, query, form, header case and body encodings from an adversarial set, and every endpoint outcome class",
 NOOA + "No test touches the HTTP layer.",
 ["oauth2/providers/starlette.py", "oauth2/models/http.py", "webtools.py"],
 [("request translation", "oauth2/providers/starlette.py:StarletteProvider"), ("request parsing", "oauth2/models/http.py:Request")],
 observe=["ASGI messages", "psion Request/Response"])

prop("C30", "ID token claims are checked when read",
 "Building an ID token claim set enforces all standard claim checks and, in addition, rejects an auth_time that is not an integer, rejects a missing auth_time when max_age was requested, and rejects any nonce, missing included, that differs from the expected nonce when one is given. Claim sets meeting the requirements are accepted with all claims intact.",
 ["inputs"],
 "the product of auth_time, max_age, nonce, expected nonce and the standard claims over all value shapes",
 "No test touches psion.oidc.",
 ["oidc/claims.py", "jose/jwt.py"],
 [("ID token claim validation", "oidc/claims.py:IDToken")],
 observe=["IDToken"])

prop("C31", "Token responses are complete, correct and never cacheable",
 "Every successful token response has status 200 and a JSON object with the access token just created by the storage for this request, token type Bearer, the configured lifetime, the refresh token just created if and only if one was created, and scope as plain text; no member is null. Every response of the token endpoint, success or error, forbids caching with Cache-Control: no-store and Pragma: no-cache and is typed application/json, and error responses have status 400 (500 for a server error) and name the error.",
 ["inputs", "configurations"],
 "every grant, client configuration, lifetime and error class reachable in the bound",
 NOOA + "The headers must be right on every path, including every error path.",
 ["oauth2/endpoints/token.py", "oauth2/grants/base.py", "oauth2/models/http.py"],
 [("response construction", "oauth2/grants/base.py:BaseGrant._create_token, oauth2/endpoints/token.py"), ("JSON response", "oauth2/models/http.py:JSONResponse")],
 observe=["token endpoint responses"])

prop("C32", "Authorization headers are parsed exactly",
 "Reading Basic credentials from request headers returns exactly the client ID and secret that were encoded, split at the first colon, for any characters in the secret and any letter case of scheme and header name, and a Bearer token exactly as sent. Any other or malformed header value yields no credentials and never an exception.",
 ["inputs"],
 "all credential strings over an adversarial alphabet up to a length, all scheme spellings, and all malformed header shapes",
 NOOA + "Credential parsing is not exercised by any test.",
 ["webtools.py"],
 [("header parsing", "webtools.py:get_basic_authorization, get_bearer_authorization")],
 observe=["get_basic_authorization", "get_bearer_authorization"])

prop("C33", "The user is asked to consent to exactly what the request can obtain",
 "Consent data is returned only for a request that names a known client, one of its registered redirect URIs, a response type the client is registered for and a scope; it then holds exactly that client and exactly those requested scopes that the client is allowed. Any other request is redirected: to the error page when a parameter is missing or client or redirect URI are invalid, and otherwise to the client's redirect URI with the error and the request's state. Asking changes nothing, gives the same answer every time, and when the same request is then authorized its code has exactly the scopes that were shown.",
 ["inputs", "histories"],
 "all combinations of client, redirect URI, response type, scope and state validity, all requested scope lists against all allowed subsets, and all histories of asking and authorizing",
 NOOA + "What is shown and what is granted are decided at two endpoints and agree only if every input says so.",
 ["oauth2/endpoints/authorization.py"],
 [("consent data", "oauth2/endpoints/authorization.py:AuthorizationEndpoint.get_consent_data")],
 observe=["AuthorizationEndpoint.get_consent_data", "adapter.save_authorization_code"])

prop("C34", "JOSE operations do not influence one another",
 "Signing, verifying, encoding, decoding, loading and dumping give the same results whatever operations ran before them on the same or other keys, headers, claims and tokens, and whatever operations run at the same time in other threads. No operation changes the dictionaries, keys, options or tokens it was given; what was constructed does not change when the caller later changes its inputs, and changing a decoded token or claim set does not affect any later operation.",
 ["histories", "schedules"],
 "all sequences of operations on shared objects up to a length, and all thread interleavings of operation pairs at the lines of the library up to a preemption bound",
 "Tests run single operations on fresh objects in one thread.",
 ["jose/jws.py", "jose/jwt.py", "jose/jwk.py", "jose/jwa/jws.py", "jose/jwa/jwk.py", "webtools.py"],
 [("tokens", "jose/jws.py, jose/jwt.py"), ("keys", "jose/jwk.py, jose/jwa/jwk.py")],
 observe=["psion.jose functions", "caller's dictionaries"])

prop("C35", "No response reveals a secret",
 "For every request, outcome and storage failure, a response of the authorization, token or revocation endpoint contains in no part and encoding: a registered client secret, the code verifier or challenge of a code, a signing key, the text of an internal failure, or a code, token, user or nonce of somebody else that the request did not itself present. Error responses name no user and carry no newly issued code or token, even when the failure came after it was created.",
 ["inputs", "fault_sequences"],
 "all single and paired deviations of valid requests, with another party's records in the storage, and a storage failure at every call",
 NOOA + "Error texts differ per path and failure point; each has to be clean.",
 ["oauth2/endpoints/authorization.py", "oauth2/endpoints/token.py", "oauth2/endpoints/revocation.py", "oauth2/grants/authorization_code.py", "oauth2/grants/refresh_token.py", "oauth2/authentication/client_authentication.py", "oauth2/authentication/methods/client_secret_basic.py", "oauth2/authentication/methods/client_secret_post.py", "oauth2/authentication/methods/none.py", "oauth2/exceptions.py"],
 [("error responses", "oauth2/exceptions.py:OAuth2Error.dump"), ("failure handling", "oauth2/endpoints/*.py")],
 observe=["endpoint responses"])

prop("C36", "Providers in one process are independent of each other",
 "When several providers exist in one process, each with its own storage, issuer, error page, scopes, grants, keys, lifetimes, hooks and client registrations, every request to one of them is answered, and affects only its own storage, exactly as if that provider were the only one, whatever providers were created before or after, whatever was handled before and whatever is handled concurrently by the others, even when client IDs, codes and tokens coincide.",
 ["histories", "schedules", "configurations"],
 "all orders of creating up to three differently configured providers and handling flows on them, sequentially and under interleavings of storage accesses",
 NOOA + "State shared by accident between providers shows only with two of them in a particular order.",
 ["oauth2/providers/base.py", "oauth2/grants/base.py", "oauth2/grants/authorization_code.py", "oauth2/grants/refresh_token.py", "oauth2/grants/client_credentials.py", "oauth2/endpoints/base.py", "oauth2/endpoints/token.py", "oauth2/endpoints/authorization.py", "oauth2/endpoints/revocation.py", "oauth2/authentication/client_authentication.py", "oidc/flows/authorization_code.py"],
 [("provider construction", "oauth2/providers/base.py:BaseProvider.__init__"), ("grants", "oauth2/grants/base.py:BaseGrant.__init__")],
 observe=["endpoint responses", "adapter calls of each provider"])

prop("C37", "Every request is decided on the current data",
 "The answer to a request and its effects depend only on the request, the configuration of the provider, the application's data (registrations, users, user info, stored codes and tokens, keys) and the time, all as they are when the request is handled. After any change of that data, such as a rotated secret, a removed or restored client, redirect URI, grant, scope or user, a changed code or token, a new signing key or the passing of time, every request that starts afterwards is answered exactly as a provider newly created over the same data would answer it, whatever was handled before.",
 ["histories"],
 "all histories of data changes up to a length, with requests of every flow before and after each change, compared with a fresh provider",
 NOOA + "Tests use one registration per provider and never change it.",
 ["oauth2/endpoints/authorization.py", "oauth2/endpoints/token.py", "oauth2/endpoints/revocation.py", "oauth2/grants/base.py", "oauth2/grants/authorization_code.py", "oauth2/grants/refresh_token.py", "oauth2/grants/client_credentials.py", "oauth2/authentication/client_authentication.py", "oauth2/authentication/methods/base.py", "oauth2/providers/base.py", "oidc/flows/authorization_code.py"],
 [("lookups through the adapter on each request", "oauth2/endpoints, oauth2/grants, oauth2/authentication")],
 observe=["endpoint responses", "adapter calls"])

prop("C38", "Parameters that mean nothing have no effect",
 "For every request to the authorization, token and revocation endpoints and for consent data, valid or faulty, adding any number of parameters with names the protocol does not define, in the query or the form, with any value, adding unrelated headers, or reordering the parameters, changes neither the answer nor what is stored. A parameter sent without a value is treated as if it had been left out.",
 ["inputs"],
 "all single unknown parameters from near misses of the real names, all orders of the parameters, many numbers and sizes of extra parameters, each parameter emptied, on valid and faulty requests of every flow",
 NOOA + "Tests send exactly the expected parameters in one order.",
 ["oauth2/models/http.py", "oauth2/endpoints/authorization.py", "oauth2/endpoints/token.py", "oauth2/endpoints/revocation.py", "oauth2/grants/authorization_code.py", "oauth2/grants/refresh_token.py", "oauth2/grants/client_credentials.py", "oauth2/authentication/methods/client_secret_post.py", "oauth2/authentication/methods/none.py", "webtools.py"],
 [("request parsing", "oauth2/models/http.py:Request"), ("form decoding", "webtools.py:urldecode")],
 observe=["endpoint responses", "adapter calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
