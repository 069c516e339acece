# id: (what is enumerated and how, oracle, why tests cannot reach it)
D = {
"C01": ("Each case is a set of token requests for one code. Sequential cases enumerate all histories; concurrent cases run as tasks on the controlled loop, whose every scheduling decision at a storage call is enumerated; fault cases make each storage call fail in turn, before and after its effect.",
        "count of responses with tokens and of token creations per code; no grant to a request started after another's answer.",
        "the race that issued two token sets needs one particular switch between lookup and deletion."),
"C02": ("Full product of who presents which code, with which URI, when, in which zone; also pairs of outstanding codes, so that a mix-up between records would show.",
        "a predicate over the product's coordinates says granted or refused; creation calls logged by the storage are compared field by field.",
        "the interesting rows are conjunctions (right client, deregistered URI, last second, other zone)."),
"C03": ("Enumerates challenge length x method x alphabet at the authorization endpoint and verifier edits at the token endpoint, with the record read back from storage.",
        "independent PKCE transform (`ref.py`).",
        "length limits and prefix or method confusions show on single values of a large space."),
"C04": ("Full product of parameter validity at the authorization endpoint (GET and POST) and get_consent_data.",
        "the Location target is parsed and must be the error page or a registered URI exactly as the reference decision table says; a code is present exactly when the table allows.",
        "which of several simultaneous faults is answered first decides whether an open redirect exists."),
"C05": ("Exhausts short strings over an adversarial alphabet for state (and scope, response_type), on every outcome that redirects.",
        "urllib's query parser applied to the Location must give exactly the registered URI's own pairs followed by the expected response pairs; header text has no control characters.",
        "single characters (plus, percent, ampersand, CR, non-ASCII) break encodings one at a time."),
"C06": ("All requests of up to three items against all allowed subsets, and all authorization-redemption-refresh chains with registrations shrinking in between.",
        "set algebra over requested, allowed and granted scopes; response scope against the scopes the storage was asked to create.",
        "escalation needs a specific chain and subset relation; names with prefix relations defeat substring tests."),
"C07": ("Product of header, body, query credentials and secret assignments; all single-character edits of secrets; token and revocation endpoints.",
        "reference authentication decision (served as which client, or invalid_client), plus empty storage log when refused.",
        "two presentations that are each harmless combine to an unintended one."),
"C08": ("Product of provider and client registrations with requested types.", "decision table for the error code and for issued refresh tokens.",
        "order of grants and rarely used combinations."),
"C09": ("Product as for C02, and breadth-first exploration of all operation histories with state matching on (records, clock).",
        "reference model of refresh tokens stepped in parallel with the implementation.", "needs histories (revoke then refresh, delete user then refresh, by another client)."),
"C10": ("Valid requests are perturbed by all single deviations and pairs; the adapter fails at every call with several exception types.",
        "response well-formedness and error code classes.", "every storage call is a separate crash point; pairs of deviations reach code that assumed an earlier check."),
"C11": ("Product of presentations, tokens and hints, and all histories of revocations and refreshes.", "reference model of who holds which live token; log of revoke calls.",
        "which client's tokens are affected is only visible in multi-client histories."),
"C12": ("Every history of provider creations, hook registrations and flows, each in its own process (registrations could be global).",
        "log of hook invocations (hook, provider, adapter, config, checkpoint) compared with the expected multiset.", "leaks between providers need a particular order of creation and registration."),
"C13": ("All pairs (and triples) of flows under all interleavings at storage calls, and all sequences on one provider.",
        "the response and storage effects of each flow run alone on a fresh provider.", "shared mutable state shows only under a switch at a particular await."),
"C14": ("Runs the full authorization and redemption flow for all scope selections, algorithms, nonces, clocks.",
        "ID token verified and decoded by the independent JWS implementation; each claim recomputed.", "at_hash per hash size, zones and outstanding nonces are cross products."),
"C15": ("Systematic single-position mutation (substitution by all characters, deletion, insertion, swap, truncation, extension) of independently signed tokens, and all recombinations of segments.",
        "accept iff the segments' octets are those of a validly signed token.", "a verifier that ignores one position, prefix or character class is not found by a handful of samples."),
"C16": ("Product of header, key and expectation attributes for signing and verifying.", "boolean predicate from the statement.", "confusion attacks are single cells of the product."),
"C17": ("All short payloads and all small JSON shapes through serialize/deserialize.", "identity, and an independent decoder of the serialized form.", "falsy, empty, non-UTF-8 and nested values."),
"C18": ("psion and the reference implementation sign for each other over all keys and ECDSA nonces that produce short R or S.", "pure-Python EC, hashlib HMAC, RSA with explicit EMSA encodings.", "one signature in 256 has a short component."),
"C19": ("Product of malformed headers, payloads, signatures; all short octet strings.", "outcome must be a JOSE error, or a token only where the reference parser finds it well-formed.", "each exception type hides behind a particular malformed shape."),
"C20": ("All claim values around the boundaries at many clock readings and zones, on the virtual clock.", "integer comparison in UTC.", "boundary second, zone offset, falsy values."),
"C21": ("All combinations and orders of options over up to three claims.", "conjunction of independent predicates.", "early exit or order dependence shows only in ordered pairs."),
"C22": ("All conversion chains (a reachability search over representations) from every fixture key.", "key material recomputed by `ref.py`; cross signing along the chain.", "leading zeros and chains of conversions."),
"C23": ("All public operations and operation sequences; results searched for private values.", "absence of private numbers in any encoding; presence of public parameters; failure to sign.", "leaks after a particular earlier call or for a particular optional member."),
"C24": ("All key lists up to a length, all permutations, malformed values at each position.", "list and dictionary model.", "duplicates at a distance, near-miss IDs."),
"C25": ("Each member of valid keys replaced by each value of a malformed catalogue, all subsets, bit flips, all PEM kinds.", "acceptance iff the independent validation says the key is consistent; only JOSE errors.", "each exception type hides behind one malformed value."),
"C26": ("All crit lists over names with all presence subsets, and all typed values.", "predicate from RFC 7515 as in the statement.", "crit handling depends on the combination of list and present parameters."),
"C27": ("Exhausts short inputs and every BMP character.", "standard library encoders and identity.", "single characters, zero, sign boundaries."),
"C28": ("The randomness source is replaced by enumerated streams; every consumed octet is varied; histories and identical processes are compared.", "codes differ whenever a stream octet differs; none repeats; OS entropy is the only source (seeded `random` is inert).", "predictability is a relation between executions."),
"C29": ("All chunkings of the body, header sets, query strings over ASGI, compared with direct handling.", "the same request object built by hand; flows compared end to end.", "chunk boundaries and header case."),
"C30": ("Full product of auth_time, max_age, nonce and expected nonce.", "predicate from the statement.", "falsy values in each position."),
"C31": ("Product over grants and configuration; refusals; faults; histories.", "the values the storage returned for this very request.", "stale or null members depend on the combination of grant and configuration."),
"C32": ("All short secrets over special characters, each BMP character, single-octet changes of valid headers.", "RFC 7617 encoder run forward.", "separator and encoding faults sit on single characters."),
"C33": ("Product of request validity; all scope requests against all allowed subsets, each followed by authorization; histories of consent and authorization on one provider.",
        "decision table for data or redirect; requested-and-allowed scopes as a set; scopes of the code then stored.", "consent and authorization are separate code paths that must agree on every input."),
"C34": ("Sequences of operations over one pool of shared objects; pairs of operations run in two threads of which one runs at a time (`threads.py`, a trace function makes every line of psion a scheduling point), all schedules within the preemption bound by depth-first search.",
        "each operation has an explicit expected result computed by the reference implementation; the pool must be unchanged afterwards.", "shared scratch state needs a particular order or a switch between two particular lines."),
"C35": ("C10's requests and faults over a storage that also holds another party's records; responses are decoded in all usual ways and searched.",
        "a list of strings that must not occur.", "each error path has its own text, and failure points have their own exceptions."),
"C36": ("Histories of creating differently configured providers and running C13's flows on them, each case in its own process, and concurrent pairs under the controlled scheduler.",
        "response and effects of the flow in a process where its provider is the only one (learned in forked processes).", "class-level or module-level state shows only with two providers."),
"C37": ("Histories of changes to the application's data (`hist.py`), with requests of every flow before and after each change, on one provider whose storage hands out copies or shared objects.",
        "a provider of the same configuration created after the changes.", "a remembered registration, user, key or time shows only when it changes between two requests."),
"C38": ("C10's valid requests and faulty variants of them, each with every meaningless addition, order and blank of the menus.",
        "the same request without the addition.", "a limit on the number of parameters, a name looked up loosely, or an order dependence shows only with the particular addition."),
}
FIRST = {"C12-hook-all-grants": "missed; C12 now enumerates families of grants", "C29-headers-multi": "missed; C29 now enumerates many headers",
         "C16-use-list": "missed; C16 now enumerates near-miss declarations", "C22-rsa-options": "missed; C22 got a sixth metadata set",
         "C23-encrypted-pem": "missed; C23 now parses encrypted and foreign PEMs",
         "C02-redirect-slash": "missed; C02 now enumerates near misses of every compared value (mc/near.py)",
         "C02-client-case": "missed; near misses of identifiers", "C03-challenge-padding": "missed; near misses of the stored challenge",
         "C04-loopback-port": "missed; C04 now enumerates variants of every part of a URI", "C04-fragment-ignored": "missed; as above",
         "C05-state-long": "missed; C05 now enumerates lengths", "C07-bcrypt-length": "missed; secrets that agree in a long prefix",
         "C08-grant-substring": "missed; near misses of grant names", "C16-use-case": "missed; near misses of declarations",
         "C16-kid-prefix": "missed; as above", "C21-text-equality": "missed; values that look alike as text", "C24-load-skips": "missed; sets with one bad key",
         "C26-crit-last": "missed; lists of critical names", "C28-spare-code": "missed; C28 now runs concurrent and failing requests",
         "C28-known-part": "missed; C28 looks for known pieces", "C29-body-trimmed": "missed; C29 now enumerates white space", "C29-semicolon": "missed; C29 now enumerates separators",
         "C34-verified-tokens": "missed; C34 now has keys of the same identifier", "C34-sorted-values": "missed; unsorted options",
         "C35-expired-owner": "missed; C35 looks for the owner", "C37-client-memory": "missed by the checks of the time; C37 was written for it",
         "C37-user-memory": "missed by the checks of the time; C37 was written for it", "C38-parameter-count": "missed by the checks of the time; C38 was written for it",
         "C02-expiry-too-early": "missed; time now passes before every storage access", "C09-expiry-too-early": "missed; as above", "C14-lifetime-drift": "missed; as above",
         "C02-redeem-narrowed": "missed; data now changes before every storage access", "C03-verifier-label": "missed; new constants of the code are now used as values",
         "C06-many-scopes": "missed; C06 now enumerates long scope lists", "C14-long-claim": "missed; C14 now enumerates user-info claims",
         "C02-owner-as-client": "missed; coinciding values (mc/coincide.py)", "C09-owner-as-client": "missed; coinciding values",
         "C14-nonce-like-state": "missed; coinciding values", "C05-reserved-character": "missed; C05 now has URIs with every legal character",
         "C07-unset-secret": "missed; confidential clients without a secret", "C11-ask-again": "missed by C11 (C10 found it); C11 now injects faults of 7 exception types",
         "C12-same-name": "missed; the hooks of a history now share their name", "C12-falsy-member": "missed; hooks now return falsy members",
         "C35-challenge-start": "missed; C35 now looks for parts of secrets",
         "C18-odd-modulus": "missed; keys with moduli of 1025, 1031 and 3072 bits", "C24-lookup-number": "missed; look-ups that are no texts in sets with such IDs",
         "C22-large-file": "missed; secrets of up to 1 MiB from files", "C16-pin-unvalidated": "missed; expected algorithms without validation",
         "C21-eight-options": "missed; up to 101 options", "C34-nested-key-input": "missed; nested values of a key's input are changed afterwards",
         "C23-set-encryption-key": "missed; key sets with 9 kinds of metadata", "C02-two-digit-year": "missed; expirations all over the calendar",
         "C09-summer-time": "missed; time zones with summer time",
         "C15-default-unvalidated": "missed; C15 now enumerates the ways to give the arguments"}
