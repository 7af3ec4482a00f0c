#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the readable source of the property list)."""
import json, os

S = "src/oidcop/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": [S + f for f in files],
            "mechanism": [{"name": n, "where": S + w} for n, w in mech],
        },
    }
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)


prop("C01", "An authorization code buys tokens at most once",
     """However token requests that present the same authorization code are ordered or overlapped (including by
     concurrent threads inside the provider), at most one of them is ever answered with tokens, and none is after the
     code has expired or it, its grant or its client session has been revoked. At the OpenID Connect token endpoint,
     presenting an already redeemed code is refused and revokes every token derived from that code, and nothing that
     belongs to other codes.""",
     ["schedules", "histories"],
     """All interleavings of the parse and process steps of up to three token requests for two codes of one or two
     sessions with expiry, revocation and refresh in between; all two-thread schedules with bounded preemptions of two
     redemptions of the same code.""",
     """Existing tests redeem a code twice strictly sequentially; overlap of two requests, threads, and what the replay
     does to second generation tokens or to sibling grants is a quantifier over schedules and histories.""",
     ["oauth2/token.py", "oidc/token.py", "session/grant.py", "session/token.py"],
     [("AccessTokenHelper.post_parse_request (used / is_active)", "oidc/token.py"),
      ("AuthorizationCode max_usage=1, register_usage", "session/token.py"),
      ("Grant.mint_token active checks", "session/grant.py"),
      ("Token.process_request", "oauth2/token.py")],
     ["token endpoint", "userinfo endpoint", "introspection endpoint"])

prop("C02", "Codes and refresh tokens work only for the client and URI they were issued to",
     """A token request succeeds only if the authenticated client is the one the code or refresh token was issued to
     and, for a code, the redirect_uri equals the one of the authorization request; client identifiers put in the body
     never override the authenticated one. A refused token request by anybody leaves the code, the refresh token and
     every issued token exactly as usable as before (the documented exception: replay of a spent code).""",
     ["inputs", "histories"],
     """Every combination of presenting client, authentication, body client_id, redirect_uri variant, code/refresh
     token of own/other session, grant_type, in all orders up to the depth bound, each followed by the legitimate
     request.""",
     """Tests try one wrong client once; they never check that the refusal left the code usable, nor the cross product
     of who authenticates with what they claim.""",
     ["oauth2/token.py", "oidc/token.py", "endpoint.py", "client_authn.py"],
     [("Wrong client / redirect_uri mismatch checks", "oidc/token.py"),
      ("Wrong client / redirect_uri mismatch checks", "oauth2/token.py"),
      ("req['client_id'] = auth_info['client_id']", "endpoint.py")],
     ["token endpoint"])

prop("C03", "A token is honoured iff issued, in its lifetime, unrevoked and not used up",
     """At every point of every history, userinfo, introspection and the token endpoint honour an access token, refresh
     token or code exactly when this provider issued it as that kind, its lifetime (own and of its grant) has not passed, neither it nor its grant or
     client session has been revoked, and its usage limit is not reached; the endpoints never disagree. Lifetimes
     announced in responses (expires_in, exp, iat) are those actually applied and configured.""",
     ["histories", "configurations"],
     """All operation sequences up to the depth bound over {authorize, redeem, refresh, userinfo, introspect, revoke
     token/grant/client session, advance clock past each lifetime} for opaque and JWT tokens, with and without
     refresh rotation.""",
     """Tests inspect a fresh or one expired token at one endpoint; agreement of three endpoints after arbitrary
     histories with time passing is unbounded over histories.""",
     ["session/token.py", "session/grant.py", "token/jwt_token.py", "token/__init__.py", "oidc/userinfo.py",
      "oauth2/introspection.py", "oauth2/token.py", "oidc/token.py"],
     [("Item.is_active", "session/token.py"), ("JWTToken.info", "token/jwt_token.py"),
      ("Introspection._introspect", "oauth2/introspection.py"), ("UserInfo.process_request", "oidc/userinfo.py"),
      ("TokenEndpointHelper._mint_token", "oauth2/token.py")],
     ["token endpoint", "userinfo endpoint", "introspection endpoint"])

prop("C04", "Revocation is exact, cascades along derivation, and is final",
     """Revoking a token recursively revokes it and everything transitively derived from it and nothing else;
     non-recursive revocation revokes it alone; revoking a grant stops exactly that grant, revoking a client session
     stops exactly the grants of that user at that client. Once stopped nothing of it is ever honoured or can mint
     again, whatever happens later, and nothing revoked is reported active.""",
     ["histories"],
     """All derivation forests up to the size bound (several users, clients, grants, refresh chains) and all sequences of
     revocation operations with minting in between.""",
     """The cascade is over all derivation trees; the repository's tests cover one chain and mark the manager's
     recursion as not covered.""",
     ["session/grant.py", "session/manager.py", "session/token.py", "session/info.py"],
     [("Grant.revoke_token", "session/grant.py"), ("SessionManager.revoke_token/_revoke_dependent",
      "session/manager.py"), ("SessionManager.revoke_grant / revoke_client_session", "session/manager.py")],
     ["session manager API", "token, userinfo, introspection endpoints"])

prop("C05", "Scope only shrinks along every token chain",
     """A refresh request asking for a scope outside the scope of the grant the refresh token stands for is refused; every token
     issued carries exactly the scope that was reported for it, that introspection reports, and never one that was not
     requested at authorization. Narrowing at a refresh affects that answer's tokens, and a client configured
     with allowed scopes never gets the claims or the reported scope of others.""",
     ["inputs", "histories"],
     """All subsets of a scope alphabet at authorization x all refresh chains up to depth with all subsets, duplicates,
     reorderings and unknown values requested, for per-client and provider-wide allowed scopes, JWT and opaque tokens.""",
     """Tests sample three refresh scope lists; the guarantee quantifies over all scope sets and chains of rotated refresh tokens.""",
     ["oauth2/token.py", "oidc/token.py", "session/grant.py", "scopes.py", "oauth2/authorization.py"],
     [("issubset check in RefreshTokenHelper", "oidc/token.py"), ("issubset check in RefreshTokenHelper",
       "oauth2/token.py"), ("Grant.find_scope", "session/grant.py"), ("Scopes.filter_scopes", "scopes.py")],
     ["token endpoint", "introspection endpoint", "userinfo endpoint"])

prop("C06", "Only the right kind of genuine token opens each door",
     """A value presented as authorization code, refresh token, or access token (header, body, or for introspection) is accepted only
     if it is a value of exactly that kind minted by this provider for a grant it still knows; codes, ID Tokens,
     session identifiers, altered, truncated, spliced, re-signed or foreign-provider values, and values
     of another kind are refused everywhere without changing any state.""",
     ["inputs", "configurations"],
     """Cross product of value kinds (every genuine kind, every one-position mutation class, JWTs re-signed with client
     keys, foreign provider keys, alg none, HS256 with public key, changed claims) x every door x token formats.""",
     """Tests present two or three wrong tokens; the full class-confusion matrix across token formats is never enumerated.""",
     ["token/__init__.py", "token/handler.py", "token/jwt_token.py", "token/id_token.py", "session/manager.py",
      "oidc/userinfo.py", "oauth2/introspection.py", "oidc/token.py", "oauth2/token.py"],
     [("TokenHandler.get_handler", "token/handler.py"), ("DefaultToken.info / JWTToken.info", "token/jwt_token.py"),
      ("Wrong token type checks", "oidc/token.py"), ("token_class check", "oidc/userinfo.py")],
     ["token endpoint", "userinfo endpoint", "introspection endpoint"])

prop("C07", "PKCE: a challenged code needs its own verifier",
     """If an authorization request carried a code challenge then its code is redeemed only with a verifier whose
     transformation under the requested method equals that challenge; an unsupported method, or a missing challenge
     where the provider or the client demands one, is refused at authorization. Without a challenge, redemption works as
     usual, and sessions never accept each other's verifiers.""",
     ["inputs", "histories", "configurations"],
     """All combinations of (challenge, method) at authorization x verifier variants at redemption x global/per-client
     essential settings x supported method sets, and all interleavings of two sessions' redemptions.""",
     """Tests check one right and one wrong verifier per method.""",
     ["oidc/add_on/pkce.py"],
     [("post_authn_parse", "oidc/add_on/pkce.py"), ("post_token_parse / verify_code_challenge", "oidc/add_on/pkce.py")],
     ["authorization endpoint", "token endpoint"])

prop("C08", "The user agent is only ever sent to a registered redirect URI",
     """An authorization request is accepted only if its redirect_uri has no fragment and equals one of the client's registered URIs
     in scheme, authority and path and has exactly the registered query parameters; without redirect_uri, only if
     exactly one is registered, which is then used. No answer to any authorization request, success or error,
     directs the user agent or a response parameter anywhere else; the same rule binds post-logout
     redirects to the client the logout is for.""",
     ["inputs", "configurations"],
     """Cross product of registered URI sets and a mutation alphabet of presented URIs (scheme, host, port, userinfo, path, case,
     trailing slash, percent-encodings, queries, blank and repeated parameters, fragments) x response types/modes x
     success and error outcomes.""",
     """Tests try around a dozen URIs; the matching rule quantifies over all presented strings.""",
     ["oauth2/authorization.py", "oidc/authorization.py", "util.py", "oidc/session.py"],
     [("verify_uri / get_uri", "oauth2/authorization.py"), ("split_uri", "util.py"),
      ("Session.verify_request / post_logout_redirect_uri", "oidc/session.py")],
     ["authorization endpoint response", "end_session endpoint response"])

prop("C09", "A client is authenticated only by its own, current, fresh credentials",
     """A request to an endpoint requiring client authentication is processed as client X only if it carries X's current secret
     (header or body), or an assertion signed with X's secret or registered key using a method the endpoint allows, addressed to the
     provider, unexpired and not presented before; credentials of one client never authenticate another, nor a client that is unknown or whose
     secret has expired. A request carrying valid credentials by an allowed method is not refused for its authentication.""",
     ["inputs", "histories", "configurations"],
     """Cross product of method sets enabled x credential mutations (wrong/other/empty secret, other key, wrong alg, none alg,
     wrong aud, expired, wrong iss, tampered) x clients, and all orders of assertion presentations (replay) across endpoints.""",
     """Tests exercise each method's happy path and one failure.""",
     ["client_authn.py", "endpoint.py"],
     [("verify_client", "client_authn.py"), ("ClientSecretBasic/Post.verify", "client_authn.py"),
      ("JWSAuthnMethod.verify + jti_db", "client_authn.py"), ("Endpoint.client_authentication", "endpoint.py")],
     ["token endpoint", "introspection endpoint", "pushed authorization endpoint"])

prop("C10", "The session tree equals the history of operations on it",
     """After any sequence of creating, updating, revoking and removing sessions, looking up any user, client session or grant returns
     exactly what was last stored there and still exists, removing one thing removes it and everything under it
     and nothing else (a
     client session or user left with nothing under it goes too), and re-creating after removal starts empty. Lookups by token or session identifier reach exactly the grant they were issued for.""",
     ["histories"],
     """All sequences up to the depth bound of create/set/update/revoke/delete/remove over 2 users x 2 clients x 2 grants,
     compared at every step with a plain tree.""",
     """Tests check individual calls on one tree shape; orphans and resurrection only show after specific delete/re-create orders.""",
     ["session/database.py", "session/manager.py", "session/info.py"],
     [("Database.set/get/delete", "session/database.py"), ("create_session/create_grant/remove_session", "session/manager.py")],
     ["session manager API"])

prop("C11", "Exactly the permitted user claims are released, whatever happened before",
     """The user claims in an ID Token, userinfo answer, JWT access token and introspection answer are exactly those the rules give for
     this client, grant and release point: base claims, claims by (allowed) scope where enabled, always-added claims, claims requested
     with matching value constraints - and which the user has; client overrides apply only where enabled and only to
     that client. The outcome depends only on configuration and this grant's request, never on earlier requests of anybody.""",
     ["configurations", "histories", "inputs"],
     """All combinations of the rule switches per release point, client overrides, scope subsets and requested-claims variants;
     and all orders of several flows with different response types and clients on one provider instance.""",
     """Tests fix one configuration each; history dependence is only visible across sequences of flows.""",
     ["session/claims.py", "scopes.py", "session/grant.py", "oidc/userinfo.py", "token/id_token.py", "oauth2/introspection.py"],
     [("ClaimsInterface.get_claims_from_request/_client_claims", "session/claims.py"), ("claims_match", "session/claims.py"),
      ("convert_scopes2claims", "scopes.py"), ("Grant.payload_arguments", "session/grant.py")],
     ["userinfo endpoint", "ID Token", "introspection endpoint", "JWT access token"])

prop("C12", "Every ID Token is signed and bound to its own request, client and session",
     """Every ID Token verifies against the provider's published keys with the algorithm configured or registered for that client, names the provider as
     issuer and exactly the requesting client in its audience, carries that authorization request's nonce (none if none was sent), that session's subject and
     authentication time and context, a lifetime equal to the configured one, and the hash of exactly the code and/or access token
     returned beside it when the response type demands it.""",
     ["inputs", "configurations", "histories"],
     """All response types x nonce present/absent x signing algorithms x client settings x refresh, with two users and clients interleaved.""",
     """Tests check single claims of single tokens.""",
     ["token/id_token.py", "session/grant.py", "oidc/token.py", "oauth2/authorization.py"],
     [("IDToken.payload / sign_encrypt / __call__", "token/id_token.py"), ("create_authn_response", "oauth2/authorization.py")],
     ["authorization endpoint", "token endpoint"])

prop("C13", "A user has one stable subject identifier per policy, and the right one",
     """For a given client and user, every ID Token, userinfo and introspection answer of one grant carries one and the same subject; under
     the public policy it is equal for all clients and differs between users, under the pairwise policy it is stable per sector and
     differs between sectors and users, under the ephemeral policy it is fresh for every grant. The subject never equals or
     exposes the local user name, unless so configured, and user data never overrides it.""",
     ["configurations", "histories"],
     """All assignments of subject types and sectors to two or three clients x two users x all orders of flows (fresh login, SSO, refresh,
     dump/restore between).""",
     """Tests call the identifier functions directly; agreement between endpoints across flows and clients is never compared.""",
     ["session/manager.py", "session/grant.py", "oidc/userinfo.py", "oauth2/authorization.py", "oidc/registration.py"],
     [("create_grant sub_func", "session/manager.py"), ("Authorization.create_session", "oauth2/authorization.py"),
      ("info['sub'] = grant.sub", "oidc/userinfo.py")],
     ["ID Token", "userinfo", "introspection"])

prop("C14", "Dumping and restoring the provider at any point is invisible",
     """If at any point of any history the provider's state is exported, serialised, and imported in a fresh provider instance with the same configuration, every later request
     gets the same answer (up to randomness) as it would have got without the interruption; no token,
     session, revocation, usage count or client is lost, revived or altered.""",
     ["crash_points", "histories"],
     """A dump/restore inserted after every prefix of every history up to the depth bound, comparing all subsequent observable answers
     with the uninterrupted run.""",
     """Tests dump and load at one or two fixed points and look at one request afterwards.""",
     ["session/manager.py", "session/database.py", "session/grant.py", "session/token.py", "session/info.py", "endpoint_context.py", "server.py"],
     [("ImpExp parameter tables", "session/grant.py"), ("issued_token_dump/load", "session/grant.py"),
      ("local_load_adjustments", "session/manager.py"), ("EndpointContext.parameter", "endpoint_context.py")],
     ["all endpoints after restore"])

prop("C15", "Cookies round-trip exactly and any alteration is detected",
     """Whatever value is put in a cookie the provider issues is read back identically under the same name and keys; any cookie whose value, timestamp or
     authentication tag was altered, truncated, extended, spliced with parts of another genuine cookie, or made with other keys is not accepted as authentic. (Another
     base64 spelling of exactly the same bytes is not an alteration; the type given to a cookie contains no "::".)""",
     ["inputs"],
     """All strings up to a length over an alphabet containing every separator used by the format, in both
     key modes (sign only, sign and encrypt, encrypt only), and every single-position mutation and every part-wise splice of genuine cookies.""",
     """Tests round-trip a few fixed values; separators inside values and splices are inputs nobody samples.""",
     ["cookie_handler.py", "endpoint_context.py"],
     [("CookieHandler._sign_enc_payload/_ver_dec_content", "cookie_handler.py"),
      ("make_cookie_content/parse_cookie", "cookie_handler.py"), ("new_cookie", "endpoint_context.py")],
     ["Set-Cookie / Cookie values"])

prop("C16", "No silent login: SSO only for the same live, fresh enough authentication",
     """An authorization request is answered without interaction only if the request carries a genuine session cookie of a live, unrevoked session at
     this client whose authentication is still valid and not older than max_age, prompt=login is not set, and no different user was hinted. With
     prompt=none the user is never asked: the request is answered if that condition holds, otherwise the client gets an error. Every
     grant created this way keeps the user and the time of the original authentication.""",
     ["histories", "inputs"],
     """All sequences of authorization requests (prompt, max_age, hint variants), clock steps, revocations and cookies (none, own, other client's, other
     user's, tampered, stale) up to the depth bound.""",
     """Tests run single setup_auth calls with patched state.""",
     ["oauth2/authorization.py", "oidc/authorization.py", "user_authn/user.py", "authn_event.py", "cookie_handler.py"],
     [("setup_auth", "oauth2/authorization.py"), ("cookie_info / authenticated_as", "user_authn/user.py"),
      ("re_authenticate / max_age", "oauth2/authorization.py")],
     ["authorization endpoint"])

prop("C17", "Authorization responses carry exactly what was asked, in the requested way",
     """A successful authorization response contains exactly the parameters its response type calls for (code, token, ID Token) and the request's state
     unchanged; it is delivered in query, fragment or self-submitting form as response_mode or response type demand. Whatever characters the state or other echoed values
     contain, the receiver parses back exactly those values and nothing else is injected.""",
     ["inputs", "configurations"],
     """All response types x response modes x states from an alphabet of special characters x success and error outcomes, parsed back by an independent parser.""",
     """Tests check a few combinations with benign states.""",
     ["oauth2/authorization.py", "endpoint.py"],
     [("create_authn_response / response_mode / FORM_POST", "oauth2/authorization.py"), ("Endpoint.do_response", "endpoint.py")],
     ["authorization endpoint response"])

prop("C18", "A pushed authorization request is used once, by its own client, in time",
     """A request_uri handed out for a pushed request can start at most one authorization, only for the client that pushed it and only within the announced
     lifetime, and the authorization proceeds with exactly the pushed parameters. Any other or unknown provider request_uri is
     refused, and a failed pushed request leaves nothing behind.""",
     ["histories", "inputs"],
     """All sequences of push/authorize/clock steps by two clients with own, foreign, replayed, unknown and expired request_uris and conflicting outer parameters.""",
     """Tests push once and use it once.""",
     ["oauth2/pushed_authorization.py", "oauth2/authorization.py"],
     [("PushedAuthorization.process_request", "oauth2/pushed_authorization.py"), ("_do_request_uri", "oauth2/authorization.py")],
     ["pushed authorization endpoint", "authorization endpoint"])

prop("C19", "Registration admits only valid metadata and isolates clients",
     """A registration request is accepted only if its redirect URIs fit the application type and its other metadata satisfy the
     documented rules; what is accepted is stored as sent, and the registered client can then use exactly that. A refused registration leaves no usable client behind; each
     registration gets a fresh identifier and secret, cannot set its own credentials or provider-side policy, never changes another
     client, and the stored registration can be read only with that registration's access token.""",
     ["inputs", "histories"],
     """Cross product of metadata fields and values (redirect URIs, application types, response types, subject type, sector, logout URIs, policy-like extra keys), and all orders of register/read by several clients.""",
     """Tests register a handful of fixed documents.""",
     ["oidc/registration.py", "oidc/read_registration.py"],
     [("Registration.do_client_registration / verify_redirect_uris", "oidc/registration.py"),
      ("RegistrationRead", "oidc/read_registration.py")],
     ["registration endpoint", "registration_read endpoint"])

prop("C20", "Logout ends exactly the sessions it is meant to end",
     """A logout request is only acted on if it carries the session cookie or a genuine ID Token hint of a known session; it then
     ends the sessions of that user it names (this client, or all when global) and no others. After it, no token of an ended session
     is honoured and no silent login happens; every client that registered a logout URI gets a
     notification addressed to it and about its own session, and only a registered post-logout URI of that client is redirected to, with the given state.""",
     ["histories", "inputs"],
     """All sequences of logins by two users at three clients (back-channel, front-channel, none registered) and logout requests with own/foreign/forged/no hints and cookies, all/one.""",
     """Tests log out one client once.""",
     ["oidc/session.py", "session/manager.py"],
     [("Session.process_request/logout_all_clients/do_verified_logout", "oidc/session.py")],
     ["end_session endpoint", "back-channel notifications", "other endpoints after logout"])

prop("C21", "DPoP-bound tokens are issued only against a valid proof and stay bound",
     """When a token request carries a DPoP proof, tokens are issued only if the proof is a correctly typed JWT signed by the asymmetric key it embeds, made for this method and URL with a supported
     algorithm; the access token is then bound to exactly that key and presented as such at later endpoints. A malformed, unsigned or mismatching proof is refused.""",
     ["inputs"],
     """Cross product of proof mutations (type, alg, key, signature, method, URL, iat, jti, claims missing) x endpoints.""",
     """Tests present one good proof.""",
     ["oauth2/add_on/dpop.py", "oidc/token.py"],
     [("post_parse_request / DPoPProof", "oauth2/add_on/dpop.py")],
     ["token endpoint", "userinfo endpoint"])

prop("C22", "Usage rules bind every minting, and one client's rules never leak to another",
     """A token is minted only if the token it is based on is active and its usage rules permit that kind, and minted tokens get the
     lifetime and limits of grant-specific, else client-specific, else provider rules. Refresh tokens
     are issued only when the rules, the client's registered grant types and the request/scope call for it, rotation and revoke-on-issue follow the client's setting or else the provider's;
     serving any history never changes configuration or another client's rules.""",
     ["configurations", "histories"],
     """All combinations of provider and client usage rules (supports_minting subsets, lifetimes, max usage), grant types, rotation settings; all orders of flows of three clients with different rules.""",
     """Tests use one rules dictionary; leaks between clients through shared mutable rules need several clients and orders.""",
     ["authz/__init__.py", "session/grant.py", "session/token.py", "oauth2/token.py", "oidc/token.py"],
     [("AuthzHandling.usage_rules", "authz/__init__.py"), ("Grant.mint_token", "session/grant.py"),
      ("TokenEndpointHelper._mint_token", "oauth2/token.py")],
     ["token endpoint", "session manager API"])

prop("C23", "What the provider advertises is what it does",
     """The provider's discovery document names exactly the configured endpoints at the URLs that serve them, and response types, response modes, scopes, claims, grant types, client
     authentication methods, algorithms listed there are honoured while others asked for are refused; the published keys verify what it signs.""",
     ["configurations"],
     """All subsets of capability switches in a configuration lattice; for each, every advertised and a set of unadvertised values are exercised.""",
     """Tests compare one metadata document.""",
     ["endpoint_context.py", "server.py", "oidc/provider_config.py", "construct.py", "configure.py"],
     [("EndpointContext.create_providerinfo", "endpoint_context.py"), ("ProviderConfiguration.process_request", "oidc/provider_config.py")],
     ["provider configuration endpoint"])

prop("C24", "A request object speaks for its signer, and overrides the plain parameters",
     """When an authorization request carries a request object by value or reference, its signature is verified with that client's keys and an algorithm allowed for that client, and its parameters
     replace the plain ones; an unsigned or wrongly signed object, one signed by another client, one naming another client, or a reference that is not registered
     is refused.""",
     ["inputs"],
     """Cross product of signer, algorithm, inner/outer parameter differences, passing by value/reference, registered and unregistered references.""",
     """Tests use a correctly signed object and one unregistered reference.""",
     ["oauth2/authorization.py", "oidc/authorization.py"],
     [("_do_request_uri / AllowedAlgorithms", "oauth2/authorization.py"), ("Authorization request verify", "oidc/authorization.py")],
     ["authorization endpoint"])

prop("C25", "A request that is refused, or that only reads, leaves no trace",
     """An authorization, token, user info, introspection, pushed authorization, registration or logout request that is refused (wrong or missing credentials, another client's, expired, altered or
     unknown values, malformed or unregistered parameters) leaves sessions, grants, tokens, clients, pushed requests, seen assertions and the provider's own configuration as they were, so that it costs
     the rightful holder nothing; neither do user info, introspection, discovery and registration-read requests, a login page that is shown, a login that fails or a logout that is not confirmed
     change anything. (Presenting a used code again is the exception: it revokes what was derived from it.)""",
     ["inputs", "histories"],
     """In every state that histories of good requests reach, every bad and every reading request that can be made of the values around in that state, at every endpoint; the complete state of the provider
     is compared before and after, and the history goes on.""",
     """Tests look at the answer to a refused request, and at most at one attribute of the state; a side effect shows only later, and only for some states.""",
     ["oauth2/authorization.py", "oauth2/token.py", "oidc/token.py", "oidc/userinfo.py", "oauth2/introspection.py", "oauth2/pushed_authorization.py", "oidc/registration.py", "oidc/session.py",
      "client_authn.py"],
     [("process_request of each endpoint", "oauth2/token.py"), ("verify_client", "client_authn.py"), ("Authorization._do_request_uri", "oauth2/authorization.py")],
     ["all endpoints"])

prop("C26", "A login proves the user and completes the very request it began with",
     """The login page leads to a session only for a user whose own user name and password are presented; the session, code and tokens that come out of it are those of exactly the authorization request
     (client, redirect URI, state, nonce, scope, response mode) that the page was shown for, whatever other pages are open; the page's token is accepted only if the provider itself made it;
     the authentication method is the first one asked for (acr_values, claims) that the provider has, an unsupported one is refused, and the ID Token's acr is that of the method that was used; values from
     the request or the client can not alter the page.""",
     ["inputs", "histories"],
     """Credential pairs over a universe of near misses; forged, altered and foreign page tokens; hostile values in every request and client attribute that reaches the page; all configurations of up to
     three methods against all requests for up to three ACR values; all interleavings of opening pages, failing and successful logins, restarts and time passing, to a depth.""",
     """Tests render one page and log one user in.""",
     ["user_authn/user.py", "user_authn/authn_context.py", "oauth2/authorization.py", "template_handler.py", "authn_event.py"],
     [("UserPassJinja2 / UserAuthnMethod.unpack_token", "user_authn/user.py"), ("pick_auth", "user_authn/authn_context.py"), ("authn_args_gather / create_session", "oauth2/authorization.py")],
     ["login page", "authorization endpoint"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
