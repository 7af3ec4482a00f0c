"""Writes known_findings.json: repaired defects (suppress nothing) and findings that are recorded, not repaired."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("C03", "12a67e0", "tokens of a revoked or expired grant were honoured at userinfo and reported active by introspection"),
    ("C03", "0086cc2", "a token lifetime of -1 (documented: never expires) made tokens expire at once"),
    ("C01", "b630b7e", "two concurrent requests redeeming one code could both be answered with tokens"),
    ("C05", "182d9a9", "a grant, its tokens and the reported scope contained scopes the client is not allowed to use"),
    ("C22", "ba63587", "serving a request modified the client's configured token_usage_rules in place"),
    ("C05", "29c7c23", "the documented allowed_scopes (and for an AS scopes_to_claims) configuration was ignored"),
    ("C05", "9bf405b", "an OAuth2 authorization response repeated the scope parameter, a receiver parses one scope only"),
    ("C03", "GITREF:introspection of a token that does not expire", "introspection reported exp=0 for tokens that never expire"),
    ("C07", "GITREF:honour the documented pkce option", "the documented PKCE option code_challenge_method was ignored"),
    ("C08", "GITREF:redirect URIs are compared as they are", "redirect URIs with other query parameters than the registered ones (blank or repeated ones) or a different authority spelling were accepted"),
    ("C08", "GITREF:errors go to the redirect URI also when", "error responses with response_mode query/fragment did not go to the redirect URI"),
    ("C08", "GITREF:post_logout_redirect_uri must be registered by the client", "post-logout redirect to a URI of a client other than the one logged out"),
    ("C08", "GITREF:add the state to a post_logout_redirect_uri", "state was lost or put in a second query part of the post-logout redirect"),
    ("C17", "GITREF:escape values put in the self-submitting form", "HTML injection through state and other values in form_post responses"),
    ("C17", "GITREF:OAuth2 authorization responses need not have a code", "an OAuth2 response type without code was answered with a server error"),
    ("C19", "GITREF:a registered post_logout_redirect_uri can be used", "a post_logout_redirect_uri registered dynamically could not be used"),
    ("C19", "GITREF:a redirect URI may be registered with and without", "registering one redirect URI with and without query was impossible/unusable"),
    ("C09", "GITREF:a client assertion without jti", "a client assertion without jti could be replayed"),
    ("C09", "GITREF:a request object for another audience", "a request object addressed to another audience authenticated the client"),
    ("C10", "GITREF:deleting from the session database removes what is below", "deleting from the session database left entries below behind, re-creation resurrected them, and a sibling could go too"),
    ("C10", "GITREF:minting a token stores the grant where it belongs", "minting a token with a session id stored the grant under a wrong key"),
    ("C10", "GITREF:add_grant adds the grant to the client session once", "add_grant put the grant twice among the subordinates"),
    ("C10", "GITREF:session information can contain both the grant", "get_session_info with grant and authentication_event raised"),
    ("C11", "GITREF:a client can turn off claims by scope", "a client's by_scope: False was ignored when another release point was looked at"),
    ("C11", "GITREF:claims always added for a client do not accumulate", "claims always added for a client accumulated in its configuration: answers depended on earlier requests"),
    ("C11", "GITREF:unknown members of a claims request", "a claims request with unknown members (e.g. purpose) suppressed the claim"),
    ("C13", "GITREF:user information never replaces the subject", "a user attribute named sub, scope or client_id replaced the token's own in introspection and JWT access tokens"),
    ("C13", "GITREF:sessions follow the client's registered subject type", "the registered subject type and sector were ignored (always public), the sector could be chosen in the request"),
    ("C16", "GITREF:a user name that looks like base64", "a user whose name is valid base64 (e.g. babs) could not use SSO, or was taken for another user"),
    ("C14", "GITREF:a dump of the endpoint context contains", "a dump of the endpoint context contained configuration, functions and instances and could not be stored"),
    ("C06", "GITREF:tokens are encrypted with the created keys", "a provider started without a token key file encrypted all its codes and tokens with the (public) key of the empty password; and after a restart they were unknown"),
    ("C14", "GITREF:loading an endpoint context keeps", "a loaded endpoint context had a session manager without subject functions, configuration and user info"),
    ("C14", "GITREF:a grant keeps its identifier", "a loaded grant had another identifier than the one it is stored under (wrong sid in the token endpoint's cookie)"),
    ("C23", "GITREF:ID Tokens with a symmetric algorithm", "no ID Token could be issued to a client registered with an HMAC algorithm"),
    ("C14", "GITREF:cookie keys are kept over a restart when defined as OCT", "cookie keys defined as OCT were made anew at every start although kept in a file"),
    ("C14", "GITREF:pushed requests can be dumped and loaded", "the database of pushed requests could not be dumped"),
    ("C15", "GITREF:the value of a cookie may contain the separators", "cookie values with | or :: did not round-trip"),
    ("C15", "GITREF:a changed timestamp makes a cookie invalid", "the timestamp of a cookie was not authenticated: an old cookie could be made fresh"),
    ("C15", "GITREF:a cookie handler may be configured with only one", "a cookie handler with one key failed at every cookie"),
    ("C16", "GITREF:prompt=none never shows the user a login page", "prompt=none showed the login page for revoked or too old sessions"),
    ("C16", "GITREF:a user with a cookie from a session that no longer exists", "a cookie of a session that no longer exists was answered with an exception, the user could never log in again"),
    ("C16", "GITREF:max_age counts from the authentication", "max_age was compared with the age of the cookie (renewed at each silent login), and max_age=0 was ignored"),
    ("C16", "GITREF:a request can not tell the provider to disregard max_age", "upm_answer=true in a request switched max_age off"),
    ("C16", "GITREF:an ID Token hint about another user", "id_token_hint was ignored: a hint about another user was answered silently with the current one"),
    ("C16", "GITREF:a login hint about an unknown user", "a login_hint naming no known user was answered with an exception"),
    ("C16", "GITREF:a cookie that can not be verified counts as no cookie", "a cookie that could not be verified was answered with an exception instead of the login page"),
    ("C17", "GITREF:errors answering response_type none go in the query", "login_required answering response_type none was put in the fragment"),
    ("C17", "GITREF:a failed authorization is answered also when no response_mode", "a failure during the authorization ended in an exception instead of an error response"),
    ("C17", "GITREF:an unsupported authentication class is an error", "a request for an unsupported authentication class ended in an exception instead of access_denied"),
    ("C18", "GITREF:a pushed request is only for the client that pushed it, until it expires", "the request_uri of a pushed request could be used by another client, and after its announced lifetime"),
    ("C18", "GITREF:a pushed request can not refer to another request", "a pushed request could contain a request_uri itself, fetched when pushed"),
    ("C18", "GITREF:a pushed request is verified like a plain one", "a pushed request was kept with the client's secret or assertion, and used without the checks a plain request gets"),
    ("C18", "GITREF:an ID Token hint of a stored request still counts after a restart", "a stored request with an ID Token hint could not be used after a restart"),
    ("C19", "GITREF:a refused registration leaves nothing behind", "a refused registration left a client entry, a registration access token and keys behind"),
    ("C19", "GITREF:a registration only sets client metadata", "a registration could set its own client_secret, expiry, registration_access_token and provider-side policy"),
    ("C19", "GITREF:redirect URIs are absolute, without fragment", "redirect URIs that are relative, have a fragment, or are localhost for a web client with code response type were accepted"),
    ("C19", "GITREF:a sector identifier document is a list of URIs", "a sector identifier document that is no list of URIs was accepted"),
    ("C19", "GITREF:registered post_logout_redirect_uris can be used", "post_logout_redirect_uris that were registered could not be used to log out"),
    ("C19", "GITREF:a frontchannel_logout_uri is a web page", "a frontchannel_logout_uri could be anything, such as javascript:"),
    ("C19", "GITREF:a client's keys are stored as registered", "the use of a client's registered keys was lost"),
    ("C19", "GITREF:a redirect URI with custom scheme and query can be used", "a registered redirect URI with custom scheme and query could not be used"),
    ("C20", "GITREF:a logout is only confirmed by what the logout request gave, in time", "expired confirmations, ID Tokens and logout tokens were accepted as confirmation of a logout"),
    ("C20", "GITREF:logging out from all clients ends and tells about", "clients without logout URI or ID Token stayed logged in after a global logout; clients were told about a session that had ended before"),
    ("C20", "GITREF:a client that can not be reached does not stop a logout", "a client whose back-channel logout URI can not be reached stopped the logout"),
    ("C20", "GITREF:a frontchannel_logout_uri can not leave its iframe", "a registered frontchannel_logout_uri could insert markup in the logout page"),
    ("C20", "GITREF:a logout token for a client that uses a symmetric algorithm", "a client whose ID Tokens use a symmetric algorithm could not be logged out"),
    ("C20", "GITREF:every frontchannel logout iframe is closed", "of several clients with front-channel logout only the first was told: its iframe was never closed"),
    ("C20", "GITREF:a silent login can not overtake the logout", "a silent login that overlaps the logout of its session led to a live session after the logout"),
    ("C10", "GITREF:sessions that start or end at the same time", "of two first logins of a user at the same time only one led to a session"),
    ("C21", "GITREF:DPoP proofs are verified, and only they can tell the key", "typ, alg and the claims of a DPoP proof were not checked; its payload could replace the key; a dpop_jkt parameter was taken for a proof"),
    ("C21", "GITREF:access tokens are bound to the key of the proof", "OAuth2 access tokens, and refreshed ones, were not bound to the key of the proof they were asked for with"),
    ("C24", "GITREF:requests can be pushed also where request objects are required", "where request objects are required nothing that was pushed could be used"),
    ("C24", "GITREF:a request object is signed by the client, with an algorithm it may use", "unsigned objects, algorithms that are not supported, objects of another client or the provider, and objects naming another client were accepted; encrypted objects by reference were refused"),
    ("C24", "GITREF:a request object passed by reference makes a correct request", "a request object passed by reference could make a request that is not correct, such as one without the scope openid"),
    ("C24", "GITREF:no unregistered request_uri where registration is required", "a client without registered request_uris could use any reference where registration is required"),
    ("C23", "GITREF:the scopes advertised are the allowed ones", "scopes_supported and claims_supported were empty when an endpoint for pushed requests was configured, and for OAuth2"),
    ("C23", "GITREF:client assertions at the token endpoint use an algorithm", "client assertions signed with algorithms outside token_endpoint_auth_signing_alg_values_supported were accepted"),
    ("C23", "GITREF:user info for a client that uses a symmetric algorithm", "user info could not be signed with an advertised HMAC algorithm"),
    ("C23", "GITREF:user info is encrypted for a client that only registered", "a client that registered userinfo_encrypted_response_alg alone got its user info in the clear"),
    ("C23", "GITREF:ID Tokens are encrypted for clients that registered", "a client that registered id_token_encrypted_response_alg got its ID Tokens in the clear"),
    ("C23", "GITREF:request objects by value are refused where", "request objects by value were accepted although request_parameter_supported is false"),
    ("C23", "GITREF:a response mode that is not supported is refused", "response modes outside response_modes_supported were accepted"),
    ("C23", "GITREF:the provider does not advertise that request_uris", "require_request_uri_registration was advertised as true although unregistered ones are accepted"),
    ("C23", "GITREF:the claims parameter is ignored where", "the claims parameter was obeyed although claims_parameter_supported is false"),
    ("C26", "GITREF:a login page's token is one that the provider made", "the token of a login page was accepted from any client that signed it with its own key or secret, with any request in it"),
    ("C26", "GITREF:a user's password may contain a colon", "BasicAuthn refused users whose password has a colon in it"),
    ("C25", "GITREF:a refused token request does not bind the grant", "a token request refused for its redirect_uri bound the grant to the key of the DPoP proof it came with"),
]
KNOWN = []


def known(prop, sig, what):
    KNOWN.append({"status": "known", "property": prop, "sig": sig, "what": what})


# C03: without a configured lifetime the handler's lifetime goes into the JWT and the grant applies another one
for kind in ("oidc", "oauth2"):
    for rule in ("rule without expires_in", "no rule"):
        for where in ("authorization", "token", "refresh"):
            if kind == "oauth2" and where == "authorization":
                continue
            for tok in ("access", "refresh"):
                if where == "authorization" and tok == "refresh":
                    continue
                jwt = 3600 if tok == "access" else 86400
                app = 1800 if rule == "no rule" and where != "authorization" else None
                said = (f"expires_in={app}," if tok == "access" else "") + f"jwt={jwt},introspection={app}"
                known("C03", f"lifetime:{kind}:True:{rule}:{where}:{tok}:{said}",
                      f"JWT {tok} token from the {kind} {where} endpoint, {rule} configured: lifetimes disagree ({said})")


known("C13", "name and sector run together",
      "pairwise subjects hash user name and sector without a separator: bob at sub.example.com and bobs at ub.example.com "
      "get the same subject (repairing it would change every subject identifier in use)")


def resolve(ref):
    if not ref.startswith("GITREF:"):
        return ref
    import subprocess
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
    for line in log.splitlines():
        if ref[7:] in line:
            return line.split()[0]
    raise SystemExit("no commit " + ref)


if __name__ == "__main__":
    out = [{"status": f"fixed: property={p} {resolve(c)} {w}"} for p, c, w in FIXED] + KNOWN
    with open(os.path.join(V, "known_findings.json"), "w") as f:
        json.dump(out, f, indent=1)
    print(len(out))
