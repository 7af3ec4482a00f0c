From 12a67e0761021aacbb92d0d625314414a270d385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:52 +0000
Subject: [PATCH 01/87] fix: tokens of a revoked or expired grant are not
 honoured at userinfo and introspection

---
 src/oidcop/oauth2/introspection.py | 3 ++-
 src/oidcop/oidc/userinfo.py        | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index c298c12..ef12b6f 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -30,7 +30,8 @@ class Introspection(Endpoint):
         if token.token_class not in ["access_token", "refresh_token"]:
             return None
 
-        if not token.is_active():
+        # Neither a token nor anything based on a revoked or expired grant is active
+        if not token.is_active() or not grant.is_active():
             return None
 
         scope = token.scope
diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 6e6ce97..782b61c 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -121,8 +121,8 @@ class UserInfo(Endpoint):
         if token and token.token_class != "access_token":
             return self.error_cls(error="invalid_token", error_description="Wrong type of token")
 
-        # And it should be valid
-        if token.is_active() is False:
+        # And it should be valid, as should the grant it belongs to
+        if token.is_active() is False or _grant.is_active() is False:
             return self.error_cls(error="invalid_token", error_description="Invalid Token")
 
         allowed = True
-- 
2.43.0


From 0086cc20d09f76f7687ef94981ed348483a3686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:12 +0000
Subject: [PATCH 02/87] fix: a token lifetime of -1 means that the token never
 expires

---
 src/oidcop/oauth2/authorization.py |  2 +-
 src/oidcop/oauth2/token.py         |  2 +-
 src/oidcop/token/jwt_token.py      | 10 +++++++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 86b7ce8..a9d0ca3 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -340,7 +340,7 @@ class Authorization(Endpoint):
         _exp_in = usage_rules.get("expires_in")
         if isinstance(_exp_in, str):
             _exp_in = int(_exp_in)
-        if _exp_in:
+        if _exp_in and _exp_in > 0:  # a negative value means that the token will never expire
             token.expires_at = utc_time_sans_frac() + _exp_in
 
         _mngr = self.server_get("endpoint_context").session_manager
diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index bfee6df..5db6d2f 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -88,7 +88,7 @@ class TokenEndpointHelper(object):
             if isinstance(_exp_in, str):
                 _exp_in = int(_exp_in)
 
-            if _exp_in:
+            if _exp_in > 0:  # a negative value means that the token will never expire
                 token.expires_at = utc_time_sans_frac() + _exp_in
 
         _context.session_manager.set(_context.session_manager.unpack_session_key(session_id), grant)
diff --git a/src/oidcop/token/jwt_token.py b/src/oidcop/token/jwt_token.py
index d865349..416c28a 100644
--- a/src/oidcop/token/jwt_token.py
+++ b/src/oidcop/token/jwt_token.py
@@ -76,6 +76,8 @@ class JWTToken(Token):
             lifetime = usage_rules.get("expires_in")
         else:
             lifetime = self.lifetime
+        if lifetime and lifetime < 0:  # will never expire
+            lifetime = 0
         signer = JWT(
             key_jar=_context.keyjar,
             iss=self.issuer,
@@ -113,13 +115,15 @@ class JWTToken(Token):
         else:
             _payload["token_class"] = self.token_class
 
-        if is_expired(_payload["exp"]):
+        # No expiration time means that the token never expires
+        _exp = _payload.get("exp", -1)
+        if is_expired(_exp):
             raise ToOld("Token has expired")
         # All the token metadata
         _res = {
             "sid": _payload["sid"],
             "token_class": _payload["token_class"],
-            "exp": _payload["exp"],
+            "exp": _exp,
             "handler": self,
         }
         return _res
@@ -133,7 +137,7 @@ class JWTToken(Token):
         :return: True/False
         """
         _payload = self.get_payload(token)
-        return is_expired(_payload["exp"], when)
+        return is_expired(_payload.get("exp", -1), when)
 
     def gather_args(self, sid, sdb, udb):
         # sdb[sid]
-- 
2.43.0


From b630b7e341ef8c2911a008b7ed87a3c7787278d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:51 +0000
Subject: [PATCH 03/87] fix: concurrent token requests can not redeem the same
 code twice

---
 src/oidcop/oauth2/token.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 5db6d2f..9cb5de3 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -1,4 +1,5 @@
 import logging
+import threading
 from typing import Optional
 from typing import Union
 
@@ -386,6 +387,7 @@ class Token(Endpoint):
         self.new_refresh_token = new_refresh_token
         self.configure_grant_types(kwargs.get("grant_types_supported"))
         self.revoke_refresh_on_issue = kwargs.get("revoke_refresh_on_issue", False)
+        self.mint_lock = threading.Lock()
 
     def configure_grant_types(self, grant_types_supported):
         if grant_types_supported is None:
@@ -455,7 +457,9 @@ class Token(Endpoint):
         try:
             _helper = self.helper.get(request["grant_type"])
             if _helper:
-                response_args = _helper.process_request(request, **kwargs)
+                # Checking a token, minting others and registering the usage must not be interleaved
+                with self.mint_lock:
+                    response_args = _helper.process_request(request, **kwargs)
             else:
                 return self.error_cls(
                     error="invalid_request",
-- 
2.43.0


From 182d9a90cc19ee2eb449c61a908f2fdd994f1b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 04/87] fix: a grant only contains scopes the client is allowed
 to use

---
 src/oidcop/authz/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/authz/__init__.py b/src/oidcop/authz/__init__.py
index 72b6979..814c763 100755
--- a/src/oidcop/authz/__init__.py
+++ b/src/oidcop/authz/__init__.py
@@ -85,7 +85,10 @@ class AuthzHandling(object):
         # After this is where user consent should be handled
         scopes = grant.scope
         if not scopes:
-            scopes = request.get("scope", [])
+            _scopes_handler = self.server_get("endpoint_context").scopes_handler
+            scopes = _scopes_handler.filter_scopes(
+                request.get("scope", []), client_id=session_info["client_id"]
+            )
             grant.scope = scopes
         grant.claims = self.server_get("endpoint_context").claims_interface.get_claims_all_usage(
             session_id=session_id, scopes=scopes
-- 
2.43.0


From ba635879cc428784295c5a396faee4a92be15cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 05/87] fix: a client's token usage rules are not modified by
 the sessions that use them

---
 src/oidcop/authz/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/authz/__init__.py b/src/oidcop/authz/__init__.py
index 814c763..a3e42a8 100755
--- a/src/oidcop/authz/__init__.py
+++ b/src/oidcop/authz/__init__.py
@@ -30,7 +30,9 @@ class AuthzHandling(object):
             return _usage_rules
 
         try:
-            _per_client = self.server_get("endpoint_context").cdb[client_id]["token_usage_rules"]
+            _per_client = copy.deepcopy(
+                self.server_get("endpoint_context").cdb[client_id]["token_usage_rules"]
+            )
         except KeyError:
             pass
         else:
-- 
2.43.0


From 29c7c23df50d198cd63d5a5a728b3d3cb0462952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 06/87] fix: honour the documented allowed_scopes configuration
 (and scopes_to_claims for an AS)

---
 src/oidcop/configure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/configure.py b/src/oidcop/configure.py
index 06332d2..7f4cd83 100755
--- a/src/oidcop/configure.py
+++ b/src/oidcop/configure.py
@@ -95,6 +95,7 @@ class EntityConfiguration(Base):
     uris = ["issuer", "base_url"]
     parameter = {
         "add_on": None,
+        "allowed_scopes": None,
         "authz": None,
         "authentication": None,
         "base_url": "",
@@ -106,6 +107,7 @@ class EntityConfiguration(Base):
         "httpc_params": {},
         "issuer": "",
         "keys": None,
+        "scopes_to_claims": {},
         "session_params": None,
         "template_dir": None,
         "token_handler_args": {},
@@ -165,7 +167,6 @@ class OPConfiguration(EntityConfiguration):
             "login_hint2acrs": {},
             "login_hint_lookup": None,
             "sub_func": {},
-            "scopes_to_claims": {},
         }
     )
 
-- 
2.43.0


From 9bf405bb56f464a30ce669b73b1641e40e264472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 07/87] fix: scope in an OAuth2 authorization response is one
 space separated parameter

---
 src/oidcop/oauth2/authorization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index a9d0ca3..95dd479 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -736,8 +736,8 @@ class Authorization(Endpoint):
             _sinfo = _mngr.get_session_info(sid, grant=True)
 
             if request.get("scope"):
-                aresp["scope"] = _context.scopes_handler.filter_scopes(
-                    request["scope"], _sinfo["client_id"]
+                aresp["scope"] = " ".join(
+                    _context.scopes_handler.filter_scopes(request["scope"], _sinfo["client_id"])
                 )
 
             rtype = set(request["response_type"][:])
-- 
2.43.0


From c38769f36197ab23d3253665cac5578536b2bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 08/87] fix: introspection of a token that does not expire has
 no exp

---
 src/oidcop/oauth2/introspection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index ef12b6f..85cad36 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -50,11 +50,12 @@ class Introspection(Endpoint):
             "scope": " ".join(scope),
             "client_id": client_id,
             "token_class": token.token_class,
-            "exp": token.expires_at,
             "iat": token.issued_at,
             "sub": grant.sub,
             "iss": _context.issuer,
         }
+        if token.expires_at:  # 0 means that the token does not expire
+            ret["exp"] = token.expires_at
 
         try:
             _token_type = token.token_type
-- 
2.43.0


From 177de56df9d828082544e8734d508f7bd700303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 09/87] fix: honour the documented pkce option
 code_challenge_method

---
 src/oidcop/oidc/add_on/pkce.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/add_on/pkce.py b/src/oidcop/oidc/add_on/pkce.py
index 3e7fa05..b925355 100644
--- a/src/oidcop/oidc/add_on/pkce.py
+++ b/src/oidcop/oidc/add_on/pkce.py
@@ -139,7 +139,12 @@ def add_pkce_support(endpoint: Dict[str, Endpoint], **kwargs):
     authn_endpoint.post_parse_request.append(post_authn_parse)
     token_endpoint.post_parse_request.append(post_token_parse)
 
-    code_challenge_methods = kwargs.get("code_challenge_methods", CC_METHOD.keys())
+    # 'code_challenge_method' is the documented name
+    code_challenge_methods = kwargs.get(
+        "code_challenge_methods", kwargs.get("code_challenge_method", CC_METHOD.keys())
+    )
+    if isinstance(code_challenge_methods, str):
+        code_challenge_methods = code_challenge_methods.split()
 
     kwargs["code_challenge_methods"] = {}
     for method in code_challenge_methods:
-- 
2.43.0


From c2e9a419591ebeef1be6edd1b4a40b4966d2ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 10/87] fix: redirect URIs are compared as they are, with all
 their query parameters

---
 src/oidcop/oauth2/authorization.py | 13 ++++++-------
 src/oidcop/util.py                 |  2 +-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 95dd479..c106889 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -3,9 +3,7 @@ import logging
 from typing import List
 from typing import Optional
 from typing import Union
-from urllib.parse import unquote
 from urllib.parse import urlencode
-from urllib.parse import urlparse
 
 from cryptojwt import BadSyntax
 from cryptojwt import as_unicode
@@ -116,13 +114,12 @@ def verify_uri(
     if _uri is None:
         raise ValueError(f"Wrong uri_type: {uri_type}")
 
-    _redirect_uri = unquote(_uri)
-
-    part = urlparse(_redirect_uri)
-    if part.fragment:
+    if "#" in _uri:
         raise URIError("Contains fragment")
+    if any(c.isspace() or not c.isprintable() for c in _uri):
+        raise URIError("Contains white space or control characters")
 
-    (_base, _query) = split_uri(_redirect_uri)
+    (_base, _query) = split_uri(_uri)
 
     # Get the clients registered redirect uris
     client_info = endpoint_context.cdb.get(_cid)
@@ -169,6 +166,8 @@ def verify_uri(
                         for val in vals:
                             if val not in rquery[key]:
                                 raise ValueError("Extra {}={} value in query part".format(key, val))
+                        if len(vals) != len(rquery[key]):
+                            raise ValueError("Repeated {} in query part".format(key))
                 match = True
                 break
         if not match:
diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index 5800405..420527c 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -190,7 +190,7 @@ def split_uri(uri):
     if p.query:
         o = p._replace(query="")
         base = urlunsplit(o)
-        return base, parse_qs(p.query)
+        return base, parse_qs(p.query, keep_blank_values=True)
     else:
         base = urlunsplit(p)
         return base, ""
-- 
2.43.0


From 6e8ce8f5e8a62696f8189438fd20c082376e211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 11/87] fix: escape values put in the self-submitting form of
 form_post responses

---
 src/oidcop/oauth2/authorization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index c106889..d86e028 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -1,3 +1,4 @@
+import html
 import json
 import logging
 from typing import List
@@ -78,7 +79,7 @@ def inputs(form_args):
     for name, value in form_args.items():
         if name == "scope" and isinstance(value, list):
             value = " ".join(value)
-        element.append(html_field.format(name, value))
+        element.append(html_field.format(html.escape(str(name)), html.escape(str(value))))
     return "\n".join(element)
 
 
@@ -676,7 +677,7 @@ class Authorization(Endpoint):
                 if "return_type" in _args:
                     del _args["return_type"]
 
-            msg = FORM_POST.format(inputs=inputs(_args), action=return_uri)
+            msg = FORM_POST.format(inputs=inputs(_args), action=html.escape(return_uri))
             kwargs.update(
                 {
                     "response_msg": msg,
-- 
2.43.0


From edffdec831568a838ffbf3e20c0693d3c2dcc97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 12/87] fix: errors go to the redirect URI also when
 response_mode is query or fragment

---
 src/oidcop/oauth2/authorization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index d86e028..3676362 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -999,10 +999,12 @@ class Authorization(Endpoint):
         info = self.setup_auth(request, request["redirect_uri"], cinfo, _my_cookies, **kwargs)
 
         if "error" in info:
-            if "response_mode" in request:
+            _response_mode = request.get("response_mode")
+            if _response_mode == "form_post":
                 return self.response_mode(request, info)
-            else:
-                return info
+            if _response_mode == "fragment":
+                info["fragment_enc"] = True
+            return info
 
         _function = info.get("function")
         if not _function:
-- 
2.43.0


From c49d2e4a7026347dd4ed22dcd0ae01388a25d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 13/87] fix: post_logout_redirect_uri must be registered by the
 client that is logged out

---
 src/oidcop/oidc/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 79a7f9d..221148c 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -317,9 +317,10 @@ class Session(Endpoint):
             plur = False
         else:
             plur = True
+            # the client to log out from is the one of the session, whatever the request claims
             verify_uri(
                 _context,
-                request,
+                {"post_logout_redirect_uri": _uri},
                 "post_logout_redirect_uri",
                 client_id=_session_info["client_id"],
             )
-- 
2.43.0


From 5b0c3e5fa5a8de37d8cc8303669ef5dfa7ae3f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 14/87] fix: add the state to a post_logout_redirect_uri that
 has a query part

---
 src/oidcop/oidc/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 221148c..d10f7b1 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -331,7 +331,8 @@ class Session(Endpoint):
 
         # redirect user to OP logout verification page
         if plur and "state" in request:
-            _uri = "{}?{}".format(_uri, urlencode({"state": request["state"]}))
+            _separator = "&" if "?" in _uri else "?"
+            _uri = "{}{}{}".format(_uri, _separator, urlencode({"state": request["state"]}))
             payload["state"] = request["state"]
 
         payload["redirect_uri"] = _uri
-- 
2.43.0


From e70b0b47cad5341269ebd6177eea85e65e28f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 15/87] fix: a registered post_logout_redirect_uri can be used
 at logout

---
 src/oidcop/oidc/registration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 529664a..f2f80ff 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -189,6 +189,9 @@ class Registration(Endpoint):
                 )
                 return err
             _cinfo["post_logout_redirect_uri"] = split_uri(_uri)
+            # what the end_session endpoint looks at
+            _uris = list(_cinfo.get("post_logout_redirect_uris", []))
+            _cinfo["post_logout_redirect_uris"] = _uris + [split_uri(_uri)]
 
         if "redirect_uris" in request:
             try:
-- 
2.43.0


From 18a9afc4b21b13b4aea26e7959303e85b6a32e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 16/87] fix: a redirect URI may be registered with and without
 (or with different) query parts

---
 src/oidcop/oauth2/authorization.py | 74 ++++++++++++++++++------------
 1 file changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 3676362..de6904e 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -88,6 +88,42 @@ def max_age(request):
     return request.get(verified_request, {}).get("max_age") or request.get("max_age", 0)
 
 
+def verify_query(query: dict, rquery: dict):
+    """
+    Verify that a redirect URI has exactly the registered query components
+
+    :param query: The query part of the URI used
+    :param rquery: The registered query part
+    """
+    # every registered query component must exist in the uri
+    if rquery:
+        if not query:
+            raise ValueError("Missing query part")
+
+        for key, vals in rquery.items():
+            if key not in query:
+                raise ValueError('"{}" not in query part'.format(key))
+
+            for val in vals:
+                if val not in query[key]:
+                    raise ValueError("{}={} value not in query part".format(key, val))
+
+    # and vice versa, every query component in the uri
+    # must be registered
+    if query:
+        if not rquery:
+            raise ValueError("No registered query part")
+
+        for key, vals in query.items():
+            if key not in rquery:
+                raise ValueError('"{}" extra in query part'.format(key))
+            for val in vals:
+                if val not in rquery[key]:
+                    raise ValueError("Extra {}={} value in query part".format(key, val))
+            if len(vals) != len(rquery[key]):
+                raise ValueError("Repeated {} in query part".format(key))
+
+
 def verify_uri(
     endpoint_context: EndpointContext,
     request: Union[dict, Message],
@@ -133,46 +169,24 @@ def verify_uri(
         raise RedirectURIError(f"No registered {uri_type} for {_cid}")
     else:
         match = False
+        mismatch = None
         for _item in redirect_uris:
             if isinstance(_item, str):
-                regbase = _item
-                rquery = {}
+                regbase, rquery = split_uri(_item)
             else:
                 regbase, rquery = _item
 
             # The URI MUST exactly match one of the Redirection URI
             if _base == regbase:
-                # every registered query component must exist in the uri
-                if rquery:
-                    if not _query:
-                        raise ValueError("Missing query part")
-
-                    for key, vals in rquery.items():
-                        if key not in _query:
-                            raise ValueError('"{}" not in query part'.format(key))
-
-                        for val in vals:
-                            if val not in _query[key]:
-                                raise ValueError("{}={} value not in query part".format(key, val))
-
-                # and vice versa, every query component in the uri
-                # must be registered
-                if _query:
-                    if not rquery:
-                        raise ValueError("No registered query part")
-
-                    for key, vals in _query.items():
-                        if key not in rquery:
-                            raise ValueError('"{}" extra in query part'.format(key))
-                        for val in vals:
-                            if val not in rquery[key]:
-                                raise ValueError("Extra {}={} value in query part".format(key, val))
-                        if len(vals) != len(rquery[key]):
-                            raise ValueError("Repeated {} in query part".format(key))
+                try:
+                    verify_query(_query, rquery)
+                except ValueError as err:  # may be registered with another query part too
+                    mismatch = err
+                    continue
                 match = True
                 break
         if not match:
-            raise RedirectURIError("Doesn't match any registered uris")
+            raise mismatch or RedirectURIError("Doesn't match any registered uris")
 
 
 def join_query(base, query):
-- 
2.43.0


From db64cbf37ba294149bd1277af5942e643c2d72ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:12 +0000
Subject: [PATCH 17/87] fix: OAuth2 authorization responses need not have a
 code

---
 src/oidcop/oauth2/authorization.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index de6904e..d606d78 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -16,6 +16,7 @@ from cryptojwt.utils import b64e
 from oidcmsg import oauth2
 from oidcmsg.exception import ParameterError
 from oidcmsg.exception import URIError
+from oidcmsg.message import SINGLE_OPTIONAL_STRING
 from oidcmsg.message import Message
 from oidcmsg.oauth2 import AuthorizationRequest
 from oidcmsg.oidc import AuthorizationResponse
@@ -289,9 +290,18 @@ def check_unknown_scopes_policy(request_info, client_id, endpoint_context):
         raise UnAuthorizedClientScope()
 
 
+class OAuth2AuthorizationResponse(oauth2.AuthorizationResponse):
+    """
+    Responses to requests without 'code' in the response_type, and error responses, have no code.
+    """
+
+    c_param = oauth2.AuthorizationResponse.c_param.copy()
+    c_param.update({"code": SINGLE_OPTIONAL_STRING})
+
+
 class Authorization(Endpoint):
     request_cls = oauth2.AuthorizationRequest
-    response_cls = oauth2.AuthorizationResponse
+    response_cls = OAuth2AuthorizationResponse
     error_cls = oauth2.AuthorizationErrorResponse
     request_format = "urlencoded"
     response_format = "urlencoded"
-- 
2.43.0


From 009fe825382f78cf59fdd2baf46151c23bae5c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:12 +0000
Subject: [PATCH 18/87] fix: a client assertion without jti can be used once
 only

---
 src/oidcop/client_authn.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index a34e632..2589c79 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -1,4 +1,5 @@
 import base64
+import hashlib
 import logging
 from typing import Callable
 from typing import Optional
@@ -179,6 +180,11 @@ class BearerBody(ClientSecretPost):
         return res
 
 
+def assertion_hash(assertion):
+    """Identifies a JWT that has no jti"""
+    return hashlib.sha256(as_bytes(assertion.rsplit(".", 1)[0])).hexdigest()
+
+
 class JWSAuthnMethod(ClientAuthnMethod):
     def is_usable(self, request=None, authorization_token=None):
         if request is None:
@@ -224,7 +230,7 @@ class JWSAuthnMethod(ClientAuthnMethod):
                 raise NotForMe("Not for me!")
 
         # If there is a jti use it to make sure one-time usage is true
-        _jti = ca_jwt.get("jti")
+        _jti = ca_jwt.get("jti") or assertion_hash(request["client_assertion"])
         if _jti:
             _key = "{}:{}".format(ca_jwt["iss"], _jti)
             if _key in _context.jti_db:
@@ -286,7 +292,7 @@ class RequestParam(ClientAuthnMethod):
             raise AuthnFailure("Could not verify client_assertion.")
 
         # If there is a jti use it to make sure one-time usage is true
-        _jti = _jwt.get("jti")
+        _jti = _jwt.get("jti") or assertion_hash(request["request"])
         if _jti:
             _key = "{}:{}".format(_jwt["iss"], _jti)
             if _key in _context.jti_db:
-- 
2.43.0


From 1edc5738f5a524a8bd68e2fd9077d12dec60dd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:12 +0000
Subject: [PATCH 19/87] fix: a request object for another audience does not
 authenticate the client

---
 src/oidcop/client_authn.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index 2589c79..124a164 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -291,6 +291,15 @@ class RequestParam(ClientAuthnMethod):
             logger.info("%s" % sanitize(err))
             raise AuthnFailure("Could not verify client_assertion.")
 
+        # Meant for someone else ?
+        _aud = _jwt.get("aud")
+        if _aud is not None:
+            _targets = {_context.issuer}
+            if kwargs.get("endpoint"):
+                _targets.update(kwargs["endpoint"].allowed_target_uris())
+            if not _targets.intersection(_aud):
+                raise NotForMe("Not for me!")
+
         # If there is a jti use it to make sure one-time usage is true
         _jti = _jwt.get("jti") or assertion_hash(request["request"])
         if _jti:
-- 
2.43.0


From c59a88b206763bc1feb39738d424c1e89120626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:41 +0000
Subject: [PATCH 20/87] fix: deleting from the session database removes what is
 below and nothing else

---
 src/oidcop/session/database.py | 58 ++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 8f4e79e..536ede0 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -126,45 +126,55 @@ class Database(ImpExp):
                 raise NoSuchGrant(grant_id)
 
     def delete(self, path: List[str]):
+        """
+        Removes what the path points at and everything below it. A client session or user
+        session that then has nothing left below it is removed too.
+
+        :param path: a list of identifiers
+        """
         uid, client_id, grant_id = self._eval_path(path)
 
         if uid not in self.db:
             return
-        elif not client_id:
-            self.db.__delitem__(uid)
-            return
 
         _user_info = self.db[uid]
-        skey_uid_client = self.session_key(uid, client_id)
-        skey_uid_client_grant = self.session_key(uid, client_id, grant_id or "")
+        if not client_id:
+            for _client_id in list(_user_info.subordinate):
+                self._delete_client_session(uid, _client_id)
+            self.db.__delitem__(uid)
+            return
 
         if client_id not in _user_info.subordinate:
-            self.db.__delitem__(client_id)
             return
 
-        elif skey_uid_client in self.db:
-            _client_info = self.db[skey_uid_client]
-            if grant_id:
+        if grant_id:
+            skey_uid_client = self.session_key(uid, client_id)
+            if skey_uid_client in self.db:
+                _client_info = self.db[skey_uid_client]
+                if grant_id not in _client_info.subordinate:
+                    return
+                skey_uid_client_grant = self.session_key(uid, client_id, grant_id)
                 if skey_uid_client_grant in self.db:
                     self.db.__delitem__(skey_uid_client_grant)
-                if grant_id in _client_info.subordinate:
-                    _client_info.subordinate.remove(grant_id)
-            else:
-                for grant_id in _client_info.subordinate:
-                    if skey_uid_client_grant in self.db:
-                        self.db.__delitem__(skey_uid_client_grant)
-                _client_info.subordinate = []
-
-            if len(_client_info.subordinate) == 0:
-                self.db.__delitem__(skey_uid_client)
-                _user_info.subordinate.remove(client_id)
-            else:
-                self.db[client_id] = _client_info
+                _client_info.subordinate.remove(grant_id)
+                if len(_client_info.subordinate) == 0:
+                    self.db.__delitem__(skey_uid_client)
+                    _user_info.subordinate.remove(client_id)
+        else:
+            self._delete_client_session(uid, client_id)
+            _user_info.subordinate.remove(client_id)
 
         if len(_user_info.subordinate) == 0:
             self.db.__delitem__(uid)
-        else:
-            self.db[uid] = _user_info
+
+    def _delete_client_session(self, uid: str, client_id: str):
+        skey_uid_client = self.session_key(uid, client_id)
+        if skey_uid_client in self.db:
+            for grant_id in self.db[skey_uid_client].subordinate:
+                skey_uid_client_grant = self.session_key(uid, client_id, grant_id)
+                if skey_uid_client_grant in self.db:
+                    self.db.__delitem__(skey_uid_client_grant)
+            self.db.__delitem__(skey_uid_client)
 
     def update(self, path: List[str], new_info: dict):
         _info = self.get(path)
-- 
2.43.0


From f32f7510330ec2add3de951b68fe3939f925cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:13 +0000
Subject: [PATCH 21/87] fix: minting a token stores the grant where it belongs
 in the session database

---
 src/oidcop/oauth2/authorization.py | 2 +-
 src/oidcop/oauth2/token.py         | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index d606d78..4d68eb0 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -368,7 +368,7 @@ class Authorization(Endpoint):
             token.expires_at = utc_time_sans_frac() + _exp_in
 
         _mngr = self.server_get("endpoint_context").session_manager
-        _mngr.set(_mngr.unpack_session_key(session_id), grant)
+        _mngr.set(_mngr.decrypt_session_id(session_id), grant)
 
         return token
 
diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 9cb5de3..c2205b0 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -92,7 +92,9 @@ class TokenEndpointHelper(object):
             if _exp_in > 0:  # a negative value means that the token will never expire
                 token.expires_at = utc_time_sans_frac() + _exp_in
 
-        _context.session_manager.set(_context.session_manager.unpack_session_key(session_id), grant)
+        _context.session_manager.set(
+            _context.session_manager.decrypt_session_id(session_id), grant
+        )
 
         return token
 
-- 
2.43.0


From c12c563798bb9f0790595ed61bb35e6653fd8fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:13 +0000
Subject: [PATCH 22/87] fix: add_grant adds the grant to the client session
 once

---
 src/oidcop/session/manager.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index 3bddebc..e51ca7e 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -522,9 +522,6 @@ class SessionManager(Database):
         args = {k: v for k, v in kwargs.items() if k in Grant.parameter}
         _grant = Grant(**args)
         self.set([user_id, client_id, _grant.id], _grant)
-        _client_session_info = self.get([user_id, client_id])
-        _client_session_info.subordinate.append(_grant.id)
-        self.set([user_id, client_id], _client_session_info)
         return _grant
 
     def remove_session(self, session_id: str):
-- 
2.43.0


From 1c5495ac0edc6750573fbd19cdc6c1bb6932da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:13 +0000
Subject: [PATCH 23/87] fix: session information can contain both the grant and
 its authentication event

---
 src/oidcop/session/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index e51ca7e..5b31663 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -454,7 +454,7 @@ class SessionManager(Database):
 
         if authentication_event:
             if grant:
-                res["authentication_event"] = res["grant"]["authentication_event"]
+                res["authentication_event"] = res["grant"].authentication_event
             else:
                 _grant = self.get([_user_id, _client_id, _grant_id])
                 res["authentication_event"] = _grant.authentication_event
-- 
2.43.0


From 1c5dc011fb031727b89b58b3e3075cf5a7106c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:52 +0000
Subject: [PATCH 24/87] fix: a client can turn off claims by scope

---
 src/oidcop/session/claims.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index bcea058..e9860f1 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -68,13 +68,14 @@ class ClaimsInterface:
     ):
         _context = self.server_get("endpoint_context")
         add_claims_by_scope = _context.cdb[client_id].get("add_claims", {}).get("by_scope", {})
-        if add_claims_by_scope:
-            _claims_by_scope = add_claims_by_scope.get(claims_release_point, False)
-            if not _claims_by_scope and secondary_identifier:
-                _claims_by_scope = add_claims_by_scope.get(secondary_identifier, False)
-
-            if not _claims_by_scope:
-                _claims_by_scope = module.kwargs.get("add_claims_by_scope", {})
+        # what the client's configuration says overrides the general configuration
+        _by_scope = [
+            add_claims_by_scope[point]
+            for point in [claims_release_point, secondary_identifier]
+            if point in add_claims_by_scope
+        ]
+        if _by_scope:
+            _claims_by_scope = any(_by_scope)
         else:
             _claims_by_scope = module.kwargs.get("add_claims_by_scope", {})
 
-- 
2.43.0


From f735582d70c5ee0536897fccdf14f8903fe2abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:39 +0000
Subject: [PATCH 25/87] fix: claims always added for a client do not accumulate
 in its configuration

---
 src/oidcop/session/claims.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index e9860f1..d1f8dce 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -80,10 +80,10 @@ class ClaimsInterface:
             _claims_by_scope = module.kwargs.get("add_claims_by_scope", {})
 
         add_claims_always = _context.cdb[client_id].get("add_claims", {}).get("always", {})
-        _always_add = add_claims_always.get(claims_release_point, [])
-        if secondary_identifier:
-            _always_2 = add_claims_always.get(secondary_identifier, [])
-            _always_add.extend(_always_2)
+        _always_add = {}  # a copy, the client's configuration must not be changed
+        for point in [secondary_identifier, claims_release_point]:
+            _always = add_claims_always.get(point, {})
+            _always_add.update(_always if isinstance(_always, dict) else {k: None for k in _always})
 
         return _claims_by_scope, _always_add
 
-- 
2.43.0


From 9b6bedae520e4abd07cdd1788d6fa849ccb0840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 26/87] fix: unknown members of a claims request do not stop
 the claim from being released

---
 src/oidcop/session/claims.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index d1f8dce..38fba3b 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -255,7 +255,8 @@ def claims_match(value: Union[str, int], claimspec: Optional[dict]) -> bool:
             break
 
     if matched is False:
-        if list(claimspec.keys()) == ["essential"]:
+        # Without 'value' and 'values' there is nothing to match. Other members are ignored.
+        if "value" not in claimspec and "values" not in claimspec:
             return True
 
     return matched
-- 
2.43.0


From 9703300bef53775ad2ac031f1e4461bd48db693a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:46 +0000
Subject: [PATCH 27/87] fix: user information never replaces the subject, scope
 or client of a token

---
 src/oidcop/oauth2/introspection.py | 3 ++-
 src/oidcop/session/grant.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index 85cad36..8f359c9 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -123,7 +123,8 @@ class Introspection(Endpoint):
                 _session_info["user_id"], _claims_restriction
             )
             if user_info:
-                _resp.update(user_info)
+                # What is known about the user never replaces what is known about the token
+                _resp.update({k: v for k, v in user_info.items() if k not in _resp})
 
         _resp["active"] = True
 
diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index a7c6f8d..4a56676 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -237,7 +237,8 @@ class Grant(Item):
         )
         user_id, _, _ = endpoint_context.session_manager.decrypt_session_id(session_id)
         user_info = endpoint_context.claims_interface.get_user_claims(user_id, _claims_restriction)
-        payload.update(user_info)
+        # What is known about the user never replaces what is known about the token
+        payload.update({k: v for k, v in user_info.items() if k not in payload})
 
         # Should I add the acr value
         if self.add_acr_value(claims_release_point):
-- 
2.43.0


From eb92d36c36a9fc1b0c77d0e90fce85ca1d9bdaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:14 +0000
Subject: [PATCH 28/87] fix: ID Tokens with a symmetric algorithm are signed
 with the client's secret

---
 src/oidcop/token/id_token.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index e8555ef..e58c6c0 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -257,7 +257,10 @@ class IDToken(Token):
 
         _jwt = JWT(_context.keyjar, iss=_context.issuer, lifetime=lifetime, **alg_dict)
 
-        return _jwt.pack(_payload, recv=client_id)
+        # Symmetric algorithms use the secret shared with the client
+        _key_owner = client_id if alg_dict["sign_alg"].startswith("HS") else ""
+
+        return _jwt.pack(_payload, recv=client_id, issuer_id=_key_owner)
 
     def __call__(
         self,
-- 
2.43.0


From 3dd775b01daa9638f267ad4c34b863f1c8844f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:17 +0000
Subject: [PATCH 29/87] fix: a user name that looks like base64 is not decoded
 when taken from a session

---
 src/oidcop/oauth2/authorization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 4d68eb0..0ee410f 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -541,10 +541,13 @@ class Authorization(Endpoint):
 
     def _unwrap_identity(self, identity):
         if isinstance(identity, dict):
+            if "sid" in identity:  # The user of a session, never something wrapped
+                return identity
             try:
-                _id = b64d(as_bytes(identity["uid"]))
-            except BadSyntax:
+                _info = json.loads(as_unicode(b64d(as_bytes(identity["uid"]))))
+            except (BadSyntax, ValueError):
                 return identity
+            return _info if isinstance(_info, dict) else identity
         else:
             _id = b64d(as_bytes(identity))
 
-- 
2.43.0


From 3064f06efc5078e3fd7aae3d2d7e309d01cdac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:08 +0000
Subject: [PATCH 30/87] fix: sessions follow the client's registered subject
 type and sector

---
 src/oidcop/oauth2/authorization.py | 26 ++++++++++++++++++++++++++
 src/oidcop/session/manager.py      |  8 +++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 0ee410f..0bf767b 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -4,6 +4,7 @@ import logging
 from typing import List
 from typing import Optional
 from typing import Union
+from urllib.parse import urlparse
 from urllib.parse import urlencode
 
 from cryptojwt import BadSyntax
@@ -506,6 +507,28 @@ class Authorization(Endpoint):
                 "return_type": request["response_type"],
             }
 
+    def subject_policy(self, client_id):
+        """
+        What kind of subject identifier a client should see, as registered.
+
+        :param client_id: Client ID
+        :return: Arguments for the session manager's create_session/create_grant
+        """
+        cinfo = self.server_get("endpoint_context").cdb.get(client_id, {})
+        sector_uri = cinfo.get("sector_id") or cinfo.get("sector_identifier_uri")
+        if sector_uri:
+            sectors = {urlparse(sector_uri).hostname}
+        else:
+            _uris = [u if isinstance(u, str) else u[0] for u in cinfo.get("redirect_uris") or []]
+            sectors = {urlparse(uri).hostname for uri in _uris}
+        sector = sectors.pop() if len(sectors) == 1 else None
+
+        return {
+            "sub_type": cinfo.get("subject_type") or "public",
+            # Something that does not belong to one sector is a sector of its own
+            "sector_identifier": sector or client_id,
+        }
+
     def create_session(self, request, user_id, acr, time_stamp, authn_method):
         _context = self.server_get("endpoint_context")
         _mngr = _context.session_manager
@@ -525,6 +548,7 @@ class Authorization(Endpoint):
             user_id=user_id,
             client_id=request["client_id"],
             token_usage_rules=_token_usage_rules,
+            **self.subject_policy(request["client_id"]),
         )
 
     def _login_required_error(self, redirect_uri, request):
@@ -668,6 +692,8 @@ class Authorization(Endpoint):
                             auth_req=request,
                             user_id=user,
                             client_id=request["client_id"],
+                            token_usage_rules=_context.authz.usage_rules(request["client_id"]),
+                            **self.subject_policy(request["client_id"]),
                         )
 
         if _session_id:
diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index 5b31663..59dd9af 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -167,6 +167,7 @@ class SessionManager(Database):
         sub_type: Optional[str] = "public",
         token_usage_rules: Optional[dict] = None,
         scopes: Optional[list] = None,
+        sector_identifier: Optional[str] = None,
     ) -> str:
         """
 
@@ -177,9 +178,11 @@ class SessionManager(Database):
         :param client_id:
         :param sub_type:
         :param token_usage_rules:
+        :param sector_identifier: Used for pairwise subject identifiers
         :return:
         """
-        sector_identifier = auth_req.get("sector_identifier_uri", "")
+        if sector_identifier is None:
+            sector_identifier = auth_req.get("sector_identifier_uri", "")
 
         _claims = auth_req.get("claims", {})
 
@@ -207,6 +210,7 @@ class SessionManager(Database):
         sub_type: Optional[str] = "public",
         token_usage_rules: Optional[dict] = None,
         scopes: Optional[list] = None,
+        sector_identifier: Optional[str] = None,
     ) -> str:
         """
         Create part of a user session. The parts added are user- and client
@@ -219,6 +223,7 @@ class SessionManager(Database):
         :param user_id: User ID
         :param sub_type: What kind of subject will be assigned
         :param token_usage_rules: Rules for how tokens can be used
+        :param sector_identifier: Used for pairwise subject identifiers
         :return: Session key
         """
 
@@ -245,6 +250,7 @@ class SessionManager(Database):
             sub_type=sub_type,
             token_usage_rules=token_usage_rules,
             scopes=scopes,
+            sector_identifier=sector_identifier,
         )
 
     def __getitem__(self, session_id: str):
-- 
2.43.0


From 8fee7e90286bcdd6db7329836e76dcf29acb4b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:51 +0000
Subject: [PATCH 31/87] fix: a dump of the endpoint context contains its state
 and nothing that can not be stored

---
 src/oidcop/endpoint_context.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/endpoint_context.py b/src/oidcop/endpoint_context.py
index fd13539..5ad73b6 100755
--- a/src/oidcop/endpoint_context.py
+++ b/src/oidcop/endpoint_context.py
@@ -90,14 +90,14 @@ def get_token_handler_args(conf: dict) -> dict:
 
 class EndpointContext(OidcContext):
     parameter = {
-        "args": {},
+        # "args": set by the add-ons, contain functions
         # "authn_broker": AuthnBroker,
         # "authz": AuthzHandling,
         "cdb": "DICT_TYPE",
-        "conf": {},
+        # "conf": static, and contains references to the server,
         # "cookie_handler": None,
         "cwd": "",
-        "endpoint_to_authn_method": {},
+        # "endpoint_to_authn_method": instances,
         "httpc_params": {},
         # "idtoken": IDToken,
         "issuer": "",
@@ -114,7 +114,7 @@ class EndpointContext(OidcContext):
         "session_manager": SessionManager,
         "sso_ttl": None,
         "symkey": "",
-        "token_args_methods": [],
+        # "token_args_methods": functions,
         # "userinfo": UserInfo,
     }
 
-- 
2.43.0


From 0f9293adabf366075a61de54ab72495973b2bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 32/87] fix: tokens are encrypted with the created keys also
 when these were not read from a file

---
 src/oidcop/token/handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/token/handler.py b/src/oidcop/token/handler.py
index c4fb238..babd8ec 100755
--- a/src/oidcop/token/handler.py
+++ b/src/oidcop/token/handler.py
@@ -115,7 +115,8 @@ def _add_passwd(keyjar, conf, kid):
     if keyjar:
         _keys = keyjar.get_encrypt_key(key_type="oct", kid=kid)
         if _keys:
-            pw = as_unicode(_keys[0].k)
+            # A key that was just created, not read from a file, only has the binary form
+            pw = as_unicode(_keys[0].k) or _keys[0].serialize(private=True)["k"]
             if "kwargs" in conf:
                 conf["kwargs"]["password"] = pw
             else:
-- 
2.43.0


From 29ef4be553fbff0a0342836611223671fcb6fc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 33/87] fix: loading an endpoint context keeps the
 configuration of its session manager

---
 src/oidcop/endpoint_context.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/endpoint_context.py b/src/oidcop/endpoint_context.py
index 5ad73b6..04644f3 100755
--- a/src/oidcop/endpoint_context.py
+++ b/src/oidcop/endpoint_context.py
@@ -104,8 +104,8 @@ class EndpointContext(OidcContext):
         "jti_db": {},
         "jwks_uri": "",
         "keyjar": KeyJar,
-        "login_hint_lookup": None,
-        "login_hint2acrs": {},
+        # "login_hint_lookup": callable,
+        # "login_hint2acrs": callable,
         "par_db": {},
         "provider_info": {},
         "registration_access_token": {},
@@ -240,6 +240,25 @@ class EndpointContext(OidcContext):
         self.dev_auth_db = None
         self.claims_interface = None
 
+    def load(
+            self, item: dict, init_args: Optional[dict] = None, load_args: Optional[dict] = None
+    ):
+        """
+        The sessions are loaded into the session manager that is already there, since a new one
+        would know nothing about the configuration (subject identifier functions, user info, ..).
+        """
+        _mngr = self.session_manager
+        if _mngr is None or "session_manager" not in item:
+            return super().load(item, init_args=init_args, load_args=load_args)
+
+        super().load(
+            {k: v for k, v in item.items() if k != "session_manager"},
+            init_args=init_args,
+            load_args=load_args,
+        )
+        _mngr.load(item["session_manager"], init_args=init_args, load_args=load_args)
+        return self
+
     def new_cookie(self, name: str, max_age: Optional[int] = 0, **kwargs):
         cookie_cont = self.cookie_handler.make_cookie_content(
             name=name, value=json.dumps(kwargs), max_age=max_age
-- 
2.43.0


From c4f397eb980708a6a53f37c17a1c0f57c9b45c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 34/87] fix: a grant keeps its identifier when dumped and
 loaded

---
 src/oidcop/session/grant.py   | 1 +
 src/oidcop/session/manager.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index 4a56676..ca50595 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -108,6 +108,7 @@ class Grant(Item):
             "authorization_request": AuthorizationRequest,
             "claims": {},
             "extra": {},
+            "id": "",
             "issued_token": [SessionToken],
             "resources": [],
             "scope": [],
diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index 59dd9af..efedc91 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -525,7 +525,7 @@ class SessionManager(Database):
         :param kwargs: Keyword arguments to the Grant class initialization
         :return: A Grant instance
         """
-        args = {k: v for k, v in kwargs.items() if k in Grant.parameter}
+        args = {k: v for k, v in kwargs.items() if k in Grant.parameter and k != "id"}
         _grant = Grant(**args)
         self.set([user_id, client_id, _grant.id], _grant)
         return _grant
-- 
2.43.0


From 56254ced72bf2008cd4ff0e1b187240325f36630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:07 +0000
Subject: [PATCH 35/87] fix: cookie keys are kept over a restart when defined
 as OCT keys

---
 src/oidcop/cookie_handler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index cb8130e..db46afc 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -42,6 +42,15 @@ class CookieHandler:
     ):
 
         if keys:
+            _key_defs = keys.get("key_defs")
+            if _key_defs:
+                # A stored key has the type "oct". Defined as something else ("OCT") it would not be
+                # recognized but replaced with a new key every time.
+                keys = dict(keys)
+                keys["key_defs"] = [
+                    dict(_def, type="oct") if _def["type"].lower() == "oct" else _def
+                    for _def in _key_defs
+                ]
             key_jar = init_key_jar(**keys)
             _keys = key_jar.get_signing_key(key_type="oct", kid="sig")
             if _keys:
-- 
2.43.0


From 6047562bdd8ef9e7b258155ef9b9f6241ee3ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:55 +0000
Subject: [PATCH 36/87] fix: pushed requests can be dumped and loaded

---
 src/oidcop/endpoint_context.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/oidcop/endpoint_context.py b/src/oidcop/endpoint_context.py
index 04644f3..5ade729 100755
--- a/src/oidcop/endpoint_context.py
+++ b/src/oidcop/endpoint_context.py
@@ -7,6 +7,7 @@ from typing import Union
 
 import requests
 from cryptojwt import KeyJar
+from cryptojwt.utils import qualified_name
 from jinja2 import Environment
 from jinja2 import FileSystemLoader
 from oidcmsg.context import OidcContext
@@ -88,6 +89,18 @@ def get_token_handler_args(conf: dict) -> dict:
     return th_args
 
 
+def par_db_dump(items: dict, **kwargs) -> dict:
+    return {urn: {qualified_name(req.__class__): req.to_dict()} for urn, req in items.items()}
+
+
+def par_db_load(items: dict, **kwargs) -> dict:
+    res = {}
+    for urn, item in items.items():
+        _class_name = list(item.keys())[0]
+        res[urn] = importer(_class_name)().from_dict(item[_class_name])
+    return res
+
+
 class EndpointContext(OidcContext):
     parameter = {
         # "args": set by the add-ons, contain functions
@@ -117,6 +130,7 @@ class EndpointContext(OidcContext):
         # "token_args_methods": functions,
         # "userinfo": UserInfo,
     }
+    special_load_dump = {"par_db": {"load": par_db_load, "dump": par_db_dump}}
 
     def __init__(
             self,
-- 
2.43.0


From 5e15f6e103329a02f54b37ed45eef8df116b7e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 37/87] fix: the value of a cookie may contain the separators
 of the cookie format

---
 src/oidcop/cookie_handler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index db46afc..634f254 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -267,10 +267,14 @@ class CookieHandler:
         for _cookie in cookies:
             LOGGER.debug("Cookie: {}".format(_cookie))
             if "name" in _cookie and _cookie["name"] == name:
-                _content = self._ver_dec_content(_cookie["value"].split("|"))
+                _parts = _cookie["value"].split("|")
+                if len(_parts) > 3 and not self.enc_key:  # the payload is in clear text
+                    _parts = [_parts[0], "|".join(_parts[1:-1]), _parts[-1]]
+                _content = self._ver_dec_content(_parts)
                 if _content:
-                    payload, timestamp = self._ver_dec_content(_cookie["value"].split("|"))
-                    value, typ = payload.split("::")
+                    payload, timestamp = _content
+                    # The value may contain anything
+                    value, typ = payload.rsplit("::", 1)
                     res.append({"value": value, "type": typ, "timestamp": timestamp})
                 else:
                     LOGGER.debug(f"Could not verify {name} cookie")
-- 
2.43.0


From 4178c3d7dafba3301db8f0eaee099a28e7536d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 38/87] fix: a changed timestamp makes a cookie invalid

---
 src/oidcop/cookie_handler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index 634f254..76adaef 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -118,7 +118,7 @@ class CookieHandler:
 
         if self.sign_key:
             signer = HMACSigner(algorithm=self.sign_alg)
-            mac = signer.sign(bytes_load + bytes_timestamp, self.sign_key.key)
+            mac = signer.sign(bytes_load + b"|" + bytes_timestamp, self.sign_key.key)
         else:
             mac = b""
 
@@ -163,7 +163,7 @@ class CookieHandler:
             mac = base64.b64decode(b64_mac)
             verifier = HMACSigner(algorithm=self.sign_alg)
             if verifier.verify(
-                    payload.encode("utf-8") + timestamp.encode("utf-8"),
+                    payload.encode("utf-8") + b"|" + timestamp.encode("utf-8"),
                     mac,
                     self.sign_key.key,
             ):
@@ -185,10 +185,13 @@ class CookieHandler:
             p = lv_unpack(msg.decode("utf-8"))
             payload = p[0]
             timestamp = p[1]
+            if timestamp != parts[0]:
+                LOGGER.debug("The timestamp is another one")
+                return None
             if len(p) == 3:
                 verifier = HMACSigner(algorithm=self.sign_alg)
                 if verifier.verify(
-                        payload.encode("utf-8") + timestamp.encode("utf-8"),
+                        payload.encode("utf-8") + b"|" + timestamp.encode("utf-8"),
                         base64.b64decode(p[2]),
                         self.sign_key.key,
                 ):
-- 
2.43.0


From 2463de00ffe4fa572035e17c055b271bafdff7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 39/87] fix: a cookie handler may be configured with only one
 of the keys

---
 src/oidcop/cookie_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index 76adaef..c52dad9 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -51,6 +51,8 @@ class CookieHandler:
                     dict(_def, type="oct") if _def["type"].lower() == "oct" else _def
                     for _def in _key_defs
                 ]
+            self.sign_key = None
+            self.enc_key = None
             key_jar = init_key_jar(**keys)
             _keys = key_jar.get_signing_key(key_type="oct", kid="sig")
             if _keys:
-- 
2.43.0


From 05beb0c29cba3800c70d24d74154a17a4f48577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:58 +0000
Subject: [PATCH 40/87] fix: prompt=none never shows the user a login page

---
 src/oidcop/oauth2/authorization.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 0bf767b..0c57465 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -644,31 +644,31 @@ class Authorization(Endpoint):
         _mngr = _context.session_manager
         _session_id = ""
 
-        # To authenticate or Not
-        if not identity:  # No!
-            logger.info("No active authentication")
-            logger.debug("Known clients: {}".format(list(_context.cdb.keys())))
-
+        def _authenticate():
             if "prompt" in request and "none" in request["prompt"]:
                 # Need to authenticate but not allowed
                 return self._login_required_error(redirect_uri, request)
             else:
                 return {"function": authn, "args": authn_args}
+
+        # To authenticate or Not
+        if not identity:  # No!
+            logger.info("No active authentication")
+            logger.debug("Known clients: {}".format(list(_context.cdb.keys())))
+
+            return _authenticate()
         else:
             logger.info(f"Active authentication: {identity}")
             if re_authenticate(request, authn):
                 # demand re-authentication
-                return {"function": authn, "args": authn_args}
+                return _authenticate()
             else:
                 # I got back a dictionary
                 user = identity["uid"]
                 if "req_user" in kwargs:
                     if user != kwargs["req_user"]:
                         logger.debug("Wanted to be someone else!")
-                        if "prompt" in request and "none" in request["prompt"]:
-                            return self._login_required_error(redirect_uri, request)
-                        else:
-                            return {"function": authn, "args": authn_args}
+                        return _authenticate()
 
                 if "sid" in identity:
                     _session_id = identity["sid"]
@@ -676,15 +676,15 @@ class Authorization(Endpoint):
                     # make sure the client is the same
                     _uid, _cid, _gid = _mngr.decrypt_session_id(_session_id)
                     if request["client_id"] != _cid:
-                        return {"function": authn, "args": authn_args}
+                        return _authenticate()
 
                     grant = _mngr[_session_id]
                     if grant.is_active() is False:
-                        return {"function": authn, "args": authn_args}
+                        return _authenticate()
                     elif request != grant.authorization_request:
                         authn_event = _mngr.get_authentication_event(session_id=_session_id)
                         if authn_event.is_valid() is False:  # if not valid, do new login
-                            return {"function": authn, "args": authn_args}
+                            return _authenticate()
 
                         # create new grant
                         _session_id = _mngr.create_grant(
@@ -699,7 +699,7 @@ class Authorization(Endpoint):
         if _session_id:
             authn_event = _mngr.get_authentication_event(session_id=_session_id)
             if authn_event.is_valid() is False:  # if not valid, do new login
-                return {"function": authn, "args": authn_args}
+                return _authenticate()
         else:
             _session_id = self.create_session(request, identity["uid"], authn_class_ref, _ts, authn)
 
-- 
2.43.0


From 113b0400f85fc8a1473f5e4891f7a7ea6bb0673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 41/87] fix: a user with a cookie from a session that no longer
 exists can log in

---
 src/oidcop/oauth2/authorization.py | 3 +++
 src/oidcop/user_authn/user.py      | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 0c57465..d1785ce 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -635,6 +635,9 @@ class Authorization(Endpoint):
                     except Revoked:
                         logger.debug("Authentication session revoked!!")
                         identity = None
+                    except (KeyError, ValueError):
+                        logger.debug("No such authentication session")
+                        identity = None
                     else:
                         logger.debug(f"Session info type: {_csi.__class__.__name__}")
                         if _csi.is_active() is False:
diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index 9e54e3a..4a924e6 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -109,7 +109,11 @@ class UserAuthnMethod(object):
             for val in cookie:
                 _info = json.loads(val["value"])
                 _info["timestamp"] = int(val["timestamp"])
-                session_id = _context.session_manager.decrypt_session_id(_info["sid"])
+                try:
+                    session_id = _context.session_manager.decrypt_session_id(_info["sid"])
+                except ValueError:
+                    logger.debug("cookie_info: cookie from an unknown session")
+                    continue
                 logger.debug("cookie_info: session id={}".format(session_id))
                 # _, cid, _ = _context.session_manager.decrypt_session_id(_info["sid"])
                 if session_id[1] != client_id:
-- 
2.43.0


From 8eb118b67750beacc9a5f372434d3f2c21fcea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:31 +0000
Subject: [PATCH 42/87] fix: max_age counts from the authentication, and zero
 is a max_age too

---
 src/oidcop/oauth2/authorization.py | 17 ++++++++++++++---
 src/oidcop/user_authn/user.py      |  2 +-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index d1785ce..2f86610 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -86,8 +86,13 @@ def inputs(form_args):
 
 
 def max_age(request):
-    verified_request = verified_claim_name("request")
-    return request.get(verified_request, {}).get("max_age") or request.get("max_age", 0)
+    """
+    :return: The maximum authentication age the client accepts, None if it didn't say.
+    """
+    _max_age = request.get(verified_claim_name("request"), {}).get("max_age")
+    if _max_age is None:
+        _max_age = request.get("max_age")
+    return None if _max_age is None else int(_max_age)
 
 
 def verify_query(query: dict, rquery: dict):
@@ -607,7 +612,7 @@ class Authorization(Endpoint):
         try:
             _auth_info = kwargs.get("authn", "")
             if "upm_answer" in request and request["upm_answer"] == "true":
-                _max_age = 0
+                _max_age = None
             else:
                 _max_age = max_age(request)
             logger.debug(f"Max age: {_max_age}")
@@ -684,6 +689,12 @@ class Authorization(Endpoint):
                     grant = _mngr[_session_id]
                     if grant.is_active() is False:
                         return _authenticate()
+                    elif (
+                        _max_age is not None
+                        and utc_time_sans_frac()
+                        > grant.authentication_event["authn_time"] + _max_age
+                    ):
+                        return _authenticate()
                     elif request != grant.authorization_request:
                         authn_event = _mngr.get_authentication_event(session_id=_session_id)
                         if authn_event.is_valid() is False:  # if not valid, do new login
diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index 4a924e6..b5a8640 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -66,7 +66,7 @@ class UserAuthnMethod(object):
             _info = self.cookie_info(cookie, client_id)
             logger.debug("authenticated_as: cookie info={}".format(_info))
             if _info:
-                if "max_age" in kwargs and kwargs["max_age"] != 0:
+                if kwargs.get("max_age") is not None:
                     _max_age = kwargs["max_age"]
                     _now = utc_time_sans_frac()
                     if _now > _info["timestamp"] + _max_age:
-- 
2.43.0


From b67851c1be8111944685c8b540a9caa53a8ffbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:31 +0000
Subject: [PATCH 43/87] fix: a request can not tell the provider to disregard
 max_age

---
 src/oidcop/oauth2/authorization.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 2f86610..742b6cc 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -611,10 +611,7 @@ class Authorization(Endpoint):
         _context = self.server_get("endpoint_context")
         try:
             _auth_info = kwargs.get("authn", "")
-            if "upm_answer" in request and request["upm_answer"] == "true":
-                _max_age = None
-            else:
-                _max_age = max_age(request)
+            _max_age = max_age(request)
             logger.debug(f"Max age: {_max_age}")
             identity, _ts = authn.authenticated_as(
                 client_id, cookie, authorization=_auth_info, max_age=_max_age
-- 
2.43.0


From 589a2a60a161534b0a236ec2c751820d48ea6099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:44 +0000
Subject: [PATCH 44/87] fix: an ID Token hint about another user is not
 answered with the current one

---
 src/oidcop/oidc/authorization.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/oidc/authorization.py b/src/oidcop/oidc/authorization.py
index fb4d73e..81b473c 100755
--- a/src/oidcop/oidc/authorization.py
+++ b/src/oidcop/oidc/authorization.py
@@ -3,18 +3,23 @@ from typing import Callable
 from urllib.parse import urlsplit
 
 from oidcmsg import oidc
+from oidcmsg.message import Message
 from oidcmsg.oidc import Claims
 from oidcmsg.oidc import verified_claim_name
 
 from oidcop.oauth2 import authorization
+from oidcop.session.grant import Grant
 
 logger = logging.getLogger(__name__)
 
 
 def proposed_user(request):
-    cn = verified_claim_name("it_token_hint")
-    if request.get(cn):
-        return request[cn].get("sub", "")
+    """
+    :return: The subject identifier of the user the client expects, given by an ID Token.
+    """
+    for cn in [verified_claim_name("id_token_hint"), "verified_id_token_hint"]:
+        if isinstance(request.get(cn), Message):
+            return request[cn].get("sub", "")
     return ""
 
 
@@ -103,8 +108,9 @@ class Authorization(authorization.Authorization):
         self.post_parse_request.append(self._post_parse_request)
 
     def do_request_user(self, request_info, **kwargs):
-        if proposed_user(request_info):
-            kwargs["req_user"] = proposed_user(request_info)
+        _sub = proposed_user(request_info)
+        if _sub:
+            kwargs["req_user"] = self.find_user(_sub, request_info["client_id"])
         else:
             _login_hint = request_info.get("login_hint")
             if _login_hint:
@@ -112,3 +118,15 @@ class Authorization(authorization.Authorization):
                 if _context.login_hint_lookup:
                     kwargs["req_user"] = _context.login_hint_lookup(_login_hint)
         return kwargs
+
+    def find_user(self, sub, client_id):
+        """
+        :return: The user that client knows by this subject identifier
+        """
+        _mngr = self.server_get("endpoint_context").session_manager
+        for key, item in _mngr.db.items():
+            if isinstance(item, Grant) and item.sub == sub:
+                user_id, _client_id, _ = _mngr.unpack_session_key(key)
+                if _client_id == client_id:
+                    return user_id
+        return ""
-- 
2.43.0


From 9bf9b19159f545ea79fa8ce1de9e49028c8b9cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:21 +0000
Subject: [PATCH 45/87] fix: a cookie that can not be verified counts as no
 cookie

---
 src/oidcop/cookie_handler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index c52dad9..fbce829 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -261,8 +261,7 @@ class CookieHandler:
         fails. See `make_cookie` for details about the verification.
 
         :param kakor: A list of dictionaries with cookie information
-        :raises InvalidCookieSign: When verification fails.
-        :return: A list of dictionaries with information from the cookie or None if parsing fails
+        :return: A list of dictionaries with information from the cookies that could be verified
         """
         if not cookies:
             return None
@@ -275,7 +274,10 @@ class CookieHandler:
                 _parts = _cookie["value"].split("|")
                 if len(_parts) > 3 and not self.enc_key:  # the payload is in clear text
                     _parts = [_parts[0], "|".join(_parts[1:-1]), _parts[-1]]
-                _content = self._ver_dec_content(_parts)
+                try:
+                    _content = self._ver_dec_content(_parts)
+                except (VerificationError, ValueError):
+                    _content = None
                 if _content:
                     payload, timestamp = _content
                     # The value may contain anything
-- 
2.43.0


From 32a1e54632f53ed2f13fcbe5000b2fbd367807c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:21 +0000
Subject: [PATCH 46/87] fix: a login hint about an unknown user leads to the
 login page

---
 src/oidcop/oidc/authorization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/authorization.py b/src/oidcop/oidc/authorization.py
index 81b473c..153be49 100755
--- a/src/oidcop/oidc/authorization.py
+++ b/src/oidcop/oidc/authorization.py
@@ -116,7 +116,10 @@ class Authorization(authorization.Authorization):
             if _login_hint:
                 _context = self.server_get("endpoint_context")
                 if _context.login_hint_lookup:
-                    kwargs["req_user"] = _context.login_hint_lookup(_login_hint)
+                    try:
+                        kwargs["req_user"] = _context.login_hint_lookup(_login_hint)
+                    except KeyError:  # Not a user I know of
+                        kwargs["req_user"] = ""
         return kwargs
 
     def find_user(self, sub, client_id):
-- 
2.43.0


From 0a8b85edb6da40449ef792c839953df07a3c2e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:31 +0000
Subject: [PATCH 47/87] fix: errors answering response_type none go in the
 query, like its answers

---
 src/oidcop/endpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/endpoint.py b/src/oidcop/endpoint.py
index 369940b..383e62e 100755
--- a/src/oidcop/endpoint.py
+++ b/src/oidcop/endpoint.py
@@ -72,7 +72,7 @@ def set_content_type(headers, content_type):
 
 
 def fragment_encoding(return_type):
-    if return_type == ["code"]:
+    if return_type in (["code"], ["none"]):
         return False
     else:
         return True
-- 
2.43.0


From bf26e2f15ac343ff5e69ca772fff69296574512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:40 +0000
Subject: [PATCH 48/87] fix: a failed authorization is answered also when no
 response_mode was asked for

---
 src/oidcop/oauth2/authorization.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 742b6cc..eb02c81 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -778,7 +778,10 @@ class Authorization(Endpoint):
         response_info = self.error_response(response_info, request, error, error_description)
         if "return_uri" not in response_info:
             response_info["return_uri"] = request["redirect_uri"]
-        response_info = self.response_mode(request, **response_info)
+        if "response_mode" in request:
+            response_info = self.response_mode(request, **response_info)
+        else:
+            response_info["return_type"] = request["response_type"]
         return response_info
 
     def create_authn_response(self, request: Union[dict, Message], sid: str) -> dict:
@@ -902,13 +905,15 @@ class Authorization(Endpoint):
 
         grant = _context.authz(session_id, request=request)
         if grant.is_active() is False:
-            return self.error_response(response_info, request, "server_error", "Grant not usable")
+            return self.error_by_response_mode(
+                response_info, request, "server_error", "Grant not usable"
+            )
 
         user_id, client_id, grant_id = _mngr.decrypt_session_id(session_id)
         try:
             _mngr.set([user_id, client_id, grant_id], grant)
         except Exception as err:
-            return self.error_response(
+            return self.error_by_response_mode(
                 response_info, request, "server_error", "{}".format(err.args)
             )
 
-- 
2.43.0


From 6c1367dd9059e8ca403e038e100f2e94acc202cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:27 +0000
Subject: [PATCH 49/87] fix: an unsupported authentication class is an error
 the client is told about

---
 src/oidcop/oauth2/authorization.py     | 4 ++++
 src/oidcop/user_authn/authn_context.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index eb02c81..22ce735 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -603,6 +603,10 @@ class Authorization(Endpoint):
         """
 
         res = self.pick_authn_method(request, redirect_uri, acr, **kwargs)
+        if "error" in res:
+            if request.get("state"):
+                res["state"] = request["state"]
+            return res
 
         authn = res["method"]
         authn_class_ref = res["acr"]
diff --git a/src/oidcop/user_authn/authn_context.py b/src/oidcop/user_authn/authn_context.py
index 8aa94df..17f746f 100755
--- a/src/oidcop/user_authn/authn_context.py
+++ b/src/oidcop/user_authn/authn_context.py
@@ -114,6 +114,8 @@ def _acr_claim(request):
         _id_token_claim = _claims.get("id_token")
         if _id_token_claim:
             _acr = _id_token_claim.get("acr")
+            if not _acr:  # Not asked for, or no specific value
+                return None
             if "value" in _acr:
                 return [_acr["value"]]
             elif "values" in _acr:
-- 
2.43.0


From a0a94e03a0e546762a0204de7aa5938641a747c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:52 +0000
Subject: [PATCH 50/87] fix: a pushed request is only for the client that
 pushed it, until it expires

---
 src/oidcop/endpoint_context.py            | 16 +++++++++++++---
 src/oidcop/oauth2/authorization.py        | 14 ++++++++------
 src/oidcop/oauth2/pushed_authorization.py |  6 +++++-
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/oidcop/endpoint_context.py b/src/oidcop/endpoint_context.py
index 5ade729..b246b60 100755
--- a/src/oidcop/endpoint_context.py
+++ b/src/oidcop/endpoint_context.py
@@ -90,14 +90,24 @@ def get_token_handler_args(conf: dict) -> dict:
 
 
 def par_db_dump(items: dict, **kwargs) -> dict:
-    return {urn: {qualified_name(req.__class__): req.to_dict()} for urn, req in items.items()}
+    res = {}
+    for urn, item in items.items():
+        _req = item["request"]
+        res[urn] = {
+            "request": {qualified_name(_req.__class__): _req.to_dict()},
+            "expires_at": item["expires_at"],
+        }
+    return res
 
 
 def par_db_load(items: dict, **kwargs) -> dict:
     res = {}
     for urn, item in items.items():
-        _class_name = list(item.keys())[0]
-        res[urn] = importer(_class_name)().from_dict(item[_class_name])
+        _class_name, _req = list(item["request"].items())[0]
+        res[urn] = {
+            "request": importer(_class_name)().from_dict(_req),
+            "expires_at": item["expires_at"],
+        }
     return res
 
 
diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 22ce735..b93b023 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -386,13 +386,15 @@ class Authorization(Endpoint):
             if _endp:
                 # Is it a UUID urn
                 if _request_uri.startswith("urn:uuid:"):
-                    _req = endpoint_context.par_db.get(_request_uri)
-                    if _req:
-                        # One time usage
-                        del endpoint_context.par_db[_request_uri]
-                        return _req
-                    else:
+                    _pushed = endpoint_context.par_db.get(_request_uri)
+                    # Only for the client that pushed it
+                    if not _pushed or _pushed["request"]["client_id"] != client_id:
                         raise ValueError("Got a request_uri I can not resolve")
+                    # One time usage
+                    del endpoint_context.par_db[_request_uri]
+                    if _pushed["expires_at"] < utc_time_sans_frac():
+                        raise ValueError("Got a request_uri that has expired")
+                    return _pushed["request"]
 
             # Do I support request_uri ?
             if endpoint_context.provider_info.get("request_uri_parameter_supported", True) is False:
diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index d1f84f8..dfb8ca5 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -1,6 +1,7 @@
 import uuid
 
 from oidcmsg import oauth2
+from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop.oauth2.authorization import Authorization
 
@@ -30,7 +31,10 @@ class PushedAuthorization(Authorization):
         # create URN
 
         _urn = "urn:uuid:{}".format(uuid.uuid4())
-        self.server_get("endpoint_context").par_db[_urn] = request
+        self.server_get("endpoint_context").par_db[_urn] = {
+            "request": request,
+            "expires_at": utc_time_sans_frac() + self.ttl,
+        }
 
         return {
             "http_response": {"request_uri": _urn, "expires_in": self.ttl},
-- 
2.43.0


From d7507571d3994e875285f6873ce6a47e69e2d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:52 +0000
Subject: [PATCH 51/87] fix: a pushed request can not refer to another request

---
 src/oidcop/oauth2/pushed_authorization.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index dfb8ca5..db72a25 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -22,6 +22,15 @@ class PushedAuthorization(Authorization):
         self.post_parse_request.append(self._post_parse_request)
         self.ttl = kwargs.get("ttl", 3600)
 
+    def _do_request_uri(self, request, client_id, endpoint_context, **kwargs):
+        if "request_uri" in request:
+            return self.authentication_error_response(
+                request,
+                error="invalid_request",
+                error_description="A pushed request can not contain a request_uri",
+            )
+        return request
+
     def process_request(self, request=None, **kwargs):
         """
         Store the request and return a URI.
-- 
2.43.0


From 26619c31f3d78aa09a5d2a3cc25223431be14b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 52/87] fix: a pushed request is verified like a plain one and
 kept without the client's credentials

---
 src/oidcop/oauth2/pushed_authorization.py | 35 +++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index db72a25..2cc106c 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -1,10 +1,20 @@
 import uuid
 
 from oidcmsg import oauth2
+from oidcmsg.exception import OidcMsgError
+from oidcmsg.oidc import verified_claim_name
 from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop.oauth2.authorization import Authorization
 
+# How a client authenticates itself is not part of what it asks for.
+CLIENT_AUTHN_PARAMETERS = [
+    "client_secret",
+    "client_assertion",
+    "client_assertion_type",
+    verified_claim_name("client_assertion"),
+]
+
 
 class PushedAuthorization(Authorization):
     request_cls = oauth2.PushedAuthorizationRequest
@@ -31,17 +41,38 @@ class PushedAuthorization(Authorization):
             )
         return request
 
+    def authorization_request(self, request):
+        """
+        :param request: The pushed request
+        :return: The same thing the way the authorization endpoint wants it
+        """
+        _left_out = CLIENT_AUTHN_PARAMETERS + ["request", verified_claim_name("request")]
+        _endpoint = self.server_get("endpoint", "authorization")
+        return _endpoint.request_cls(**{k: v for k, v in request.items() if k not in _left_out})
+
     def process_request(self, request=None, **kwargs):
         """
         Store the request and return a URI.
 
         :param request:
         """
+        if isinstance(request, self.error_cls):
+            return request
+
+        _context = self.server_get("endpoint_context")
+        _request = self.authorization_request(request)
+        try:
+            _request.verify(keyjar=_context.keyjar, opponent_id=request["client_id"])
+        except (OidcMsgError, ValueError) as err:
+            return self.authentication_error_response(
+                request, error="invalid_request", error_description="{}".format(err)
+            )
+
         # create URN
 
         _urn = "urn:uuid:{}".format(uuid.uuid4())
-        self.server_get("endpoint_context").par_db[_urn] = {
-            "request": request,
+        _context.par_db[_urn] = {
+            "request": _request,
             "expires_at": utc_time_sans_frac() + self.ttl,
         }
 
-- 
2.43.0


From 15299b6268a0fae18396b1754e450ad91bfbb63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:47 +0000
Subject: [PATCH 53/87] fix: an ID Token hint of a stored request still counts
 after a restart

---
 src/oidcop/oidc/authorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/authorization.py b/src/oidcop/oidc/authorization.py
index 153be49..ee702c3 100755
--- a/src/oidcop/oidc/authorization.py
+++ b/src/oidcop/oidc/authorization.py
@@ -18,7 +18,8 @@ def proposed_user(request):
     :return: The subject identifier of the user the client expects, given by an ID Token.
     """
     for cn in [verified_claim_name("id_token_hint"), "verified_id_token_hint"]:
-        if isinstance(request.get(cn), Message):
+        # A dictionary if the request was stored and read back
+        if isinstance(request.get(cn), (Message, dict)):
             return request[cn].get("sub", "")
     return ""
 
-- 
2.43.0


From fe5dca11b26019ebecc77d9e48444d7d1d059206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:39 +0000
Subject: [PATCH 54/87] fix: a refused registration leaves nothing behind

---
 src/oidcop/oidc/registration.py | 38 ++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index f2f80ff..c84265c 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -436,19 +436,33 @@ class Registration(Endpoint):
 
         logger.debug("Stored client info in CDB under cid={}".format(client_id))
 
+        _previous = _context.cdb.get(client_id)
+        _rat = _cinfo.get("registration_access_token")
         _context.cdb[client_id] = _cinfo
-        _cinfo = self.do_client_registration(
-            request,
-            client_id,
-            ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
-        )
-        if isinstance(_cinfo, ResponseMessage):
-            return _cinfo
-
-        args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
-
-        comb_uri(args)
-        response = self.response_cls(**args)
+        response = None
+        try:
+            _cinfo = self.do_client_registration(
+                request,
+                client_id,
+                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
+            )
+            if isinstance(_cinfo, ResponseMessage):
+                return _cinfo
+
+            args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
+
+            comb_uri(args)
+            response = self.response_cls(**args)
+        finally:
+            if response is None:  # Refused, then there is no such client
+                if _rat:
+                    del _context.registration_access_token[_rat]
+                if _previous is None:
+                    del _context.cdb[client_id]
+                    if client_id in _context.keyjar:
+                        del _context.keyjar[client_id]
+                else:
+                    _context.cdb[client_id] = _previous
 
         # Add the client_secret as a symmetric key to the key jar
         if client_secret:
-- 
2.43.0


From 915cb2e85814a724dee5dfc0f35dd3b4d690743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:39 +0000
Subject: [PATCH 55/87] fix: a registration only sets client metadata

---
 src/oidcop/oidc/registration.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index c84265c..3d51d0e 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -44,6 +44,14 @@ PREFERENCE2PROVIDER = {
     "grant_types": "grant_types_supported",
 }
 
+# Documented client metadata that oidcmsg's registration request doesn't know about
+EXTRA_METADATA = [
+    "post_logout_redirect_uris",
+    "backchannel_logout_session_required",
+    "client_registration_types",
+    "signed_jwks_uri",
+]
+
 logger = logging.getLogger(__name__)
 
 
@@ -177,6 +185,11 @@ class Registration(Endpoint):
         logger.debug("_cinfo: %s" % sanitize(_cinfo))
 
         for key, val in request.items():
+            # Only what is the client's to say. A name may carry a language tag.
+            _name = key.split("#")[0]
+            if _name not in self.request_cls.c_param and _name not in EXTRA_METADATA:
+                logger.warning("Ignoring unknown client metadata: %s", key)
+                continue
             if key not in ignore:
                 _cinfo[key] = val
 
-- 
2.43.0


From 80666add0f6ee95ca4e8fc7d60cee353ac85c5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:39 +0000
Subject: [PATCH 56/87] fix: redirect URIs are absolute, without fragment, and
 localhost only for native clients and code

---
 src/oidcop/oidc/registration.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 3d51d0e..c309b11 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -301,6 +301,13 @@ class Registration(Endpoint):
         for uri in registration_request["redirect_uris"]:
             _custom = False
             p = urlparse(uri)
+            if "#" in uri:
+                raise InvalidRedirectURIError("redirect_uri contains fragment")
+            if not p.scheme or (p.scheme in ["http", "https"] and not p.hostname):
+                raise InvalidRedirectURIError("redirect_uri must be an absolute URI")
+            if any(c.isspace() for c in uri):
+                raise InvalidRedirectURIError("redirect_uri contains white space")
+
             if client_type == "native":
                 if p.scheme not in ["http", "https"]:  # Custom scheme
                     _custom = True
@@ -321,8 +328,8 @@ class Registration(Endpoint):
             elif p.scheme not in ["http", "https"]:
                 # Custom scheme
                 raise InvalidRedirectURIError("Custom redirect_uri not allowed for web client")
-            elif p.fragment:
-                raise InvalidRedirectURIError("redirect_uri contains fragment")
+            elif must_https and p.hostname == "localhost":
+                raise InvalidRedirectURIError("localhost not allowed for web client")
 
             if _custom:  # Can not verify a custom scheme
                 verified_redirect_uris.append((uri, {}))
-- 
2.43.0


From e92f4adce1e9aa8afbb2194a2cc76dd21d6b8e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:39 +0000
Subject: [PATCH 57/87] fix: a sector identifier document is a list of URIs

---
 src/oidcop/oidc/registration.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index c309b11..319f81d 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -357,6 +357,8 @@ class Registration(Endpoint):
                 si_url, **self.server_get("endpoint_context").httpc_params
             )
             logger.debug("sector_identifier_uri => %s", sanitize(res.text))
+            if res.status_code != 200:
+                raise ValueError(f"HTTP status code {res.status_code}")
         except Exception as err:
             logger.error(err)
             # res = None
@@ -367,6 +369,9 @@ class Registration(Endpoint):
         except ValueError:
             raise InvalidSectorIdentifier("Error deserializing sector_identifier_uri content")
 
+        if not isinstance(si_redirects, list):
+            raise InvalidSectorIdentifier("sector_identifier_uri content is not a list")
+
         if "redirect_uris" in request:
             logger.debug("redirect_uris: %s", request["redirect_uris"])
             for uri in request["redirect_uris"]:
-- 
2.43.0


From 41e267fa354a10ddcb72cadad95f65aedb978e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:39 +0000
Subject: [PATCH 58/87] fix: registered post_logout_redirect_uris can be used

---
 src/oidcop/oidc/registration.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 319f81d..48198c4 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -194,17 +194,21 @@ class Registration(Endpoint):
                 _cinfo[key] = val
 
         _uri = request.get("post_logout_redirect_uri")
+        _uris = request.get("post_logout_redirect_uris", [])
+        if isinstance(_uris, str):
+            _uris = [_uris]
         if _uri:
-            if urlparse(_uri).fragment:
+            _cinfo["post_logout_redirect_uri"] = split_uri(_uri)
+            _uris = _uris + [_uri]
+        if _uris:
+            if any("#" in uri for uri in _uris):
                 err = self.error_cls(
                     error="invalid_configuration_parameter",
                     error_description="post_logout_redirect_uri contains fragment",
                 )
                 return err
-            _cinfo["post_logout_redirect_uri"] = split_uri(_uri)
             # what the end_session endpoint looks at
-            _uris = list(_cinfo.get("post_logout_redirect_uris", []))
-            _cinfo["post_logout_redirect_uris"] = _uris + [split_uri(_uri)]
+            _cinfo["post_logout_redirect_uris"] = [split_uri(uri) for uri in _uris]
 
         if "redirect_uris" in request:
             try:
-- 
2.43.0


From 3892b8c619b0d9057c36cd601f4af90bda8ba4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:39 +0000
Subject: [PATCH 59/87] fix: a frontchannel_logout_uri is a web page

---
 src/oidcop/oidc/registration.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 48198c4..9a2b3b1 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -234,6 +234,14 @@ class Registration(Endpoint):
                     _uris.append([uri, ""])
             _cinfo["request_uris"] = _uris
 
+        # The user's browser is sent there by the OP's logout page
+        _uri = request.get("frontchannel_logout_uri")
+        if _uri and urlparse(_uri).scheme not in ["http", "https"]:
+            return self.error_cls(
+                error="invalid_configuration_parameter",
+                error_description="frontchannel_logout_uri pointed to illegal URL",
+            )
+
         if "sector_identifier_uri" in request:
             try:
                 (
-- 
2.43.0


From 007f22a9f557ec2335ab72482b7ffac42b4cf543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:39 +0000
Subject: [PATCH 60/87] fix: a client's keys are stored as registered

---
 src/oidcop/oidc/registration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 9a2b3b1..02574af 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -1,3 +1,4 @@
+import copy
 import hashlib
 import hmac
 import json
@@ -285,7 +286,8 @@ class Registration(Endpoint):
 
         for item in ["jwks_uri", "jwks"]:
             if item in request:
-                t[item] = request[item]
+                # loading the keys changes the description of them
+                t[item] = copy.deepcopy(request[item])
 
         # if it can't load keys because the URL is false it will
         # just silently fail. Waiting for better times.
-- 
2.43.0


From 43ebbec8f6d0ec80a0f4ac0640043e74d1abfd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:44 +0000
Subject: [PATCH 61/87] fix: a redirect URI with custom scheme and query can be
 used

---
 src/oidcop/oidc/registration.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 02574af..a254094 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -313,7 +313,6 @@ class Registration(Endpoint):
                 must_https = False
 
         for uri in registration_request["redirect_uris"]:
-            _custom = False
             p = urlparse(uri)
             if "#" in uri:
                 raise InvalidRedirectURIError("redirect_uri contains fragment")
@@ -324,7 +323,7 @@ class Registration(Endpoint):
 
             if client_type == "native":
                 if p.scheme not in ["http", "https"]:  # Custom scheme
-                    _custom = True
+                    pass
                 elif p.scheme == "http" and p.hostname in ["localhost", "127.0.0.1"]:
                     pass
                 else:
@@ -345,14 +344,11 @@ class Registration(Endpoint):
             elif must_https and p.hostname == "localhost":
                 raise InvalidRedirectURIError("localhost not allowed for web client")
 
-            if _custom:  # Can not verify a custom scheme
-                verified_redirect_uris.append((uri, {}))
+            base, query = split_uri(uri)
+            if query:
+                verified_redirect_uris.append((base, query))
             else:
-                base, query = split_uri(uri)
-                if query:
-                    verified_redirect_uris.append((base, query))
-                else:
-                    verified_redirect_uris.append((base, {}))
+                verified_redirect_uris.append((base, {}))
 
         return verified_redirect_uris
 
-- 
2.43.0


From b264b83a2709367098f0b02a65687ef8a96d25d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:27 +0000
Subject: [PATCH 62/87] fix: a logout is only confirmed by what the logout
 request gave, in time

---
 src/oidcop/oidc/session.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index d10f7b1..8f49921 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -23,6 +23,7 @@ from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.oidc import verified_claim_name
 from oidcmsg.oidc.session import BACK_CHANNEL_LOGOUT_EVENT
 from oidcmsg.oidc.session import EndSessionRequest
+from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop import rndstr
 from oidcop.client_authn import UnknownOrNoAuthnMethod
@@ -219,6 +220,17 @@ class Session(Endpoint):
 
             sign_keys = self.server_get("endpoint_context").keyjar.get_signing_key(alg2keytype(alg))
             _info = _jwt.verify_compact(keys=sign_keys, sigalg=alg)
+            if not sig_alg:
+                # It has to be what process_request made, from me to me
+                _issuer = self.server_get("endpoint_context").issuer
+                if (
+                    _info.get("iss") != _issuer
+                    or _info.get("aud") not in [_issuer, [_issuer]]
+                    or "redirect_uri" not in _info
+                ):
+                    raise ValueError("Not a logout request")
+                if _info.get("exp", 0) < utc_time_sans_frac():
+                    raise ValueError("The logout request has expired")
             return _info
         else:
             raise ValueError("Not a signed JWT")
-- 
2.43.0


From bcdf55374b227a55cd7ea2e22f0fcaa2c75cc758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:27 +0000
Subject: [PATCH 63/87] fix: logging out from all clients ends and tells about
 the sessions of all of them

---
 src/oidcop/oidc/session.py | 68 +++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 8f49921..6397731 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -108,11 +108,12 @@ class Session(Endpoint):
         ctx, tag = split_ctx_and_tag(_msg)
         return as_unicode(encrypter.decrypt(as_bytes(ctx), iv=self.iv, tag=as_bytes(tag)))
 
-    def do_back_channel_logout(self, cinfo, sid):
+    def do_back_channel_logout(self, cinfo, sid, client_id=""):
         """
 
         :param cinfo: Client information
         :param sid: The session ID
+        :param client_id: The client the logout token is for
         :return: Tuple with logout URI and signed logout token
         """
 
@@ -138,7 +139,7 @@ class Session(Endpoint):
 
         _jws = JWT(_context.keyjar, iss=_context.issuer, lifetime=86400, sign_alg=alg)
         _jws.with_jti = True
-        _logout_token = _jws.pack(payload=payload, recv=cinfo["client_id"])
+        _logout_token = _jws.pack(payload=payload, recv=client_id or cinfo["client_id"])
 
         return back_channel_logout_uri, _logout_token
 
@@ -168,38 +169,37 @@ class Session(Endpoint):
         fc_iframes = {}
         _rel_sid = []
         for _client_id in _session_info["user_session_info"].subordinate:
+            _cli = _mngr.get([_user_id, _client_id])
+            # Has to be connected to an authentication event
+            _grants = [_mngr.get([_user_id, _client_id, gid]) for gid in _cli.subordinate]
+            _grants = [grant for grant in _grants if grant.authentication_event]
+            if not _grants:
+                continue
+
+            # The session ends also if there is no one to tell
+            _rel_sid.append(_mngr.encrypted_session_id(_user_id, _client_id))
+
+            # Tell about the latest session, preferably one that hasn't ended already
+            _grants.reverse()
+            _grants.sort(key=lambda grant: not grant.is_active())
+            for grant in _grants:
+                idt = grant.last_issued_token_of_type("id_token")
+                if idt:
+                    break
+            else:
+                continue
+
             # I prefer back-channel. Should it be configurable ?
-            if "backchannel_logout_uri" in _cdb[_client_id]:
-                _cli = _mngr.get([_user_id, _client_id])
-                for gid in _cli.subordinate:
-                    grant = _mngr.get([_user_id, _client_id, gid])
-                    # Has to be connected to an authentication event
-                    if not grant.authentication_event:
-                        continue
-                    idt = grant.last_issued_token_of_type("id_token")
-                    if idt:
-                        _rel_sid.append(idt.session_id)
-                        _spec = self.do_back_channel_logout(_cdb[_client_id], idt.session_id)
-                        if _spec:
-                            bc_logouts[_client_id] = _spec
-                        break
-            elif "frontchannel_logout_uri" in _cdb[_client_id]:
-                _cli = _mngr.get([_user_id, _client_id])
-                for gid in _cli.subordinate:
-                    grant = _mngr.get([_user_id, _client_id, gid])
-                    # Has to be connected to an authentication event
-                    if not grant.authentication_event:
-                        continue
-                    idt = grant.last_issued_token_of_type("id_token")
-                    if idt:
-                        _rel_sid.append(idt.session_id)
-                        # Construct an IFrame
-                        _spec = do_front_channel_logout_iframe(
-                            _cdb[_client_id], _iss, idt.session_id
-                        )
-                        if _spec:
-                            fc_iframes[_client_id] = _spec
-                        break
+            _cinfo = _cdb.get(_client_id, {})
+            if "backchannel_logout_uri" in _cinfo:
+                _spec = self.do_back_channel_logout(_cinfo, idt.session_id, _client_id)
+                if _spec:
+                    bc_logouts[_client_id] = _spec
+            elif "frontchannel_logout_uri" in _cinfo:
+                # Construct an IFrame
+                _spec = do_front_channel_logout_iframe(_cinfo, _iss, idt.session_id)
+                if _spec:
+                    fc_iframes[_client_id] = _spec
 
         self.clean_sessions(_rel_sid)
 
@@ -243,7 +243,7 @@ class Session(Endpoint):
 
         res = {}
         if "backchannel_logout_uri" in _cdb[_client_id]:
-            _spec = self.do_back_channel_logout(_cdb[_client_id], sid)
+            _spec = self.do_back_channel_logout(_cdb[_client_id], sid, _client_id)
             if _spec:
                 res["blu"] = {_client_id: _spec}
         elif "frontchannel_logout_uri" in _cdb[_client_id]:
-- 
2.43.0


From 7a285f248523c792bdd52b123f88d2664bd7896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:27 +0000
Subject: [PATCH 64/87] fix: a client that can not be reached does not stop a
 logout

---
 src/oidcop/oidc/session.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 6397731..3bfa056 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -422,12 +422,17 @@ class Session(Endpoint):
                 _url, sjwt = spec
                 logger.info("logging out from {} at {}".format(_cid, _url))
 
-                res = _context.httpc.post(
-                    _url,
-                    data="logout_token={}".format(sjwt),
-                    headers={"Content-Type": "application/x-www-form-urlencoded"},
-                    **_context.httpc_params,
-                )
+                try:
+                    res = _context.httpc.post(
+                        _url,
+                        data="logout_token={}".format(sjwt),
+                        headers={"Content-Type": "application/x-www-form-urlencoded"},
+                        **_context.httpc_params,
+                    )
+                except Exception as err:
+                    # There may be others to tell
+                    logger.error("failed to reach {} at {}: {}".format(_cid, _url, err))
+                    continue
 
                 if res.status_code < 300:
                     logger.info("Logged out from {}".format(_cid))
-- 
2.43.0


From 7a06e236444251cdb1ba879caa3cb3e72a4b8c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:44 +0000
Subject: [PATCH 65/87] fix: a frontchannel_logout_uri can not leave its iframe

---
 src/oidcop/oidc/session.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 3bfa056..18e9e9f 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -58,20 +58,18 @@ def do_front_channel_logout_iframe(cinfo, iss, sid):
         _query = {"iss": iss, "sid": sid}
         if "?" in frontchannel_logout_uri:
             p = urlparse(frontchannel_logout_uri)
-            _args = parse_qs(p.query)
+            _args = parse_qs(p.query, keep_blank_values=True)
             _args.update(_query)
             _query = _args
             _np = p._replace(query="")
             frontchannel_logout_uri = _np.geturl()
 
         logger.debug(f"IFrame query: {_query}")
-        _iframe = '<iframe src="{}?{}">'.format(
+        frontchannel_logout_uri = "{}?{}".format(
             frontchannel_logout_uri, urlencode(_query, doseq=True)
         )
-    else:
-        _iframe = '<iframe src="{}">'.format(frontchannel_logout_uri)
 
-    return _iframe
+    return '<iframe src="{}">'.format(frontchannel_logout_uri.replace('"', "%22"))
 
 
 class Session(Endpoint):
-- 
2.43.0


From 5704b943eddaf2a59eb7b26bf821f13b5beaad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:28 +0000
Subject: [PATCH 66/87] fix: a logout token for a client that uses a symmetric
 algorithm is signed with its secret

---
 src/oidcop/oidc/session.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 18e9e9f..ac31d12 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -137,7 +137,10 @@ class Session(Endpoint):
 
         _jws = JWT(_context.keyjar, iss=_context.issuer, lifetime=86400, sign_alg=alg)
         _jws.with_jti = True
-        _logout_token = _jws.pack(payload=payload, recv=client_id or cinfo["client_id"])
+        _recv = client_id or cinfo["client_id"]
+        # A symmetric algorithm uses the client's secret
+        _key_owner = _recv if alg.startswith("HS") else ""
+        _logout_token = _jws.pack(payload=payload, recv=_recv, issuer_id=_key_owner)
 
         return back_channel_logout_uri, _logout_token
 
-- 
2.43.0


From 5d2d36bd429f651506a2505dde8ccb6cc8716697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:28 +0000
Subject: [PATCH 67/87] fix: every frontchannel logout iframe is closed

---
 src/oidcop/oidc/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index ac31d12..0f2edcb 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -442,7 +442,8 @@ class Session(Endpoint):
                 elif res.status_code >= 400:
                     logger.info("failed to logout from {}".format(_cid))
 
-        return _res["flu"].values() if _res.get("flu") else []
+        # An iframe that isn't closed swallows the ones after it
+        return [_iframe + "</iframe>" for _iframe in _res.get("flu", {}).values()]
 
     def kill_cookies(self):
         _context = self.server_get("endpoint_context")
-- 
2.43.0


From b8ec869865e607d682ac2e7c5846f44030860306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:11 +0000
Subject: [PATCH 68/87] fix: a silent login can not overtake the logout that
 ends its session

---
 src/oidcop/oauth2/authorization.py |  4 +++-
 src/oidcop/session/manager.py      | 18 +++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index b93b023..0b6b356 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -1071,7 +1071,9 @@ class Authorization(Endpoint):
 
         kwargs = self.do_request_user(request_info=request, **kwargs)
 
-        info = self.setup_auth(request, request["redirect_uri"], cinfo, _my_cookies, **kwargs)
+        # A session must not end between being checked and being used
+        with _context.session_manager.lock:
+            info = self.setup_auth(request, request["redirect_uri"], cinfo, _my_cookies, **kwargs)
 
         if "error" in info:
             _response_mode = request.get("response_mode")
diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index efedc91..7e26f0c 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -1,6 +1,7 @@
 import hashlib
 import logging
 import os
+import threading
 from typing import List
 from typing import Optional
 import uuid
@@ -100,6 +101,8 @@ class SessionManager(Database):
 
         self._init_db()
         self.token_handler = handler
+        # Held while it is decided, and acted upon, whether a session is active
+        self.lock = threading.RLock()
 
         # this allows the subject identifier minters to be defined by someone
         # else then me.
@@ -373,14 +376,15 @@ class SessionManager(Database):
         else:
             raise ValueError("Invalid session ID")
 
-        _info = self.get([_user_id, _client_id])
-        logger.debug(f"revoke_client_session: {_user_id}:{_client_id}")
-        self.set([_user_id, _client_id], _info.revoke())
+        with self.lock:
+            _info = self.get([_user_id, _client_id])
+            logger.debug(f"revoke_client_session: {_user_id}:{_client_id}")
+            self.set([_user_id, _client_id], _info.revoke())
 
-        # revoked all grants
-        for gid in _info.subordinate:
-            _grant = self.get([_user_id, _client_id, gid])
-            _grant.revoke()
+            # revoked all grants
+            for gid in _info.subordinate:
+                _grant = self.get([_user_id, _client_id, gid])
+                _grant.revoke()
 
     def client_session_is_revoked(self, session_id: str):
         _user_id, _client_id, _ = self.decrypt_session_id(session_id)
-- 
2.43.0


From 0c549d7368e4799e5145a5da6b5712c166f1c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:11 +0000
Subject: [PATCH 69/87] fix: sessions that start or end at the same time don't
 get lost

---
 src/oidcop/session/database.py | 18 ++++++++++++++++++
 src/oidcop/session/manager.py  | 21 ++++++++++-----------
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 536ede0..1071acb 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -1,6 +1,8 @@
 import base64
 import cryptography
+from functools import wraps
 import logging
+import threading
 
 from typing import List
 from typing import Optional
@@ -35,11 +37,23 @@ class InconsistentDatabase(TypeError):
     pass
 
 
+def exclusive(func):
+    """No two of these are done to a database at the same time."""
+
+    @wraps(func)
+    def wrapper(self, *args, **kwargs):
+        with self.lock:
+            return func(self, *args, **kwargs)
+
+    return wrapper
+
+
 class Database(ImpExp):
     parameter = {"db": DLDict, "key": ""}
 
     def __init__(self, key: Optional[str] = "", **kwargs):
         ImpExp.__init__(self)
+        self.lock = threading.RLock()
         self.db = DLDict()
 
         for k, v in kwargs.items():
@@ -60,6 +74,7 @@ class Database(ImpExp):
 
         return uid, client_id, grant_id
 
+    @exclusive
     def set(self, path: List[str], value: Union[SessionInfo, Grant]):
         """
 
@@ -89,6 +104,7 @@ class Database(ImpExp):
             userinfo.add_subordinate(client_id)
             self.db[uid] = userinfo
 
+    @exclusive
     def get(self, path: List[str]) -> Union[SessionInfo, Grant]:
         uid, client_id, grant_id = self._eval_path(path)
         try:
@@ -125,6 +141,7 @@ class Database(ImpExp):
             except KeyError:
                 raise NoSuchGrant(grant_id)
 
+    @exclusive
     def delete(self, path: List[str]):
         """
         Removes what the path points at and everything below it. A client session or user
@@ -176,6 +193,7 @@ class Database(ImpExp):
                     self.db.__delitem__(skey_uid_client_grant)
             self.db.__delitem__(skey_uid_client)
 
+    @exclusive
     def update(self, path: List[str], new_info: dict):
         _info = self.get(path)
         for key, val in new_info.items():
diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index 7e26f0c..22c9ff2 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -1,7 +1,6 @@
 import hashlib
 import logging
 import os
-import threading
 from typing import List
 from typing import Optional
 import uuid
@@ -15,6 +14,7 @@ from oidcop.token import handler
 from oidcop.util import Crypt
 from oidcop.session.database import NoSuchClientSession
 from .database import Database
+from .database import exclusive
 from .grant import Grant
 from .grant import SessionToken
 from .info import ClientSessionInfo
@@ -101,8 +101,6 @@ class SessionManager(Database):
 
         self._init_db()
         self.token_handler = handler
-        # Held while it is decided, and acted upon, whether a session is active
-        self.lock = threading.RLock()
 
         # this allows the subject identifier minters to be defined by someone
         # else then me.
@@ -204,6 +202,7 @@ class SessionManager(Database):
 
         return self.encrypted_session_id(user_id, client_id, grant.id)
 
+    @exclusive
     def create_session(
         self,
         authn_event: AuthnEvent,
@@ -362,6 +361,7 @@ class SessionManager(Database):
         res = self.get_session_info(session_id=session_id, authentication_event=True)
         return res["authentication_event"]
 
+    @exclusive
     def revoke_client_session(self, session_id: str):
         """
         Revokes a client session
@@ -376,15 +376,14 @@ class SessionManager(Database):
         else:
             raise ValueError("Invalid session ID")
 
-        with self.lock:
-            _info = self.get([_user_id, _client_id])
-            logger.debug(f"revoke_client_session: {_user_id}:{_client_id}")
-            self.set([_user_id, _client_id], _info.revoke())
+        _info = self.get([_user_id, _client_id])
+        logger.debug(f"revoke_client_session: {_user_id}:{_client_id}")
+        self.set([_user_id, _client_id], _info.revoke())
 
-            # revoked all grants
-            for gid in _info.subordinate:
-                _grant = self.get([_user_id, _client_id, gid])
-                _grant.revoke()
+        # revoked all grants
+        for gid in _info.subordinate:
+            _grant = self.get([_user_id, _client_id, gid])
+            _grant.revoke()
 
     def client_session_is_revoked(self, session_id: str):
         _user_id, _client_id, _ = self.decrypt_session_id(session_id)
-- 
2.43.0


From 88e1d7996c27255e9556332beb0e8b2835507be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:22 +0000
Subject: [PATCH 70/87] fix: DPoP proofs are verified, and only they can tell
 the key

---
 src/oidcop/oauth2/add_on/dpop.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/oauth2/add_on/dpop.py b/src/oidcop/oauth2/add_on/dpop.py
index 472c5ea..6af534d 100644
--- a/src/oidcop/oauth2/add_on/dpop.py
+++ b/src/oidcop/oauth2/add_on/dpop.py
@@ -2,6 +2,7 @@ from typing import Optional
 
 from cryptojwt import JWS
 from cryptojwt import as_unicode
+from cryptojwt.jwk.asym import AsymmetricKey
 from cryptojwt.jwk.jwk import key_from_jwk_dict
 from cryptojwt.jws.jws import factory
 from oidcmsg.message import SINGLE_REQUIRED_INT
@@ -71,11 +72,14 @@ class DPoPProof(Message):
                 _pub_key = key_from_jwk_dict(_jwt.headers["jwk"])
                 _pub_key.deserialize()
                 _info = _jws.verify_compact(keys=[_pub_key], sigalg=_jwt.headers["alg"])
+                # What is in the header is not for the payload to replace, nor the other way around
                 for k, v in _jwt.headers.items():
-                    self[k] = v
+                    if k in self.header_params:
+                        self[k] = v
 
                 for k, v in _info.items():
-                    self[k] = v
+                    if k not in self.header_params:
+                        self[k] = v
             else:
                 raise Exception()
 
@@ -96,14 +100,29 @@ def post_parse_request(request, client_id, endpoint_context, **kwargs):
     :return:
     """
 
+    # Only a proof can tell which key to use
+    if "dpop_jkt" in request:
+        del request["dpop_jkt"]
+
     _http_info = kwargs.get("http_info")
     if not _http_info:
         return request
 
-    _dpop = DPoPProof().verify_header(_http_info["headers"]["dpop"])
+    _dpop_header = _http_info.get("headers", {}).get("dpop")
+    if _dpop_header is None:
+        return request
+
+    try:
+        _dpop = DPoPProof().verify_header(_dpop_header)
+        # The signature of the JWS is verified, now for checking the
+        # content
+        _dpop.verify()
+    except Exception as err:
+        raise ValueError(f"Not a valid DPoP proof: {err}")
 
-    # The signature of the JWS is verified, now for checking the
-    # content
+    _algs_supported = endpoint_context.provider_info["dpop_signing_alg_values_supported"]
+    if _dpop["alg"] not in _algs_supported:
+        raise ValueError("Not a supported DPoP signing algorithm")
 
     if _dpop["htu"] != _http_info["url"]:
         raise ValueError("htu in DPoP does not match the HTTP URI")
@@ -114,6 +133,9 @@ def post_parse_request(request, client_id, endpoint_context, **kwargs):
     if not _dpop.key:
         _dpop.key = key_from_jwk_dict(_dpop["jwk"])
 
+    if not isinstance(_dpop.key, AsymmetricKey):
+        raise ValueError("DPoP is about asymmetric keys")
+
     # Need something I can add as a reference when minting tokens
     request["dpop_jkt"] = as_unicode(_dpop.key.thumbprint("SHA-256"))
     return request
-- 
2.43.0


From 513068b08acbe2a28b7eed50473c2e6a9d5f218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:53 +0000
Subject: [PATCH 71/87] fix: access tokens are bound to the key of the proof
 they were asked for with, also for OAuth2

---
 src/oidcop/oauth2/token.py  | 12 +++++++++++-
 src/oidcop/session/grant.py |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index c2205b0..dad1452 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -132,6 +132,15 @@ class AccessTokenHelper(TokenEndpointHelper):
             grant_types_supported = _context.provider_info["grant_types_supported"]
         grant = _session_info["grant"]
 
+        token_type = "Bearer"
+
+        # Is DPOP supported
+        if "dpop_signing_alg_values_supported" in _context.provider_info:
+            _dpop_jkt = req.get("dpop_jkt")
+            if _dpop_jkt:
+                grant.extra["dpop_jkt"] = _dpop_jkt
+                token_type = "DPoP"
+
         _based_on = grant.get_token(_access_code)
         _supports_minting = _based_on.usage_rules.get("supports_minting", [])
 
@@ -149,7 +158,7 @@ class AccessTokenHelper(TokenEndpointHelper):
 
         issue_refresh = kwargs.get("issue_refresh", False)
         _response = {
-            "token_type": "Bearer",
+            "token_type": token_type,
             "scope": grant.scope,
         }
 
@@ -161,6 +170,7 @@ class AccessTokenHelper(TokenEndpointHelper):
                     session_id=_session_info["session_id"],
                     client_id=_session_info["client_id"],
                     based_on=_based_on,
+                    token_type=token_type,
                 )
             except MintingNotAllowed as err:
                 logger.warning(err)
diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index ca50595..c2295b2 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -341,6 +341,10 @@ class Grant(Item):
                 secondary_identifier=_secondary_identifier,
             )
 
+            # An access token is only bound to the key of the proof given when it was asked for
+            if token_class == "access_token" and token_type != "DPoP":
+                token_payload.pop("cnf", None)
+
             logger.debug(f"token_payload: {token_payload}")
 
             item.value = token_handler(
-- 
2.43.0


From e3baa431e631274fa0fe3646112cadb3153ba17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:23 +0000
Subject: [PATCH 72/87] fix: requests can be pushed also where request objects
 are required

---
 src/oidcop/oauth2/pushed_authorization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index 2cc106c..d42a63d 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -29,7 +29,6 @@ class PushedAuthorization(Authorization):
     def __init__(self, server_get, **kwargs):
         Authorization.__init__(self, server_get, **kwargs)
         # self.pre_construct.append(self._pre_construct)
-        self.post_parse_request.append(self._post_parse_request)
         self.ttl = kwargs.get("ttl", 3600)
 
     def _do_request_uri(self, request, client_id, endpoint_context, **kwargs):
@@ -47,8 +46,10 @@ class PushedAuthorization(Authorization):
         :return: The same thing the way the authorization endpoint wants it
         """
         _left_out = CLIENT_AUTHN_PARAMETERS + ["request", verified_claim_name("request")]
-        _endpoint = self.server_get("endpoint", "authorization")
-        return _endpoint.request_cls(**{k: v for k, v in request.items() if k not in _left_out})
+        _request_cls = self.server_get("endpoint", "authorization").request_cls
+        if issubclass(_request_cls, oauth2.JWTSecuredAuthorizationRequest):
+            _request_cls = oauth2.AuthorizationRequest
+        return _request_cls(**{k: v for k, v in request.items() if k not in _left_out})
 
     def process_request(self, request=None, **kwargs):
         """
-- 
2.43.0


From ae23179b31280866fdd2d31c9c6c75c4cb185bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:23 +0000
Subject: [PATCH 73/87] fix: a request object is signed by the client, with an
 algorithm it may use

---
 src/oidcop/oauth2/authorization.py | 59 +++++++++++++++++++-----------
 src/oidcop/oidc/authorization.py   |  2 -
 2 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 0b6b356..c046632 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -330,6 +330,7 @@ class Authorization(Endpoint):
     def __init__(self, server_get, **kwargs):
         Endpoint.__init__(self, server_get, **kwargs)
         self.post_parse_request.append(self._do_request_uri)
+        self.post_parse_request.append(self._verify_request_object)
         self.post_parse_request.append(self._post_parse_request)
         self.allowed_request_algorithms = AllowedAlgorithms(ALG_PARAMS)
 
@@ -414,32 +415,45 @@ class Authorization(Endpoint):
             if _resp.status_code == 200:
                 args = {"keyjar": endpoint_context.keyjar, "issuer": client_id}
                 _ver_request = self.request_cls().from_jwt(_resp.text, **args)
-                self.allowed_request_algorithms(
-                    client_id,
-                    endpoint_context,
-                    _ver_request.jws_header.get("alg", "RS256"),
-                    "sign",
-                )
-                if _ver_request.jwe_header is not None:
-                    self.allowed_request_algorithms(
-                        client_id,
-                        endpoint_context,
-                        _ver_request.jws_header.get("alg"),
-                        "enc_alg",
-                    )
-                    self.allowed_request_algorithms(
-                        client_id,
-                        endpoint_context,
-                        _ver_request.jws_header.get("enc"),
-                        "enc_enc",
-                    )
                 # The protected info overwrites the non-protected
                 for k, v in _ver_request.items():
                     request[k] = v
 
                 request[verified_claim_name("request")] = _ver_request
             else:
-                raise ServiceError("Got a %s response", _resp.status)
+                raise ServiceError("Got a %s response", _resp.status_code)
+
+        return request
+
+    def _verify_request_object(self, request, client_id, endpoint_context, **kwargs):
+        """
+        A request object must be signed by the client it speaks for, using an algorithm the client
+        is allowed to use. The signature is verified before this is called.
+        """
+        _object = request.get(verified_claim_name("request"))
+        if not isinstance(_object, Message):
+            return request
+
+        try:
+            if not _object.jws_header or _object.jws_header.get("alg", "none") == "none":
+                raise ValueError("Request object is not signed")
+            self.allowed_request_algorithms(
+                client_id, endpoint_context, _object.jws_header["alg"], "sign"
+            )
+            if _object.jwe_header is not None:
+                for attr in ["alg", "enc"]:
+                    self.allowed_request_algorithms(
+                        client_id, endpoint_context, _object.jwe_header.get(attr), f"enc_{attr}"
+                    )
+            # Without issuer a request object passed by value is not verified with the client's keys
+            _issuer = _object.get("iss", client_id if "request_uri" in request else "")
+            if _issuer != client_id or _object.get("client_id", client_id) != client_id:
+                raise ValueError("Request object is not from this client")
+        except ValueError as err:
+            logger.error(f"Not acceptable request object: {err}")
+            return self.authentication_error_response(
+                request, error="invalid_request_object", error_description=f"{err.args[0]}"
+            )
 
         return request
 
@@ -1113,7 +1127,10 @@ class AllowedAlgorithms:
         if _allowed is None:
             _allowed = _pinfo.get(_sup)
 
-        if alg not in _allowed:
+        if isinstance(_allowed, str):
+            _allowed = [_allowed]
+
+        if alg not in (_allowed or []):
             logger.error("Signing alg user: {} not among allowed: {}".format(alg, _allowed))
             raise ValueError("Not allowed '%s' algorithm used", alg)
 
diff --git a/src/oidcop/oidc/authorization.py b/src/oidcop/oidc/authorization.py
index ee702c3..251bd85 100755
--- a/src/oidcop/oidc/authorization.py
+++ b/src/oidcop/oidc/authorization.py
@@ -105,8 +105,6 @@ class Authorization(authorization.Authorization):
     def __init__(self, server_get: Callable, **kwargs):
         authorization.Authorization.__init__(self, server_get, **kwargs)
         # self.pre_construct.append(self._pre_construct)
-        self.post_parse_request.append(self._do_request_uri)
-        self.post_parse_request.append(self._post_parse_request)
 
     def do_request_user(self, request_info, **kwargs):
         _sub = proposed_user(request_info)
-- 
2.43.0


From f86e5ad1f81e03dfe59dd0d67f354c246a8be3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:23 +0000
Subject: [PATCH 74/87] fix: a request object passed by reference makes a
 correct request

---
 src/oidcop/oauth2/authorization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index c046632..ddd0959 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -15,6 +15,8 @@ from cryptojwt.jws.exception import NoSuitableSigningKeys
 from cryptojwt.utils import as_bytes
 from cryptojwt.utils import b64e
 from oidcmsg import oauth2
+from oidcmsg.exception import MissingRequiredAttribute
+from oidcmsg.exception import MissingRequiredValue
 from oidcmsg.exception import ParameterError
 from oidcmsg.exception import URIError
 from oidcmsg.message import SINGLE_OPTIONAL_STRING
@@ -419,6 +421,12 @@ class Authorization(Endpoint):
                 for k, v in _ver_request.items():
                     request[k] = v
 
+                # What it has become must also be a correct request
+                try:
+                    request.verify(keyjar=endpoint_context.keyjar, opponent_id=client_id)
+                except (MissingRequiredAttribute, ValueError, MissingRequiredValue) as err:
+                    return self.process_verify_error(err)
+
                 request[verified_claim_name("request")] = _ver_request
             else:
                 raise ServiceError("Got a %s response", _resp.status_code)
-- 
2.43.0


From 6f7ec27ef794fe56a6b64cfc04147431f8e4d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:23 +0000
Subject: [PATCH 75/87] fix: no unregistered request_uri where registration is
 required

---
 src/oidcop/oauth2/authorization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index ddd0959..d6a2131 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -404,8 +404,10 @@ class Authorization(Endpoint):
                 raise ServiceError("Someone is using request_uri which I'm not supporting")
 
             _registered = endpoint_context.cdb[client_id].get("request_uris")
-            # Not registered should be handled else where
-            if _registered:
+            if not _registered:
+                if endpoint_context.provider_info.get("require_request_uri_registration"):
+                    raise ValueError("A request_uri that is not registered")
+            else:
                 # Before matching remove a possible fragment
                 _p = _request_uri.split("#")
                 # ignore registered fragments for now.
-- 
2.43.0


From 517dfa6c359ebbc174f8f491485c38464ac3f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:10 +0000
Subject: [PATCH 76/87] fix: the scopes advertised are the allowed ones also
 with pushed requests, and for OAuth2

---
 src/oidcop/oauth2/authorization.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index d6a2131..53a7146 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -326,7 +326,6 @@ class Authorization(Endpoint):
         "request_object_encryption_alg_values_supported": None,
         "request_object_encryption_enc_values_supported": None,
         "grant_types_supported": ["authorization_code", "implicit"],
-        "scopes_supported": [],
     }
 
     def __init__(self, server_get, **kwargs):
-- 
2.43.0


From af12dca64ce0eeb0edce427a93f1fbcffdb85e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:10 +0000
Subject: [PATCH 77/87] fix: client assertions at the token endpoint use an
 algorithm that is supported there

---
 src/oidcop/client_authn.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index 124a164..4191819 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -214,6 +214,17 @@ class JWSAuthnMethod(ClientAuthnMethod):
             if key_type == "client_secret":
                 raise AttributeError("Wrong key type")
 
+        if getattr(kwargs.get("endpoint"), "name", "") == "token":
+            _allowed = _context.cdb[ca_jwt["iss"]].get("token_endpoint_auth_signing_alg")
+            if _allowed:
+                _allowed = [_allowed]
+            else:
+                _allowed = _context.provider_info.get(
+                    "token_endpoint_auth_signing_alg_values_supported"
+                )
+            if _allowed and _sign_alg not in _allowed:
+                raise AuthnFailure(f"Not allowed '{_sign_alg}' algorithm used")
+
         authtoken = sanitize(ca_jwt.to_dict())
         logger.debug("authntoken: {}".format(authtoken))
 
-- 
2.43.0


From 27899e8eb5c9da036374c08bf8abcc7854eef33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:10 +0000
Subject: [PATCH 78/87] fix: user info for a client that uses a symmetric
 algorithm is signed with its secret

---
 src/oidcop/oidc/userinfo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 782b61c..daf720e 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -94,7 +94,10 @@ class UserInfo(Endpoint):
                 enc_alg=enc_alg,
             )
 
-            resp = _jwt.pack(response_args, recv=client_id)
+            # Symmetric algorithms use the secret shared with the client
+            _key_owner = client_id if sign_alg.startswith("HS") else ""
+
+            resp = _jwt.pack(response_args, recv=client_id, issuer_id=_key_owner)
             content_type = "application/jwt"
         else:
             if isinstance(response_args, dict):
-- 
2.43.0


From b9f3fb8d22519d6c9ecfbbc98d8cef2f2151803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:44 +0000
Subject: [PATCH 79/87] fix: user info is encrypted for a client that only
 registered the key algorithm

---
 src/oidcop/oidc/userinfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index daf720e..0c88a73 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -76,8 +76,8 @@ class UserInfo(Endpoint):
             sign = False
 
         try:
-            enc_enc = _cinfo["userinfo_encrypted_response_enc"]
             enc_alg = _cinfo["userinfo_encrypted_response_alg"]
+            enc_enc = _cinfo.get("userinfo_encrypted_response_enc", "A128CBC-HS256")
             encrypt = True
         except KeyError:
             encrypt = False
-- 
2.43.0


From 0e18c401b9162568e9a16bdb710bf821bf1b8855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:44 +0000
Subject: [PATCH 80/87] fix: ID Tokens are encrypted for clients that
 registered for it

---
 src/oidcop/token/id_token.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index e58c6c0..e31a4d9 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -287,6 +287,10 @@ class IDToken(Token):
 
         lifetime = self.lifetime
 
+        # As the client registered
+        if _context.cdb[client_id].get("id_token_encrypted_response_alg"):
+            encrypt = True
+
         id_token = self.sign_encrypt(
             session_id,
             client_id,
-- 
2.43.0


From 9ab9287e8866b0b084a66920b0d17214bb8e3ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:44 +0000
Subject: [PATCH 81/87] fix: request objects by value are refused where they
 are not supported

---
 src/oidcop/oauth2/authorization.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 53a7146..7f30e0a 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -443,6 +443,15 @@ class Authorization(Endpoint):
         if not isinstance(_object, Message):
             return request
 
+        if "request_uri" not in request and (
+            endpoint_context.provider_info.get("request_parameter_supported", True) is False
+        ):
+            return self.authentication_error_response(
+                request,
+                error="request_not_supported",
+                error_description="Request objects by value are not supported",
+            )
+
         try:
             if not _object.jws_header or _object.jws_header.get("alg", "none") == "none":
                 raise ValueError("Request object is not signed")
-- 
2.43.0


From 6ed8b43de18bff7f7bdb757fb4373b5ba164ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:44 +0000
Subject: [PATCH 82/87] fix: a response mode that is not supported is refused

---
 src/oidcop/oauth2/authorization.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 7f30e0a..1115b19 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -520,6 +520,15 @@ class Authorization(Endpoint):
         else:
             request["redirect_uri"] = redirect_uri
 
+        # Is the asked for response_mode among those that are supported
+        _modes = endpoint_context.provider_info.get("response_modes_supported")
+        if _modes and request.get("response_mode", _modes[0]) not in _modes:
+            return self.authentication_error_response(
+                request,
+                error="invalid_request",
+                error_description="Trying to use a response_mode that is not supported",
+            )
+
         return request
 
     def pick_authn_method(self, request, redirect_uri, acr=None, **kwargs):
-- 
2.43.0


From 06ca7e463a862c858401a0c4e5b4e4b59073fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:44 +0000
Subject: [PATCH 83/87] fix: the provider does not advertise that request_uris
 have to be registered when they don't

---
 src/oidcop/endpoint_context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/endpoint_context.py b/src/oidcop/endpoint_context.py
index b246b60..8fd0466 100755
--- a/src/oidcop/endpoint_context.py
+++ b/src/oidcop/endpoint_context.py
@@ -373,6 +373,9 @@ class EndpointContext(OidcContext):
         if self.jwks_uri and self.keyjar:
             _provider_info["jwks_uri"] = self.jwks_uri
 
+        # Left out it means that registration is required
+        _provider_info.setdefault("require_request_uri_registration", False)
+
         if "scopes_supported" not in _provider_info:
             _provider_info["scopes_supported"] = self.scopes_handler.get_allowed_scopes()
         if "claims_supported" not in _provider_info:
-- 
2.43.0


From 4282833cc91c9056ed09e7ecc0e58743c36b082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:58 +0000
Subject: [PATCH 84/87] fix: the claims parameter is ignored where it is not
 supported

---
 src/oidcop/oauth2/authorization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 1115b19..360e5b1 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -493,6 +493,11 @@ class Authorization(Endpoint):
 
         request = self.filter_request(endpoint_context, request)
 
+        if endpoint_context.provider_info.get("claims_parameter_supported", True) is False:
+            if "claims" in request:
+                logger.info("The claims parameter is not supported, ignoring it")
+                del request["claims"]
+
         _cinfo = endpoint_context.cdb.get(client_id)
         if not _cinfo:
             logger.error("Client ID ({}) not in client database".format(request["client_id"]))
-- 
2.43.0


From a48d92c625c950cd8fcb2f5e2bacb223b8d24972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:56 +0000
Subject: [PATCH 85/87] fix: a login page's token is one that the provider made
 itself The key jar also holds the clients' keys, so that any client could
 make one.

---
 src/oidcop/user_authn/user.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index b5a8640..b39e438 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -84,7 +84,12 @@ class UserAuthnMethod(object):
         raise NotImplementedError
 
     def unpack_token(self, token):
-        return verify_signed_jwt(token=token, keyjar=self.server_get("endpoint_context").keyjar)
+        _context = self.server_get("endpoint_context")
+        _info = verify_signed_jwt(token=token, keyjar=_context.keyjar)
+        # The key jar also holds the keys of the clients
+        if _info.get("iss") != _context.issuer:
+            raise FailedAuthentication("Not a token of mine")
+        return _info
 
     def done(self, areq):
         """
-- 
2.43.0


From e7757c9a7aaded2b96771fcb8fa9f999d5b9bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:56 +0000
Subject: [PATCH 86/87] fix: a user's password may contain a colon

---
 src/oidcop/user_authn/user.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index b39e438..b4b745d 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -232,7 +232,7 @@ class BasicAuthn(UserAuthnMethod):
         if authorization.startswith("Basic"):
             authorization = authorization[6:]
 
-        (user, pwd) = base64.b64decode(authorization).split(b":")
+        (user, pwd) = base64.b64decode(authorization).split(b":", 1)
         user = unquote(user.decode())
         self.verify_password(user, pwd.decode())
         res = {"uid": user}
-- 
2.43.0


From d1664f3c918573e31dda21f1a23063d5642bbbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:22 +0000
Subject: [PATCH 87/87] fix: a refused token request does not bind the grant to
 the key of its DPoP proof

---
 src/oidcop/oauth2/token.py | 14 +++++++-------
 src/oidcop/oidc/token.py   | 24 ++++++++++++------------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index dad1452..35fee8a 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -134,13 +134,6 @@ class AccessTokenHelper(TokenEndpointHelper):
 
         token_type = "Bearer"
 
-        # Is DPOP supported
-        if "dpop_signing_alg_values_supported" in _context.provider_info:
-            _dpop_jkt = req.get("dpop_jkt")
-            if _dpop_jkt:
-                grant.extra["dpop_jkt"] = _dpop_jkt
-                token_type = "DPoP"
-
         _based_on = grant.get_token(_access_code)
         _supports_minting = _based_on.usage_rules.get("supports_minting", [])
 
@@ -156,6 +149,13 @@ class AccessTokenHelper(TokenEndpointHelper):
 
         logger.debug("All checks OK")
 
+        # Is DPOP supported
+        if "dpop_signing_alg_values_supported" in _context.provider_info:
+            _dpop_jkt = req.get("dpop_jkt")
+            if _dpop_jkt:
+                grant.extra["dpop_jkt"] = _dpop_jkt
+                token_type = "DPoP"
+
         issue_refresh = kwargs.get("issue_refresh", False)
         _response = {
             "token_type": token_type,
diff --git a/src/oidcop/oidc/token.py b/src/oidcop/oidc/token.py
index 337588b..a08f8bf 100755
--- a/src/oidcop/oidc/token.py
+++ b/src/oidcop/oidc/token.py
@@ -59,18 +59,6 @@ class AccessTokenHelper(TokenEndpointHelper):
 
         token_type = "Bearer"
 
-        # Is DPOP supported
-        try:
-            _dpop_enabled = _context.dpop_enabled
-        except AttributeError:
-            _dpop_enabled = False
-
-        if _dpop_enabled:
-            _dpop_jkt = req.get("dpop_jkt")
-            if _dpop_jkt:
-                grant.extra["dpop_jkt"] = _dpop_jkt
-                token_type = "DPoP"
-
         _based_on = grant.get_token(_access_code)
         _supports_minting = _based_on.usage_rules.get("supports_minting", [])
 
@@ -86,6 +74,18 @@ class AccessTokenHelper(TokenEndpointHelper):
 
         logger.debug("All checks OK")
 
+        # Is DPOP supported
+        try:
+            _dpop_enabled = _context.dpop_enabled
+        except AttributeError:
+            _dpop_enabled = False
+
+        if _dpop_enabled:
+            _dpop_jkt = req.get("dpop_jkt")
+            if _dpop_jkt:
+                grant.extra["dpop_jkt"] = _dpop_jkt
+                token_type = "DPoP"
+
         issue_refresh = kwargs.get("issue_refresh", None)
         # The existence of offline_access scope overwrites issue_refresh
         if issue_refresh is None and "offline_access" in grant.scope:
-- 
2.43.0

