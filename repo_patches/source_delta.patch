From a835c66fa1e33e8fcc490bd13e5047d23e72dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 01/49] fix: nested messages and dictionaries survive
 urlencoding

They are JSON documents inside a urlencoded message but were parsed as if
they were urlencoded themselves (wrong members or an exception as soon as a
value contained '=' or none did). Lists of messages were written as the
repr of a Python list.
---
 src/oidcmsg/message.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index f2991ed..7095818 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -114,7 +114,10 @@ class Message(MutableMapping):
                 # Should I allow parameters with "" as value ???
                 params.append((key, val.encode("utf-8")))
             elif isinstance(val, list):
-                if _ser:
+                if _ser and val and isinstance(val[0], Message):
+                    _val = json.dumps(_ser(val, sformat="dict", lev=lev + 1))
+                    params.append((key, _val))
+                elif _ser:
                     params.append((key, str(_ser(val, sformat="urlencoded",
                                                  lev=lev))))
                 else:
@@ -217,13 +220,13 @@ class Message(MutableMapping):
 
             if isinstance(typ, list):
                 if _deser:
-                    self._dict[key] = _deser(val[0], "urlencoded")
+                    self._dict[key] = urlencoded_deser(typ[0], val[0], _deser)
                 else:
                     self._dict[key] = val
             else:  # must be single value
                 if len(val) == 1:
                     if _deser:
-                        self._dict[key] = _deser(val[0], "urlencoded")
+                        self._dict[key] = urlencoded_deser(typ, val[0], _deser)
                     elif isinstance(val[0], typ):
                         self._dict[key] = val[0]
                     else:
@@ -860,6 +863,32 @@ def add_non_standard(msg1, msg2):
 
 # =============================================================================
 
+def urlencoded_deser(typ, val, deser):
+    """
+    Deserialize a value that was part of a urlencoded message. Messages, lists
+    of messages and dictionaries appear there as JSON documents.
+
+    :param typ: The type of value
+    :param val: A string
+    :param deser: Deserializer for this type of value
+    :return: The value
+    """
+    if isinstance(typ, type) and issubclass(typ, (Message, dict)):
+        try:
+            info = json.loads(val)
+        except ValueError:
+            pass
+        else:
+            if typ is dict and isinstance(info, dict):
+                return info
+            elif isinstance(info, dict):
+                return deser(val, "json")
+            elif isinstance(info, list):
+                return deser(info, "dict")
+
+    return deser(val, "urlencoded")
+
+
 def list_serializer(vals, sformat="urlencoded", lev=0):
     if isinstance(vals, str) or not isinstance(vals, list):
         raise ValueError("Expected list: %s" % vals)
-- 
2.43.0


From 61bbfdccd01a2c8fd81fa29213b43c015f322063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 02/49] fix: null values of parameters with a serializer can be
 serialised

to_dict/to_json raised for a null time stamp, message or list of evidence.
---
 src/oidcmsg/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 7095818..dd718a2 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -260,7 +260,7 @@ class Message(MutableMapping):
                     except KeyError:
                         _ser = None
 
-            if _ser:
+            if _ser and val is not None:
                 val = _ser(val, "dict", lev)
 
             if isinstance(val, Message):
-- 
2.43.0


From 3336e07059538b116c0005d5094364eca7f0942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:15 +0000
Subject: [PATCH 03/49] fix: default values are not shared between messages

Changing the default list of one message changed the defaults of the type.
---
 src/oidcmsg/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index dd718a2..fa98d9f 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -36,7 +36,7 @@ class Message(MutableMapping):
 
     def __init__(self, set_defaults=True, **kwargs):
         if set_defaults:
-            self._dict = self.c_default.copy()
+            self._dict = copy.deepcopy(self.c_default)
         else:
             self._dict = {}
         self.lax = False
@@ -75,7 +75,7 @@ class Message(MutableMapping):
         Based on specification set a parameters value to the default value.
         """
         for key, val in self.c_default.items():
-            self._dict.setdefault(key, val)
+            self._dict.setdefault(key, copy.deepcopy(val))
 
     def to_urlencoded(self, lev=0):
         """
-- 
2.43.0


From 98cc3a8298d15a04a382a07f487ce88968782b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 04/49] fix: importing oidcmsg.oidc does not change the OAuth2
 authorization error codes

---
 src/oidcmsg/oidc/__init__.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index e21a7cb..c1dea28 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -390,15 +390,16 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
 class AuthorizationErrorResponse(oauth2.AuthorizationErrorResponse):
     c_allowed_values = oauth2.AuthorizationErrorResponse.c_allowed_values \
         .copy()
-    c_allowed_values["error"].extend(["interaction_required",
-                                      "login_required",
-                                      "session_selection_required",
-                                      "consent_required",
-                                      "invalid_request_uri",
-                                      "invalid_request_object",
-                                      "registration_not_supported",
-                                      "request_not_supported",
-                                      "request_uri_not_supported"])
+    c_allowed_values["error"] = c_allowed_values["error"] + [
+        "interaction_required",
+        "login_required",
+        "session_selection_required",
+        "consent_required",
+        "invalid_request_uri",
+        "invalid_request_object",
+        "registration_not_supported",
+        "request_not_supported",
+        "request_uri_not_supported"]
 
 
 class AuthorizationRequest(oauth2.AuthorizationRequest):
-- 
2.43.0


From b89694836542548054079f0ce4dbcc86d638610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 05/49] fix: "!" is a permitted scope character

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index c1dea28..9621314 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -227,7 +227,7 @@ for char in ['\x21', ('\x23', '\x5b'), ('\x5d', '\x7E')]:
             SCOPE_CHARSET.append(c)
             c = chr(ord(c) + 1)
     else:
-        SCOPE_CHARSET.append(set)
+        SCOPE_CHARSET.append(char)
 
 
 def check_char_set(string, allowed):
-- 
2.43.0


From cd1a9be473cb8abbf76ab25b4b40b160e0b923db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 06/49] fix: error descriptions may use every character RFC
 6749 permits

Only letters, space and "!" were accepted.
---
 src/oidcmsg/oauth2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 30f65b0..f362400 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -1,6 +1,5 @@
 import inspect
 import logging
-import string
 import sys
 
 from oidcmsg import verified_claim_name
@@ -28,7 +27,8 @@ def is_error_message(msg):
         return False
 
 
-error_chars = set(string.ascii_uppercase + string.ascii_lowercase + " " + "!")
+# %x20-21 / %x23-5B / %x5D-7E
+error_chars = set(chr(c) for c in range(0x20, 0x7f)) - {'"', '\\'}
 
 
 class ResponseMessage(Message):
-- 
2.43.0


From 2db7fe459ff52882e9de5838eccb8a4f7da30301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 07/49] fix: a valid device access token request is reported as
 verified

verify() returned None.
---
 src/oidcmsg/oauth2/device_authorization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/oauth2/device_authorization.py b/src/oidcmsg/oauth2/device_authorization.py
index 4cb4e4f..c8a1aad 100644
--- a/src/oidcmsg/oauth2/device_authorization.py
+++ b/src/oidcmsg/oauth2/device_authorization.py
@@ -34,3 +34,5 @@ class AccessTokenRequest(oidc.AccessTokenRequest):
             for claim in ["grant_type", "client_id"]:
                 if claim not in self:
                     raise MissingRequiredAttribute(claim)
+
+        return True
-- 
2.43.0


From 5c05db5c3214aa245d6e127132b4a7188b2fd17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 08/49] fix: valid identity assurance messages are reported as
 verified

verify() returned None.
---
 src/oidcmsg/oidc/identity_assurance.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index cff6eb2..b222b10 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -256,6 +256,8 @@ class Evidence(Message):
             else:
                 raise ValueError("Unknown object")
 
+        return True
+
 
 def evidence_deser(val, sformat="urlencoded"):
     return deserialize_from_one_of(val, Evidence, sformat)
@@ -481,6 +483,7 @@ class VerificationElementRequest(Message):
     def verify(self, **kwargs):
         super(VerificationElementRequest, self).verify(**kwargs)
         verify_claims_request(self, VerificationElement())
+        return True
 
 
 def verification_element_request_deser(val, sformat="urlencoded"):
@@ -500,6 +503,7 @@ class VerifiedClaimsRequest(Message):
     def verify(self, **kwargs):
         super(VerifiedClaimsRequest, self).verify(**kwargs)
         verify_claims_request(self, VerifiedClaims())
+        return True
 
 
 class IDAClaimsRequest(ClaimsRequest):
@@ -511,6 +515,8 @@ class IDAClaimsRequest(ClaimsRequest):
             _vci.verify()
             self["verified_claims"] = _vci
 
+        return True
+
 
 class ClaimsConstructor:
     def __init__(self, base_class=Message):
-- 
2.43.0


From c53dad9ad69a0c967580ff2fb4322f8596c80fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 09/49] fix: 0 is a value of a required integer and null is no
 value of a required boolean

---
 src/oidcmsg/message.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index fa98d9f..6e4c207 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -610,9 +610,7 @@ class Message(MutableMapping):
                     raise MissingRequiredAttribute("%s" % attribute)
                 continue
             else:
-                if typ == bool:
-                    pass
-                elif not val:
+                if val is None or (not val and typ not in (bool, int)):
                     if required:
                         raise MissingRequiredAttribute("%s" % attribute)
                     continue
-- 
2.43.0


From 9def8036cc40def85dfe7bda4f3c9fe580ed92a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 10/49] fix: evidence can be verified

Verifying evidence of a known kind never ended (infinite recursion) and the
kind was never guessed because the missing type had to be present for that.
---
 src/oidcmsg/oidc/identity_assurance.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index b222b10..f0306db 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -231,27 +231,27 @@ class Evidence(Message):
         if _type:
             if _type == "id_document":
                 _doc = IdDocument(**self.to_dict())
-                _doc.verify(**kwargs)
+                super(Evidence, _doc).verify(**kwargs)
             elif _type == "utility_bill":
                 _bill = UtilityBill(**self.to_dict())
-                _bill.verify(**kwargs)
+                super(Evidence, _bill).verify(**kwargs)
             elif _type == "qes":
                 _qes = QES(**self.to_dict())
-                _qes.verify(**kwargs)
+                super(Evidence, _qes).verify(**kwargs)
             else:
                 raise ValueError("Unknown type")
         else:  # let the guessing begin
-            if all(x in self.keys() for x in IdDocument.c_param.keys()):
+            if all(x in self for x in IdDocument.c_param if x != "type"):
                 _doc = IdDocument(**self.to_dict())
-                _doc.verify(**kwargs)
+                super(Evidence, _doc).verify(**kwargs)
                 self["type"] = "id_document"
-            elif all(x in self.keys() for x in UtilityBill.c_param.keys()):
+            elif all(x in self for x in UtilityBill.c_param if x != "type"):
                 _bill = UtilityBill(**self.to_dict())
-                _bill.verify(**kwargs)
+                super(Evidence, _bill).verify(**kwargs)
                 self["type"] = "utility_bill"
-            elif all(x in self.keys() for x in QES.c_param.keys()):
+            elif all(x in self for x in QES.c_param if x != "type"):
                 _qes = QES(**self.to_dict())
-                _qes.verify(**kwargs)
+                super(Evidence, _qes).verify(**kwargs)
                 self["type"] = "qes"
             else:
                 raise ValueError("Unknown object")
-- 
2.43.0


From fced17959cca7941bf72ecefe302f66531416e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 11/49] fix: messages with a time stamp in text form can be
 serialised to JSON

Serialising a received document or verification element raised ValueError.
---
 src/oidcmsg/oidc/identity_assurance.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index f0306db..8d565ea 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -107,7 +107,10 @@ def time_stamp_ser(val, sformat="", lev=0):
     elif isinstance(val, float):
         return to_iso8601_2004_time(int(val))
     elif isinstance(val, str):
-        return to_iso8601_2004_time(int(val))
+        try:
+            return to_iso8601_2004_time(int(val))
+        except ValueError:  # already formatted
+            return val
     else:
         raise ValueError("Wrong type of value")
 
@@ -132,7 +135,10 @@ def date_ser(val, sformat="", lev=0):
     elif isinstance(val, float):
         return to_iso8601_2004_date(int(val))
     elif isinstance(val, str):
-        return to_iso8601_2004_date(int(val))
+        try:
+            return to_iso8601_2004_date(int(val))
+        except ValueError:  # already formatted
+            return val
     else:
         raise ValueError("Wrong type of value")
 
-- 
2.43.0


From 34c96c528fc2ff2f8616651080881175a5d6f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 12/49] fix: time stamps keep their instant in every time zone
 and season

The UTC offset of today was used for times with another offset (daylight
saving), the zone of aware date-times was replaced and 0 meant now.
---
 src/oidcmsg/oidc/identity_assurance.py | 30 +++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 8d565ea..050100a 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -51,26 +51,26 @@ TIME_FORMAT = "%Y-%m-%dT%H:%M:%S%z"
 DATE_FORMAT = "%Y-%m-%d"
 
 
-def to_iso8601_2004(val=0, format=TIME_FORMAT):
+def to_iso8601_2004(val=None, format=TIME_FORMAT):
     """
     :param val: integer/float/datetime.datetime
     :return: A string following the DATE_FORMAT format
     """
 
-    # Finds the local time zone
-    ltz = datetime.datetime.utcnow().astimezone().tzinfo
-
-    if val:
-        if isinstance(val, datetime.datetime):
-            d = val
-        elif isinstance(val, (int, float)):
-            d = datetime.datetime.fromtimestamp(val)
-        else:
-            raise ValueError("Unsupported value type")
-    else:
+    if val is None:
         d = datetime.datetime.now()
+    elif isinstance(val, datetime.datetime):
+        d = val
+    elif isinstance(val, (int, float)):
+        d = datetime.datetime.fromtimestamp(val)
+    else:
+        raise ValueError("Unsupported value type")
+
+    if d.tzinfo is None:
+        # The local time zone, with the offset that is valid at that time
+        d = d.astimezone()
 
-    return d.replace(tzinfo=ltz).strftime(format)
+    return d.strftime(format)
 
 
 def from_iso8601_2004(isotime, format=TIME_FORMAT):
@@ -82,11 +82,11 @@ def from_iso8601_2004(isotime, format=TIME_FORMAT):
     return d.timestamp()
 
 
-def to_iso8601_2004_time(val=0):
+def to_iso8601_2004_time(val=None):
     return to_iso8601_2004(val, format=TIME_FORMAT)
 
 
-def to_iso8601_2004_date(val=0):
+def to_iso8601_2004_date(val=None):
     return to_iso8601_2004(val, format=DATE_FORMAT)
 
 
-- 
2.43.0


From 153fef3021fd9510e1d9f11e5d6d907f276d4324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 13/49] fix: add_base_path works

The os module was not imported.
---
 src/oidcmsg/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/__init__.py b/src/oidcmsg/__init__.py
index 6c54ecc..327fed6 100755
--- a/src/oidcmsg/__init__.py
+++ b/src/oidcmsg/__init__.py
@@ -1,3 +1,5 @@
+import os
+
 __author__ = 'Roland Hedberg'
 __version__ = '1.1.3'
 
-- 
2.43.0


From 6f3bbb3c928aa2202112286a2d17bb1b87428b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 14/49] fix: proper_path returns a path below "./" also for
 names starting with dots

proper_path(".") was "/".
---
 src/oidcmsg/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/__init__.py b/src/oidcmsg/__init__.py
index 327fed6..87ed2c5 100755
--- a/src/oidcmsg/__init__.py
+++ b/src/oidcmsg/__init__.py
@@ -24,6 +24,8 @@ def proper_path(path):
             path = path[1:]
         if path.startswith("/"):
             path = ".%s" % path
+        else:
+            path = "./%s" % path
     else:
         path = "./%s" % path
 
-- 
2.43.0


From 64e7109f6b1085a87e79935059fa81cddb93936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 15/49] fix: durations with minutes but without months can be
 parsed

---
 src/oidcmsg/time_util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index 093db1c..188fee9 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -102,6 +102,9 @@ def parse_duration(duration):
         else:
             try:
                 mod = duration[index:].index(code)
+                if "T" in duration[index:index + mod]:
+                    # months and minutes have the same code
+                    raise ValueError(code)
                 try:
                     dic[typ] = int(duration[index:index + mod])
                 except ValueError:
-- 
2.43.0


From 49f73f05069bfc6016b9999ce2362d5ac297a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 16/49] fix: malformed durations are refused

Trailing garbage and things like "P+1D", "P1_0D" or "PTnanS" were accepted.
---
 src/oidcmsg/time_util.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index 188fee9..4b7b960 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -74,6 +74,11 @@ D_FORMAT = [
 ]
 
 
+DURATION = re.compile(
+    r"^-?P([0-9]+Y)?([0-9]+M)?([0-9]+D)?"
+    r"(T([0-9]+H)?([0-9]+M)?([0-9]+(\.[0-9]+)?S)?)?\Z")
+
+
 def parse_duration(duration):
     # (-)PnYnMnDTnHnMnS
     index = 0
@@ -123,6 +128,9 @@ def parse_duration(duration):
         if index == len(duration):
             break
 
+    if not DURATION.match(duration):
+        raise TimeUtilError("Malformed duration")
+
     return sign, dic
 
 
-- 
2.43.0


From 1786571f6515def7e4b9319d0e6ea1b5940b5e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 17/49] fix: later_than is true for equal times whatever the
 daylight saving flag

The flag of a time parsed by strptime is -1 and not 0.
---
 src/oidcmsg/time_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index 4b7b960..d13eec1 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -342,7 +342,8 @@ def later_than(after, before):
     elif isinstance(before, int):
         before = time.gmtime(before)
 
-    return after >= before
+    # The remaining fields are redundant or unknown
+    return tuple(after)[:6] >= tuple(before)[:6]
 
 
 def utc_time_sans_frac():
-- 
2.43.0


From 8724be27755d7f3f6f01bea36700f74683ba56d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 18/49] fix: labelled stores can be updated and LabeledDict can
 be iterated over

---
 src/oidcmsg/storage/abfile.py    | 4 ++--
 src/oidcmsg/storage/extension.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 248b99b..93b07fc 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -306,9 +306,9 @@ class LabeledAbstractFileSystem(Storage):
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for key, val in ava.items():
+            self[key] = val
 
     @key_label
     def __getitem__(self, k):
diff --git a/src/oidcmsg/storage/extension.py b/src/oidcmsg/storage/extension.py
index 5554688..a29d7f6 100644
--- a/src/oidcmsg/storage/extension.py
+++ b/src/oidcmsg/storage/extension.py
@@ -35,9 +35,9 @@ class LabeledDict():
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for key, val in ava.items():
+            self[key] = val
 
     @key_label
     def __getitem__(self, k):
@@ -60,7 +60,7 @@ class LabeledDict():
         return self.storage.__contains__(k)
 
     def __iter__(self):
-        for key, val in self.storage.__iter__():
+        for key, val in self.storage.items():
             if key.startswith(self.label):
                 yield key[self.label_len:], val
 
-- 
2.43.0


From 787e54ef3a6c5328d36b59938af87e30d424ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 19/49] fix: deletions in the SQL store are committed

They were invisible to others, lost on exit and left the database locked. A
failed set leaves the old value in place.
---
 src/oidcmsg/storage/absqlalchemy.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 9314ab8..6530648 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -24,11 +24,16 @@ class AbstractStorageSQLAlchemy:
         return entry.data
 
     def set(self, k, v):
-        self.delete(k)
+        delquery = self.table.delete().where(self.table.c.owner == k)
         ins = self.table.insert().values(owner=k,
                                          data=v)
-        self.session.execute(ins)
-        self.session.commit()
+        try:
+            self.session.execute(delquery)
+            self.session.execute(ins)
+            self.session.commit()
+        except Exception:
+            self.session.rollback()
+            raise
         return 1
 
     def update(self, k, v):
@@ -50,6 +55,7 @@ class AbstractStorageSQLAlchemy:
         delquery = self.table.delete().where(self.table.c.owner == v)
         n_entries = self.session.query(self.table).filter(self.table.c.owner == v).count()
         self.session.execute(delquery)
+        self.session.commit()
         return n_entries
 
     def __contains__(self, k):
-- 
2.43.0


From d30c7db394191b9b9535f8d037f3a88c3c695fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 20/49] fix: membership in the SQL store only looks at keys

---
 src/oidcmsg/storage/absqlalchemy.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 6530648..b739487 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -59,9 +59,7 @@ class AbstractStorageSQLAlchemy:
         return n_entries
 
     def __contains__(self, k):
-        for entry in self():
-            if k in entry:
-                return 1
+        return self.get(k) is not None
 
     def __call__(self):
         return self.session.query(self.table).all()
-- 
2.43.0


From 4dd314ca950dd4e3825919f7d0b77edcc0794a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 21/49] fix: every key has its own file

The empty key, "." and ".." could not be stored and a key ending in ".lock"
shared the file with the lock of another key and was never listed.
---
 src/oidcmsg/storage/converter.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/converter.py b/src/oidcmsg/storage/converter.py
index 018d03d..3169fce 100644
--- a/src/oidcmsg/storage/converter.py
+++ b/src/oidcmsg/storage/converter.py
@@ -4,10 +4,22 @@ from urllib.parse import unquote_plus
 
 
 class QPKey:
+    # No other key is represented by a sole percent sign
+    EMPTY = '%'
+
     def serialize(self, str):
-        return quote_plus(str)
+        if str == '':
+            return self.EMPTY
+
+        res = quote_plus(str)
+        # '.' and '..' are directories, the names of lock files end with '.lock'
+        if res in ('.', '..') or res.endswith('.lock'):
+            res = '%2E'.join(res.rsplit('.', 1))
+        return res
 
     def deserialize(self, str):
+        if str == self.EMPTY:
+            return ''
         return unquote_plus(str)
 
 
-- 
2.43.0


From f01e43059cd1e183edde44f727f3eb310d3fadec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:33 +0000
Subject: [PATCH 22/49] fix: the file store is a dictionary for several
 concurrent users

- deleting a key with characters that are quoted in the file name had no effect
- membership and listings ignored what other users of the directory had added
  or deleted
- reading while someone else wrote or deleted could return half a value, None
  or raise FileNotFoundError; a value could be cached with the time of a later
  one and was then never read again
- dying in the middle of a write, or failing to serialise the value, destroyed
  the old value
- surrounding white space, line ends and (depending on the locale) characters
  outside ASCII were not preserved
---
 src/oidcmsg/storage/abfile.py | 141 +++++++++++++++++++++-------------
 1 file changed, 87 insertions(+), 54 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 93b07fc..83ccd5e 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -1,5 +1,6 @@
 import logging
 import os
+import stat
 import time
 
 from filelock import FileLock
@@ -90,8 +91,7 @@ class AbstractFileSystem(Storage):
 
         if self.is_changed(item):
             logger.info("File content change in {}".format(item))
-            fname = os.path.join(self.fdir, item)
-            self.storage[item] = self._read_info(fname)
+            self._load(item)
 
         logger.debug('Read from "%s"', item)
         return self.storage[item]
@@ -116,33 +116,57 @@ class AbstractFileSystem(Storage):
             _key = key
 
         fname = os.path.join(self.fdir, _key)
+        info = self.value_conv.serialize(value)
+        # The new content replaces the old in one step. No one, not even after
+        # a crash, will see a partly written file.
+        tmp_name = '{}#.lock'.format(fname)
         lock = FileLock('{}.lock'.format(fname))
         with lock:
-            with open(fname, 'w') as fp:
-                fp.write(self.value_conv.serialize(value))
+            try:
+                with open(tmp_name, 'w', encoding='utf-8', newline='') as fp:
+                    fp.write(info)
+                mtime = self.get_mtime(tmp_name)
+                os.replace(tmp_name, fname)
+            except Exception:
+                if os.path.isfile(tmp_name):
+                    os.unlink(tmp_name)
+                raise
+
+            self.storage[_key] = value
+            self.fmtime[_key] = mtime
 
-        self.storage[_key] = value
         logger.debug('Wrote to "%s"', key)
-        self.fmtime[_key] = self.get_mtime(fname)
 
     def __delitem__(self, key):
-        fname = os.path.join(self.fdir, key)
+        self._remove(self.key_conv.serialize(key))
+
+    def _remove(self, item):
+        """
+        Remove what is known about an item, on disc and in the cache.
+
+        :param item: Name of the file
+        """
+        fname = os.path.join(self.fdir, item)
         if os.path.isfile(fname):
             lock = FileLock('{}.lock'.format(fname))
             with lock:
-                os.unlink(fname)
+                try:
+                    os.unlink(fname)
+                except FileNotFoundError:  # someone else was faster
+                    pass
 
-        try:
-            del self.storage[key]
-        except KeyError:
-            pass
+        self._forget(item)
+
+    def _forget(self, item):
+        self.storage.pop(item, None)
+        self.fmtime.pop(item, None)
 
     def keys(self):
         """
         Implements the dict.keys() method
         """
         self.synch()
-        for k in self.storage.keys():
+        for k in list(self.storage.keys()):
             yield self.key_conv.deserialize(k)
 
     @staticmethod
@@ -171,37 +195,42 @@ class AbstractFileSystem(Storage):
         :return: True/False
         """
         fname = os.path.join(self.fdir, item)
-        if os.path.isfile(fname):
-            mtime = self.get_mtime(fname)
+        try:
+            _stat = os.stat(fname)
+        except OSError:
+            _stat = None
 
-            try:
-                _ftime = self.fmtime[item]
-            except KeyError:  # Never been seen before
-                self.fmtime[item] = mtime
-                return True
-
-            if mtime > _ftime:  # has changed
-                self.fmtime[item] = mtime
-                return True
-            else:
-                return False
-        else:
+        if _stat is None or not stat.S_ISREG(_stat.st_mode):
             logger.error('Could not access {}'.format(fname))
+            self._forget(item)
             raise KeyError(item)
 
-    def _read_info(self, fname):
-        if os.path.isfile(fname):
-            try:
-                lock = FileLock('{}.lock'.format(fname))
-                with lock:
-                    info = open(fname, 'r').read().strip()
-                return self.value_conv.deserialize(info)
-            except Exception as err:
-                logger.error(err)
-                raise
-        else:
+        return self.fmtime.get(item) != _stat.st_mtime_ns
+
+    def _load(self, item):
+        """
+        Read the content of a file into the cache.
+
+        :param item: Name of the file
+        """
+        fname = os.path.join(self.fdir, item)
+        try:
+            lock = FileLock('{}.lock'.format(fname))
+            with lock:
+                with open(fname, 'r', encoding='utf-8', newline='') as fp:
+                    mtime = os.fstat(fp.fileno()).st_mtime_ns
+                    info = fp.read()
+            value = self.value_conv.deserialize(info)
+        except FileNotFoundError:
             logger.error('No such file: {}'.format(fname))
-        return None
+            self._forget(item)
+            raise KeyError(item)
+        except Exception as err:
+            logger.error(err)
+            raise
+
+        self.storage[item] = value
+        self.fmtime[item] = mtime
 
     def synch(self):
         """
@@ -211,32 +240,34 @@ class AbstractFileSystem(Storage):
         if not os.path.isdir(self.fdir):
             os.makedirs(self.fdir)
             # raise ValueError('No such directory: {}'.format(self.fdir))
+        present = set()
         for f in os.listdir(self.fdir):
             fname = os.path.join(self.fdir, f)
 
-            if not os.path.isfile(fname):
-                continue
             if fname.endswith('.lock'):
                 continue
+            if not os.path.isfile(fname):
+                continue
 
-            if f in self.fmtime:
+            present.add(f)
+            try:
                 if self.is_changed(f):
-                    self.storage[f] = self._read_info(fname)
-            else:
-                mtime = self.get_mtime(fname)
-                try:
-                    self.storage[f] = self._read_info(fname)
-                except Exception as err:
-                    logger.warning('Bad content in {} ({})'.format(fname, err))
-                else:
-                    self.fmtime[f] = mtime
+                    self._load(f)
+            except KeyError:  # disappeared since the directory was read
+                pass
+            except Exception as err:
+                logger.warning('Bad content in {} ({})'.format(fname, err))
+                self._forget(f)
+
+        for f in [f for f in self.storage if f not in present]:
+            self._forget(f)
 
     def items(self):
         """
         Implements the dict.items() method
         """
         self.synch()
-        for k, v in self.storage.items():
+        for k, v in list(self.storage.items()):
             yield self.key_conv.deserialize(k), v
 
     def clear(self):
@@ -249,7 +280,8 @@ class AbstractFileSystem(Storage):
             return
 
         for f in os.listdir(self.fdir):
-            del self[f]
+            if not f.endswith('.lock'):
+                self._remove(f)
 
     def update(self, ava):
         """
@@ -262,12 +294,13 @@ class AbstractFileSystem(Storage):
             self[key] = val
 
     def __contains__(self, item):
-        return self.key_conv.serialize(item) in self.storage
+        return os.path.isfile(os.path.join(self.fdir, self.key_conv.serialize(item)))
 
     def __iter__(self):
         return self.items()
 
     def __call__(self, *args, **kwargs):
+        self.synch()
         return [self.key_conv.deserialize(k) for k in self.storage.keys()]
 
     def __len__(self):
-- 
2.43.0


From 14321986fc7a66775f563ee749c50bf4d0beb142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 23/49] fix: the length of a labelled store is right for labels
 that need quoting

---
 src/oidcmsg/storage/abfile.py | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 83ccd5e..389218a 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -373,18 +373,4 @@ class LabeledAbstractFileSystem(Storage):
                 yield key[len(self.label):], val
 
     def __len__(self):
-        if not os.path.isdir(self.storage.fdir):
-            return 0
-
-        n = 0
-        for f in os.listdir(self.storage.fdir):
-            if f.startswith(self.label):
-                fname = os.path.join(self.storage.fdir, f)
-
-                if not os.path.isfile(fname):
-                    continue
-                if fname.endswith('.lock'):
-                    continue
-
-                n += 1
-        return n
+        return len(self.keys())
-- 
2.43.0


From cc9c19b856afdb9ed41f58dad09471a8d8c90e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 24/49] fix: unsigned logout tokens are refused unless
 explicitly allowed

Logout tokens with the signing algorithm "none", or only encrypted, were
accepted: anybody could log out any user.
---
 src/oidcmsg/oidc/__init__.py | 13 +++++++++++++
 src/oidcmsg/oidc/session.py  |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 9621314..3eae740 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -246,6 +246,19 @@ ID_TOKEN_VERIFY_ARGS = ['keyjar', 'verify', 'encalg', 'encenc', 'sigalg',
 CLAIMS_WITH_VERIFIED = ['id_token', 'id_token_hint', 'request']
 
 
+def refuse_unsigned(token, **kwargs):
+    """
+    A token that is not signed is only OK if unsigned tokens are explicitly allowed.
+
+    :param token: The result of parsing a JWT. A Message instance
+    """
+    if token.jws_header and token.jws_header['alg'] != 'none':
+        return
+
+    if kwargs.get('sigalg') != 'none' and not kwargs.get('allow_sign_alg_none'):
+        raise UnsupportedAlgorithm('Unsigned token not allowed')
+
+
 def clear_verified_claims(msg):
     for claim in CLAIMS_WITH_VERIFIED:
         _vc_name = verified_claim_name(claim)
diff --git a/src/oidcmsg/oidc/session.py b/src/oidcmsg/oidc/session.py
index 7a9550a..0543647 100644
--- a/src/oidcmsg/oidc/session.py
+++ b/src/oidcmsg/oidc/session.py
@@ -18,6 +18,7 @@ from ..oidc import SINGLE_OPTIONAL_IDTOKEN
 from ..oidc import IdToken
 from ..oidc import MessageWithIdToken
 from ..oidc import clear_verified_claims
+from ..oidc import refuse_unsigned
 from ..oidc import verified_claim_name
 from ..oidc import verify_id_token
 
@@ -177,6 +178,7 @@ class BackChannelLogoutRequest(Message):
             except KeyError:
                 pass
         idt = LogoutToken().from_jwt(str(self["logout_token"]), **args)
+        refuse_unsigned(idt, **kwargs)
         if not idt.verify(**kwargs):
             return False
 
-- 
2.43.0


From 641403e7619e1e2ed8eccac48c39e1f412318855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:25 +0000
Subject: [PATCH 25/49] fix: unsigned ID Token hints are refused unless
 explicitly allowed

---
 src/oidcmsg/oidc/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 3eae740..5f60a18 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -494,6 +494,7 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
         if "id_token_hint" in self:
             if isinstance(self["id_token_hint"], str):
                 idt = IdToken().from_jwt(str(self["id_token_hint"]), **args)
+                refuse_unsigned(idt, **kwargs)
                 self["verified_id_token_hint"] = idt
 
         if "response_type" not in self:
-- 
2.43.0


From a9e4c9ea0c1ebe10088bf1c68165cecfd2dea0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 26/49] fix: nothing a sender includes in a request is taken
 for a verified token

Claims with the name of a verified token that were part of the message or of
the request object, or were left from an earlier verification, survived.
---
 src/oidcmsg/oauth2/__init__.py | 18 ++++++++++--------
 src/oidcmsg/oidc/__init__.py   | 12 +++++++++++-
 src/oidcmsg/oidc/session.py    |  1 +
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index f362400..11245cb 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -329,11 +329,12 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        # nothing the sender included counts as verified
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
@@ -358,11 +359,12 @@ class PushedAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        # nothing the sender included counts as verified
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 5f60a18..a8591af 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -243,7 +243,7 @@ ID_TOKEN_VERIFY_ARGS = ['keyjar', 'verify', 'encalg', 'encenc', 'sigalg',
                         'trusting', 'skew', 'nonce_storage_time', 'client_id',
                         'allow_sign_alg_none', 'allowed_sign_alg']
 
-CLAIMS_WITH_VERIFIED = ['id_token', 'id_token_hint', 'request']
+CLAIMS_WITH_VERIFIED = ['id_token', 'id_token_hint', 'request', 'logout_token']
 
 
 def refuse_unsigned(token, **kwargs):
@@ -266,6 +266,12 @@ def clear_verified_claims(msg):
             del msg[_vc_name]
         except KeyError:
             pass
+
+    # The name used by the authorization request
+    try:
+        del msg["verified_id_token_hint"]
+    except KeyError:
+        pass
     return msg
 
 
@@ -472,6 +478,8 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
             if isinstance(self["request"], str):
                 # Try to decode the JWT, checks the signature
                 oidr = OpenIDRequest().from_jwt(str(self["request"]), **args)
+                # nothing the sender included counts as verified
+                clear_verified_claims(oidr)
 
                 # check if something is change in the original message
                 for key, val in oidr.items():
@@ -852,6 +860,8 @@ class MessageWithIdToken(Message):
 
     def verify(self, **kwargs):
         super(MessageWithIdToken, self).verify(**kwargs)
+        clear_verified_claims(self)
+
         if "id_token" in self:
             if not verify_id_token(self, **kwargs):
                 return False
diff --git a/src/oidcmsg/oidc/session.py b/src/oidcmsg/oidc/session.py
index 0543647..05cb854 100644
--- a/src/oidcmsg/oidc/session.py
+++ b/src/oidcmsg/oidc/session.py
@@ -170,6 +170,7 @@ class BackChannelLogoutRequest(Message):
 
     def verify(self, **kwargs):
         super(BackChannelLogoutRequest, self).verify(**kwargs)
+        clear_verified_claims(self)
 
         args = {}
         for arg in ID_TOKEN_VERIFY_ARGS:
-- 
2.43.0


From 9d421af0715c6f2c0169fc6507a5a2524fdd7a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 27/49] fix: parameters from a request object have to follow
 the rules of the request

Required parameters that were missing, and values that are not permitted, were
accepted when the request came with a request object.
---
 src/oidcmsg/oauth2/__init__.py | 4 ++++
 src/oidcmsg/oidc/__init__.py   | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 11245cb..94ff8cc 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -345,6 +345,8 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
 
             _req = AuthorizationRequest().from_jwt(str(self["request"]), **args)
             self.merge(_req, 'strict')
+            # the parameters of the request object have to follow the rules too
+            super(JWTSecuredAuthorizationRequest, self).verify(**kwargs)
             self[_vc_name] = _req
         elif "request_uri" not in self:
             raise MissingAttribute("One of request or request_uri must be present")
@@ -377,6 +379,8 @@ class PushedAuthorizationRequest(AuthorizationRequest):
             self.merge(_req, "lax")
             self[_vc_name] = _req
 
+        super(PushedAuthorizationRequest, self).verify(**kwargs)
+
         return True
 
 
diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index a8591af..e4f0312 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -496,6 +496,9 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
 
                 self.update(oidr)
 
+                # the parameters of the request object have to follow the rules too
+                super(AuthorizationRequest, self).verify(**kwargs)
+
                 # replace the JWT with the parsed and verified instance
                 self[verified_claim_name("request")] = oidr
 
-- 
2.43.0


From 8528bb78504ecbd89031034f05f3fd7e7aec778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:13 +0000
Subject: [PATCH 28/49] fix: an authorization response for a client whose ID
 contains mine is refused

A single audience given as a string was searched for the client ID.
---
 src/oidcmsg/oidc/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index e4f0312..5de0bff 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -395,8 +395,11 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
 
         if "aud" in self:
             if "client_id" in kwargs:
-                # check that it's for me
-                if kwargs["client_id"] not in self["aud"]:
+                # check that it's for me. One audience may be given as a string
+                _aud = self["aud"]
+                if isinstance(_aud, str):
+                    _aud = [_aud]
+                if kwargs["client_id"] not in _aud:
                     return False
 
         if "id_token" in self:
-- 
2.43.0


From 99132963e9d336e36ba4b969c3b8cd9dde344b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 29/49] fix: birth dates in other formats than YYYY-MM-DD are
 refused

Months and days of one digit or padded with a space, and digits of other
scripts, were accepted.
---
 src/oidcmsg/oidc/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 5de0bff..c520e27 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -2,6 +2,7 @@
 import inspect
 import json
 import logging
+import re
 import sys
 import time
 from urllib.parse import urlencode
@@ -566,6 +567,10 @@ class AddressClaim(Message):
     }
 
 
+# strptime is less strict about the number of digits and what a digit is
+BIRTHDATE = re.compile(r'[0-9]{4}(-[0-9]{2}-[0-9]{2})?\Z')
+
+
 class OpenIDSchema(ResponseMessage):
     c_param = ResponseMessage.c_param.copy()
     c_param.update(
@@ -599,6 +604,8 @@ class OpenIDSchema(ResponseMessage):
 
         if "birthdate" in self:
             # Either YYYY-MM-DD or just YYYY or 0000-MM-DD
+            if not BIRTHDATE.match(self["birthdate"]):
+                raise VerificationError("Birthdate format error", self)
             try:
                 time.strptime(self["birthdate"], "%Y-%m-%d")
             except ValueError:
-- 
2.43.0


From 238e5513cc539eb44b2cf9b212aa5937472e715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 30/49] fix: only allow_http=True allows an issuer with http,
 and only http

allow_http=False allowed it as well, and any other scheme too.
---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index c520e27..d66b113 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -958,7 +958,7 @@ class ProviderConfigurationResponse(ResponseMessage):
                 check_char_set(scope, SCOPE_CHARSET)
 
         parts = urlparse(self["issuer"])
-        if 'allow_http' in kwargs:
+        if parts.scheme == "http" and kwargs.get('allow_http'):
             pass
         elif parts.scheme != "https":
             raise SchemeError("Not HTTPS")
-- 
2.43.0


From 62741580b0ef77e4cb1fee3359eadaba1e57e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 31/49] fix: a claims request without value restrictions
 matches every value

Only {"essential": ...} did; empty ones and those with other members, like the
"purpose" of identity assurance, matched nothing.
---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index d66b113..515c419 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -1252,7 +1252,7 @@ def claims_match(value, claimspec):
             break
 
     # No values to test against so it's just about being there or not
-    if list(claimspec.keys()) == ['essential']:
+    if "value" not in claimspec and "values" not in claimspec:
         return True
 
     return matched
-- 
2.43.0


From d207426100683de39665bc657294af5dfec37a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 32/49] fix: null is no nonce, subject, session ID or endpoint

Conditionally required parameters were taken for present when they were null.
---
 src/oidcmsg/oidc/__init__.py | 8 ++++----
 src/oidcmsg/oidc/session.py  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 515c419..1584b01 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -517,7 +517,7 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
 
         _rt = self["response_type"]
         if "id_token" in _rt:
-            if "nonce" not in self:
+            if self.get("nonce") is None:
                 raise MissingRequiredAttribute("Nonce missing", self)
             else:
                 try:
@@ -725,8 +725,8 @@ class RegistrationResponse(ResponseMessage):
         """
         super(RegistrationResponse, self).verify(**kwargs)
 
-        has_reg_uri = "registration_client_uri" in self
-        has_reg_at = "registration_access_token" in self
+        has_reg_uri = self.get("registration_client_uri") is not None
+        has_reg_at = self.get("registration_access_token") is not None
         if has_reg_uri != has_reg_at:
             raise VerificationError((
                 "Only one of registration_client_uri"
@@ -972,7 +972,7 @@ class ProviderConfigurationResponse(ResponseMessage):
             raise ValueError('Issuer ID invalid')
 
         if any("code" in rt for rt in self[
-            "response_types_supported"]) and "token_endpoint" not in self:
+            "response_types_supported"]) and self.get("token_endpoint") is None:
             raise MissingRequiredAttribute("token_endpoint")
 
         return True
diff --git a/src/oidcmsg/oidc/session.py b/src/oidcmsg/oidc/session.py
index 05cb854..a50324c 100644
--- a/src/oidcmsg/oidc/session.py
+++ b/src/oidcmsg/oidc/session.py
@@ -116,7 +116,7 @@ class LogoutToken(Message):
             raise ValueError('Wrong member value in "events"')
 
         # There must be either a 'sub' or a 'sid', and may contain both
-        if not ('sub' in self or 'sid' in self):
+        if self.get('sub') is None and self.get('sid') is None:
             raise ValueError('There MUST be either a "sub" or a "sid"')
 
         try:
-- 
2.43.0


From 8ef8df1ca3d66b5320cae13bde693fbc85e50917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 33/49] fix: essential, value and purpose of a claims request
 are always checked

0, empty values and lists were accepted where a boolean, a text or another type
of value is required, and booleans as integers.
---
 src/oidcmsg/oidc/identity_assurance.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 050100a..3715d36 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -414,6 +414,8 @@ OPTIONAL_VERIFICATION_REQUEST = OPTIONAL_MESSAGE
 def _correct_value_type(val, value_type):
     if isinstance(value_type, Message):
         pass
+    elif isinstance(val, bool) and value_type is int:  # a bool is an int in Python
+        return False
     else:
         if not isinstance(val, value_type):  # the simple case
             return False
@@ -425,11 +427,12 @@ def _verify_claims_request_value(value, value_type=str):
         return True
     elif isinstance(value, dict):
         # know about keys: essential, value and values, purpose
-        if not value.get("essential") in (None, True, False):
+        _essential = value.get("essential")
+        if not (_essential is None or isinstance(_essential, bool)):
             return False
 
         _v = value.get("value")
-        if _v:
+        if _v is not None:
             if not _correct_value_type(_v, value_type):
                 return False
 
@@ -439,7 +442,9 @@ def _verify_claims_request_value(value, value_type=str):
                 return False
 
         _p = value.get("purpose")
-        if _p:
+        if _p is not None:
+            if not isinstance(_p, str):
+                return False
             if len(_p) < 3 or len(_p) > 300:
                 return False
             if not all(x in error_chars for x in _p):
-- 
2.43.0


From 1ac423cee91378ed6be716c567ca76fe81047faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:19 +0000
Subject: [PATCH 34/49] fix: evidence can be given as messages

---
 src/oidcmsg/oidc/identity_assurance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 3715d36..3533dac 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -266,6 +266,8 @@ class Evidence(Message):
 
 
 def evidence_deser(val, sformat="urlencoded"):
+    if isinstance(val, Message):
+        return val
     return deserialize_from_one_of(val, Evidence, sformat)
 
 
-- 
2.43.0


From 0f3ed6a8585fab401afc8a329541e5a497363fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:01 +0000
Subject: [PATCH 35/49] fix: a dictionary is no list of strings

---
 src/oidcmsg/message.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 6e4c207..b6aecf0 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -387,8 +387,9 @@ class Message(MutableMapping):
                     val = _deser(val, sformat="dict")
                 except Exception as exc:
                     raise DecodeError(ERRTXT % (key, exc))
-                else:
-                    self._dict[skey] = val
+                if not isinstance(val, list):
+                    raise DecodeError(ERRTXT % (key, "type != %s" % vtype))
+                self._dict[skey] = val
             else:
                 raise DecodeError(ERRTXT % (key, "type != %s" % vtype))
         else:
-- 
2.43.0


From eecde4e7d00568042d400175c8988c59c30b22f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:24 +0000
Subject: [PATCH 36/49] fix: an authorization request's ID Token hint has to be
 signed as demanded

---
 src/oidcmsg/oidc/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 1584b01..ef348f9 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -508,8 +508,15 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
 
         if "id_token_hint" in self:
             if isinstance(self["id_token_hint"], str):
+                if kwargs.get("sigalg"):
+                    args["sigalg"] = kwargs["sigalg"]
                 idt = IdToken().from_jwt(str(self["id_token_hint"]), **args)
                 refuse_unsigned(idt, **kwargs)
+                _allowed = kwargs.get("allowed_sign_alg")
+                if _allowed and idt.jws_header["alg"] not in [_allowed, "none"]:
+                    raise UnsupportedAlgorithm(
+                        "Wrong token signing algorithm, {} != {}".format(
+                            idt.jws_header["alg"], _allowed))
                 self["verified_id_token_hint"] = idt
 
         if "response_type" not in self:
-- 
2.43.0


From 5e0a6232af1296f4d250114f82de3ab42656134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 37/49] fix: merging with an empty white list keeps no outside
 parameters

---
 src/oidcmsg/oauth2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 94ff8cc..42128dd 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -127,10 +127,10 @@ class AuthorizationRequest(Message):
                     del self[param]
         elif treatement == "lax":
             pass
-        elif treatement == "whitelist" and whitelist:
+        elif treatement == "whitelist":
             params = list(self.keys())
             for param in params:
-                if param not in whitelist:
+                if not whitelist or param not in whitelist:
                     del self[param]
 
         self.update(request_object)
-- 
2.43.0


From 0642f19870056bf5798a48545f3588d39c1494bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:39 +0000
Subject: [PATCH 38/49] fix: the SQL store can be iterated over

---
 src/oidcmsg/storage/absqlalchemy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index b739487..2c4058a 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -65,7 +65,7 @@ class AbstractStorageSQLAlchemy:
         return self.session.query(self.table).all()
 
     def __iter__(self):
-        return self.session.query(self.table)
+        return iter(self.session.query(self.table))
 
     def __str__(self):
         entries = []
-- 
2.43.0


From f2aa72a6c933943c0f4c9d4f1be204a5c60fbbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:46 +0000
Subject: [PATCH 39/49] fix: the keys of a context do not pile up in a
 persistent key store

---
 src/oidcmsg/context.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/context.py b/src/oidcmsg/context.py
index 30a38e1..00f456d 100644
--- a/src/oidcmsg/context.py
+++ b/src/oidcmsg/context.py
@@ -2,6 +2,7 @@ import copy
 from urllib.parse import quote_plus
 
 from cryptojwt import KeyJar
+from cryptojwt.key_issuer import KeyIssuer
 from cryptojwt.key_jar import init_key_jar
 
 from oidcmsg.message import Message
@@ -46,6 +47,13 @@ class OidcContext:
         for key, attr in boxes.items():
             setattr(self, attr, init_storage(db_conf, key))
 
+    @staticmethod
+    def _set_keys(keyjar, jwks, owner):
+        # With a persistent storage an earlier context may have left keys there
+        if jwks.get('keys') and owner in keyjar:
+            keyjar[owner] = KeyIssuer(name=owner)
+        keyjar.import_jwks(jwks, owner)
+
     def _keyjar(self, keyjar=None, db_conf=None, conf=None, entity_id=''):
         if keyjar is None:
             _storage = None
@@ -61,11 +69,11 @@ class OidcContext:
             else:
                 _keyjar = KeyJar(storage=_storage)
                 if 'jwks' in conf:
-                    _keyjar.import_jwks(conf['jwks'], '')
+                    self._set_keys(_keyjar, conf['jwks'], '')
 
             if '' in _keyjar and entity_id:
                 # make sure I have the keys under my own name too (if I know it)
-                _keyjar.import_jwks_as_json(_keyjar.export_jwks_as_json(True, ''), entity_id)
+                self._set_keys(_keyjar, _keyjar.export_jwks(True, ''), entity_id)
 
             _httpc_params = conf.get('httpc_params')
             if _httpc_params:
-- 
2.43.0


From febab7dc093b5a515dda90c967da1f5072ef8591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:36 +0000
Subject: [PATCH 40/49] fix: building a context does not change its configured
 keys

---
 src/oidcmsg/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/context.py b/src/oidcmsg/context.py
index 00f456d..880a543 100644
--- a/src/oidcmsg/context.py
+++ b/src/oidcmsg/context.py
@@ -69,7 +69,7 @@ class OidcContext:
             else:
                 _keyjar = KeyJar(storage=_storage)
                 if 'jwks' in conf:
-                    self._set_keys(_keyjar, conf['jwks'], '')
+                    self._set_keys(_keyjar, copy.deepcopy(conf['jwks']), '')
 
             if '' in _keyjar and entity_id:
                 # make sure I have the keys under my own name too (if I know it)
-- 
2.43.0


From d39d259428c61427047c31ae78b91b8081a430c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:06 +0000
Subject: [PATCH 41/49] fix: a refused update or deletion does not lock the SQL
 store for others

---
 src/oidcmsg/storage/absqlalchemy.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 2c4058a..dbeee95 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -44,8 +44,12 @@ class AbstractStorageSQLAlchemy:
         upquery = self.table.update(). \
             where(self.table.c.owner == k). \
             values(**{'data': v})
-        self.session.execute(upquery)
-        self.session.commit()
+        try:
+            self.session.execute(upquery)
+            self.session.commit()
+        except Exception:
+            self.session.rollback()
+            raise
         return 1
 
     def delete(self, v):
@@ -54,8 +58,12 @@ class AbstractStorageSQLAlchemy:
         """
         delquery = self.table.delete().where(self.table.c.owner == v)
         n_entries = self.session.query(self.table).filter(self.table.c.owner == v).count()
-        self.session.execute(delquery)
-        self.session.commit()
+        try:
+            self.session.execute(delquery)
+            self.session.commit()
+        except Exception:
+            self.session.rollback()
+            raise
         return n_entries
 
     def __contains__(self, k):
-- 
2.43.0


From b9f1ab56d9187c5863ef1170422831374e1f5869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:06 +0000
Subject: [PATCH 42/49] fix: concurrent deletions in the SQL store do not count
 the same entry twice

---
 src/oidcmsg/storage/absqlalchemy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index dbeee95..1f64f64 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -57,9 +57,8 @@ class AbstractStorageSQLAlchemy:
         return the count of deleted objects
         """
         delquery = self.table.delete().where(self.table.c.owner == v)
-        n_entries = self.session.query(self.table).filter(self.table.c.owner == v).count()
         try:
-            self.session.execute(delquery)
+            n_entries = self.session.execute(delquery).rowcount
             self.session.commit()
         except Exception:
             self.session.rollback()
-- 
2.43.0


From 0f5f94771c84a21e3e1110e22d725d3ffbb8ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:42 +0000
Subject: [PATCH 43/49] fix: a token that is not encrypted is refused when an
 encryption is demanded

---
 src/oidcmsg/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index b6aecf0..b32ee8d 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -519,6 +519,8 @@ class Message(MutableMapping):
             else:
                 txt = as_unicode(_res)
             self.jwe_header = _decryptor.jwt.headers
+        elif kwargs.get('encalg') or kwargs.get('encenc'):
+            raise ValueError('Not an encrypted JWT')
 
         if kwargs.get('sigalg'):
             _verifier = jws_factory(txt, alg=kwargs['sigalg'])
-- 
2.43.0


From 8d4a88d8fbfe57c530ccdb49bdb8494b13c92750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:22 +0000
Subject: [PATCH 44/49] fix: items of a context with an SQL store can be read

---
 src/oidcmsg/storage/absqlalchemy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 1f64f64..11136bc 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -65,6 +65,9 @@ class AbstractStorageSQLAlchemy:
             raise
         return n_entries
 
+    def __getitem__(self, k):
+        return self.get(k)
+
     def __contains__(self, k):
         return self.get(k) is not None
 
-- 
2.43.0


From 750bff69c5a4b24e2a8ced6fc4c6d9391c89ebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:10 +0000
Subject: [PATCH 45/49] fix: only JSON objects are taken where a JSON object
 belongs

Text that is no JSON object was taken for jwks, properties and titles
(and made the message impossible to serialise), numbers were turned into
text there, and any JSON document was taken for events, registration and
place_of_birth.
---
 src/oidcmsg/message.py       | 8 +++++++-
 src/oidcmsg/oidc/__init__.py | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index b32ee8d..bfb3d06 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -420,6 +420,9 @@ class Message(MutableMapping):
                         #     else:
                         #         raise TooManyValues(key)
                         # else:
+                        if vtyp is dict and not isinstance(val, (dict, type(None))):
+                            raise DecodeError(
+                                ERRTXT % (key, "type != %s (%s)" % (vtyp, type(val))))
                         self._dict[skey] = val
                 elif vtyp is int:
                     try:
@@ -887,7 +890,10 @@ def urlencoded_deser(typ, val, deser):
             elif isinstance(info, list):
                 return deser(info, "dict")
 
-    return deser(val, "urlencoded")
+    res = deser(val, "urlencoded")
+    if typ is dict and not isinstance(res, (dict, type(None))):
+        raise DecodeError("type != %s (%s)" % (typ, type(res)))
+    return res
 
 
 def list_serializer(vals, sformat="urlencoded", lev=0):
diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index ef348f9..a15dc84 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -215,7 +215,7 @@ SINGLE_OPTIONAL_REGISTRATION_REQUEST = (Message, False, msg_ser,
 SINGLE_OPTIONAL_CLAIMSREQ = (Message, False, msg_ser_json, claims_request_deser,
                              False)
 
-SINGLE_OPTIONAL_DICT = (dict, False, msg_ser_json, dict_deser, False)
+SINGLE_OPTIONAL_DICT = (dict, False, msg_ser_json, json_deser, False)
 
 # ----------------------------------------------------------------------------
 
-- 
2.43.0


From 8342b8f5da984195a0199975d526ace805b9c919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:39 +0000
Subject: [PATCH 46/49] fix: a tolerated clock skew does not make a token valid
 later

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index a15dc84..873c345 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -1028,7 +1028,7 @@ class JsonWebToken(Message):
         except KeyError:
             pass
         else:
-            if _nbf > (_now - _skew):
+            if _nbf > (_now + _skew):
                 raise EXPError('Not valid yet')
 
         try:
-- 
2.43.0


From 82ead27e452796aaaf34be43a41153929a78ab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:30 +0000
Subject: [PATCH 47/49] fix: a single value of a list parameter without
 deserializer is kept

---
 src/oidcmsg/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index bfb3d06..cc305bb 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -359,7 +359,7 @@ class Message(MutableMapping):
                     except Exception as exc:
                         raise DecodeError(ERRTXT % (key, exc))
                 else:
-                    setattr(self, skey, [val])
+                    self._dict[skey] = [val]
             elif isinstance(val, list):
                 if _deser:
                     try:
-- 
2.43.0


From 0146773d7ae1332e5f90f1b1d5b821cf441a3918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:33 +0000
Subject: [PATCH 48/49] fix: only a true setting allows unsigned ID Tokens

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 873c345..b20c25f 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -303,7 +303,7 @@ def verify_id_token(msg, check_hash=False, claim='id_token', **kwargs):
         if _sign_alg == "none":
             _allowed = True
         else:  # There might or might not be a specified signing alg
-            if kwargs.get('allow_sign_alg_none', False) is False:
+            if not kwargs.get('allow_sign_alg_none'):
                 logger.info('Signing algorithm None not allowed')
                 raise UnsupportedAlgorithm('Signing algorithm None not allowed')
     else:
-- 
2.43.0


From 0be19eaa13c6045a808a0b472e38280b4781fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:29 +0000
Subject: [PATCH 49/49] fix: processes can open a new file store at the same
 time

---
 src/oidcmsg/storage/abfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 389218a..cc9d729 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -70,7 +70,7 @@ class AbstractFileSystem(Storage):
             self.value_conv = PassThru()
 
         if not os.path.isdir(self.fdir):
-            os.makedirs(self.fdir)
+            os.makedirs(self.fdir, exist_ok=True)
 
         self.synch()
 
@@ -238,7 +238,7 @@ class AbstractFileSystem(Storage):
         the content of the directory.
         """
         if not os.path.isdir(self.fdir):
-            os.makedirs(self.fdir)
+            os.makedirs(self.fdir, exist_ok=True)
             # raise ValueError('No such directory: {}'.format(self.fdir))
         present = set()
         for f in os.listdir(self.fdir):
-- 
2.43.0

