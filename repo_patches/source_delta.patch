From 6ecd8ade4361370822ae7c9b88b7e58ab58252f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:13 +0000
Subject: [PATCH 01/15] fix: accept only ASCII digits of the radix in IPv4
 numbers

int() also takes underscores, signs, surrounding whitespace, repeated radix
prefixes and non-ASCII digits, so hosts such as "1_0" or "0x0x1" were parsed
as IPv4 addresses.  A number with very many digits is out of range and no
longer reaches the integer string conversion limit.
---
 src/urlstd/parse.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index f15a6df..80eb843 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1186,11 +1186,16 @@ class IPv4Address:
         if len(address) == 0:
             return 0, True
 
-        try:
-            return int(address, r), validation_error
-        except ValueError:
-            pass
-        return -1, True
+        digits = {
+            8: string.octdigits,
+            10: ASCII_DIGITS,
+            16: ASCII_HEX_DIGITS,
+        }[r]
+        if any(c not in digits for c in address):
+            return -1, True
+        if len(address.lstrip("0")) > 11:  # at least 8 ** 11
+            return 256**4, validation_error
+        return int(address, r), validation_error
 
     @classmethod
     def is_ends_in_a_number(cls, address: str) -> bool:
-- 
2.43.0


From 68019a822da578761542611caf4f907e4c69ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:13 +0000
Subject: [PATCH 02/15] fix: reject an IPv4 address when any part but the last
 exceeds 255

The check was skipped when the last part also exceeds 255, so
"http://256.256/" was parsed as 1.0.1.0.
---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 80eb843..282bc68 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1270,7 +1270,7 @@ class IPv4Address:
                 numbers,
                 **kwargs,
             )
-        if any(x > 255 for x in numbers[:-1]) and numbers[-1] <= 255:
+        if any(x > 255 for x in numbers[:-1]):
             log.error(
                 "any part but the last part of the IPv4 address is greater than 255: "
                 "%r (%r)",
-- 
2.43.0


From 4991aeee9f23d39537dd0fa93c910bca60497a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:13 +0000
Subject: [PATCH 03/15] fix: IPv6 parser: leading ":::", trailing "::" after 7
 pieces, pieces after IPv4

"[:::1]" and "[::1.2.3.4:5]" were accepted and "[1:2:3:4:5:6:7::]" was
rejected.
---
 src/urlstd/parse.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 282bc68..68b8456 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1318,12 +1318,14 @@ class IPv6Address:
         log = get_logger(cls)
         piece_index = 0
         compress: Optional[int] = None
+        previous: Optional[str] = None
         start = 0
         if address[0:1] == ":":
             if address[1:2] == ":":
                 start += 2
                 piece_index += 1
                 compress = piece_index
+                previous = ":"
             else:
                 log.error(
                     "IPv6-invalid-compression: "
@@ -1337,9 +1339,8 @@ class IPv6Address:
 
         ipv6_address = [0] * 8
         piece = ""
-        previous: Optional[str] = None
         for c in cpstream(address[start:]):
-            if piece_index >= 8:
+            if not iseof(c) and piece_index >= 8:
                 log.error(
                     "IPv6-too-many-pieces: "
                     "IPv6 address contains more than 8 pieces: %r",
@@ -1426,13 +1427,17 @@ class IPv6Address:
                     f"IPv6 address has more than 6 pieces: {address!r}"
                 )
             ipv4_pieces = piece.split(".")
-            if len(ipv4_pieces) > 4 or any(
-                [
-                    len(x) == 0
-                    or any(y not in ASCII_DIGITS for y in x)
-                    or (len(x) >= 2 and x[0] == "0")
-                    for x in ipv4_pieces
-                ]
+            if (
+                not iseof(c)
+                or len(ipv4_pieces) > 4
+                or any(
+                    [
+                        len(x) == 0
+                        or any(y not in ASCII_DIGITS for y in x)
+                        or (len(x) >= 2 and x[0] == "0")
+                        for x in ipv4_pieces
+                    ]
+                )
             ):
                 log.error(
                     "IPv4-in-IPv6-invalid-code-point: "
-- 
2.43.0


From ebc2cac1bfdf16e00022b83bc8a7c8a59b1bf383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:13 +0000
Subject: [PATCH 04/15] fix: treat port 0 as a port in the host and scheme
 setters

The setters that are no-ops for a URL with a port tested the port for truth,
so a URL with port 0 could get an empty host or become a file URL.
---
 src/urlstd/parse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 68b8456..f9bec63 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3393,7 +3393,9 @@ class BasicURLParser:
                 elif (
                     state_override
                     and len(buffer) == 0
-                    and (url.includes_credentials() or url.port)
+                    and (
+                        url.includes_credentials() or url.port is not None
+                    )
                 ):
                     return URLParserState.EOF, index
                 url.host = Host.parse(buffer, url.is_not_special(), **kwargs)
@@ -3913,7 +3915,10 @@ class BasicURLParser:
                         (url.is_special() and buffer not in SPECIAL_SCHEMES)
                         or (url.is_not_special() and buffer in SPECIAL_SCHEMES)
                         or (
-                            (url.includes_credentials() or url.port)
+                            (
+                                url.includes_credentials()
+                                or url.port is not None
+                            )
                             and buffer == "file"
                         )
                         or (
-- 
2.43.0


From 3a6a4b0b91604c3ef09ff12f630a5a224b3513eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:13 +0000
Subject: [PATCH 05/15] fix: ValueError for ports and IPv4-in-IPv6 parts with
 very many digits

More than 4300 digits made int() raise ValueError out of the parser instead
of URLParseError (and made can_parse() raise).
---
 src/urlstd/parse.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index f9bec63..265a204 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1455,7 +1455,7 @@ class IPv6Address:
                     f"IPv4 part contains a leading 0 / "
                     f"there are too many IPv4 parts: {piece!r} in {address!r}"
                 )
-            elif any([int(x) > 255 for x in ipv4_pieces]):
+            elif any([len(x) > 3 or int(x) > 255 for x in ipv4_pieces]):
                 log.error(
                     "IPv4-in-IPv6-out-of-range-part: "
                     "IPv6 address with IPv4 address syntax: "
@@ -3694,17 +3694,18 @@ class BasicURLParser:
                 or state_override
             ):
                 if len(buffer) > 0:
-                    port = int(buffer)
-                    if port > 0xFFFF:
+                    digits = buffer.lstrip("0") or "0"
+                    if len(digits) > 5 or int(digits) > 0xFFFF:
                         log.error(
-                            "port-out-of-range: input’s port is too big: %d in %r",
-                            port,
+                            "port-out-of-range: input’s port is too big: %s in %r",
+                            digits,
                             urlstring,
                             **kwargs,
                         )
                         raise URLParseError(
-                            f"input’s port is too big: {port} in {urlstring!r}"
+                            f"input’s port is too big: {digits} in {urlstring!r}"
                         )
+                    port = int(digits)
                     if SPECIAL_SCHEMES.get(url.scheme) == port:
                         url.port = None
                     else:
-- 
2.43.0


From 0146d341040767381b8877075c226091305519d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:13 +0000
Subject: [PATCH 06/15] fix: keep the path of a file base URL for an empty
 relative URL

The file state went on to the path state at the end of the input and added
an empty segment: URL("", "file:///a/b") was "file:///a/b/".
---
 src/urlstd/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 265a204..5337fff 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3196,6 +3196,8 @@ class BasicURLParser:
                     )
                     url.path = []
                 return URLParserState.PATH_STATE, index - 1
+            else:
+                return URLParserState.EOF, index - 1
         return URLParserState.PATH_STATE, index - 1
 
     @classmethod
-- 
2.43.0


From c6543b449e16f04ae8f851178529c940d7a847a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:13 +0000
Subject: [PATCH 07/15] fix: percent-encode the tilde in
 application/x-www-form-urlencoded strings

U+007E is in the application/x-www-form-urlencoded percent-encode set, but
urllib.parse.quote() never encodes it.
---
 src/urlstd/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 5337fff..4b5faf2 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -418,7 +418,8 @@ def urlencode(
             space_as_plus=True,
         )
         params.append(f"{name}={value}")
-    return "&".join(params)
+    # quote() never encodes a tilde.
+    return "&".join(params).replace("~", "%7E")
 
 
 def urlparse(
-- 
2.43.0


From 169416630b738511db6de6793a2fc8737ae1aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:13 +0000
Subject: [PATCH 08/15] fix: do not percent-decode the arguments of
 URLSearchParams methods

append(), delete(), get(), get_all(), has() and set() percent-decoded names
and values, so append("a", "100%25") stored "100%" and pairs whose name
contains a percent-encoded byte could not be found.  As in the constructor,
only surrogates are normalized.
---
 src/urlstd/parse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 4b5faf2..2627847 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2126,8 +2126,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2'), ('a', '3')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(name))
+        value = utf8_decode(utf8_encode(str(value)))
         self._list.append((name, value))
         self._update()
 
@@ -2165,7 +2165,7 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2200,7 +2200,7 @@ class URLSearchParams(Collection):
             '1'
             >>> params.get('c')  # → None
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
                 return name_value[1]
@@ -2223,7 +2223,7 @@ class URLSearchParams(Collection):
             >>> params.get_all('c')
             ()
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         return tuple(
             [
                 name_value[1]
@@ -2246,7 +2246,7 @@ class URLSearchParams(Collection):
             *True* if a name-value pair with the specified *name* and *value* exists,
             *False* otherwise.
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2279,8 +2279,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '4'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(name))
+        value = utf8_decode(utf8_encode(str(value)))
         items = self._list
         found = -1
         for index, name_value in enumerate(items):
-- 
2.43.0


From 0fc246ed27711a28e10746a4739264c8da5cf682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:13 +0000
Subject: [PATCH 09/15] fix: compare values as strings in URLSearchParams.has()
 and delete()

A numeric value, or one with surrogates, never matched the stored string:
append("a", 1) followed by has("a", 1) was False.
---
 src/urlstd/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 2627847..8ebc134 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2166,6 +2166,8 @@ class URLSearchParams(Collection):
             [('a', '1'), ('b', '2')]
         """
         name = utf8_decode(utf8_encode(name))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2247,6 +2249,8 @@ class URLSearchParams(Collection):
             *False* otherwise.
         """
         name = utf8_decode(utf8_encode(name))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
-- 
2.43.0


From 6dc8c135d4544c7c944c496fd9de0517ed300c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:14 +0000
Subject: [PATCH 10/15] fix: join surrogate pairs in opaque paths

Each code point was percent-encoded on its own, so a surrogate pair became
two U+FFFD in an opaque path and one character everywhere else.
---
 src/urlstd/parse.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 8ebc134..ed0bbd1 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3472,10 +3472,14 @@ class BasicURLParser:
         # **opaque path state**
         del base
         log = get_logger(cls)
+        buffer = ""
         index = start
-        # TODO: Use buffer.
         for c in cpstream(urlstring[index:]):
             index += 1
+            if iseof(c) or iscp(c, "?#"):
+                url.path += utf8_percent_encode(  # type: ignore
+                    buffer, SAFE_C0_CONTROL_PERCENT_ENCODE_SET
+                )
             if c == "?":
                 url.query = ""
                 return URLParserState.QUERY_STATE, index
@@ -3515,9 +3519,7 @@ class BasicURLParser:
                     # return URLParserState.EOF, index - 1
                     break
                 else:
-                    url.path += utf8_percent_encode(  # type: ignore
-                        c, SAFE_C0_CONTROL_PERCENT_ENCODE_SET
-                    )
+                    buffer += c
         return URLParserState.EOF, index - 1
 
     @classmethod
-- 
2.43.0


From 526055ac8ead5145afa81164fc66c587852a8537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:14 +0000
Subject: [PATCH 11/15] fix: do not accept non-ASCII letters in
 URLValidator.is_valid_url_scheme

str.lower() maps U+212A (KELVIN SIGN) to "k".
---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index ed0bbd1..9d0cb3f 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2981,7 +2981,7 @@ U+007C (|) in 'file:///C|/demo' at position 9"],
 
         # https://url.spec.whatwg.org/#url-scheme-string
         scheme = value.lower()
-        if len(scheme) > 0 and scheme in REGISTERED_SCHEMES:
+        if value.isascii() and scheme in REGISTERED_SCHEMES:
             return True
         validity.prepend(
             "scheme is not registered in the IANA URI Schemes registry: %r",
-- 
2.43.0


From 1ea0961dd74ee5b07df83d92fbea315bcb55c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 12/15] fix: ValueError for IPv4 parts with very many digits in
 HostValidator

A decimal part with more than 4300 digits made int() raise ValueError out of
is_valid() and is_valid_ipv4_address().
---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 9d0cb3f..baf4a8e 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -865,7 +865,7 @@ more than one spot: '1::1::1'"],
                     )
                 return False
 
-            if not (0 <= int(part) <= 255):
+            if result[0] > 255:
                 if validity:
                     validity.prepend(
                         "IPv4-out-of-range-part: "
-- 
2.43.0


From df997b5daf22a77e67aa4074494bcdc4e3042d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 13/15] fix: TypeError for domains with surrogates in IDNA and
 HostValidator

ICU strings cannot be made from a string that contains surrogates, so
HostValidator.is_valid() and is_valid_domain() raised TypeError.  Surrogates
are normalized as everywhere else.
---
 src/urlstd/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index baf4a8e..90ceed3 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1040,6 +1040,7 @@ class IDNA:
         """
         log = get_logger(cls)
         info = icu.IDNAInfo()
+        domain = utf8_decode(utf8_encode(domain))
         try:
             options = (
                 icu.UIDNA_CHECK_BIDI
@@ -1119,6 +1120,7 @@ class IDNA:
         """
         log = get_logger(cls)
         info = icu.IDNAInfo()
+        domain = utf8_decode(utf8_encode(domain))
         try:
             options = (
                 icu.UIDNA_CHECK_BIDI
-- 
2.43.0


From faf398b704f9f2c002b9aec8f6ae7f2ac9210314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:13 +0000
Subject: [PATCH 14/15] fix: encode a query given encoding utf-16 as UTF-8

The Encoding Standard's label utf-16 names UTF-16LE, whose output encoding
is UTF-8.  Only the spellings with a byte order were recognised, so
parse_url(s, encoding="utf-16") percent-encoded a BOM and UTF-16 bytes.
---
 src/urlstd/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 90ceed3..64a35e5 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -139,7 +139,9 @@ UTF8_CODECS = frozenset(["utf_8", "u8", "utf", "utf8", "cp65001"])
 
 UTF16BE_CODECS = frozenset(["utf_16_be", "utf-16be", "utf-16-be"])
 
-UTF16LE_CODECS = frozenset(["utf_16_le", "utf-16le", "utf-16-le"])
+UTF16LE_CODECS = frozenset(
+    ["utf_16_le", "utf-16le", "utf-16-le", "utf_16", "utf-16", "utf16", "u16"]
+)
 
 ERROR_TYPE_UNDEFINED = "undefined"
 
-- 
2.43.0


From 7d65041b641dc38c5b923ec4b8c3cf9651da75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:48 +0000
Subject: [PATCH 15/15] fix: report both kinds of unit errors in an opaque host

---
 src/urlstd/parse.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 64a35e5..723b32c 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -601,26 +601,28 @@ class Host:
                 f"a forbidden host code point: {host!r}"
             )
 
-        valid, c = is_url_units(host)
+        valid, c = is_url_code_points(host, including="%")
         if not valid:
-            if len(c) == 1 and c != "%":
-                _c = utf8_encode(c).decode()
-                log.info(
-                    "invalid-URL-unit: "
-                    "code point is found that is not a URL unit: U+%04X (%s) in %r",
-                    ord(c),
-                    _c,
-                    host,
-                    **kwargs,
-                )
-            else:
+            _c = utf8_encode(c).decode()
+            log.info(
+                "invalid-URL-unit: "
+                "code point is found that is not a URL unit: U+%04X (%s) in %r",
+                ord(c),
+                _c,
+                host,
+                **kwargs,
+            )
+        for match in PERCENT_RE.finditer(host):
+            part = match.group()[:3]
+            if len(part) < 3 or any(c not in ASCII_HEX_DIGITS for c in part[1:]):
                 log.info(
                     "invalid-URL-unit: "
                     "incorrect percent encoding is found: %r in %r",
-                    c,
+                    part,
                     host,
                     **kwargs,
                 )
+                break
         return utf8_percent_encode(host, SAFE_C0_CONTROL_PERCENT_ENCODE_SET)
 
     @classmethod
-- 
2.43.0

