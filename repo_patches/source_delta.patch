From e95b311b36a46ee4884e003b140c6a6329e1ba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:10 +0000
Subject: [PATCH 01/67] fix: SQL stores can be created with their default table
 names

---
 openid/store/sqlstore.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 2d3b0b8..07ee265 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -99,10 +99,12 @@ class SQLStore(OpenIDStore):
         self.conn = conn
         self.cur = None
         self._statement_cache = {}
-        associations_table = string_to_text(
-            associations_table, "Binary values for associations_table are deprecated. Use text input instead.")
-        nonces_table = string_to_text(nonces_table,
-                                      "Binary values for nonces_table are deprecated. Use text input instead.")
+        if associations_table is not None:
+            associations_table = string_to_text(
+                associations_table, "Binary values for associations_table are deprecated. Use text input instead.")
+        if nonces_table is not None:
+            nonces_table = string_to_text(nonces_table,
+                                          "Binary values for nonces_table are deprecated. Use text input instead.")
         self._table_names = {
             'associations': associations_table or self.associations_table,
             'nonces': nonces_table or self.nonces_table,
-- 
2.43.0


From 172777e1ee0494295df910aec57e64487eb1c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:48 +0000
Subject: [PATCH 02/67] fix: Server accepts its documented default of no
 op_endpoint

---
 openid/server/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 95b847c..7afbe1e 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1565,8 +1565,10 @@ class Server(object):
                           "for OpenID 2.0 servers" %
                           (self.__class__.__module__, self.__class__.__name__),
                           stacklevel=2)
-        self.op_endpoint = string_to_text(op_endpoint,
-                                          "Binary values for op_endpoint are deprecated. Use text input instead.")
+        if op_endpoint is not None:
+            op_endpoint = string_to_text(op_endpoint,
+                                         "Binary values for op_endpoint are deprecated. Use text input instead.")
+        self.op_endpoint = op_endpoint
 
     def handleRequest(self, request):
         """Handle a request.
-- 
2.43.0


From f37c92443e659d92e84fd0d0f4e05ab488cff441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:53 +0000
Subject: [PATCH 03/67] fix: stores return an association when several were
 issued in the same second

---
 openid/store/filestore.py | 3 ++-
 openid/store/sqlstore.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index 33e35e0..e16577f 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -8,6 +8,7 @@ import string
 import time
 from errno import EEXIST, ENOENT
 from hashlib import sha1
+from operator import itemgetter
 from tempfile import mkstemp
 
 from openid import oidutil
@@ -255,7 +256,7 @@ class FileOpenIDStore(OpenIDStore):
                     matching_associations.append(
                         (association.issued, association))
 
-            matching_associations.sort()
+            matching_associations.sort(key=itemgetter(0))
 
             # return the most recently issued one.
             if matching_associations:
diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 07ee265..3178f32 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -11,6 +11,7 @@ from __future__ import unicode_literals
 
 import re
 import time
+from operator import itemgetter
 
 import six
 
@@ -249,7 +250,7 @@ class SQLStore(OpenIDStore):
                     associations.append((assoc.issued, assoc))
 
             if associations:
-                associations.sort()
+                associations.sort(key=itemgetter(0))
                 return associations[-1][1]
             else:
                 return None
-- 
2.43.0


From 7a798941741ed66d107a59d0459f134d27d53675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:56 +0000
Subject: [PATCH 04/67] fix: MemoryStore does not prefer an expired association
 over a valid one

---
 openid/store/memstore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index 5587676..8fd0f9f 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -28,12 +28,14 @@ class ServerAssocs(object):
             return True
 
     def best(self):
-        """Returns association with the oldest issued date.
+        """Returns the most recently issued association that is not expired.
 
-        or None if there are no associations.
+        or None if there are no such associations.
         """
         best = None
         for assoc in self.assocs.values():
+            if assoc.getExpiresIn() == 0:
+                continue
             if best is None or best.issued < assoc.issued:
                 best = assoc
         return best
-- 
2.43.0


From e14ef542baf2e3682c1d396423cce127cdada507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:00 +0000
Subject: [PATCH 05/67] fix: SQL stores clean up associations in the second in
 which they expire

---
 openid/store/sqlstore.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 3178f32..a7c3683 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -354,12 +354,12 @@ class SQLiteStore(SQLStore):
         'FROM %(associations)s WHERE server_url = ? AND handle = ?;')
 
     get_expired_sql = ('SELECT server_url '
-                       'FROM %(associations)s WHERE issued + lifetime < ?;')
+                       'FROM %(associations)s WHERE issued + lifetime <= ?;')
 
     remove_assoc_sql = ('DELETE FROM %(associations)s '
                         'WHERE server_url = ? AND handle = ?;')
 
-    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime < ?;'
+    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime <= ?;'
 
     add_nonce_sql = 'INSERT INTO %(nonces)s VALUES (?, ?, ?);'
 
@@ -430,7 +430,7 @@ class MySQLStore(SQLStore):
     get_assocs_sql = ('SELECT handle, secret, issued, lifetime, assoc_type'
                       ' FROM %(associations)s WHERE server_url = %%s;')
     get_expired_sql = ('SELECT server_url '
-                       'FROM %(associations)s WHERE issued + lifetime < %%s;')
+                       'FROM %(associations)s WHERE issued + lifetime <= %%s;')
 
     get_assoc_sql = (
         'SELECT handle, secret, issued, lifetime, assoc_type'
@@ -438,7 +438,7 @@ class MySQLStore(SQLStore):
     remove_assoc_sql = ('DELETE FROM %(associations)s '
                         'WHERE server_url = %%s AND handle = %%s;')
 
-    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime < %%s;'
+    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime <= %%s;'
 
     add_nonce_sql = 'INSERT INTO %(nonces)s VALUES (%%s, %%s, %%s);'
 
@@ -523,7 +523,7 @@ class PostgreSQLStore(SQLStore):
     get_assocs_sql = ('SELECT handle, secret, issued, lifetime, assoc_type'
                       ' FROM %(associations)s WHERE server_url = %%s;')
     get_expired_sql = ('SELECT server_url '
-                       'FROM %(associations)s WHERE issued + lifetime < %%s;')
+                       'FROM %(associations)s WHERE issued + lifetime <= %%s;')
 
     get_assoc_sql = (
         'SELECT handle, secret, issued, lifetime, assoc_type'
@@ -531,7 +531,7 @@ class PostgreSQLStore(SQLStore):
     remove_assoc_sql = ('DELETE FROM %(associations)s '
                         'WHERE server_url = %%s AND handle = %%s;')
 
-    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime < %%s;'
+    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime <= %%s;'
 
     add_nonce_sql = 'INSERT INTO %(nonces)s VALUES (%%s, %%s, %%s);'
 
-- 
2.43.0


From 74f98ae1eedf95f5a4648100e93be3a14df0027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:04 +0000
Subject: [PATCH 06/67] fix: FileOpenIDStore handles any URL scheme and long
 host names

---
 openid/store/filestore.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index e16577f..c80d957 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -41,6 +41,14 @@ def _filenameEscape(s):
     return ''.join(filename_chunks)
 
 
+def _urlFilenamePart(proto, rest):
+    """Make the human readable part of a file name out of the scheme and the rest of a URL.
+
+    The part is limited in length, the file names are unique thanks to the hashes in them.
+    """
+    return '%s-%s' % (_filenameEscape(proto)[:32], _filenameEscape(rest.split('/', 1)[0])[:128])
+
+
 def _removeIfPresent(filename):
     """Attempt to remove a file, returning whether the file existed at
     the time of the call.
@@ -164,14 +172,13 @@ class FileOpenIDStore(OpenIDStore):
             raise ValueError('Bad server URL: %r' % server_url)
 
         proto, rest = server_url.split('://', 1)
-        domain = _filenameEscape(rest.split('/', 1)[0])
         url_hash = _safe64(server_url)
         if handle:
             handle_hash = _safe64(handle)
         else:
             handle_hash = ''
 
-        filename = '%s-%s-%s-%s' % (proto, domain, url_hash, handle_hash)
+        filename = '%s-%s-%s' % (_urlFilenamePart(proto, rest), url_hash, handle_hash)
 
         return os.path.join(self.association_dir, filename)
 
@@ -326,12 +333,10 @@ class FileOpenIDStore(OpenIDStore):
             # which is part of a consumer-generated nonce.
             proto, rest = '', ''
 
-        domain = _filenameEscape(rest.split('/', 1)[0])
         url_hash = _safe64(server_url)
         salt_hash = _safe64(salt)
 
-        filename = '%08x-%s-%s-%s-%s' % (timestamp, proto, domain,
-                                         url_hash, salt_hash)
+        filename = '%08x-%s-%s-%s' % (timestamp, _urlFilenamePart(proto, rest), url_hash, salt_hash)
 
         filename = os.path.join(self.nonce_dir, filename)
         try:
-- 
2.43.0


From b2bf1b325c517df9f479f9e784c44097d6b1700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:08 +0000
Subject: [PATCH 07/67] fix: MemoryStore provides the cleanup method of the
 store interface

---
 openid/store/memstore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index 8fd0f9f..c6cf0bb 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -7,6 +7,7 @@ import time
 import six
 
 from openid.store import nonce
+from openid.store.interface import OpenIDStore
 
 
 class ServerAssocs(object):
@@ -54,7 +55,7 @@ class ServerAssocs(object):
         return len(remove), len(self.assocs)
 
 
-class MemoryStore(object):
+class MemoryStore(OpenIDStore):
     """In-process memory store.
 
     Use for single long-running processes.  No persistence supplied.
-- 
2.43.0


From 833d2eec4bdac35287aa2a182de526ce4bc43472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:56 +0000
Subject: [PATCH 08/67] fix: DH shared secrets are hashed in their shortest
 btwoc form

---
 openid/dh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/dh.py b/openid/dh.py
index 1b6f34c..455b2c7 100644
--- a/openid/dh.py
+++ b/openid/dh.py
@@ -133,7 +133,7 @@ class DiffieHellman(object):
 
         # The DH secret must be `btwoc` compatible.
         # See http://openid.net/specs/openid-authentication-2_0.html#rfc.section.8.2.3 for details.
-        dh_shared = cryptutil.fix_btwoc(dh_shared)
+        dh_shared = cryptutil.int_to_bytes(cryptutil.bytes_to_int(dh_shared))
 
         hashed_dh_shared = hash_func(dh_shared)
         return strxor(secret, hashed_dh_shared)
@@ -152,7 +152,7 @@ class DiffieHellman(object):
 
         # The DH secret must be `btwoc` compatible.
         # See http://openid.net/specs/openid-authentication-2_0.html#rfc.section.8.2.3 for details.
-        dh_shared = cryptutil.fix_btwoc(dh_shared)
+        dh_shared = cryptutil.int_to_bytes(cryptutil.bytes_to_int(dh_shared))
 
         digest = hashes.Hash(algorithm, backend=default_backend())
         digest.update(dh_shared)
-- 
2.43.0


From cf6f0d3a3fb149c5be666302fe2fdd549913a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:17 +0000
Subject: [PATCH 09/67] fix: urinorm does not turn percent encoded host
 characters into URI delimiters and keeps IPv6 brackets

---
 openid/urinorm.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index 22b3dad..3edf052 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -85,17 +85,22 @@ def urinorm(uri):
     hostname = split_uri.hostname
     if hostname is None:
         hostname = ''
+    if ':' in hostname:
+        # IP literal
+        hostname = '[' + hostname.lower() + ']'
+        _check_disallowed_characters(hostname, 'hostname')
     else:
-        hostname = hostname.lower()
-    # Unquote percent encoded characters
-    hostname = unquote(hostname)
-    # Quote IDN domain names
-    try:
-        # hostname: str --[idna]--> bytes --[utf-8]--> str
-        hostname = hostname.encode('idna').decode('utf-8')
-    except ValueError as error:
-        raise ValueError('Invalid hostname {!r}: {}'.format(hostname, error))
-    _check_disallowed_characters(hostname, 'hostname')
+        # Unquote percent encoded characters
+        hostname = unquote(hostname).lower()
+        # Quote IDN domain names
+        try:
+            # hostname: str --[idna]--> bytes --[utf-8]--> str
+            hostname = hostname.encode('idna').decode('utf-8')
+        except ValueError as error:
+            raise ValueError('Invalid hostname {!r}: {}'.format(hostname, error))
+        # Characters with a special meaning in URI must not emerge from the percent encoding
+        if set(hostname).difference(UNRESERVED + SUB_DELIMS):
+            raise ValueError('Illegal characters in URI hostname: {}'.format(hostname))
 
     try:
         port = split_uri.port
-- 
2.43.0


From b11137383cd82ee1ac5922a14fe0a25617c21e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:20 +0000
Subject: [PATCH 10/67] fix: urinorm keeps query arguments with no value

---
 openid/urinorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index 3edf052..d7bbafc 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -141,10 +141,10 @@ def urinorm(uri):
     # requires values to be convertible to native strings using `str()`.
     if isinstance(split_uri.query, str):
         # Python 3 branch
-        data = parse_qsl(split_uri.query)
+        data = parse_qsl(split_uri.query, keep_blank_values=True)
     else:
         # Python 2 branch
-        data = parse_qsl(split_uri.query.encode('utf-8'))
+        data = parse_qsl(split_uri.query.encode('utf-8'), keep_blank_values=True)
     query = urlencode(data)
     _check_disallowed_characters(query, 'query')
 
-- 
2.43.0


From 5c494a69690def3a9ce6fd6328a695b191b1f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:43 +0000
Subject: [PATCH 11/67] fix: urinorm does not turn encoded slashes into path
 separators

---
 openid/urinorm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index d7bbafc..fc009ac 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -127,10 +127,11 @@ def urinorm(uri):
     # This is hackish. `unquote` and `quote` requires `str` in both py27 and py3+.
     if isinstance(path, str):
         # Python 3 branch
-        path = quote(unquote(path), safe='/' + SUB_DELIMS)
+        path = '/'.join(quote(unquote(segment), safe=SUB_DELIMS) for segment in path.split('/'))
     else:
         # Python 2 branch
-        path = quote(unquote(path.encode('utf-8')), safe=('/' + SUB_DELIMS).encode('utf-8')).decode('utf-8')
+        path = '/'.join(quote(unquote(segment), safe=SUB_DELIMS.encode('utf-8')).decode('utf-8')
+                        for segment in path.encode('utf-8').split(b'/'))
 
     path = remove_dot_segments(path)
     if not path:
-- 
2.43.0


From 23432cd6d3fa4de316b6ab023e14375bfdde8317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:47 +0000
Subject: [PATCH 12/67] fix: urinorm normalizes the percent encoding in
 fragments without decoding it

---
 openid/urinorm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index fc009ac..e220de5 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -150,7 +150,10 @@ def urinorm(uri):
     _check_disallowed_characters(query, 'query')
 
     # Normalize fragment
-    fragment = unquote(split_uri.fragment)
+    fragment = quote(unquote(split_uri.fragment.encode('utf-8') if six.PY2 else split_uri.fragment),
+                     safe=str('/?:@' + SUB_DELIMS))
+    if six.PY2:
+        fragment = fragment.decode('utf-8')
     _check_disallowed_characters(fragment, 'fragment')
 
     return urlunsplit((scheme, netloc, path, query, fragment))
-- 
2.43.0


From 4fed92271de8b4ecff0e68ea10d12461a7411b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:10 +0000
Subject: [PATCH 13/67] fix: urinorm keeps percent encoded octets that are not
 UTF-8

---
 openid/urinorm.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index e220de5..cfcb0b0 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -127,7 +127,8 @@ def urinorm(uri):
     # This is hackish. `unquote` and `quote` requires `str` in both py27 and py3+.
     if isinstance(path, str):
         # Python 3 branch
-        path = '/'.join(quote(unquote(segment), safe=SUB_DELIMS) for segment in path.split('/'))
+        path = '/'.join(quote(unquote(segment, errors='surrogateescape'), safe=SUB_DELIMS, errors='surrogateescape')
+                        for segment in path.split('/'))
     else:
         # Python 2 branch
         path = '/'.join(quote(unquote(segment), safe=SUB_DELIMS.encode('utf-8')).decode('utf-8')
@@ -142,18 +143,23 @@ def urinorm(uri):
     # requires values to be convertible to native strings using `str()`.
     if isinstance(split_uri.query, str):
         # Python 3 branch
-        data = parse_qsl(split_uri.query, keep_blank_values=True)
+        data = parse_qsl(split_uri.query, keep_blank_values=True, errors='surrogateescape')
+        query = urlencode(data, errors='surrogateescape')
     else:
         # Python 2 branch
         data = parse_qsl(split_uri.query.encode('utf-8'), keep_blank_values=True)
-    query = urlencode(data)
+        query = urlencode(data)
     _check_disallowed_characters(query, 'query')
 
     # Normalize fragment
-    fragment = quote(unquote(split_uri.fragment.encode('utf-8') if six.PY2 else split_uri.fragment),
-                     safe=str('/?:@' + SUB_DELIMS))
-    if six.PY2:
-        fragment = fragment.decode('utf-8')
+    fragment = split_uri.fragment
+    fragment_safe = '/?:@' + SUB_DELIMS
+    if isinstance(fragment, str):
+        # Python 3 branch
+        fragment = quote(unquote(fragment, errors='surrogateescape'), safe=fragment_safe, errors='surrogateescape')
+    else:
+        # Python 2 branch
+        fragment = quote(unquote(fragment.encode('utf-8')), safe=fragment_safe.encode('utf-8')).decode('utf-8')
     _check_disallowed_characters(fragment, 'fragment')
 
     return urlunsplit((scheme, netloc, path, query, fragment))
-- 
2.43.0


From 12d55211ab9bdadf270c62ae98fa2a61326b343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 14/67] fix: urinorm rejects URIs with a port but no host

---
 openid/urinorm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index cfcb0b0..98adf2f 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -119,6 +119,8 @@ def urinorm(uri):
         userinfo = ':'.join(userinfo_chunks)
         _check_disallowed_characters(userinfo, 'userinfo')
         netloc = userinfo + '@' + netloc
+    elif not hostname:
+        raise ValueError('Not an absolute URI: {!r}'.format(uri))
 
     # Normalize path
     path = split_uri.path
-- 
2.43.0


From 4d564010cdfe725b758413f77dea0d2c0b1997fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 15/67] fix: unusable Diffie-Hellman parameters and public keys
 in associate requests are protocol errors

---
 openid/dh.py            | 11 +++++++++--
 openid/server/server.py |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/openid/dh.py b/openid/dh.py
index 455b2c7..117bc7e 100644
--- a/openid/dh.py
+++ b/openid/dh.py
@@ -5,6 +5,7 @@ import base64
 import warnings
 
 import six
+from cryptography.exceptions import InternalError
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives import hashes
 from cryptography.hazmat.primitives.asymmetric.dh import DHParameterNumbers, DHPublicNumbers
@@ -51,7 +52,10 @@ class DiffieHellman(object):
 
         self.parameter_numbers = DHParameterNumbers(modulus, generator)
         parameters = self.parameter_numbers.parameters(default_backend())
-        self.private_key = parameters.generate_private_key()
+        try:
+            self.private_key = parameters.generate_private_key()
+        except InternalError:
+            raise ValueError("Diffie-Hellman parameters are not valid.")
 
     @classmethod
     def fromDefaults(cls):
@@ -125,7 +129,10 @@ class DiffieHellman(object):
         @rtype: six.binary_type
         """
         public_numbers = DHPublicNumbers(cryptutil.base64ToLong(public_key), self.parameter_numbers)
-        return self.private_key.exchange(public_numbers.public_key(default_backend()))
+        try:
+            return self.private_key.exchange(public_numbers.public_key(default_backend()))
+        except InternalError:
+            raise ValueError("Diffie-Hellman exchange failed.")
 
     def xorSecret(self, composite, secret, hash_func):
         warnings.warn("Method 'xorSecret' is deprecated, use 'xor_secret' instead.", DeprecationWarning)
diff --git a/openid/server/server.py b/openid/server/server.py
index 7afbe1e..f84ffb8 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -388,7 +388,10 @@ class DiffieHellmanSHA1ServerSession(object):
             raise ProtocolError(message, "Public key for DH-SHA1 session "
                                 "not found in message %s" % (message,))
 
-        return cls(dh, consumer_public_key)
+        session = cls(dh, consumer_public_key)
+        # Check the key can be used, so an invalid key is reported as an error in the request
+        dh._get_shared_secret(consumer_public_key)
+        return session
 
     def answer(self, secret):
         if self.hash_func is not None:
-- 
2.43.0


From 0790468ae5ed97645e2ebd90b3e75b0bc503a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:45 +0000
Subject: [PATCH 16/67] fix: invalid namespace aliases in requests are protocol
 errors

---
 openid/message.py       | 14 ++++++++++----
 openid/server/server.py |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/openid/message.py b/openid/message.py
index 554069f..e7a1684 100644
--- a/openid/message.py
+++ b/openid/message.py
@@ -86,6 +86,12 @@ class InvalidNamespace(KeyError):
     """
 
 
+class InvalidNamespaceAlias(InvalidNamespace, AssertionError):
+    """
+    Raised if a namespace alias is not allowed by the specification
+    """
+
+
 # Sentinel used for Message implementation to indicate that getArg
 # should raise an exception instead of returning a default.
 no_default = object()
@@ -601,13 +607,13 @@ class NamespaceMap(object):
         """
         # Check that desired_alias is not an openid protocol field as
         # per the spec.
-        assert desired_alias not in OPENID_PROTOCOL_FIELDS, "%r is not an allowed namespace alias" % (desired_alias,)
+        if desired_alias in OPENID_PROTOCOL_FIELDS:
+            raise InvalidNamespaceAlias("%r is not an allowed namespace alias" % (desired_alias,))
 
         # Check that desired_alias does not contain a period as per
         # the spec.
-        if isinstance(desired_alias, six.string_types):
-            assert '.' not in desired_alias, \
-                   "%r must not contain a dot" % (desired_alias,)
+        if isinstance(desired_alias, six.string_types) and '.' in desired_alias:
+            raise InvalidNamespaceAlias("%r must not contain a dot" % (desired_alias,))
 
         # Check that there is not a namespace already defined for
         # the desired alias
diff --git a/openid/server/server.py b/openid/server/server.py
index f84ffb8..e73e7fa 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1444,7 +1444,7 @@ class Decoder(object):
             # override the bad ns value to build a Message out of it.  Kinda
             # kludgy, since it's made of lies, but the parts that aren't lies
             # are more useful than a 'None'.
-            query = query.copy()
+            query = dict((key, value) for key, value in query.items() if key.count('.') < 2)
             query['openid.ns'] = OPENID2_NS
             message = Message.fromPostArgs(query)
             raise ProtocolError(message, six.text_type(err))
-- 
2.43.0


From ab0f6fea810f3124c5f64f0c8a68460a0490d845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 17/67] fix: trust roots with no host are rejected

---
 openid/server/trustroot.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openid/server/trustroot.py b/openid/server/trustroot.py
index 349032f..8c19c00 100644
--- a/openid/server/trustroot.py
+++ b/openid/server/trustroot.py
@@ -194,6 +194,9 @@ class TrustRoot(object):
 
         proto, host, port, path = url_parts
 
+        if not host:
+            return False
+
         if proto != self.proto:
             return False
 
@@ -254,6 +257,9 @@ class TrustRoot(object):
 
         proto, host, port, path = url_parts
 
+        if not host:
+            return None
+
         # check for URI fragment
         if path.find('#') != -1:
             return None
-- 
2.43.0


From 6d7d6be964847f9195899adce5a299f1c88416a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 18/67] fix: a realm matching any host is not verified by
 return_to discovery

---
 openid/server/trustroot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openid/server/trustroot.py b/openid/server/trustroot.py
index 8c19c00..19f8ca1 100644
--- a/openid/server/trustroot.py
+++ b/openid/server/trustroot.py
@@ -434,6 +434,10 @@ def verifyReturnTo(realm_str, return_to, _vrfy=getAllowedReturnURLs):
         # The realm does not parse as a URL pattern
         return False
 
+    if realm.wildcard and not realm.host:
+        # The realm has no domain to run the discovery on
+        return False
+
     try:
         allowable_urls = _vrfy(realm.buildDiscoveryURL())
     except RealmVerificationRedirected as err:
-- 
2.43.0


From ff4bdb4a0e718f091398a53c561e2f904f0c24b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 19/67] fix: negative answers to immediate requests carry a
 correct setup URL

---
 openid/server/server.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index e73e7fa..f0f8468 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -900,10 +900,7 @@ class CheckIDRequest(OpenIDRequest):
                 setup_request = self.__class__(
                     self.identity, self.return_to, self.trust_root,
                     immediate=False, assoc_handle=self.assoc_handle,
-                    op_endpoint=self.op_endpoint, claimed_id=self.claimed_id)
-
-                # XXX: This API is weird.
-                setup_request.message = self.message
+                    op_endpoint=self.op_endpoint, claimed_id=self.claimed_id, message=self.message)
 
                 setup_url = setup_request.encodeToURL(server_url)
                 response.fields.setArg(OPENID_NS, 'user_setup_url', setup_url)
@@ -928,9 +925,11 @@ class CheckIDRequest(OpenIDRequest):
         # That's right, code imported from alternate realities all for the
         # love of you, id_res/user_setup_url.
         q = {'mode': self.mode,
-             'identity': self.identity,
-             'claimed_id': self.claimed_id,
              'return_to': self.return_to}
+        if self.identity is not None:
+            q['identity'] = self.identity
+        if self.claimed_id is not None:
+            q['claimed_id'] = self.claimed_id
         if self.trust_root:
             if self.message.isOpenID1():
                 q['trust_root'] = self.trust_root
-- 
2.43.0


From 7ece0ab9defd83c4b78f6342e269926783053f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:58 +0000
Subject: [PATCH 20/67] fix: unsupported association type errors are sent with
 the HTTP status of an error

---
 openid/server/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index f0f8468..8edab0a 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1347,7 +1347,7 @@ class Encoder(object):
         encode_as = response.whichEncoding()
         if encode_as == ENCODE_KVFORM:
             wr = self.responseFactory(body=response.encodeToKVForm())
-            if isinstance(response, Exception):
+            if isinstance(response, Exception) or response.fields.hasKey(OPENID_NS, 'error'):
                 wr.code = HTTP_ERROR
         elif encode_as == ENCODE_URL:
             location = response.encodeToURL()
-- 
2.43.0


From 27d33b5462c0507f14b7aec052afa40d2d8c7ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 21/67] fix: responses that can not be represented in KV form
 raise EncodingError

---
 openid/server/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 8edab0a..a481dd8 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1346,7 +1346,11 @@ class Encoder(object):
         """
         encode_as = response.whichEncoding()
         if encode_as == ENCODE_KVFORM:
-            wr = self.responseFactory(body=response.encodeToKVForm())
+            try:
+                body = response.encodeToKVForm()
+            except kvform.KVFormError as err:
+                raise EncodingError(response, explanation=six.text_type(err))
+            wr = self.responseFactory(body=body)
             if isinstance(response, Exception) or response.fields.hasKey(OPENID_NS, 'error'):
                 wr.code = HTTP_ERROR
         elif encode_as == ENCODE_URL:
-- 
2.43.0


From 5b6178f5937bd236814ecacb058c80ff96f1856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 22/67] fix: malformed direct responses from a provider are
 handled as failed requests

---
 openid/consumer/consumer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 275a08a..29d53d2 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -245,7 +245,10 @@ def _httpResponseToMessage(response, server_url):
     @raises ServerError: if the server returned an OpenID error.
     """
     # Should this function be named Message.fromHTTPResponse instead?
-    response_message = Message.fromKVForm(response.body)
+    try:
+        response_message = Message.fromKVForm(response.body)
+    except (ValueError, KeyError) as why:
+        raise fetchers.HTTPFetchingError('malformed response from server %s: %s' % (server_url, six.text_type(why)))
     if response.status == 400:
         raise ServerError.fromMessage(response_message)
 
-- 
2.43.0


From 3e4ff6d465fa28705207b714ace5e021b2434521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:38 +0000
Subject: [PATCH 23/67] fix: a malformed return_to in a response is a failed
 authentication

---
 openid/consumer/consumer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 29d53d2..647b93f 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -686,8 +686,12 @@ class GenericConsumer(object):
 
         # The URL scheme, authority, and path MUST be the same between
         # the two URLs.
-        app_parts = urlparse(urinorm.urinorm(return_to))
-        msg_parts = urlparse(urinorm.urinorm(msg_return_to))
+        try:
+            app_parts = urlparse(urinorm.urinorm(return_to))
+            msg_parts = urlparse(urinorm.urinorm(msg_return_to))
+        except ValueError as why:
+            _LOGGER.warning("Verifying return_to: %s", why)
+            return False
 
         # (addressing scheme, network location, path) must be equal in
         # both URLs.
@@ -859,7 +863,10 @@ class GenericConsumer(object):
         if return_to is None:
             raise ProtocolError('Response has no return_to')
 
-        parsed_url = urlparse(return_to)
+        try:
+            parsed_url = urlparse(return_to)
+        except ValueError as why:
+            raise ProtocolError('Malformed return_to: %s' % six.text_type(why))
         rt_query = parsed_url[4]
         parsed_args = parse_qsl(rt_query, keep_blank_values=True)
 
-- 
2.43.0


From 70e197c10e8d9b407b5644dda1e5c423e5aa9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:41 +0000
Subject: [PATCH 24/67] fix: a response whose signature can not be computed is
 a failed authentication

---
 openid/consumer/consumer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 647b93f..7f27d22 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -809,7 +809,11 @@ class GenericConsumer(object):
                 raise ProtocolError(
                     'Association with %s expired' % (server_url,))
 
-            if not assoc.checkMessageSignature(message):
+            try:
+                valid = assoc.checkMessageSignature(message)
+            except ValueError as why:
+                raise ProtocolError('Bad signature: %s' % six.text_type(why))
+            if not valid:
                 raise ProtocolError('Bad signature')
 
         else:
-- 
2.43.0


From b6042949ca4ba7c2e2bc48e9095e21c31f882249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:45 +0000
Subject: [PATCH 25/67] fix: OpenID 1 responses with the 1.1 namespace are
 processed

---
 openid/consumer/consumer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 7f27d22..6ec1dc4 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -202,7 +202,8 @@ from openid.association import Association, SessionNegotiator, default_negotiato
 from openid.consumer.discover import (OPENID_1_0_TYPE, OPENID_1_1_TYPE, OPENID_2_0_TYPE, DiscoveryFailure,
                                       OpenIDServiceEndpoint, discover)
 from openid.dh import DiffieHellman
-from openid.message import BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, Message, no_default
+from openid.message import (BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, THE_OTHER_OPENID1_NS,
+                            Message, no_default)
 from openid.oidutil import string_to_text
 from openid.store.nonce import mkNonce, split as splitNonce
 from openid.yadis.manager import Discovery
@@ -713,7 +714,7 @@ class GenericConsumer(object):
         # immediate mode by the presence of the user_setup_url
         # parameter.
         if message.isOpenID1():
-            user_setup_url = message.getArg(OPENID1_NS, 'user_setup_url')
+            user_setup_url = message.getArg(OPENID_NS, 'user_setup_url')
             if user_setup_url is not None:
                 raise SetupNeededError(user_setup_url)
 
@@ -837,11 +838,13 @@ class GenericConsumer(object):
         require_fields = {
             OPENID2_NS: basic_fields + ['op_endpoint'],
             OPENID1_NS: basic_fields + ['identity'],
+            THE_OTHER_OPENID1_NS: basic_fields + ['identity'],
         }
 
         require_sigs = {
             OPENID2_NS: basic_sig_fields + ['response_nonce', 'claimed_id', 'assoc_handle', 'op_endpoint'],
             OPENID1_NS: basic_sig_fields,
+            THE_OTHER_OPENID1_NS: basic_sig_fields,
         }
 
         for field in require_fields[message.getOpenIDNamespace()]:
@@ -973,7 +976,7 @@ class GenericConsumer(object):
 
         to_match = OpenIDServiceEndpoint()
         to_match.type_uris = [OPENID_1_1_TYPE]
-        to_match.local_id = resp_msg.getArg(OPENID1_NS, 'identity')
+        to_match.local_id = resp_msg.getArg(OPENID_NS, 'identity')
         # Restore delegate information from the initiation phase
         to_match.claimed_id = claimed_id
 
@@ -1339,7 +1342,7 @@ class GenericConsumer(object):
         """
         # If it's an OpenID 1 message, allow session_type to default
         # to None (which signifies "no-encryption")
-        session_type = assoc_response.getArg(OPENID1_NS, 'session_type')
+        session_type = assoc_response.getArg(OPENID_NS, 'session_type')
 
         # Handle the differences between no-encryption association
         # respones in OpenID 1 and 2:
-- 
2.43.0


From 75c5b5f98978140c3cda038e5ae66e3f3a410fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 26/67] fix: a response that is not a valid OpenID message is a
 failed authentication

---
 openid/consumer/consumer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 6ec1dc4..60b313f 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -203,7 +203,7 @@ from openid.consumer.discover import (OPENID_1_0_TYPE, OPENID_1_1_TYPE, OPENID_2
                                       OpenIDServiceEndpoint, discover)
 from openid.dh import DiffieHellman
 from openid.message import (BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, THE_OTHER_OPENID1_NS,
-                            Message, no_default)
+                            InvalidNamespace, InvalidOpenIDNamespace, Message, no_default)
 from openid.oidutil import string_to_text
 from openid.store.nonce import mkNonce, split as splitNonce
 from openid.yadis.manager import Discovery
@@ -414,8 +414,12 @@ class Consumer(object):
 
         endpoint = self.session.get(self._token_key)
 
-        message = Message.fromPostArgs(query)
-        response = self.consumer.complete(message, endpoint, current_url)
+        try:
+            message = Message.fromPostArgs(query)
+        except (InvalidOpenIDNamespace, InvalidNamespace) as why:
+            response = FailureResponse(endpoint, six.text_type(why))
+        else:
+            response = self.consumer.complete(message, endpoint, current_url)
 
         try:
             del self.session[self._token_key]
-- 
2.43.0


From 4e8838067a126084abd35f9f20efe29a7be54c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:35 +0000
Subject: [PATCH 27/67] fix: Yadis discovery copes with quoted and unknown
 charsets

---
 openid/yadis/discover.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openid/yadis/discover.py b/openid/yadis/discover.py
index c4678a7..328fb1a 100644
--- a/openid/yadis/discover.py
+++ b/openid/yadis/discover.py
@@ -132,13 +132,14 @@ def whereIsYadis(resp):
             content_type = content_type or ''
             encoding = content_type.rsplit(';', 1)
             if len(encoding) == 2 and encoding[1].strip().startswith('charset='):
-                encoding = encoding[1].split('=', 1)[1].strip()
+                encoding = encoding[1].split('=', 1)[1].strip().strip('"\'') or 'UTF-8'
             else:
                 encoding = 'UTF-8'
 
             try:
                 buff = StringIO(resp.body.decode(encoding))
-            except UnicodeError:
+            except (LookupError, ValueError):
+                # Unknown or unusable encoding, LookupError includes unknown encodings and ValueError decoding errors.
                 # Keep encoded version in case yadis location can be found before encoding shut this up.
                 # Possible errors will be caught lower.
                 buff = BytesIO(resp.body)
-- 
2.43.0


From 66dfd9ef3d90b9634443a62cf2d518f11e289199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:08 +0000
Subject: [PATCH 28/67] fix: Urllib2Fetcher provides case insensitive response
 headers

---
 openid/fetchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 8a10993..42ba4d5 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -243,7 +243,7 @@ class Urllib2Fetcher(HTTPFetcher):
         resp = HTTPResponse()
         resp.body = urllib_response.read(MAX_RESPONSE_KB * 1024)
         resp.final_url = urllib_response.geturl()
-        resp.headers = dict(urllib_response.info().items())
+        resp.headers = urllib_response.info()
 
         if hasattr(urllib_response, 'code'):
             resp.status = urllib_response.code
-- 
2.43.0


From 3be1a9bfa827d1c9738d703feb920970b0d4edaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:11 +0000
Subject: [PATCH 29/67] fix: fetchers send a POST request for an empty body

---
 openid/fetchers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 42ba4d5..3f0c705 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -423,7 +423,7 @@ class HTTPLib2Fetcher(HTTPFetcher):
         """
         assert body is None or isinstance(body, six.binary_type)
 
-        if body:
+        if body is not None:
             method = 'POST'
         else:
             method = 'GET'
@@ -475,7 +475,7 @@ class RequestsFetcher(HTTPFetcher):
         """
         assert body is None or isinstance(body, six.binary_type)
 
-        if body:
+        if body is not None:
             method = 'POST'
         else:
             method = 'GET'
-- 
2.43.0


From 33ac1337b1be2ba5fac53c2e28c4f721cc512c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:14 +0000
Subject: [PATCH 30/67] fix: malformed canonical IDs and service types in XRDS
 documents are handled

---
 openid/yadis/etxrd.py | 10 +++++-----
 openid/yadis/xri.py   |  6 ++----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/openid/yadis/etxrd.py b/openid/yadis/etxrd.py
index 9e97e4c..9e73f0f 100644
--- a/openid/yadis/etxrd.py
+++ b/openid/yadis/etxrd.py
@@ -171,16 +171,16 @@ def getCanonicalID(iname, xrd_tree):
     xrd_list.reverse()
 
     try:
-        canonicalID = xri.XRI(xrd_list[0].findall(canonicalID_tag)[0].text)
+        canonicalID = xri.XRI(xrd_list[0].findall(canonicalID_tag)[0].text or '')
     except IndexError:
         return None
 
     childID = canonicalID.lower()
 
     for xrd in xrd_list[1:]:
-        # XXX: can't use rsplit until we require python >= 2.4.
-        parent_sought = childID[:childID.rindex('!')]
-        parent = xri.XRI(xrd.findtext(canonicalID_tag))
+        # An ID without a '!' has no parent and therefore is not delegated by any.
+        parent_sought = childID.rpartition('!')[0]
+        parent = xri.XRI(xrd.findtext(canonicalID_tag) or '')
         if parent_sought != parent.lower():
             raise XRDSFraud("%r can not come from %s" % (childID, parent))
 
@@ -273,7 +273,7 @@ def getTypeURIs(service_element):
     """
     output = []
     for type_element in service_element.findall(type_tag):
-        type_uri = type_element.text
+        type_uri = type_element.text or ''
         # Attribute `text` returns str in both python 2 and 3, convert to text_type in 2.7
         if not isinstance(type_uri, six.text_type):
             type_uri = type_uri.decode('utf-8')
diff --git a/openid/yadis/xri.py b/openid/yadis/xri.py
index 4712c6d..32fb6fc 100644
--- a/openid/yadis/xri.py
+++ b/openid/yadis/xri.py
@@ -84,10 +84,8 @@ def providerIsAuthoritative(providerID, canonicalID):
 
     @returntype: bool
     """
-    # XXX: can't use rsplit until we require python >= 2.4.
-    lastbang = canonicalID.rindex('!')
-    parent = canonicalID[:lastbang]
-    return parent == providerID
+    parent, bang, _ = canonicalID.rpartition('!')
+    return bool(bang) and parent == providerID
 
 
 def rootAuthority(xri):
-- 
2.43.0


From 9fa94762ad0ac26831ff0f84254ea895584b5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:37 +0000
Subject: [PATCH 31/67] fix: attribute exchange responses without signed data
 or with a store result are processed

---
 openid/extensions/ax.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index e6ccaf2..c2f55c8 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -699,6 +699,8 @@ class FetchResponse(AXKeyValueMessage):
         """
         self = cls()
         ax_args = success_response.extensionResponse(self.ns_uri, signed)
+        if ax_args is None:
+            return None
 
         try:
             self.parseExtensionArgs(ax_args)
@@ -792,6 +794,16 @@ class StoreResponse(AXMessage):
 
         return ax_args
 
+    def parseExtensionArgs(self, ax_args):
+        """@see: {Extension.parseExtensionArgs<openid.extension.Extension.parseExtensionArgs>}"""
+        mode = ax_args.get('mode')
+        if not mode:
+            raise NotAXMessage()
+        if mode not in (self.SUCCESS_MODE, self.FAILURE_MODE):
+            raise AXError('Expected mode %r or %r; got %r' % (self.SUCCESS_MODE, self.FAILURE_MODE, mode))
+        self.mode = mode
+        self.error_message = None if self.succeeded() else ax_args.get('error')
+
     @classmethod
     def fromSuccessResponse(cls, success_response, signed=True):
         """Construct a StoreResponse object from an OpenID library
@@ -813,6 +825,8 @@ class StoreResponse(AXMessage):
         """
         self = cls()
         ax_args = success_response.extensionResponse(self.ns_uri, signed)
+        if ax_args is None:
+            return None
 
         try:
             self.parseExtensionArgs(ax_args)
-- 
2.43.0


From 2c172ccf627194499ad30afbeeb7026d68fc62cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:40 +0000
Subject: [PATCH 32/67] fix: attribute exchange fetch requests are sent with
 their update URL

---
 openid/extensions/ax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index c2f55c8..273249a 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -261,6 +261,9 @@ class FetchRequest(AXMessage):
         if if_available:
             ax_args['if_available'] = ','.join(if_available)
 
+        if self.update_url:
+            ax_args['update_url'] = self.update_url
+
         return ax_args
 
     def getRequiredAttrs(self):
-- 
2.43.0


From 53616f06095308f56bb03126efcdb2e614dd1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:44 +0000
Subject: [PATCH 33/67] fix: PAPE messages can bind the default auth level
 aliases to other types

---
 openid/extensions/pape.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openid/extensions/pape.py b/openid/extensions/pape.py
index b2543fa..6ac817e 100644
--- a/openid/extensions/pape.py
+++ b/openid/extensions/pape.py
@@ -250,6 +250,8 @@ class Request(PAPEExtension):
                         raise ValueError('preferred auth level %r is not '
                                          'defined in this message' % (alias,))
                 else:
+                    # Aliases are local to the message
+                    self.auth_level_aliases[alias] = uri
                     self.addAuthLevel(uri, alias)
 
     def preferredTypes(self, supported_types):
@@ -439,6 +441,8 @@ class Response(PAPEExtension):
                         raise ValueError(
                             'Undefined auth level alias: %r' % (alias,))
                 else:
+                    # Aliases are local to the message
+                    self.auth_level_aliases[alias] = uri
                     self.setAuthLevel(uri, val, alias)
 
         auth_time = args.get('auth_time')
-- 
2.43.0


From 6f4628fe735449f968cdac4ab698614d78e86ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:47 +0000
Subject: [PATCH 34/67] fix: no PAPE response is made of a response without
 PAPE arguments

---
 openid/extensions/pape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/extensions/pape.py b/openid/extensions/pape.py
index 6ac817e..1e2f0f0 100644
--- a/openid/extensions/pape.py
+++ b/openid/extensions/pape.py
@@ -377,7 +377,7 @@ class Response(PAPEExtension):
 
         # Only try to construct a PAPE response if the arguments were
         # signed in the OpenID response.  If not, return None.
-        if args is not None:
+        if args:
             self.parseExtensionArgs(args, is_openid1)
             return self
         else:
-- 
2.43.0


From 87c8b65433301c69d1f1c58b5695d120b8c96002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:51 +0000
Subject: [PATCH 35/67] fix: query arguments are added to URLs in front of the
 fragment

---
 openid/oidutil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openid/oidutil.py b/openid/oidutil.py
index 884d38f..f1d06d6 100644
--- a/openid/oidutil.py
+++ b/openid/oidutil.py
@@ -86,6 +86,8 @@ def appendArgs(url, args):
     if len(args) == 0:
         return url
 
+    url, hash_mark, fragment = url.partition('#')
+
     if '?' in url:
         sep = '&'
     else:
@@ -102,7 +104,7 @@ def appendArgs(url, args):
     # `urlencode` returns `str` in both py27 and py3+. We need to convert it to six.text_type.
     if not isinstance(encoded_args, six.text_type):
         encoded_args = encoded_args.decode('utf-8')
-    return '%s%s%s' % (url, sep, encoded_args)
+    return '%s%s%s%s%s' % (url, sep, encoded_args, hash_mark, fragment)
 
 
 def toBase64(s):
-- 
2.43.0


From 089b5d3d7425d58488b8837d57b048b429c0b359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:55 +0000
Subject: [PATCH 36/67] fix: malformed XRIs have a root authority

---
 openid/yadis/xri.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openid/yadis/xri.py b/openid/yadis/xri.py
index 32fb6fc..58987c8 100644
--- a/openid/yadis/xri.py
+++ b/openid/yadis/xri.py
@@ -101,14 +101,14 @@ def rootAuthority(xri):
     if xri.startswith('xri://'):
         xri = xri[6:]
     authority = xri.split('/', 1)[0]
-    if authority[0] == '(':
+    if authority.startswith('('):
         # Cross-reference.
         # XXX: This is incorrect if someone nests cross-references so there
         #   is another close-paren in there.  Hopefully nobody does that
         #   before we have a real xriparse function.  Hopefully nobody does
         #   that *ever*.
-        root = authority[:authority.index(')') + 1]
-    elif authority[0] in XRI_AUTHORITIES:
+        root = ''.join(authority.partition(')')[:2])
+    elif authority[:1] in XRI_AUTHORITIES:
         # Other XRI reference.
         root = authority[0]
     else:
-- 
2.43.0


From d463e5a80bf70ff6d88dcd445715f163089deadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:05 +0000
Subject: [PATCH 37/67] fix: FileOpenIDStore accepts any server URL and treats
 an empty handle as a handle

---
 openid/store/filestore.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index c80d957..61994ee 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -41,6 +41,17 @@ def _filenameEscape(s):
     return ''.join(filename_chunks)
 
 
+def _splitProto(server_url):
+    """Split a server URL to its protocol and the rest.
+
+    The protocol is empty if there is none in the URL.
+    """
+    if '://' not in server_url:
+        return '', server_url
+    proto, rest = server_url.split('://', 1)
+    return proto, rest
+
+
 def _urlFilenamePart(proto, rest):
     """Make the human readable part of a file name out of the scheme and the rest of a URL.
 
@@ -168,10 +179,7 @@ class FileOpenIDStore(OpenIDStore):
         server_url = string_to_text(server_url, "Binary values for server_url are deprecated. Use text input instead.")
         handle = string_to_text(handle, "Binary values for handle are deprecated. Use text input instead.")
 
-        if server_url.find('://') == -1:
-            raise ValueError('Bad server URL: %r' % server_url)
-
-        proto, rest = server_url.split('://', 1)
+        proto, rest = _splitProto(server_url)
         url_hash = _safe64(server_url)
         if handle:
             handle_hash = _safe64(handle)
@@ -236,14 +244,11 @@ class FileOpenIDStore(OpenIDStore):
         if handle is not None:
             handle = string_to_text(handle, "Binary values for handle are deprecated. Use text input instead.")
 
-        if handle is None:
-            handle = ''
-
         # The filename with the empty handle is a prefix of all other
         # associations for the given server URL.
-        filename = self.getAssociationFilename(server_url, handle)
+        filename = self.getAssociationFilename(server_url, handle or '')
 
-        if handle:
+        if handle is not None:
             return self._getAssociation(filename)
         else:
             association_files = os.listdir(self.association_dir)
@@ -326,12 +331,9 @@ class FileOpenIDStore(OpenIDStore):
         if abs(timestamp - time.time()) > nonce.SKEW:
             return False
 
-        if server_url:
-            proto, rest = server_url.split('://', 1)
-        else:
-            # Create empty proto / rest values for empty server_url,
-            # which is part of a consumer-generated nonce.
-            proto, rest = '', ''
+        # The proto is empty for an empty server_url, which is part of a
+        # consumer-generated nonce.
+        proto, rest = _splitProto(server_url)
 
         url_hash = _safe64(server_url)
         salt_hash = _safe64(salt)
-- 
2.43.0


From c2ad7fce5aea20dc11fc28d6a0077fdd920246d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:09 +0000
Subject: [PATCH 38/67] fix: failed discovery of an asserted identifier is a
 failed authentication

---
 openid/consumer/consumer.py | 10 ++++++++--
 openid/consumer/discover.py |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 60b313f..cd06c0f 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1026,7 +1026,10 @@ class GenericConsumer(object):
 
         # Fragments do not influence discovery, so we can't compare a
         # claimed identifier with a fragment to discovered information.
-        defragged_claimed_id, _ = urldefrag(to_match.claimed_id)
+        try:
+            defragged_claimed_id, _ = urldefrag(to_match.claimed_id)
+        except ValueError as why:
+            raise ProtocolError('Malformed claimed ID: %s' % six.text_type(why))
         if defragged_claimed_id != endpoint.claimed_id:
             raise ProtocolError(
                 'Claimed ID does not match (different subjects!), '
@@ -1069,7 +1072,10 @@ class GenericConsumer(object):
         @raises DiscoveryFailure: when discovery fails.
         """
         _LOGGER.info('Performing discovery on %s', claimed_id)
-        _, services = self._discover(claimed_id)
+        try:
+            _, services = self._discover(claimed_id)
+        except fetchers.HTTPFetchingError as why:
+            raise DiscoveryFailure('Error fetching XRDS document: %s' % six.text_type(why), None)
         if not services:
             raise DiscoveryFailure('No OpenID information found at %s' %
                                    (claimed_id,), None)
diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index 8689bf7..47a1b81 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -449,7 +449,10 @@ def discoverNoYadis(uri):
 
 
 def discoverURI(uri):
-    parsed = urlparse(uri)
+    try:
+        parsed = urlparse(uri)
+    except ValueError as why:
+        raise DiscoveryFailure('Malformed identifier: %s' % six.text_type(why), None)
     if parsed[0] and parsed[1]:
         if parsed[0] not in ['http', 'https']:
             raise DiscoveryFailure('URI scheme is not HTTP or HTTPS', None)
-- 
2.43.0


From a06a62dcaa231b693e4f5322bf305d77b829bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:43 +0000
Subject: [PATCH 39/67] fix: FileOpenIDStore forces an association to disk
 before it is put in place

---
 openid/store/filestore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index 61994ee..4201426 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -204,6 +204,7 @@ class FileOpenIDStore(OpenIDStore):
         try:
             try:
                 tmp_file.write(association_s.encode('utf-8'))
+                tmp_file.flush()
                 os.fsync(tmp_file.fileno())
             finally:
                 tmp_file.close()
-- 
2.43.0


From 59c6bd759717e02a3cc8d961937e63253eb588cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:53 +0000
Subject: [PATCH 40/67] fix: Fall back to HTML discovery for XRDS with content
 type parameters

An XRDS document without OpenID services served as
'application/xrds+xml; charset=utf-8' was itself parsed as HTML instead of
retrieving the HTML page.
---
 openid/yadis/discover.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openid/yadis/discover.py b/openid/yadis/discover.py
index 328fb1a..e69c246 100644
--- a/openid/yadis/discover.py
+++ b/openid/yadis/discover.py
@@ -52,7 +52,12 @@ class DiscoveryResult(object):
 
     def isXRDS(self):
         """Is the response text supposed to be an XRDS document?"""
-        return (self.usedYadisLocation() or self.content_type == YADIS_CONTENT_TYPE)
+        return self.usedYadisLocation() or _isYadisContentType(self.content_type)
+
+
+def _isYadisContentType(content_type):
+    """Is the value of the content type header that of an XRDS document?"""
+    return bool(content_type) and content_type.split(';', 1)[0].strip().lower() == YADIS_CONTENT_TYPE
 
 
 def discover(uri):
@@ -115,7 +120,7 @@ def whereIsYadis(resp):
 
     # According to the spec, the content-type header must be an exact
     # match, or else we have to look for an indirection.
-    if content_type and content_type.split(';', 1)[0].lower() == YADIS_CONTENT_TYPE:
+    if _isYadisContentType(content_type):
         return resp.final_url
     else:
         # Try the header
-- 
2.43.0


From b7b69d869e233e956d3e4365792650c4fe949004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:06 +0000
Subject: [PATCH 41/67] fix: Discovered services carry the normalized claimed
 identifier

After a redirect, the services kept the final URL as it was spelled by the
server (including its fragment), while the identifier returned with them was
normalized. A later verification of the assertion normalizes the identifier,
so that such services never matched.
---
 openid/consumer/discover.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index 47a1b81..7b078ee 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -460,8 +460,11 @@ def discoverURI(uri):
         uri = 'http://' + uri
 
     uri = normalizeURL(uri)
-    claimed_id, openid_services = discoverYadis(uri)
-    claimed_id = normalizeURL(claimed_id)
+    final_url, openid_services = discoverYadis(uri)
+    claimed_id = normalizeURL(final_url)
+    for service in openid_services:
+        if service.claimed_id == final_url:
+            service.claimed_id = claimed_id
     return claimed_id, openid_services
 
 
-- 
2.43.0


From 58c35efe1b8f566d11163352ae7e329a93f2297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:28 +0000
Subject: [PATCH 42/67] fix: Ignore empty local identifiers in HTML discovery

A page with <link rel="openid.delegate" href=""> gave a service without any
identity, for which no authentication request could be built.
---
 openid/consumer/discover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index 7b078ee..f416dfc 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -175,7 +175,7 @@ class OpenIDServiceEndpoint(object):
             local_id_links = parsed_html.xpath(LINK_REL_XPATH.format(local_id_rel))
             local_id = None
             if local_id_links:
-                local_id = local_id_links[0].get('href')
+                local_id = local_id_links[0].get('href') or None
 
             service = cls()
             service.claimed_id = uri
-- 
2.43.0


From e5b5773f5313a1becc3b4ce4f34f81de270d5a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:52 +0000
Subject: [PATCH 43/67] fix: Root authority of XRIs with a slash in the leading
 cross-reference

The root of xri://(http://example.com/x)*y was taken to be '(http:'.
---
 openid/yadis/xri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/yadis/xri.py b/openid/yadis/xri.py
index 58987c8..6c7683d 100644
--- a/openid/yadis/xri.py
+++ b/openid/yadis/xri.py
@@ -107,7 +107,7 @@ def rootAuthority(xri):
         #   is another close-paren in there.  Hopefully nobody does that
         #   before we have a real xriparse function.  Hopefully nobody does
         #   that *ever*.
-        root = ''.join(authority.partition(')')[:2])
+        root = ''.join(xri.partition(')')[:2])
     elif authority[:1] in XRI_AUTHORITIES:
         # Other XRI reference.
         root = authority[0]
-- 
2.43.0


From b487eb4d2908f1274781870ae041a90f160aedc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:44 +0000
Subject: [PATCH 44/67] fix: Do not attribute services of one CanonicalID to
 another

The proxy resolver is asked once per service type. When the answers carried
different CanonicalIDs (or none), all the services found were attributed to the
one seen last.
---
 openid/yadis/xrires.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openid/yadis/xrires.py b/openid/yadis/xrires.py
index 0eb04d7..74441bb 100644
--- a/openid/yadis/xrires.py
+++ b/openid/yadis/xrires.py
@@ -81,6 +81,7 @@ class ProxyResolver(object):
         # XRDS for each.
 
         canonicalID = None
+        found = False
 
         for service_type in service_types:
             url = self.queryURL(xri, service_type)
@@ -90,7 +91,11 @@ class ProxyResolver(object):
                 # print("response not OK:", response)
                 continue
             et = etxrd.parseXRDS(response.body)
-            canonicalID = etxrd.getCanonicalID(xri, et)
+            this_id = etxrd.getCanonicalID(xri, et)
+            if found and this_id != canonicalID:
+                raise etxrd.XRDSError('CanonicalIDs %r and %r found for %r' % (canonicalID, this_id, xri))
+            canonicalID = this_id
+            found = True
             some_services = list(iterServices(et))
             services.extend(some_services)
         # TODO:
-- 
2.43.0


From b1e58fee0223a01fe47835f37ec12df702de856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:10 +0000
Subject: [PATCH 45/67] fix: Compare path parameters of the return_to URL

---
 openid/consumer/consumer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index cd06c0f..a95e841 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -698,9 +698,9 @@ class GenericConsumer(object):
             _LOGGER.warning("Verifying return_to: %s", why)
             return False
 
-        # (addressing scheme, network location, path) must be equal in
-        # both URLs.
-        for part in range(0, 3):
+        # (addressing scheme, network location, path, path parameters) must be
+        # equal in both URLs.
+        for part in range(0, 4):
             if app_parts[part] != msg_parts[part]:
                 return False
 
-- 
2.43.0


From dcb1dbb160201b08ab5921e04f559f72fea16b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:22 +0000
Subject: [PATCH 46/67] fix: Refuse OpenID 1 responses without claimed
 identifier

A session in which a login with a provider identifier was begun has an
endpoint without claimed identifier. An OpenID 1 response to it without
claimed identifier raised AttributeError in the discovery.
---
 openid/consumer/consumer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index a95e841..577a370 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -977,6 +977,8 @@ class GenericConsumer(object):
                 'as the argument to complete()')
         elif endpoint is not None and claimed_id is None:
             claimed_id = endpoint.claimed_id
+            if claimed_id is None:
+                raise ProtocolError('No claimed identifier to verify the response for')
 
         to_match = OpenIDServiceEndpoint()
         to_match.type_uris = [OPENID_1_1_TYPE]
-- 
2.43.0


From 01e02ee00a3ed78d0b2eee6c934348938728df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:44 +0000
Subject: [PATCH 47/67] fix: Send OpenID 2 requests without return_to

---
 openid/consumer/consumer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 577a370..cd29f82 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1584,8 +1584,9 @@ class AuthRequest(object):
         else:
             realm_key = 'realm'
 
-        message.updateArgs(OPENID_NS,
-                           {realm_key: realm, 'mode': mode, 'return_to': return_to})
+        message.updateArgs(OPENID_NS, {realm_key: realm, 'mode': mode})
+        if return_to:
+            message.setArg(OPENID_NS, 'return_to', return_to)
 
         if not self._anonymous:
             if self.endpoint.isOPIdentifier():
-- 
2.43.0


From 70244b5860aeaae2331d472b32d9d690b1d47a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:54 +0000
Subject: [PATCH 48/67] fix: Resolve relative redirects in CurlHTTPFetcher

---
 openid/fetchers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 3f0c705..d579d9a 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -7,6 +7,7 @@ import time
 import six
 from six import BytesIO
 from six.moves.urllib.error import HTTPError as UrllibHTTPError
+from six.moves.urllib.parse import urljoin
 from six.moves.urllib.request import Request, urlopen
 
 import openid
@@ -364,10 +365,11 @@ class CurlHTTPFetcher(HTTPFetcher):
                 response_headers = self._parseHeaders(response_header_data)
                 code = c.getinfo(pycurl.RESPONSE_CODE)
                 if code in [301, 302, 303, 307]:
-                    url = response_headers.get('location')
-                    if url is None:
+                    location = response_headers.get('location')
+                    if location is None:
                         raise HTTPError(
                             'Redirect (%s) returned without a location' % code)
+                    url = urljoin(url, location)
 
                     # Redirects are always GETs
                     c.setopt(pycurl.POST, 0)
-- 
2.43.0


From 181e505032c09d677dfae3179b259b0430789d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 49/67] fix: Refuse redirects to other schemes in
 Urllib2Fetcher

---
 openid/fetchers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index d579d9a..23603ff 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -242,8 +242,10 @@ class Urllib2Fetcher(HTTPFetcher):
 
     def _makeResponse(self, urllib_response):
         resp = HTTPResponse()
-        resp.body = urllib_response.read(MAX_RESPONSE_KB * 1024)
         resp.final_url = urllib_response.geturl()
+        if not _allowedURL(resp.final_url):
+            raise ValueError('Bad URL scheme: %r' % (resp.final_url,))
+        resp.body = urllib_response.read(MAX_RESPONSE_KB * 1024)
         resp.headers = urllib_response.info()
 
         if hasattr(urllib_response, 'code'):
-- 
2.43.0


From 5e08f881821d903ef538da379a9c8c167f05bbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 50/67] fix: Do not let Content-Location set the final URL in
 HTTPLib2Fetcher

---
 openid/fetchers.py | 61 +++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 23603ff..30b7d52 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -418,6 +418,11 @@ class HTTPLib2Fetcher(HTTPFetcher):
         # the other fetchers.
         self.httplib2.force_exception_to_status_code = False
 
+        # Redirects are followed here, because httplib2 doesn't tell what URL
+        # the response comes from. Its content-location header may be sent by
+        # the server, and may name any URL.
+        self.httplib2.follow_redirects = False
+
     def fetch(self, url, body=None, headers=None):
         """Perform an HTTP request
 
@@ -435,36 +440,32 @@ class HTTPLib2Fetcher(HTTPFetcher):
         if headers is None:
             headers = {}
 
-        # httplib2 doesn't check to make sure that the URL's scheme is
-        # 'http' so we do it here.
-        if not (url.startswith('http://') or url.startswith('https://')):
-            raise ValueError('URL is not a HTTP URL: %r' % (url,))
-
-        httplib2_response, content = self.httplib2.request(
-            url, method, body=body, headers=headers)
-
-        # Translate the httplib2 response to our HTTP response abstraction
-
-        # When a 400 is returned, there is no "content-location"
-        # header set. This seems like a bug to me. I can't think of a
-        # case where we really care about the final URL when it is an
-        # error response, but being careful about it can't hurt.
-        try:
-            final_url = httplib2_response['content-location']
-        except KeyError:
-            # We're assuming that no redirects occurred
-            assert not httplib2_response.previous
-
-            # And this should never happen for a successful response
-            assert httplib2_response.status != 200
-            final_url = url
-
-        return HTTPResponse(
-            body=content,
-            final_url=final_url,
-            headers=dict(httplib2_response.items()),
-            status=httplib2_response.status,
-        )
+        for unused in range(httplib2.DEFAULT_MAX_REDIRECTS + 1):
+            # httplib2 doesn't check to make sure that the URL's scheme is
+            # 'http' so we do it here.
+            if not (url.startswith('http://') or url.startswith('https://')):
+                raise ValueError('URL is not a HTTP URL: %r' % (url,))
+
+            httplib2_response, content = self.httplib2.request(
+                url, method, body=body, headers=headers)
+
+            if httplib2_response.status not in (301, 302, 303, 307, 308):
+                # Translate the httplib2 response to our HTTP response abstraction
+                return HTTPResponse(
+                    body=content,
+                    final_url=url,
+                    headers=dict(httplib2_response.items()),
+                    status=httplib2_response.status,
+                )
+
+            if 'location' not in httplib2_response:
+                raise HTTPError('Redirect (%s) returned without a location' % httplib2_response.status)
+            url = urljoin(url, httplib2_response['location'])
+            if httplib2_response.status not in (307, 308):
+                method = 'GET'
+                body = None
+
+        raise HTTPError('Too many redirects fetching: %r' % (url,))
 
 
 class RequestsFetcher(HTTPFetcher):
-- 
2.43.0


From 6e8be21af685001ba865d268b2a3fae0ff7d554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 51/67] fix: Send the form content type with POST requests in
 all fetchers

---
 openid/fetchers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 30b7d52..464259b 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -179,6 +179,14 @@ def _allowedURL(url):
     return url.startswith('http://') or url.startswith('https://')
 
 
+def _postHeaders(headers):
+    """Return copy of the headers for a POST request, with the content type set."""
+    headers = dict(headers or {})
+    if 'content-type' not in [name.lower() for name in headers]:
+        headers['Content-Type'] = 'application/x-www-form-urlencoded'
+    return headers
+
+
 class HTTPFetchingError(Exception):
     """Exception that is wrapped around all exceptions that are raised
     by the underlying fetcher when using the ExceptionWrappingFetcher
@@ -434,6 +442,7 @@ class HTTPLib2Fetcher(HTTPFetcher):
 
         if body is not None:
             method = 'POST'
+            headers = _postHeaders(headers)
         else:
             method = 'GET'
 
@@ -482,6 +491,7 @@ class RequestsFetcher(HTTPFetcher):
 
         if body is not None:
             method = 'POST'
+            headers = _postHeaders(headers)
         else:
             method = 'GET'
         response = requests.request(method, url, data=body, headers=headers)
-- 
2.43.0


From f4cc4e56f454af81648efe755be0b1a50df08358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:13 +0000
Subject: [PATCH 52/67] fix: roll back when the commit of an SQL store
 operation fails

---
 openid/store/sqlstore.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index a7c3683..9498225 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -185,11 +185,10 @@ class SQLStore(OpenIDStore):
             finally:
                 self.cur.close()
                 self.cur = None
+            self.conn.commit()
         except Exception:
             self.conn.rollback()
             raise
-        else:
-            self.conn.commit()
 
         return ret
 
-- 
2.43.0


From 9fc1d9ec73be47a533f4ef595d1f6a6a9b5e09e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:29 +0000
Subject: [PATCH 53/67] fix: store the association in PostgreSQL when its
 expired predecessor is cleaned up meanwhile

---
 openid/store/sqlstore.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 9498225..ee2902c 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -505,13 +505,13 @@ class PostgreSQLStore(SQLStore):
         rows = self.cur.fetchall()
         if len(rows):
             # Update the table since this associations already exists.
-            return self.db_update_assoc(secret, issued, lifetime, assoc_type,
-                                        server_url, handle)
-        else:
+            self.db_update_assoc(secret, issued, lifetime, assoc_type,
+                                 server_url, handle)
+        if not rows or self.cur.rowcount == 0:
             # Insert a new record because this association wasn't
-            # found.
-            return self.db_new_assoc(server_url, handle, secret, issued,
-                                     lifetime, assoc_type)
+            # found, or somebody has removed it since.
+            self.db_new_assoc(server_url, handle, secret, issued,
+                              lifetime, assoc_type)
 
     new_assoc_sql = ('INSERT INTO %(associations)s '
                      'VALUES (%%s, %%s, %%s, %%s, %%s, %%s);')
-- 
2.43.0


From f513258dce02e060ab7ba2d12d0e09e34e5f4891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:25 +0000
Subject: [PATCH 54/67] fix: accept byte strings as documented in
 Message.getArg and generateAcceptHeader on Python 3

---
 openid/message.py      | 2 +-
 openid/yadis/accept.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/message.py b/openid/message.py
index e7a1684..ce09b3e 100644
--- a/openid/message.py
+++ b/openid/message.py
@@ -478,7 +478,7 @@ class Message(object):
         @raises UndefinedOpenIDNamespace: if the message has not yet
             had an OpenID namespace set
         """
-        if isinstance(namespace, six.string_types):
+        if isinstance(namespace, (six.text_type, six.binary_type)):
             namespace = string_to_text(namespace, "Binary values for namespace are deprecated. Use text input instead.")
         key = string_to_text(key, "Binary values for key are deprecated. Use text input instead.")
         namespace = self._fixNS(namespace)
diff --git a/openid/yadis/accept.py b/openid/yadis/accept.py
index faccffa..6f833ae 100644
--- a/openid/yadis/accept.py
+++ b/openid/yadis/accept.py
@@ -15,7 +15,7 @@ def generateAcceptHeader(*elements):
     """
     parts = []
     for element in elements:
-        if isinstance(element, six.string_types):
+        if isinstance(element, (six.text_type, six.binary_type)):
             qs = "1.0"
             mtype = string_to_text(element,
                                    "Binary values for generateAcceptHeader are deprecated. Use text input instead.")
-- 
2.43.0


From 6546b796c75ec549807761e7d88e2b26819f39c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:25 +0000
Subject: [PATCH 55/67] fix: make the service manager an iterator on Python 3

---
 openid/yadis/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/yadis/manager.py b/openid/yadis/manager.py
index 4da7c64..688f3d5 100644
--- a/openid/yadis/manager.py
+++ b/openid/yadis/manager.py
@@ -39,6 +39,9 @@ class YadisServiceManager(object):
         else:
             return self._current
 
+    def __next__(self):
+        return self.next()
+
     def current(self):
         """Return the current service.
 
-- 
2.43.0


From aedad18eb6e264dff3b660830ee058a8119878dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 56/67] fix: refuse an OpenID 2 association of another type
 than the one asked for

---
 openid/consumer/consumer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index cd29f82..a769762 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1288,6 +1288,10 @@ class GenericConsumer(object):
             _LOGGER.exception('Protocol error parsing response from %s: %s', endpoint.server_url, why)
             return None
         else:
+            if response.isOpenID2() and assoc.assoc_type != assoc_type:
+                _LOGGER.warning('Server %s answered with association type %s instead of %s', endpoint.server_url,
+                                assoc.assoc_type, assoc_type)
+                return None
             return assoc
 
     def _createAssociateRequest(self, endpoint, assoc_type, session_type):
-- 
2.43.0


From a6671a8a97ff6abc2a52878aed4338ea89813083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 57/67] fix: let an extension be added twice to an OpenID 1
 message

---
 openid/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/message.py b/openid/message.py
index ce09b3e..d39b0af 100644
--- a/openid/message.py
+++ b/openid/message.py
@@ -639,10 +639,10 @@ class NamespaceMap(object):
             raise InvalidNamespace(fmt % (namespace_uri, desired_alias, alias))
 
         assert (desired_alias == NULL_NAMESPACE or isinstance(desired_alias, six.string_types)), repr(desired_alias)
-        assert namespace_uri not in self.implicit_namespaces
+        assert implicit or namespace_uri not in self.implicit_namespaces
         self.alias_to_namespace[desired_alias] = namespace_uri
         self.namespace_to_alias[namespace_uri] = desired_alias
-        if implicit:
+        if implicit and namespace_uri not in self.implicit_namespaces:
             self.implicit_namespaces.append(namespace_uri)
         return desired_alias
 
-- 
2.43.0


From 3ccc87c24b25fb1e4651f8ebcb1fb77d55a5c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 58/67] fix: copy the lists of policies given to PAPE messages

---
 openid/extensions/pape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/extensions/pape.py b/openid/extensions/pape.py
index 1e2f0f0..49436b2 100644
--- a/openid/extensions/pape.py
+++ b/openid/extensions/pape.py
@@ -122,7 +122,7 @@ class Request(PAPEExtension):
         if preferred_auth_policies is None:
             preferred_auth_policies = []
 
-        self.preferred_auth_policies = preferred_auth_policies
+        self.preferred_auth_policies = list(preferred_auth_policies)
         self.max_auth_age = max_auth_age
         self.preferred_auth_level_types = []
 
@@ -290,7 +290,7 @@ class Response(PAPEExtension):
                  auth_levels=None):
         super(Response, self).__init__()
         if auth_policies:
-            self.auth_policies = auth_policies
+            self.auth_policies = list(auth_policies)
         else:
             self.auth_policies = []
 
-- 
2.43.0


From f0dc3c99f87db723ff0fb967553f717395cb30d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 59/67] fix: let threads share a memory store

---
 openid/store/memstore.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index c6cf0bb..7780720 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -34,7 +34,7 @@ class ServerAssocs(object):
         or None if there are no such associations.
         """
         best = None
-        for assoc in self.assocs.values():
+        for assoc in list(self.assocs.values()):
             if assoc.getExpiresIn() == 0:
                 continue
             if best is None or best.issued < assoc.issued:
@@ -47,11 +47,11 @@ class ServerAssocs(object):
         @return: tuple of (removed associations, remaining associations)
         """
         remove = []
-        for handle, assoc in six.iteritems(self.assocs):
+        for handle, assoc in list(self.assocs.items()):
             if assoc.getExpiresIn() == 0:
                 remove.append(handle)
         for handle in remove:
-            del self.assocs[handle]
+            self.assocs.pop(handle, None)
         return len(remove), len(self.assocs)
 
 
@@ -69,8 +69,7 @@ class MemoryStore(OpenIDStore):
         try:
             return self.server_assocs[server_url]
         except KeyError:
-            assocs = self.server_assocs[server_url] = ServerAssocs()
-            return assocs
+            return self.server_assocs.setdefault(server_url, ServerAssocs())
 
     def storeAssociation(self, server_url, assoc):
         assocs = self._getServerAssocs(server_url)
@@ -101,19 +100,19 @@ class MemoryStore(OpenIDStore):
     def cleanupNonces(self):
         now = time.time()
         expired = []
-        for anonce in self.nonces:
+        for anonce in list(self.nonces):
             if abs(anonce[1] - now) > nonce.SKEW:
                 # removing items while iterating over the set could be bad.
                 expired.append(anonce)
 
         for anonce in expired:
-            del self.nonces[anonce]
+            self.nonces.pop(anonce, None)
         return len(expired)
 
     def cleanupAssociations(self):
         remove_urls = []
         removed_assocs = 0
-        for server_url, assocs in six.iteritems(self.server_assocs):
+        for server_url, assocs in list(self.server_assocs.items()):
             removed, remaining = assocs.cleanup()
             removed_assocs += removed
             if not remaining:
@@ -121,7 +120,7 @@ class MemoryStore(OpenIDStore):
 
         # Remove entries from server_assocs that had none remaining.
         for server_url in remove_urls:
-            del self.server_assocs[server_url]
+            self.server_assocs.pop(server_url, None)
         return removed_assocs
 
     def __eq__(self, other):
-- 
2.43.0


From 8ab6b0ce856fae63531dd6bf5180f47d67ac8efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:44 +0000
Subject: [PATCH 60/67] fix: leave the headers given to a fetcher alone

---
 openid/fetchers.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 464259b..bbc6071 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -230,9 +230,7 @@ class Urllib2Fetcher(HTTPFetcher):
         if not _allowedURL(url):
             raise ValueError('Bad URL scheme: %r' % (url,))
 
-        if headers is None:
-            headers = {}
-
+        headers = dict(headers or {})
         headers.setdefault('User-Agent', "%s Python-urllib" % USER_AGENT)
 
         req = Request(url, data=body, headers=headers)
@@ -329,9 +327,7 @@ class CurlHTTPFetcher(HTTPFetcher):
         stop = int(time.time()) + self.ALLOWED_TIME
         off = self.ALLOWED_TIME
 
-        if headers is None:
-            headers = {}
-
+        headers = dict(headers or {})
         headers.setdefault('User-Agent',
                            "%s %s" % (USER_AGENT, pycurl.version,))
 
-- 
2.43.0


From dcc01499b97d9c0d94c18069bca9e40aea0969ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:49 +0000
Subject: [PATCH 61/67] fix: copy the lists of policies given to draft PAPE
 messages

---
 openid/extensions/draft/pape2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/extensions/draft/pape2.py b/openid/extensions/draft/pape2.py
index 6e7e456..0458fcf 100644
--- a/openid/extensions/draft/pape2.py
+++ b/openid/extensions/draft/pape2.py
@@ -59,7 +59,7 @@ class Request(Extension):
         if not preferred_auth_policies:
             preferred_auth_policies = []
 
-        self.preferred_auth_policies = preferred_auth_policies
+        self.preferred_auth_policies = list(preferred_auth_policies)
         self.max_auth_age = max_auth_age
 
     def __bool__(self):
@@ -171,7 +171,7 @@ class Response(Extension):
                  nist_auth_level=None):
         super(Response, self).__init__()
         if auth_policies:
-            self.auth_policies = auth_policies
+            self.auth_policies = list(auth_policies)
         else:
             self.auth_policies = []
 
-- 
2.43.0


From 75bf21a085433300bedf6139173b60553015e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:32 +0000
Subject: [PATCH 62/67] fix: escape cross-references in linear time

---
 openid/yadis/xri.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openid/yadis/xri.py b/openid/yadis/xri.py
index 6c7683d..e2fcac7 100644
--- a/openid/yadis/xri.py
+++ b/openid/yadis/xri.py
@@ -34,7 +34,7 @@ def toIRINormal(xri):
     return escapeForIRI(xri)
 
 
-_xref_re = re.compile(r'\((.*?)\)')
+_xref_re = re.compile(r'\([^)]*\)')
 
 
 def _escape_xref(xref_match):
@@ -50,8 +50,9 @@ def _escape_xref(xref_match):
 def escapeForIRI(xri):
     """Escape things that need to be escaped when transforming to an IRI."""
     xri = xri.replace('%', '%25')
-    xri = _xref_re.sub(_escape_xref, xri)
-    return xri
+    # Every search before the last closing parenthesis succeeds, so that the time is linear.
+    end = xri.rfind(')') + 1
+    return _xref_re.sub(_escape_xref, xri[:end]) + xri[end:]
 
 
 def toURINormal(xri):
-- 
2.43.0


From 66462457e5a25de8b1fc3264424af9ddb6ce810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:37 +0000
Subject: [PATCH 63/67] fix: format key-value form warnings only when they are
 logged

---
 openid/kvform.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/openid/kvform.py b/openid/kvform.py
index 1d27d72..78ff2bf 100644
--- a/openid/kvform.py
+++ b/openid/kvform.py
@@ -28,11 +28,10 @@ def seqToKV(seq, strict=False):
     @rtype: six.text_type
     """
     def err(msg):
-        formatted = 'seqToKV warning: %s: %r' % (msg, seq)
         if strict:
-            raise KVFormError(formatted)
+            raise KVFormError('seqToKV warning: %s: %r' % (msg, seq))
         else:
-            _LOGGER.debug(formatted)
+            _LOGGER.debug('seqToKV warning: %s: %r', msg, seq)
 
     lines = []
     for k, v in seq:
@@ -83,11 +82,10 @@ def kvToSeq(data, strict=False):
     @rtype: List[Tuple[six.text_type, six.text_type]]
     """
     def err(msg):
-        formatted = 'kvToSeq warning: %s: %r' % (msg, data)
         if strict:
-            raise KVFormError(formatted)
+            raise KVFormError('kvToSeq warning: %s: %r' % (msg, data))
         else:
-            _LOGGER.debug(formatted)
+            _LOGGER.debug('kvToSeq warning: %s: %r', msg, data)
 
     data = string_to_text(data, "Binary values for data are deprecated. Use text input instead.")
 
-- 
2.43.0


From dc8cab61a53805bf7c74f95eedf8948c386a2385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:41 +0000
Subject: [PATCH 64/67] fix: remove dot segments in linear time

---
 openid/urinorm.py | 50 ++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index 98adf2f..42b312f 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -11,35 +11,37 @@ from .oidutil import string_to_text
 
 def remove_dot_segments(path):
     result_segments = []
-
-    while path:
-        if path.startswith('../'):
-            path = path[3:]
-        elif path.startswith('./'):
-            path = path[2:]
-        elif path.startswith('/./'):
-            path = path[2:]
-        elif path == '/.':
-            path = '/'
-        elif path.startswith('/../'):
-            path = path[3:]
+    # The position in the path. Cutting the path in every step would take quadratic time.
+    start = 0
+
+    while start < len(path):
+        head = path[start:start + 4]
+        if head.startswith('../'):
+            start += 3
+        elif head.startswith('./'):
+            start += 2
+        elif head.startswith('/./'):
+            start += 2
+        elif head == '/.':
+            result_segments.append('/')
+            break
+        elif head == '/../':
+            start += 3
             if result_segments:
                 result_segments.pop()
-        elif path == '/..':
-            path = '/'
+        elif head == '/..':
             if result_segments:
                 result_segments.pop()
-        elif path == '..' or path == '.':
-            path = ''
+            result_segments.append('/')
+            break
+        elif head == '..' or head == '.':
+            break
         else:
-            i = 0
-            if path[0] == '/':
-                i = 1
-            i = path.find('/', i)
-            if i == -1:
-                i = len(path)
-            result_segments.append(path[:i])
-            path = path[i:]
+            end = path.find('/', start + 1)
+            if end == -1:
+                end = len(path)
+            result_segments.append(path[start:end])
+            start = end
 
     return ''.join(result_segments)
 
-- 
2.43.0


From 9fb81fcb09b6a950a0920f8ab65e9cac0ef2af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:00 +0000
Subject: [PATCH 65/67] fix: escape control characters of URLs that get
 arguments appended

---
 openid/oidutil.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openid/oidutil.py b/openid/oidutil.py
index f1d06d6..364a490 100644
--- a/openid/oidutil.py
+++ b/openid/oidutil.py
@@ -8,6 +8,7 @@ from __future__ import unicode_literals
 
 import binascii
 import logging
+import re
 import warnings
 
 import six
@@ -57,6 +58,9 @@ def log(message, level=0):
     logging.error("This is a legacy log message, please use the logging module. Message: %s", message)
 
 
+_CONTROL_CHARACTERS = re.compile('[\x00-\x1f\x7f]')
+
+
 def appendArgs(url, args):
     """Append query arguments to a HTTP(s) URL. If the URL already has
     query arguemtns, these arguments will be added, and the existing
@@ -78,6 +82,9 @@ def appendArgs(url, args):
     """
     url = string_to_text(url, "Binary values for appendArgs are deprecated. Use text input instead.")
 
+    # The result usually becomes a value of a HTTP header.
+    url = _CONTROL_CHARACTERS.sub(lambda match: '%%%02X' % ord(match.group()), url)
+
     if hasattr(args, 'items'):
         args = sorted(args.items())
     else:
-- 
2.43.0


From 358bf96394bd2e6f049fd8cf9d5b887e8ba89c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:00 +0000
Subject: [PATCH 66/67] fix: send protocol errors to http and https URLs only

---
 openid/oidutil.py       | 11 +++++++++++
 openid/server/server.py |  5 +++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/openid/oidutil.py b/openid/oidutil.py
index 364a490..ef66e28 100644
--- a/openid/oidutil.py
+++ b/openid/oidutil.py
@@ -58,6 +58,17 @@ def log(message, level=0):
     logging.error("This is a legacy log message, please use the logging module. Message: %s", message)
 
 
+def isHTTPURL(url):
+    """Is this an absolute HTTP(s) URL?
+
+    Anything else, like a C{javascript:} URL, must not become the target of a redirect or of a form.
+
+    @type url: six.text_type
+    @rtype: bool
+    """
+    return url.lower().startswith(('http://', 'https://'))
+
+
 _CONTROL_CHARACTERS = re.compile('[\x00-\x1f\x7f]')
 
 
diff --git a/openid/server/server.py b/openid/server/server.py
index a481dd8..d443672 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1695,11 +1695,12 @@ class ProtocolError(Exception):
             return self.openid_message.getArg(OPENID_NS, 'return_to')
 
     def hasReturnTo(self):
-        """Did this request have a return_to parameter?
+        """Did this request have a return_to parameter that an answer can be sent to?
 
         @returntype: bool
         """
-        return self.getReturnTo() is not None
+        return_to = self.getReturnTo()
+        return return_to is not None and oidutil.isHTTPURL(return_to)
 
     def toMessage(self):
         """Generate a Message object for sending to the relying party,
-- 
2.43.0


From a962e21ac2cda6567922a2b89eff368c299dc045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:00 +0000
Subject: [PATCH 67/67] fix: ignore discovered endpoints that are not http or
 https URLs

---
 openid/consumer/discover.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index f416dfc..b5f6abe 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -8,7 +8,7 @@ from lxml.etree import LxmlError
 from lxml.html import document_fromstring
 from six.moves.urllib.parse import urldefrag, urlparse
 
-from openid import fetchers, urinorm
+from openid import fetchers, oidutil, urinorm
 from openid.message import OPENID1_NS as OPENID_1_0_MESSAGE_NS, OPENID2_NS as OPENID_2_0_MESSAGE_NS
 from openid.oidutil import string_to_text
 from openid.yadis import filters, xri, xrires
@@ -134,7 +134,7 @@ class OpenIDServiceEndpoint(object):
 
         # If any Type URIs match and there is an endpoint URI
         # specified, then this is an OpenID endpoint
-        if type_uris and endpoint.uri is not None:
+        if type_uris and endpoint.uri is not None and oidutil.isHTTPURL(endpoint.uri):
             openid_endpoint = cls()
             openid_endpoint.parseService(
                 endpoint.yadis_url,
@@ -169,7 +169,7 @@ class OpenIDServiceEndpoint(object):
             if not op_links:
                 continue
             op_endpoint_url = op_links[0].get('href')
-            if not op_endpoint_url:
+            if not op_endpoint_url or not oidutil.isHTTPURL(op_endpoint_url):
                 continue
 
             local_id_links = parsed_html.xpath(LINK_REL_XPATH.format(local_id_rel))
-- 
2.43.0

