From 57744eeaf577fde2b5f215a21b28fcd5082332b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 01/48] fix: re-raise converted errors as exceptions of the
 intended type

six.reraise takes (type, value, traceback); passing (instance, cause) raised
TypeError instead of UnreadablePostError, MultiPartParserError, ValueError
and ImportError.
---
 request_parser/http/multipartparser.py | 3 ++-
 request_parser/http/request.py         | 7 ++++---
 request_parser/utils/http.py           | 3 ++-
 request_parser/utils/module_loading.py | 5 +++--
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index eb808a6..f4822bf 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -7,6 +7,7 @@ file upload handlers for processing.
 import base64
 import binascii
 import cgi
+import sys
 
 from six import reraise as raise_from
 from future.backports.urllib.parse import unquote
@@ -268,7 +269,7 @@ class MultiPartParser:
                                     chunk = base64.b64decode(stripped_chunk)
                                 except Exception as exc:
                                     # Since this is only a chunk, any error is an unfixable error.                                
-                                    raise_from(MultiPartParserError("Could not decode base64 data."), exc)
+                                    raise_from(MultiPartParserError, MultiPartParserError("Could not decode base64 data."), sys.exc_info()[2])
 
                             for i, handler in enumerate(handlers):
                                 chunk_length = len(chunk)
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8e2ab98..89a9ba6 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -1,5 +1,6 @@
 import copy
 import re
+import sys
 import warnings
 from io import BytesIO
 from itertools import chain
@@ -384,7 +385,7 @@ class HttpRequest(object,):
                     chunk = self.read(chunk_size)
                     read_size += len(chunk)
             except IOError as e:
-                raise_(UnreadablePostError(*e.args), e)
+                raise_(UnreadablePostError, UnreadablePostError(*e.args), sys.exc_info()[2])
             
             if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
@@ -570,14 +571,14 @@ class HttpRequest(object,):
         try:
             return self._stream.read(*args, **kwargs)
         except IOError as e:
-            raise_(UnreadablePostError(*e.args), e)
+            raise_(UnreadablePostError, UnreadablePostError(*e.args), sys.exc_info()[2])
 
     def readline(self, *args, **kwargs):
         try:
             return self._stream.readline(*args, **kwargs)
         except IOError as e:
             #raise UnreadablePostError(*e.args) from e
-            raise_(UnreadablePostError(*e.args), e)
+            raise_(UnreadablePostError, UnreadablePostError(*e.args), sys.exc_info()[2])
 
     def __iter__(self):
         return iter(self.readline, b'')
diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 7369ef1..ee6b912 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -2,6 +2,7 @@ import base64
 import calendar
 import datetime
 import re
+import sys
 import unicodedata
 from binascii import Error as BinasciiError
 from email.utils import formatdate
@@ -169,7 +170,7 @@ def parse_http_date(date):
         return calendar.timegm(result.utctimetuple())
     except Exception as exc:
         #raise ValueError("%r is not a valid date" % date) from exc
-        raise_(ValueError("%r is not a valid date" % date), exc)
+        raise_(ValueError, ValueError("%r is not a valid date" % date), sys.exc_info()[2])
 
 
 def parse_http_date_safe(date):
diff --git a/request_parser/utils/module_loading.py b/request_parser/utils/module_loading.py
index 1aad785..06302b5 100644
--- a/request_parser/utils/module_loading.py
+++ b/request_parser/utils/module_loading.py
@@ -1,5 +1,6 @@
 import copy
 import os
+import sys
 from importlib import import_module
 #from importlib.util import find_spec as importlib_find
 from imp import find_module as importlib_find
@@ -15,7 +16,7 @@ def import_string(dotted_path):
         module_path, class_name = dotted_path.rsplit('.', 1)
     except ValueError as err:
         #raise ImportError("%s doesn't look like a module path" % dotted_path) from err
-        raise_("%s doesn't look like a module path" % dotted_path, err)
+        raise_(ImportError, ImportError("%s doesn't look like a module path" % dotted_path), sys.exc_info()[2])
 
     module = import_module(module_path)
 
@@ -25,7 +26,7 @@ def import_string(dotted_path):
         #raise ImportError('Module "%s" does not define a "%s" attribute/class' % (
         #    module_path, class_name)
         #) from err
-        raise_('Module "%s" does not define a "%s" attribute/class' % (module_path, class_name), err)
+        raise_(ImportError, ImportError('Module "%s" does not define a "%s" attribute/class' % (module_path, class_name)), sys.exc_info()[2])
 
 
 #def autodiscover_modules(*args, **kwargs):
-- 
2.43.0


From 5571eff14cce608691ff302cb3611b0f19e9d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 02/48] fix: stop reading for base64 padding at the end of a
 file part

A file part whose base64 data is truncated made the parser loop for ever.
---
 request_parser/http/multipartparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index f4822bf..1998ad9 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -262,6 +262,8 @@ class MultiPartParser:
                                 remaining = len(stripped_chunk) % 4
                                 while remaining != 0:
                                     over_chunk = field_stream.read(4 - remaining)
+                                    if not over_chunk:
+                                        break
                                     stripped_chunk += b"".join(over_chunk.split())
                                     remaining = len(stripped_chunk) % 4
 
-- 
2.43.0


From 1330e9c5f511b88f6192ab98520aaf93b16483c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 03/48] fix: keep a form field's raw data when it is not valid
 base64

Python 2's b64decode reports malformed data as TypeError.
---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 1998ad9..324c8a8 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -190,7 +190,7 @@ class MultiPartParser:
                         try:
                             #decode the data read
                             data = base64.b64decode(raw_data)
-                        except binascii.Error:
+                        except (TypeError, binascii.Error):
                             data = raw_data
                     else:
                         data = field_stream.read(size=read_size)
-- 
2.43.0


From e1efe21f443e98ddf5788ebabdb4a4ba0b0c03bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 04/48] fix: report a missing or non-ASCII boundary as
 MultiPartParserError

---
 request_parser/http/multipartparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 324c8a8..ad5dfbd 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -62,10 +62,10 @@ class MultiPartParser:
             raise MultiPartParserError('Invalid Content-Type: %s' % content_type)
 
         # Parse the header to get the boundary to split the parts.
-        content_types, opts = parse_header(content_type.encode('ascii'))
+        content_types, opts = parse_header(content_type)
         boundary = opts.get('boundary')
         if not boundary or not cgi.valid_boundary(boundary):
-            raise MultiPartParserError('Invalid boundary in multipart: %s' % boundary.decode())
+            raise MultiPartParserError('Invalid boundary in multipart: %r' % (boundary,))
 
         # Content-Length should contain the length of the body we are about
         # to receive.
-- 
2.43.0


From 748bbd16db6f6e05c2097589abd99dc54948a420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 05/48] fix: accept bytes outside ASCII in header values

They raised LookupError or UnicodeDecodeError; they are kept as sent.
---
 request_parser/http/multipartparser.py | 4 ++--
 request_parser/http/request.py         | 2 --
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index ad5dfbd..1416566 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -578,13 +578,13 @@ def parse_header(line):
         return None, None
 
     plist = _parse_header_params(b';' + line)
-    key = plist.pop(0).lower().decode('ascii')
+    key = plist.pop(0).lower().decode('iso-8859-1')
     pdict = {}
     for p in plist:
         i = p.find(b'=')
         if i >= 0:
             has_encoding = False
-            name = p[:i].strip().lower().decode('ascii')
+            name = p[:i].strip().lower().decode('iso-8859-1')
             if name.endswith('*'):
                 # Lang/encoding embedded in the value (like "filename*=UTF-8''file.ext")
                 # http://tools.ietf.org/html/rfc2231#section-4
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 89a9ba6..b49ca26 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -829,10 +829,8 @@ def parse_request_headers(request_header_stream):
         end_index = request_header.find(b':')
         if end_index != -1:
             header =  request_header[:end_index]
-            header = header.encode('ascii','')
             value = request_header[end_index+1:]
             value = value.strip()
-            value = value.encode('ascii','')
             if header in request_headers:
                 request_headers[header].append(value)
             else:
-- 
2.43.0


From 8efe5ff144947adb023bcc501f0dc46b433650a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 06/48] fix: reject an unparsable request target as an invalid
 request

---
 request_parser/http/request.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index b49ca26..e93d31f 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -863,7 +863,10 @@ def parse_request_line(request_line=''):
 #    if not method or not uri or not protocol_version:
 #        raise InvalidHttpRequest("Invalid request line.", 400)
     
-    request_uri_result = urlparse(uri)
+    try:
+        request_uri_result = urlparse(uri)
+    except ValueError:
+        raise InvalidHttpRequest("Invalid request line.", 400)
     request_line_result = {}
     request_line_result[MetaDict.ReqLine.SCHEME] = request_uri_result[0]
     request_line_result[MetaDict.ReqLine.DOMAIN] = request_uri_result[1]
-- 
2.43.0


From 6b249dd2c34bb9be0ae9f778071249317b6f09c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 07/48] fix: ignore an unknown charset declared by the
 Content-Type header

It raised LookupError and lost the parsed head.
---
 request_parser/http/request.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index e93d31f..85b2ccb 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -481,7 +481,8 @@ class HttpRequest(object,):
         if header_dict is not None:        
             for key, value in header_dict.items():
                 if 'charset' == key.lower():
-                    self.encoding = value
+                    if is_text_charset(value):
+                        self.encoding = value
                     break
 
         self.META[MetaDict.Info.QUERY_STRING] = meta_dict[MetaDict.ReqLine.QUERY_STRING]
@@ -776,6 +777,15 @@ def bytes_to_text(s, encoding):
     else:
         return s
 
+def is_text_charset(name):
+    """
+    Return True if name is a known charset that decodes bytes to text.
+    """
+    try:
+        return isinstance(b''.decode(name), type(u''))
+    except Exception:
+        return False
+
 def split_domain_port(host):
     """
     Return a (domain, port) tuple from a given host.
-- 
2.43.0


From 85bc1ccba24be34b03ed08dabec4a24f37ed9765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 08/48] fix: do not decode the raw body of form content

It is never exposed, but bytes invalid in the charset made the parse fail and
a multipart upload that was stopped had its remaining input read.
---
 request_parser/http/request.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 85b2ccb..25b398d 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -543,11 +543,8 @@ class HttpRequest(object,):
         else:
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
         
-        #restart content-type check
-        if self.content_type == 'text/plain' or self.content_type == 'text/html'\
-            or self.content_type == 'application/json':
-            self._body = self.body().decode(self.encoding)
-        else:
+        #the raw body of form content is not accessible after parsing
+        if self.content_type != 'multipart/form-data' and self.content_type != 'application/x-www-form-urlencoded':
             self._body = self.body().decode(self.encoding)
         
         self._request_body_parsed = True
-- 
2.43.0


From bef485484415fae53d1fc09fa58670bb3bdb106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 09/48] fix: do not show a previous request's body, parameters
 or charset

Setting a new stream kept the cached raw body and the charset declared by the
previous header, and parsing an empty body kept the previous POST and FILES.
---
 request_parser/http/request.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 25b398d..83d4e6e 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -73,6 +73,8 @@ class HttpRequest(object,):
         #Parsing status flags
         self._request_header_parsed = False
         self._request_body_parsed = False
+        #encoding in use before the request header declared one
+        self._undeclared_encoding = None
 
         # POST dictionary in a multipart/form-data is of the form
         # POST['key'] = { 'data'              : data,
@@ -202,6 +204,7 @@ class HttpRequest(object,):
         #ANSWER: They're redone whenever parse_request_header and parse_request_body
         #are called
         self.settings.DEFAULT_CHARSET = val
+        self._undeclared_encoding = None
         if hasattr(self, 'GET'):
             del self.GET
         if hasattr(self, '_post'):
@@ -209,6 +212,15 @@ class HttpRequest(object,):
         if hasattr(self, '_body'):
             del self._body
     
+    def _restore_encoding(self):
+        """
+        Undo the effect of a charset declared by the header of the previous
+        request.
+        """
+        if self._undeclared_encoding is not None:
+            self.settings.DEFAULT_CHARSET = self._undeclared_encoding
+            self._undeclared_encoding = None
+
     @property
     def stream(self):
         if hasattr(self, '_stream') and not self._stream:
@@ -224,8 +236,7 @@ class HttpRequest(object,):
         status flags and deleting any META data. This is because, by setting a new stream, 
         the intent is to restart parsing (at least reparse the header).
 
-        This reset doesn't reset POST, FILES and _body. However, calling parse_request_body() is
-        possible.
+        This reset doesn't reset POST and FILES until parse_request_body() is called.
         """
         self._stream = val
         #create a LazyStream out of the _stream
@@ -233,6 +244,10 @@ class HttpRequest(object,):
             self._stream = BytesIO()
         self._stream = LazyStream(self._stream)
 
+        #the raw body and the charset declared belong to the previous request
+        if hasattr(self, '_body'):
+            del self._body
+        self._restore_encoding()
         #reset the header META data
         self._reset_header_meta_data()
         #reset parse status flags
@@ -482,7 +497,9 @@ class HttpRequest(object,):
             for key, value in header_dict.items():
                 if 'charset' == key.lower():
                     if is_text_charset(value):
+                        undeclared_encoding = self.encoding
                         self.encoding = value
+                        self._undeclared_encoding = undeclared_encoding
                     break
 
         self.META[MetaDict.Info.QUERY_STRING] = meta_dict[MetaDict.ReqLine.QUERY_STRING]
@@ -521,6 +538,8 @@ class HttpRequest(object,):
         #check if the body is empty
         if not data:
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
+            self.POST = self._post
+            self.FILES = self._files
             return
         body_stream.unget(data)
         
-- 
2.43.0


From b091e19d6105f65f8c0a2c9f6151e752671b6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 10/48] fix: parse the body even when the raw body was read
 first

The parameters and files were silently lost.
---
 request_parser/http/request.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 83d4e6e..291994e 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -533,6 +533,10 @@ class HttpRequest(object,):
 
         #body_stream = self.request_stream
         body_stream = self._stream
+        #parse a body that was already read in full from the start
+        if hasattr(self, '_body'):
+            body_stream.unget(self._body)
+            del self._body
         data = body_stream.read(1)
 
         #check if the body is empty
-- 
2.43.0


From 8f2c1f736f91a4dac8776aded530a0ae2cfdf4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 11/48] fix: do not change the settings object shared by other
 requests

The charset declared by one request became the default of all others.
---
 request_parser/http/request.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 291994e..b8eb1d0 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -65,8 +65,9 @@ class HttpRequest(object,):
         self._stream = LazyStream(self._stream)
 
         #take care of settings to use default settings
+        #the request works on its own copy as its encoding may change
         if settings is not None:
-            self.settings = settings
+            self.settings = copy.copy(settings)
         else:
             self.settings = Settings.default()        
 
-- 
2.43.0


From 527310f77b038eb7aac5ef25c11156bd374a04df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 12/48] fix: keep GET available after the encoding is set

Setting the encoding deleted GET without recreating it, and dropped a raw body
that had been read but not parsed yet.
---
 request_parser/http/request.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index b8eb1d0..c684000 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -206,13 +206,19 @@ class HttpRequest(object,):
         #are called
         self.settings.DEFAULT_CHARSET = val
         self._undeclared_encoding = None
-        if hasattr(self, 'GET'):
-            del self.GET
+        self._parse_query_string()
         if hasattr(self, '_post'):
             del self._post
-        if hasattr(self, '_body'):
+        #raw bytes don't depend on the encoding
+        if hasattr(self, '_body') and self._request_body_parsed:
             del self._body
-    
+
+    def _parse_query_string(self):
+        """
+        (Re)create the GET dictionary from the query string using the current encoding.
+        """
+        query_string = self.META.get(MetaDict.Info.QUERY_STRING)
+        self.GET = QueryDict(self.settings, query_string) if query_string else QueryDict(self.settings, mutable=True)
     def _restore_encoding(self):
         """
         Undo the effect of a charset declared by the header of the previous
@@ -504,7 +510,7 @@ class HttpRequest(object,):
                     break
 
         self.META[MetaDict.Info.QUERY_STRING] = meta_dict[MetaDict.ReqLine.QUERY_STRING]
-        self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING]) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True)
+        self._parse_query_string()
         #Add a immutable version of request_headers dictionary into META dictionary
         self.META[MetaDict.Info.REQ_HEADERS] = ImmutableMultiValueDict(request_headers)
 
-- 
2.43.0


From d374884f8e4627ed1874b23151a0c2fb518ea3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 13/48] fix: give LazyStream the readline() that HttpRequest
 relies on

HttpRequest.readline(), iteration and readlines() raised AttributeError.
---
 request_parser/utils/datastructures.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 374b65d..0278d4e 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -394,6 +394,29 @@ class LazyStream:
         out = b''.join(parts())
         return out
 
+    def readline(self, size=None):
+        """
+        Return the bytes up to and including the next newline, or at most
+        size bytes of them.
+        """
+        line = []
+        remaining = size
+        while remaining is None or remaining != 0:
+            try:
+                chunk = next(self)
+            except StopIteration:
+                break
+            end = chunk.find(b'\n') + 1 or len(chunk)
+            if remaining is not None and 0 <= remaining < end:
+                end = remaining
+            line.append(chunk[:end])
+            self.unget(chunk[end:])
+            if chunk[:end].endswith(b'\n'):
+                break
+            if remaining is not None:
+                remaining -= end
+        return b''.join(line)
+
     #def __next__(self):
     def next(self):
         """
-- 
2.43.0


From 82c357776260fce7b44d6897b7cdd24963f47a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 14/48] fix: do not return the rest of a body refused as too
 big

A second call of body() or parse_request_body() returned or parsed what was
left in the stream.
---
 request_parser/http/request.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index c684000..53a1256 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -410,6 +410,8 @@ class HttpRequest(object,):
                 raise_(UnreadablePostError, UnreadablePostError(*e.args), sys.exc_info()[2])
             
             if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
+                #don't let a later call mistake the rest for the body
+                self._stream.unget(_body + chunk)
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
             self._body = _body
             
-- 
2.43.0


From e7066ee804a980dde6b13f68485788fe054a5efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 15/48] fix: do not resume a failed multipart parse in the
 middle of the body

Calling parse_request_body() again delivered the parts after the failure.
---
 request_parser/http/request.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 53a1256..813fca1 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -557,6 +557,8 @@ class HttpRequest(object,):
         body_stream.unget(data)
         
         if self.content_type == 'multipart/form-data':      
+            #the parser consumes the stream, a failed parse can't be resumed
+            self._request_body_parsed = True
             try:
                 #returns POST QueryDict and MultiValueDict for _files
                 self._post, self._files = self._parse_file_upload(self.META.get(MetaDict.Info.REQ_HEADERS), body_stream)
-- 
2.43.0


From ad3dd939816d173bc5785e4262403306084046d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 16/48] fix: return the stream from the stream and body_stream
 properties

---
 request_parser/http/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 813fca1..004e694 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -230,7 +230,7 @@ class HttpRequest(object,):
 
     @property
     def stream(self):
-        if hasattr(self, '_stream') and not self._stream:
+        if hasattr(self, '_stream'):
             return self._stream
         return None
 
@@ -263,7 +263,7 @@ class HttpRequest(object,):
     
     @property
     def body_stream(self):
-        if hasattr(self, '_stream') and not self._stream:
+        if hasattr(self, '_stream'):
             return self._stream
         return None
 
-- 
2.43.0


From 4702cd4731603cba0cf3c7099b901d35e7d994fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 17/48] fix: use the upload handlers that were set on the
 request

The getter raised AttributeError before parsing and the handlers set were
replaced by those from the settings.
---
 request_parser/http/request.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 004e694..5cfb398 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -74,6 +74,8 @@ class HttpRequest(object,):
         #Parsing status flags
         self._request_header_parsed = False
         self._request_body_parsed = False
+        self._upload_handlers = None
+        self._custom_upload_handlers = False
         #encoding in use before the request header declared one
         self._undeclared_encoding = None
 
@@ -352,7 +354,7 @@ class HttpRequest(object,):
 
     @property
     def upload_handlers(self):
-        if not self._upload_handlers:
+        if self._upload_handlers is None:
             # If there are no upload handlers defined, initialize them from settings.
             self._initialize_handlers()
         return self._upload_handlers
@@ -362,6 +364,7 @@ class HttpRequest(object,):
         if hasattr(self, '_files'):
             raise AttributeError("You cannot set the upload handlers after the upload has been processed.")
         self._upload_handlers = upload_handlers
+        self._custom_upload_handlers = True
 
     def parse(self):
         """
@@ -529,8 +532,9 @@ class HttpRequest(object,):
         if self._request_body_parsed:
             return
         
-        #initialize the upload_hanldlers
-        self._initialize_handlers()
+        #initialize the upload_hanldlers unless they were set explicitly
+        if not self._custom_upload_handlers:
+            self._initialize_handlers()
 
         #if header not parsed already
         #if parse_request_body is called, then it means
-- 
2.43.0


From 23f639abe3236fc8b375e853c5b714813330b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 18/48] fix: make QueryDict copying, fromkeys() and its
 encoding argument work

They did not follow the settings parameter of the constructor.
---
 request_parser/http/request.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 5cfb398..963b325 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -656,7 +656,7 @@ class QueryDict(MultiValueDict):
     def __init__(self, settings, query_string=None, mutable=False, encoding=None):
         super(QueryDict, self).__init__()
         self.settings = settings
-        self.encoding = self.settings.DEFAULT_CHARSET
+        self.encoding = encoding or self.settings.DEFAULT_CHARSET
         query_string = query_string or ''
         parse_qsl_kwargs = {
             'keep_blank_values': True,
@@ -684,7 +684,7 @@ class QueryDict(MultiValueDict):
         Return a new QueryDict with keys (may be repeated) from an iterable and
         values from value.
         """
-        q = cls('', mutable=True, encoding=encoding)
+        q = cls(Settings.default(), mutable=True, encoding=encoding)
         for key in iterable:
             q.appendlist(key, value)
         if not mutable:
@@ -716,13 +716,13 @@ class QueryDict(MultiValueDict):
         super(QueryDict, self).__delitem__(key)
 
     def __copy__(self):
-        result = self.__class__('', mutable=True, encoding=self.encoding)
+        result = self.__class__(self.settings, mutable=True, encoding=self.encoding)
         for key, value in self.lists():
             result.setlist(key, value)
         return result
 
     def __deepcopy__(self, memo):
-        result = self.__class__('', mutable=True, encoding=self.encoding)
+        result = self.__class__(self.settings, mutable=True, encoding=self.encoding)
         memo[id(self)] = result
         for key, value in self.lists():
             result.setlist(copy.deepcopy(key, memo), copy.deepcopy(value, memo))
-- 
2.43.0


From 045f68200058de79d1add479f4b41ffbd24ebc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 19/48] fix: handle text outside ASCII in QueryDict

Byte strings were encoded instead of decoded, and urlencode() failed on text
outside ASCII.
---
 request_parser/http/request.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 963b325..01ead5d 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -790,7 +790,7 @@ class QueryDict(MultiValueDict):
                 return urlencode({k: v})
         for k, list_ in self.lists():
             output.extend(
-                encode(k.encode(self.encoding), str(v).encode(self.encoding))
+                encode(k.encode(self.encoding), v.encode(self.encoding) if isinstance(v, type(u'')) else str(v))
                 for v in list_
             )
         return '&'.join(output)
@@ -807,8 +807,7 @@ def bytes_to_text(s, encoding):
     Return any non-bytes objects without change.
     """
     if isinstance(s, bytes):
-        #return str(s, encoding, 'replace')
-        return str(s).encode(encoding=encoding, errors='replace')
+        return s.decode(encoding, 'replace')
     else:
         return s
 
-- 
2.43.0


From 13ea5bf61396ec93327469e5bc7e494bbd17dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 20/48] fix: make ImmutableMultiValueDict immutable, and usable
 when mutable

pop(), popitem() and clear() were not guarded; with mutation enabled,
assignment nested the value, update() failed and appendlist() failed.
---
 request_parser/utils/datastructures.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 0278d4e..b36e32c 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -288,9 +288,8 @@ class ImmutableMultiValueDict(MultiValueDict):
             raise AttributeError("This ImmutableMultiValueDict instance is immutable.")
 
     def __setitem__(self, key, value):
-        #set the value as a list i.e [value]
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).__setitem__(key, [value])
+        super(ImmutableMultiValueDict, self).__setitem__(key, value)
 
     def __delitem__(self, key):
         self._assert_mutable()
@@ -322,14 +321,14 @@ class ImmutableMultiValueDict(MultiValueDict):
         Set the default value for a key if key is not in the dict
         """
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).setdefault(key, default)
+        return super(ImmutableMultiValueDict, self).setdefault(key, default)
 
     def setlistdefault(self, key, default_list=None):
         """
         Set a default list for a key if key not in the dict
         """
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).setlistdefault(key, default_list)
+        return super(ImmutableMultiValueDict, self).setlistdefault(key, default_list)
 
     def appendlist(self, key, value):
         """Append an item to the internal list associated with key."""
@@ -339,7 +338,19 @@ class ImmutableMultiValueDict(MultiValueDict):
     def update(self, *args, **kwargs):
         """Extend rather than replace existing key lists."""
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).update(args, kwargs)
+        super(ImmutableMultiValueDict, self).update(*args, **kwargs)
+
+    def pop(self, key, *args):
+        self._assert_mutable()
+        return super(ImmutableMultiValueDict, self).pop(key, *args)
+
+    def popitem(self):
+        self._assert_mutable()
+        return super(ImmutableMultiValueDict, self).popitem()
+
+    def clear(self):
+        self._assert_mutable()
+        super(ImmutableMultiValueDict, self).clear()
 
 class LazyStream:
     """
-- 
2.43.0


From 3c082f34706f57d8b79abd3c712c2ded875311f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 21/48] fix: make MultiValueDict picklable

---
 request_parser/utils/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index b36e32c..6fcb080 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -76,7 +76,7 @@ class MultiValueDict(dict):
     def __getstate__(self):
         #Fixed dictionary comprehension here
         multi_value_state_dict = dict((k, self._getlist(k)) for k in self)
-        return {self.__dict__,{'_data': multi_value_state_dict}}
+        return dict(self.__dict__, _data=multi_value_state_dict)
 
     def __setstate__(self, obj_dict):
         #retrieve the dictionary associated with '_data' key
-- 
2.43.0


From fc55283b6c911b1a8c4208df2c8479420e2e2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 22/48] fix: deliver empty uploads

Python 2 took the truth value of a file from its length, so that an empty
upload counted as no file at all.
---
 request_parser/files/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index 4f1b2d7..2ebef6e 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -24,6 +24,9 @@ class File(FileProxyMixin):
     def __bool__(self):
         return bool(self.name)
 
+    def __nonzero__(self):
+        return self.__bool__()
+
     def __len__(self):
         return int(self.size)
 
-- 
2.43.0


From 1e24a66a09a553df668534b4c95f8922f23045ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 23/48] fix: use up the parts that are skipped

The rest of a part without a name or a usable file name was parsed as the
next part. A file name that ends in a slash is not usable either.
---
 request_parser/http/multipartparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 1416566..bdae0eb 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -7,6 +7,7 @@ file upload handlers for processing.
 import base64
 import binascii
 import cgi
+import os
 import sys
 
 from six import reraise as raise_from
@@ -160,6 +161,8 @@ class MultiPartParser:
                     disposition = meta_data['content-disposition'][1]
                     field_name = disposition['name'].strip()
                 except (KeyError, IndexError, AttributeError):
+                    # Use up the rest of this part, it isn't the next one.
+                    exhaust(field_stream)
                     continue
 
                 transfer_encoding = meta_data.get('content-transfer-encoding')
@@ -225,7 +228,8 @@ class MultiPartParser:
                     if file_name:
                         file_name = force_text(file_name, encoding, errors='replace')
                         file_name = self.IE_sanitize(unescape_entities(file_name))
-                    if not file_name:
+                    if not file_name or not os.path.basename(file_name):
+                        exhaust(field_stream)
                         continue
 
                     content_type, content_type_extra = meta_data.get('content-type', ('', {}))
-- 
2.43.0


From 8aa472f54315e7bb7292d520efa5a08a7bb5504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 24/48] fix: accept RFC 2231 encoded parameters outside ASCII

They raised UnicodeEncodeError; an unknown or non-ASCII encoding raised
LookupError or UnicodeDecodeError.
---
 request_parser/http/multipartparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index bdae0eb..b58f17e 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -599,7 +599,11 @@ def parse_header(line):
             if has_encoding:
                 encoding, lang, value = value.split(b"'")                
                 #will come back to bite us. Investigate -> DONE
-                value = unquote(value.decode(), encoding=encoding.decode())
+                try:
+                    value = unquote(value.decode(), encoding=encoding.decode()).encode('utf-8')
+                except (LookupError, UnicodeError):
+                    # keep the value as sent
+                    pass
             if len(value) >= 2 and value[:1] == value[-1:] == b'"':
                 value = value[1:-1]
                 value = value.replace(b'\\\\', b'\\').replace(b'\\"', b'"')
-- 
2.43.0


From 6408ed7278cbdf42c276b266de72643c246c9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 25/48] fix: don't close completed files when a later file is
 skipped or stopped

---
 request_parser/http/multipartparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index b58f17e..301fe1d 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -9,6 +9,7 @@ import binascii
 import cgi
 import os
 import sys
+from itertools import chain
 
 from six import reraise as raise_from
 from future.backports.urllib.parse import unquote
@@ -342,9 +343,12 @@ class MultiPartParser:
         # Free up all file handles.
         # FIXME: this currently assumes that upload handlers store the file as 'file'
         # We should document that... (Maybe add handler.free_file to complement new_file)
+        # The files already delivered are not touched.
+        delivered = list(chain.from_iterable(l[1] for l in self._files.lists()))
         for handler in self._upload_handlers:
             if hasattr(handler, 'file'):
-                handler.file.close()
+                if not any(f is handler.file or getattr(f, 'file', None) is handler.file for f in delivered):
+                    handler.file.close()
 
 class InterBoundaryIter:
     """
-- 
2.43.0


From b45128f3b5a3e1f5a9db2fb1eab5e9ec2a5809ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 26/48] fix: accept multipart content types in any case

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 301fe1d..16ef295 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -60,7 +60,7 @@ class MultiPartParser:
 
         # Content-Type should contain multipart and the boundary information.
         content_type = META.get('Content-Type', '')
-        if not content_type.startswith('multipart/'):
+        if not content_type.lower().startswith('multipart/'):
             raise MultiPartParserError('Invalid Content-Type: %s' % content_type)
 
         # Parse the header to get the boundary to split the parts.
-- 
2.43.0


From cfba7a0c15c707e2fbe327d0103018651acdb615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 27/48] fix: recognise AJAX requests by the X-Requested-With
 header

---
 request_parser/http/request.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 01ead5d..c3953f1 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -178,9 +178,7 @@ class HttpRequest(object,):
         return self.scheme == 'https'
 
     def is_ajax(self):
-        if 'XMLHttpRequest' in self.META[MetaDict.Info.REQ_HEADERS]:
-            return True
-        return False
+        return self.META[MetaDict.Info.REQ_HEADERS].get('X-Requested-With') == 'XMLHttpRequest'
 
     def is_plain_text(self):
         """
-- 
2.43.0


From 0d672996e95b0b7019c7faa27a634f251fcf0b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 28/48] fix: report an upload directory that can't be created
 as invalid

---
 request_parser/conf/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index 1bbf7ec..b87cf29 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -140,7 +140,7 @@ class Settings:
                 test_file.write("Permissions Check!")
                 test_file.close()
                 remove(test_file_path)                
-            except IOError as ioError:
+            except (IOError, OSError) as ioError:
                 if ioError.errno == errno.EACCES:
                     raise InvalidDirectory("No write permissions to directory: {}".format(file_upload_dir))
                 else:
-- 
2.43.0


From 180a019aa20dbf10dc68ee9edc5a8db968e05d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 29/48] fix: create the upload directory when it is needed

With the default settings it does not exist and every upload that did not fit
in memory failed.
---
 request_parser/files/uploadedfile.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 6956185..03447ec 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -59,6 +59,13 @@ class TemporaryUploadedFile(UploadedFile, object):
         _settings = settings
         if _settings is None:
             _settings = Settings.default()
+        if not os.path.isdir(_settings.FILE_UPLOAD_TEMP_DIR):
+            try:
+                os.makedirs(_settings.FILE_UPLOAD_TEMP_DIR)
+            except OSError:
+                # another upload may have just created it
+                if not os.path.isdir(_settings.FILE_UPLOAD_TEMP_DIR):
+                    raise
         file = tempfile.NamedTemporaryFile(suffix='.upload' + ext, dir=_settings.FILE_UPLOAD_TEMP_DIR)
         super(TemporaryUploadedFile, self).__init__(file, name, content_type, size, charset, content_type_extra, transfer_encoding)
 
-- 
2.43.0


From 1815d9fb1fc945113d89e66aef16ec86a8b0fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 30/48] fix: don't fail on file extensions unfit for a
 temporary file's name

Extensions that are too long or hold NUL or bytes outside ASCII made the
upload fail.
---
 request_parser/files/uploadedfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 03447ec..159f2eb 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -3,6 +3,7 @@ Classes representing uploaded files.
 """
 
 import os
+import re
 from io import BytesIO
 
 from request_parser.conf.settings import Settings
@@ -11,6 +12,8 @@ from request_parser.files.base import File
 
 __all__ = ('UploadedFile', 'TemporaryUploadedFile', 'InMemoryUploadedFile', 'SimpleUploadedFile')
 
+TEMP_FILE_EXT = re.compile(r'\.[A-Za-z0-9_-]{1,32}\Z')
+
 class UploadedFile(File, object):
     """
     An abstract uploaded file (``TemporaryUploadedFile`` and
@@ -56,6 +59,9 @@ class TemporaryUploadedFile(UploadedFile, object):
     """
     def __init__(self, name, content_type, size, charset, settings = None, content_type_extra=None, transfer_encoding=None):
         _, ext = os.path.splitext(name)
+        # The extension is the client's, use it only if it is a harmless one.
+        if not TEMP_FILE_EXT.match(ext):
+            ext = ''
         _settings = settings
         if _settings is None:
             _settings = Settings.default()
-- 
2.43.0


From dbb6cc17bcd8cdceef18cb38a1a0fe9885afb41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 31/48] fix: refuse malformed URL-safe base64 with ValueError

Python 2's decoder reports it as TypeError.
---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index ee6b912..19d89ef 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -226,7 +226,7 @@ def urlsafe_base64_decode(s):
     s = s.encode()
     try:
         return base64.urlsafe_b64decode(s.ljust(len(s) + len(s) % 4, b'='))
-    except (LookupError, BinasciiError) as e:
+    except (LookupError, TypeError, BinasciiError) as e:
         raise ValueError(e)
 
 
-- 
2.43.0


From 5b9cd2e308a32d8ef9065933c151d78afa5d4155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 32/48] fix: let iri_to_uri() take text outside ASCII

---
 request_parser/utils/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 8b2f59c..3411477 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -85,7 +85,7 @@ def iri_to_uri(iri):
         return iri
     #WARNING: The following 2 line might come to bite back - have to pay some attentions
     #elif isinstance(iri, Promise):
-    else:
+    elif not isinstance(iri, (bytes, type(u''))):
         iri = str(iri)
     return quote(iri, safe="/#%[]=:;$&()+,!?*@'~")
 
-- 
2.43.0


From 057a82898de6c649a478d47b27feec55002578d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:15 +0000
Subject: [PATCH 33/48] fix: let is_safe_url() take byte strings and a text
 string of one host

A byte string URL raised TypeError, and a text string as allowed host was
searched for a substring.
---
 request_parser/utils/http.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 19d89ef..b8d251f 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -284,13 +284,18 @@ def is_safe_url(url, allowed_hosts, require_https=False):
     If ``require_https`` is ``True``, only 'https' will be considered a valid
     scheme, as opposed to 'http' and 'https' with the default, ``False``.
     """
+    if isinstance(url, bytes):
+        try:
+            url = url.decode('utf-8')
+        except UnicodeDecodeError:
+            return False
     if url is not None:
         url = url.strip()
     if not url:
         return False
     if allowed_hosts is None:
         allowed_hosts = set()
-    elif isinstance(allowed_hosts, str):
+    elif isinstance(allowed_hosts, basestring):
         allowed_hosts = {allowed_hosts}
     # Chrome treats \ completely as / in paths but it could be part of some
     # basic auth credentials so we need to check both URLs.
-- 
2.43.0


From fac34f9c9e27446a666878a2f42c756f4f35fda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 34/48] fix: look for the encoding of a parameter in its value
 only

Quotes in the name of a parameter raised ValueError from the header parser.
---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 16ef295..21d0250 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -597,7 +597,7 @@ def parse_header(line):
                 # Lang/encoding embedded in the value (like "filename*=UTF-8''file.ext")
                 # http://tools.ietf.org/html/rfc2231#section-4
                 name = name[:-1]
-                if p.count(b"'") == 2:
+                if p.count(b"'", i) == 2:
                     has_encoding = True
             value = p[i + 1:].strip()
             if has_encoding:
-- 
2.43.0


From 5f34ebb3243388f819e2514b62219ed022fdcba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 35/48] fix: a closed LazyStream still gives its leftover bytes

---
 request_parser/utils/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 6fcb080..05e0c4d 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -449,10 +449,10 @@ class LazyStream:
         """
         Used to invalidate/disable this lazy stream.
 
-        Replace the producer with an empty list. Any leftover bytes that have
+        Replace the producer with an empty iterator. Any leftover bytes that have
         already been read will still be reported upon read() and/or next().
         """
-        self._producer = []
+        self._producer = iter([])
 
     def __iter__(self):
         return self
-- 
2.43.0


From 57721cf7df444c8c150e1e815441f7a8befe0cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:15 +0000
Subject: [PATCH 36/48] fix: convert keys and values given to
 QueryDict.update() and setlistdefault()

---
 request_parser/http/request.py         | 1 +
 request_parser/utils/datastructures.py | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index c3953f1..445d7db 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -734,6 +734,7 @@ class QueryDict(MultiValueDict):
 
     def setlistdefault(self, key, default_list=None):
         self._assert_mutable()
+        key = bytes_to_text(key, self.encoding)
         return super(QueryDict, self).setlistdefault(key, default_list)
 
     def appendlist(self, key, value):
diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 05e0c4d..7e89b6d 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -205,7 +205,9 @@ class MultiValueDict(dict):
                 #then for each (key, value_list) tuple,
                 for key, value_list in other_dict.lists():
                     #the existing one is extended
-                    self.setlistdefault(key).extend(value_list)
+                    self.setlistdefault(key)
+                    for value in list(value_list):
+                        self.appendlist(key, value)
             #if its not a MultiValueDict,
             else:
                 #then assuming it's some dictionary, it's iterated upon
@@ -215,7 +217,7 @@ class MultiValueDict(dict):
                         #the existing one is /appended/ since we don't know
                         #the type of the value, we can only append and not
                         #extend
-                        self.setlistdefault(key).append(value)
+                        self.appendlist(key, value)
                 #if our assumption of other_dict being another dictionary
                 #is wrong
                 except TypeError:
@@ -225,7 +227,7 @@ class MultiValueDict(dict):
         for key, value in kwargs.items():
             #the value for each key is /appended/ since we don't know if value
             #will be another list
-            self.setlistdefault(key).append(value)
+            self.appendlist(key, value)
 
     def dict(self):
         """Return current object as a dict with singular values."""
-- 
2.43.0


From c236a31b5c324da92d66a6f77e095a3a12f7b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:15 +0000
Subject: [PATCH 37/48] fix: refuse QueryDict.update() without items when
 immutable

---
 request_parser/http/request.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 445d7db..58585d7 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -743,6 +743,10 @@ class QueryDict(MultiValueDict):
         value = bytes_to_text(value, self.encoding)
         super(QueryDict, self).appendlist(key, value)
 
+    def update(self, *args, **kwargs):
+        self._assert_mutable()
+        super(QueryDict, self).update(*args, **kwargs)
+
     def pop(self, key, *args):
         self._assert_mutable()
         return super(QueryDict, self).pop(key, *args)
-- 
2.43.0


From 479b39256dfe068fd9f25f78f1f3414d2d2df31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:14 +0000
Subject: [PATCH 38/48] fix: is_safe_url ignores tabs and line ends as browsers
 do

---
 request_parser/utils/http.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index b8d251f..eae724a 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -290,7 +290,8 @@ def is_safe_url(url, allowed_hosts, require_https=False):
         except UnicodeDecodeError:
             return False
     if url is not None:
-        url = url.strip()
+        # Browsers ignore tabs and line ends anywhere in a URL.
+        url = re.sub('[\t\r\n]', '', url.strip())
     if not url:
         return False
     if allowed_hosts is None:
-- 
2.43.0


From a20fbd59e0e3d460dbe4122341620c09566b5523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:33 +0000
Subject: [PATCH 39/48] fix: urlencode takes unicode values as texts, not as
 sequences of characters

---
 request_parser/utils/http.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index eae724a..a28e659 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -98,7 +98,7 @@ def urlencode(query, doseq=False):
                 'Cannot encode None in a query string. Did you mean to pass '
                 'an empty string or omit the value?'
             )
-        elif isinstance(value, (str, bytes)):
+        elif isinstance(value, basestring):
             query_val = value
         else:
             try:
@@ -115,7 +115,7 @@ def urlencode(query, doseq=False):
                             'Cannot encode None in a query string. Did you '
                             'mean to pass an empty string or omit the value?'
                         )
-                    elif not isinstance(item, bytes):
+                    elif not isinstance(item, basestring):
                         item = str(item)
                     query_val.append(item)
         query_params.append((key, query_val))
-- 
2.43.0


From 6c59690be611578f7ff962881f08225e0a98f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 40/48] fix: a closed temporary upload does not open the file
 its client named

---
 request_parser/files/uploadedfile.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 159f2eb..d4c46ba 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -79,6 +79,14 @@ class TemporaryUploadedFile(UploadedFile, object):
         """Return the full path of this file."""
         return self.file.name
 
+    def open(self, mode=None):
+        # Once closed the file is gone, and its name, which the client chose,
+        # is not a path to open instead.
+        if self.closed:
+            raise ValueError("The file cannot be reopened.")
+        self.seek(0)
+        return self
+
     def close(self):
         try:
             return self.file.close()
-- 
2.43.0


From ed56b6bdfe37d7e5388c1dba961f85c294c6bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:06 +0000
Subject: [PATCH 41/48] fix: escape_leading_slashes takes text outside ASCII

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index a28e659..e33c247 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -444,5 +444,5 @@ def escape_leading_slashes(url):
     redirecting to another host.
     """
     if url.startswith('//'):
-        url = '/%2F{}'.format(url[2:])
+        url = '/%2F' + url[2:]
     return url
-- 
2.43.0


From 5ef2c45fefe04edc8c04b99e8829fca33f92b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:53 +0000
Subject: [PATCH 42/48] fix: several settings can check one upload directory at
 a time

---
 request_parser/conf/settings.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index b87cf29..c1493f8 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -1,5 +1,6 @@
 from os.path import normpath, isdir, join, isabs
 from os import errno, mkdir, remove
+from uuid import uuid4
 from request_parser.files.utils import get_abs_path
 
 class InvalidDirectory(Exception):
@@ -133,9 +134,15 @@ class Settings:
             try:
                 #check if directory exists if not create
                 if not isdir(file_upload_dir):
-                    mkdir(file_upload_dir)
+                    try:
+                        mkdir(file_upload_dir)
+                    except OSError as osError:
+                        #it may have been created in the meantime
+                        if osError.errno != errno.EEXIST or not isdir(file_upload_dir):
+                            raise
                             
-                test_file_path = join(file_upload_dir, "acdr423x.tmp")        
+                #a name of its own: others may check the same directory
+                test_file_path = join(file_upload_dir, "acdr423x.%s.tmp" % uuid4().hex)
                 test_file = open(test_file_path, "w+")
                 test_file.write("Permissions Check!")
                 test_file.close()
-- 
2.43.0


From 3ea3b0509dda60c7a5d8474e4fa005144704912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 43/48] fix: a host ending in a line feed is not a valid host

---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 58585d7..d5f4fe8 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -21,7 +21,7 @@ from six import reraise as raise_
 
 RAISE_ERROR = object()
 #validates a given string for a format of the form host:port
-host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?$")
+host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?\Z")
 
 class UnreadablePostError(IOError):
     pass
-- 
2.43.0


From 2f28d9e0d769adab5e8bccae9c94636f19acb4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 44/48] fix: a date followed by a line feed is not a valid HTTP
 date

---
 request_parser/utils/http.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index e33c247..8bcf4af 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -36,9 +36,9 @@ __M = r'(?P<mon>\w{3})'
 __Y = r'(?P<year>\d{4})'
 __Y2 = r'(?P<year>\d{2})'
 __T = r'(?P<hour>\d{2}):(?P<min>\d{2}):(?P<sec>\d{2})'
-RFC1123_DATE = re.compile(r'^\w{3}, %s %s %s %s GMT$' % (__D, __M, __Y, __T))
-RFC850_DATE = re.compile(r'^\w{6,9}, %s-%s-%s %s GMT$' % (__D, __M, __Y2, __T))
-ASCTIME_DATE = re.compile(r'^\w{3} %s %s %s %s$' % (__M, __D2, __T, __Y))
+RFC1123_DATE = re.compile(r'^\w{3}, %s %s %s %s GMT\Z' % (__D, __M, __Y, __T))
+RFC850_DATE = re.compile(r'^\w{6,9}, %s-%s-%s %s GMT\Z' % (__D, __M, __Y2, __T))
+ASCTIME_DATE = re.compile(r'^\w{3} %s %s %s %s\Z' % (__M, __D2, __T, __Y))
 
 RFC3986_GENDELIMS = ":/?#[]@"
 RFC3986_SUBDELIMS = "!$&'()*+,;="
-- 
2.43.0


From 3ca6069e0ac26dd4a4cba3dcf2a67e06787ddf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 45/48] fix: escaped quotes do not end a quoted header
 parameter

---
 request_parser/http/multipartparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 21d0250..927beb8 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -614,6 +614,10 @@ def parse_header(line):
             pdict[name] = value
     return key, pdict
 
+def _count_quotes(s):
+    # escaped quotes neither open nor close a quoted value
+    return s.replace(b'\\\\', b'').replace(b'\\"', b'').count(b'"')
+
 def _parse_header_params(s):
     plist = []
 
@@ -634,7 +638,7 @@ def _parse_header_params(s):
         #that doesn't have " within its boundary
         #once such a sequence is found, it hopefully
         #is of the form 'boundary=------12312312312312'
-        while end > 0 and s.count(b'"', 0, end) % 2:
+        while end > 0 and _count_quotes(s[:end]) % 2:
             end = s.find(b';', end + 1)
         if end < 0:
             end = len(s)
-- 
2.43.0


From f845d42f58cc3589449e6707db13be1bfe373900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 46/48] fix: treat a data limit of None as no limit when the
 body is read

---
 request_parser/http/request.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index d5f4fe8..904e5e5 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -396,13 +396,15 @@ class HttpRequest(object,):
 
             #default chunk_size is 64KB
             chunk_size = 64 * (2 ** 10)
+            #None stands for no limit
+            limit = self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE
             read_size = 0
             chunk = ''
             _body = ''
             try:                
                 chunk = self.read(chunk_size)
                 read_size += len(chunk)
-                while read_size <= self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE and\
+                while (limit is None or read_size <= limit) and\
                         chunk:
                     _body += chunk
                     chunk = self.read(chunk_size)
@@ -410,7 +412,7 @@ class HttpRequest(object,):
             except IOError as e:
                 raise_(UnreadablePostError, UnreadablePostError(*e.args), sys.exc_info()[2])
             
-            if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
+            if limit is not None and read_size > limit:
                 #don't let a later call mistake the rest for the body
                 self._stream.unget(_body + chunk)
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
-- 
2.43.0


From 6ff9b54e043333a570e610acf5556ab935d32477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 47/48] fix: a limit of 0 parameters is a limit, not the
 absence of one

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 8bcf4af..43be0fb 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -405,7 +405,7 @@ def limited_parse_qsl(qs, keep_blank_values=False, encoding='utf-8',
     fields_limit: maximum number of fields parsed or an exception
         is raised. None means no limit and is the default.
     """
-    if fields_limit:
+    if fields_limit is not None and qs:
         pairs = FIELDS_MATCH.split(qs, fields_limit)
         if len(pairs) > fields_limit:
             raise TooManyFieldsSent(
-- 
2.43.0


From 4bd93aa1160b53c199aedcff1b0500bee72dd887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 48/48] fix: a boundary ending in a line feed is not a valid
 boundary

---
 request_parser/http/multipartparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 927beb8..02feb24 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -66,7 +66,8 @@ class MultiPartParser:
         # Parse the header to get the boundary to split the parts.
         content_types, opts = parse_header(content_type)
         boundary = opts.get('boundary')
-        if not boundary or not cgi.valid_boundary(boundary):
+        # the pattern behind valid_boundary() tolerates a line feed at the end
+        if not boundary or not cgi.valid_boundary(boundary) or boundary.endswith('\n'):
             raise MultiPartParserError('Invalid boundary in multipart: %r' % (boundary,))
 
         # Content-Length should contain the length of the body we are about
-- 
2.43.0

