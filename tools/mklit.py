#!/usr/bin/env python3
"""Writes spec/Lit.tla: named byte-string constants (TLA+ strings are not sequences of integers in TLC)."""
import os
L = dict(
    CRLF="\r\n", CR1="\r", LF1="\n", CRLFCRLF="\r\n\r\n", DASHES="--",
    kHost="Host", kContentType="Content-Type", kContentLength="Content-Length", kXRW="X-Requested-With",
    vXHR="XMLHttpRequest",
    sHttp="http", sHttps="https", sUNKNOWN="UNKNOWN", p80="80", p443="443", p65536="65536", sSchemeSep="://",
    kCD="content-disposition", kCTE="content-transfer-encoding", kCT="content-type",
    kName="name", kFilename="filename", kPCL="content-length", kCharset="charset", kBoundary="boundary", vBase64="base64",
    vMultipart="multipart/", vFormData="multipart/form-data", vUrlenc="application/x-www-form-urlencoded",
    vPlain="text/plain", eUtf8="utf-8", eUtf8b="utf8", eLatin1="iso-8859-1", eLatin1b="latin-1", eLatin1c="latin1",
    eAscii="us-ascii", eAsciib="ascii", eHex="hex", eBase64="base64", eZlib="zlib", eBogus="x-bogus",
    sUpload=".upload", sNameless="<HttpRequest>", sNamed="<HttpRequest: ", pct2F="/%2F", sPoked="poked", sYes="yes",
)
MP = ("--B\r\nContent-Disposition: form-data; name=\"f\"\r\n\r\nv\r\n--B\r\nContent-Disposition: form-data; name=\"u\"; filename=\"n.t\"\r\n\r\n"
      "data\r\n--B--\r\n")
L.update(
    xForm="POST /p?q=%C3%A9 HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded; charset=utf-8\r\n\r\na=%C3%A9&b=1",
    xMulti="POST /m HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: %d\r\n\r\n" % len(MP) + MP,
    xText="PUT /t?z=%E9 HTTP/1.1\r\nHost: h\r\nContent-Type: text/plain\r\n\r\nx\xe9\ny",
    xBad="GET / HTTP/1.1\r\nnocolon\r\n\r\nrest",
    xGet="GET http://g:8/g?a=1&a=2 HTTP/1.0\r\nX: y\r\n\r\n",
    xEmptyForm="POST /e HTTP/1.1\r\nHost: e\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\n",
    xFailHead="POST /p HTTP/1.1\r\nHost: h\r\nCont",
    bForm="c=%C3%A9&c=2", bMulti=MP.replace("v", "w").replace("data", "DATA!"), bText="l1\nl2",
)
CD = "--B\r\nContent-Disposition: form-data; name=\"%s\""
L.update(hBody=CD % "f" + "; filename=\"n\"\r\n\r\nab\r\n" + CD % "x" + "\r\n\r\nv\r\n" + CD % "g" + "; filename=\"m\"\r\n\r\nc\r\n--B--\r\n",
         hType="multipart/form-data; boundary=B")
SCH = ['ftp', 'hdl', 'prospero', 'http', 'imap', 'https', 'shttp', 'rtsp', 'rtspu', 'sip', 'sips', 'mms', '', 'sftp', 'tel']
import html.entities
ENT = html.entities.name2codepoint          # those of HTML 4, as in the library
def t(s): return "<<" + ", ".join(str(ord(c)) for c in s) + ">>"
out = ["---- MODULE Lit ----", "(* Generated by tools/mklit.py: named byte strings. *)", "LOCAL INSTANCE Integers"]
for k, v in L.items(): out.append("%s == %s  \\* %r" % (k, t(v), v))
out.append("UsesParams == {" + ", ".join(t(s) for s in SCH) + "}")
out.append("Entities == {" + ", ".join("<<%s, %d>>" % (t(k), v) for k, v in ENT.items() if v >= 0) + "}")
out.append("====")
open(os.path.join(os.path.dirname(__file__), "..", "spec", "Lit.tla"), "w").write("\n".join(out) + "\n")
