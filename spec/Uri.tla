---- MODULE Uri ----
(* IRIs, URIs and the path a request reports. *)
EXTENDS Bytes

SafePath == {47, 58, 64, 38, 43, 36, 44, 45, 95, 46, 33, 126, 42, 39, 40, 41}
SafeIri  == {47, 35, 37, 91, 93, 61, 58, 59, 36, 38, 40, 41, 43, 44, 33, 63, 42, 64, 39, 126}

IriToUri(t) == QuoteBytes(EncodeU8(t), SafeIri)            \* t: text
IriBytesToUri(b) == QuoteBytes(b, SafeIri)                 \* b: UTF-8 bytes
UriToIri(u) == UnquoteText(u, "utf8")                      \* text; given back UTF-8 encoded by the library
EscapePath(p) == QuoteBytes(EncodeU8(p), SafePath)
EscapePathKeep(p) == QuoteBytes(EncodeU8(p), SafePath \cup {37})

FullPath(path, query, slash) ==
    EscapePathKeep(path)
    \o (IF slash /\ ~EndsWith(path, <<47>>) THEN <<47>> ELSE <<>>)
    \o (IF query # <<>> THEN <<63>> \o IriToUri(query) ELSE <<>>)
FullPathRaw(path, query, slash) == EncodeU8(UriToIri(FullPath(path, query, slash)))
FullUri(scheme, host, fp) == scheme \o sSchemeSep \o host \o fp
EscapeLeading(u) == IF StartsWith(u, <<47, 47>>) THEN pct2F \o From(u, 3) ELSE u
====
