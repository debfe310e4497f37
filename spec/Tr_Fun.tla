---- MODULE Tr_Fun ----
(* Functions without state: every recorded call against its meaning. *)
EXTENDS Safe, Codec, Uri, Params, HeaderValue, Names, Url, TrBase

Init == TrInit(LAMBDA k : 0)
Judge(bad) == TrTake(Q(bad, st))
NoErr(clause) == If(Obs.err # "", clause \o ".err:" \o Obs.err)
Good(clause, bad) == IF Obs.err # "" THEN NoErr(clause) ELSE bad
None(x) == x = <<-1>>
Text(x) == IF Op.bytes THEN U8From(x, 1, <<>>) ELSE x

(* ---- C22 ---- *)
Hosts == {Text(Op.hosts[i]) : i \in 1..Len(Op.hosts)}
SafeWant == ~None(Op.u) /\ (Op.bytes => U8ValidFrom(Op.u, 1)) /\ SafeUrl(TLCEval(Text(Op.u)), Hosts, Op.https)
TrSafe == IsOp("safe") /\ Judge(Good("safe", If(Obs.ret /\ ~SafeWant, "safe.accepted") \cup If(~Obs.ret /\ SafeWant, "safe.refused")))
DomainWant == ~None(Op.pattern) /\ SameDomain(Op.host, Op.pattern)
TrDomain == IsOp("domain") /\ Judge(Good("domain", If(Obs.ret /\ ~DomainWant, "domain.accepted") \cup If(~Obs.ret /\ DomainWant, "domain.refused")))
TrLeading == IsOp("leading") /\ Judge(Good("leading", If(Obs.val # EscapeLeading(Op.u), "leading") \cup If(StartsWith(Obs.val, <<47, 47>>), "leading.relative")))

(* ---- C25 ---- *)
IriWant(x) == IF None(x) THEN x ELSE IF Op.bytes THEN IriBytesToUri(x) ELSE IriToUri(x)
TrIri == IsOp("iri") /\ Judge(Good("iri", If(Obs.val # IriWant(Op.u), "iri")))
TrUri == IsOp("uri") /\ Judge(Good("uri", If(Obs.val # (IF None(Op.u) THEN Op.u ELSE EncodeU8(UriToIri(Op.u))), "uri")))
Bytes8 == IF Op.bytes THEN Op.u ELSE EncodeU8(Op.u)
TrEsc == IsOp("esc") /\ Judge(Good("esc", If(Obs.val # QuoteBytes(Bytes8, IF Op.pct THEN SafePath ELSE SafePath \cup {37}), "esc")))
SetTo == IF ~Op.set THEN Op.path ELSE IF Op.enc THEN QuoteBytes(Bytes8, SafePath \cup {37}) ELSE Bytes8
FullB(sl) == QuoteBytes(SetTo, SafePath \cup {37}) \o (IF sl /\ ~EndsWith(SetTo, <<47>>) THEN <<47>> ELSE <<>>)
             \o (IF Op.query # <<>> THEN <<63>> \o QuoteBytes(Op.query, SafeIri) ELSE <<>>)
RawB(sl) == EncodeU8(UriToIri(FullB(sl)))
TrPath == IsOp("path") /\ Judge(Good("path",
            If(Obs.full # FullB(FALSE), "path.full") \cup If(Obs.slash # FullB(TRUE), "path.slash")
            \cup If(Obs.raw # RawB(FALSE), "path.raw") \cup If(Obs.rawslash # RawB(TRUE), "path.rawslash")
            \cup If(Obs.uri # FullUri(Op.scheme, Op.host, FullB(FALSE)), "path.uri")
            \cup If(Obs.rawuri # FullUri(Op.scheme, Op.host, RawB(FALSE)), "path.rawuri")))
Quoted(x) == CASE Op.f = "q" -> QuoteBytes(Bytes8, {47}) [] Op.f = "qp" -> QuotePlus(Bytes8)
               [] Op.f = "u" -> UnquoteText(x, "utf8") [] Op.f = "up" -> UnquoteText(Plus(x), "utf8")
TrQuote == IsOp("quote") /\ Judge(Good("quote", If(Obs.val # Quoted(Op.u), "quote." \o Op.f)))

(* ---- C24 ---- *)
MapOf(m) == {<<m[i][1], m[i][2]>> : i \in {x \in 1..Len(m) : m[x][2] # <<>>}}
Escapes(s, k) == s[k] = 37 /\ k + 2 <= Len(s) /\ IsHex(s[k + 1]) /\ IsHex(s[k + 2])
Coded(s) == {16 * HexVal(s[k + 1]) + HexVal(s[k + 2]) : k \in {x \in 1..Len(s) : Escapes(s, x)}}
SafeSet == {Op.safe[i] : i \in 1..Len(Op.safe)}
TrQd == IsOp("qd") /\ Judge(Good("qd",
            If(~IsAscii(Obs.val), "qd.ascii")
            \cup If(MapOf(Obs.kept) # MapOf(Op.map), "qd.kept")
            \cup If(IsAscii(Obs.val) /\ Grouped(ParamsOf(Obs.val, Op.cs, -1).pairs) # MapOf(Op.map), "qd.encoded")
            \cup If(MapOf(Obs.back) # MapOf(Op.map), "qd.back")
            \cup If(Coded(Obs.val) \cap SafeSet # {}, "qd.safe")))
FirstWant == Grouped(IF Op.bytes THEN ParamsOf(Op.u, Op.cs, -1).pairs
                     ELSE LET fs == SelectSeq(FieldsOf(Op.u), LAMBDA f : f # <<>>) IN [i \in 1..Len(fs) |-> PairOf(fs[i], Op.cs)])
Representable(g) == \A x \in g : EncodableIn(x[1], Op.cs) /\ \A i \in 1..Len(x[2]) : EncodableIn(x[2][i], Op.cs)
TrReparse == IsOp("reparse") /\ LET w == TLCEval(FirstWant) IN
    Judge(IF Obs.err # "" /\ ~(Obs.err = "Encode" /\ ~Representable(w)) THEN NoErr("reparse")
          ELSE If(MapOf(Obs.first) # w, "reparse.first")
               \cup (IF Obs.err # "" THEN {} ELSE If(~IsAscii(Obs.val), "reparse.ascii") \cup If(MapOf(Obs.second) # w, "reparse.second")))
HasNone == \E i \in 1..Len(Op.entries) : \E j \in 1..Len(Op.entries[i][3]) : Op.entries[i][3][j][1] = "none"
AtomText(a) == IF a[1] = "bytes" THEN U8From(a[2], 1, <<>>) ELSE IF a[1] = "true" THEN <<84, 114, 117, 101>> ELSE a[2]
PairsOf(e) == [j \in 1..Len(e[3]) |-> <<AtomText(e[1]), AtomText(e[3][j])>>]
WantPairs == Flatten([i \in 1..Len(Op.entries) |-> PairsOf(Op.entries[i])])
TrMenc == IsOp("menc") /\ Judge(
    IF HasNone THEN If(Obs.err # "TypeError", "menc.none:" \o Obs.err)
    ELSE Good("menc", IF ~IsAscii(Obs.val) THEN {"menc.ascii"}
         ELSE LET got == TLCEval(ParamsOf(Obs.val, "utf8", -1).pairs) IN
              If(Grouped(got) # Grouped(WantPairs), "menc.pairs") \cup If(Op.what = "pairs" /\ got # WantPairs, "menc.order")))

(* ---- C27 ---- *)
TrB36Enc == IsOp("b36enc") /\ Judge(IF Op.n[1] = 45 THEN If(Obs.err # "ValueError", "b36.negative:" \o Obs.err) ELSE Good("b36", If(~B36Text(Obs.val, Op.n), "b36.text")))
TrB36Dec == IsOp("b36dec") /\ Judge(IF B36Refused(Op.s) THEN If(Obs.err # "ValueError", "b36.junk:" \o Obs.err) ELSE Good("b36", If(Obs.val # ToDecimal(Op.s), "b36.value")))
TrB64Enc == IsOp("b64enc") /\ Judge(Good("b64", If(~B64UText(Obs.val, Op.b), "b64.text")))
TrB64Dec == IsOp("b64dec") /\ Judge(IF ~B64UOk(Op.s) THEN If(Obs.err # "ValueError", "b64.junk:" \o Obs.err) ELSE Good("b64", If(Obs.val # B64UDecode(Op.s), "b64.value")))
TrDate == IsOp("date") /\ Judge(Good("date", If(Obs.val # HttpDate(Op.days, Op.sec), "date.text")))
TrPDate == IsOp("pdate") /\ LET w == TLCEval(ParseDate(Op.s)) IN
    Judge(IF ~w.ok THEN (IF Op.safe THEN Good("date", If(~Obs.none, "date.junk")) ELSE If(Obs.err # "ValueError", "date.junk:" \o Obs.err))
          ELSE Good("date", If(Obs.none \/ Obs.days # w.days \/ Obs.sec # w.sec, "date.value")))
TrETags == IsOp("etags") /\ Judge(Good("etags", If(Obs.vals # ParseTags(Op.s), "etags")))
TrQTag == IsOp("qtag") /\ Judge(Good("qtag", If(Obs.val # QuoteTag(Op.s), "qtag")))

(* ---- C29 ---- *)
TrHeader == IsOp("phead") /\ LET w == TLCEval(HeaderValue(Op.s)) IN
    Judge(Good("header", If(Obs.main # w.main, "header.main")
                         \cup If(Len(Obs.params) # Len(w.params) \/ {Obs.params[i][1] : i \in 1..Len(Obs.params)} # {w.params[i][1] : i \in 1..Len(w.params)}, "header.names")
                         \cup If({Obs.params[i] : i \in 1..Len(Obs.params)} # ParamSet(w.params), "header.values")))
TrPort == IsOp("port") /\ Judge(Good("port", If(<<Obs.host, Obs.port>> # SplitPort(Op.s), "port")))
TrEntities == IsOp("ent") /\ Judge(Good("entity", If(Obs.val # UnescapeEntities(Op.s), "entity")))
QslWant == LET fs == FieldsOf(Op.s)
               ne == SelectSeq(fs, LAMBDA f : f # <<>> /\ (Op.blank \/ LET e == FindByte(f, 61, 1) IN e # 0 /\ e < Len(f)))
           IN IF Op.limit >= 0 /\ Op.s # <<>> /\ Len(fs) > Op.limit THEN [err |-> "TooMany", pairs |-> <<>>]
              ELSE [err |-> "", pairs |-> [i \in 1..Len(ne) |-> PairOf(ne[i], Op.cs)]]
TrQsl == IsOp("qsl") /\ LET w == TLCEval(QslWant) IN
    Judge(If(Obs.err # w.err, "qsl.err:" \o Obs.err) \cup If(Obs.err = "" /\ Obs.pairs # w.pairs, "qsl.pairs"))

Next == TrHeader \/ TrPort \/ TrEntities \/ TrQsl \/ TrSafe \/ TrDomain \/ TrLeading \/ TrIri \/ TrUri \/ TrEsc \/ TrPath \/ TrQuote \/ TrQd \/ TrReparse \/ TrMenc
        \/ TrB36Enc \/ TrB36Dec \/ TrB64Enc \/ TrB64Dec \/ TrDate \/ TrPDate \/ TrETags \/ TrQTag \/ TrEnd
Spec == Init /\ [][Next]_trvars
====
