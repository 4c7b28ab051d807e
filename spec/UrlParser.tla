------------------------------ MODULE UrlParser ------------------------------
(***************************************************************************)
(* The basic URL parser as an explicit state machine.                      *)
(*                                                                         *)
(* A machine m = [st, i, url, errs, fail]: parser state, pointer (1-based), *)
(* the URL record being built, the validation errors reported so far, and  *)
(* the failure class.  One action per visit to a parser state, which       *)
(* consumes a maximal run of code points (the granularity of the           *)
(* implementation).  Step is the transition function; Run its closure.     *)
(*                                                                         *)
(* x = [inp, base, ovr, enc, env]: input after stripping, base URL         *)
(* (optional), state override ("" = none), encoding, IDNA environment.     *)
(***************************************************************************)
EXTENDS Host

EmptyURL == [scheme |-> <<>>, user |-> <<>>, pass |-> <<>>, host |-> NullHost,
             port |-> -1, opq |-> FALSE, path |-> <<>>, query |-> <<>>,
             frag |-> <<>>]

sFtp == S("ftp")   sFile == S("file")  sHttp == S("http")
sHttps == S("https") sWs == S("ws")    sWss == S("wss")  sBlob == S("blob")
SpecialSchemes == {sFtp, sFile, sHttp, sHttps, sWs, sWss}
DefaultPort(sch) == CASE sch = sFtp -> 21
                      [] sch \in {sHttp, sWs} -> 80
                      [] sch \in {sHttps, sWss} -> 443
                      [] OTHER -> -2
IsSpecialScheme(sch) == Len(sch) \in {2, 3, 4, 5} /\ sch \in SpecialSchemes
Special(u) == IsSpecialScheme(u.scheme)
HasCreds(u) == Len(u.user) > 0 \/ Len(u.pass) > 0
HostEmptyOrNull(u) == u.host.k = "none" \/ (u.host.k = "str" /\ Len(u.host.v) = 0)
CannotHaveCreds(u) == HostEmptyOrNull(u) \/ u.scheme = sFile

SchemeChars == (48..57) \cup (65..90) \cup (97..122) \cup {43, 45, 46}
NotSchemeScan(s, i) ==
  LET k == SelectInSubSeq(s, i, Len(s), LAMBDA c : c \notin SchemeChars)
  IN  IF k = 0 THEN Len(s) + 1 ELSE k

LocalHost == StrHost(S("localhost"))
sNull == S("null")   sColonSlash2 == S("://")

(*--------------------------- Windows drive letters ------------------------*)
IsDrive(s) == Len(s) = 2 /\ IsAlpha(s[1]) /\ s[2] \in {cCOLON, cBAR}
IsNormDrive(s) == Len(s) = 2 /\ IsAlpha(s[1]) /\ s[2] = cCOLON
StartsWithDrive(s, i) ==
  /\ i + 1 <= Len(s) /\ IsAlpha(s[i]) /\ s[i + 1] \in {cCOLON, cBAR}
  /\ i + 2 > Len(s) \/ s[i + 2] \in {cSL, cBS, cQ, cHASH}

(*--------------------------- dot segments ---------------------------------*)
SingleDots == {S("."), S("%2e"), S("%2E")}
DoubleDots == {S(".."), S(".%2e"), S(".%2E"), S("%2e."), S("%2E."),
               S("%2e%2e"), S("%2e%2E"), S("%2E%2e"), S("%2E%2E")}
MaybeDots(s) == Len(s) \in 1..6 /\ (s[1] = cDOT \/ s[1] = cPCT)
IsSingleDot(s) == MaybeDots(s) /\ s \in SingleDots
IsDoubleDot(s) == MaybeDots(s) /\ s \in DoubleDots

Shorten(u) ==
  IF Len(u.path) = 0 THEN u
  ELSE IF u.scheme = sFile /\ Len(u.path) = 1 /\ IsNormDrive(u.path[1]) THEN u
  ELSE [u EXCEPT !.path = SubSeq(@, 1, Len(@) - 1)]

(*--------------------------- machine helpers ------------------------------*)
Machine(st, u) == [st |-> st, i |-> 1, url |-> u, errs |-> <<>>, fail |-> ""]
Goto(m, st, i) == [m EXCEPT !.st = st, !.i = i]
GotoU(m, st, i, u) == [m EXCEPT !.st = st, !.i = i, !.url = u]
Err(m, e) == [m EXCEPT !.errs = Append(@, e)]
ErrN(m, e, n) == IF n = 0 THEN m ELSE [m EXCEPT !.errs = @ \o Copies(e, n)]
Fail(m, cls) == [m EXCEPT !.st = "fail", !.fail = cls]
Done(m) == [m EXCEPT !.st = "done"]

NonEmptyQ == <<<<>>>>          \* query/fragment present and empty

Slash2(x, i) == Ch(x.inp, i) = cSL /\ Ch(x.inp, i + 1) = cSL

(*--------------------------- the actions -----------------------------------*)
SchemeStart(x, m) ==
  IF IsAlpha(Ch(x.inp, m.i)) THEN Goto(m, "scheme", m.i)
  ELSE IF x.ovr = "" THEN Goto(m, "no scheme", m.i)
  ELSE Fail(m, "URLParseError")

Scheme(x, m) ==
  LET j == NotSchemeScan(x.inp, m.i)
      buf == Lower(SubSeq(x.inp, m.i, j - 1))
      u == m.url
      u1 == [u EXCEPT !.scheme = buf]
      bspecial == IsSpecialScheme(buf)
  IN
  IF Ch(x.inp, j) # cCOLON THEN
    IF x.ovr = "" THEN Goto(m, "no scheme", m.i) ELSE Fail(m, "URLParseError")
  ELSE IF x.ovr # "" THEN
    IF \/ Special(u) # bspecial
       \/ (HasCreds(u) \/ u.port # -1) /\ buf = sFile
       \/ u.scheme = sFile /\ HostEmptyOrNull(u)
    THEN Done(m)
    ELSE Done([m EXCEPT !.url =
           IF u.port # -1 /\ u.port = DefaultPort(buf)
           THEN [u1 EXCEPT !.port = -1] ELSE u1])
  ELSE IF buf = sFile THEN
    GotoU(IF Slash2(x, j + 1) THEN m
          ELSE Err(m, "special-scheme-missing-following-solidus"),
          "file", j + 1, u1)
  ELSE IF bspecial /\ Len(x.base) = 1 /\ x.base[1].scheme = buf
  THEN GotoU(m, "special relative or authority", j + 1, u1)
  ELSE IF bspecial THEN GotoU(m, "special authority slashes", j + 1, u1)
  ELSE IF Ch(x.inp, j + 1) = cSL THEN GotoU(m, "path or authority", j + 2, u1)
  ELSE GotoU(m, "opaque path", j + 1, [u1 EXCEPT !.opq = TRUE, !.path = <<<<>>>>])

NoScheme(x, m) ==
  LET c == Ch(x.inp, m.i) IN
  IF Len(x.base) = 0 \/ (x.base[1].opq /\ c # cHASH)
  THEN Fail(Err(m, "missing-scheme-non-relative-URL"), "URLParseError")
  ELSE LET b == x.base[1] IN
    IF b.opq THEN
      GotoU(m, "fragment", m.i + 1,
        [m.url EXCEPT !.scheme = b.scheme, !.opq = TRUE, !.path = b.path,
                      !.query = b.query, !.frag = NonEmptyQ])
    ELSE IF b.scheme # sFile THEN Goto(m, "relative", m.i)
    ELSE Goto(m, "file", m.i)

SpecialRelOrAuth(x, m) ==
  IF Slash2(x, m.i) THEN Goto(m, "special authority ignore slashes", m.i + 2)
  ELSE Goto(Err(m, "special-scheme-missing-following-solidus"), "relative", m.i)

PathOrAuth(x, m) ==
  IF Ch(x.inp, m.i) = cSL THEN Goto(m, "authority", m.i + 1)
  ELSE Goto(m, "path", m.i)

Relative(x, m) ==
  LET b == x.base[1]
      c == Ch(x.inp, m.i)
      u0 == [m.url EXCEPT !.scheme = b.scheme]
      u1 == [u0 EXCEPT !.user = b.user, !.pass = b.pass, !.host = b.host,
                       !.port = b.port, !.path = b.path, !.query = b.query]
  IN
  IF c = cSL THEN GotoU(m, "relative slash", m.i + 1, u0)
  ELSE IF Special(u0) /\ c = cBS
  THEN GotoU(Err(m, "invalid-reverse-solidus"), "relative slash", m.i + 1, u0)
  ELSE IF c = cQ THEN GotoU(m, "query", m.i + 1, [u1 EXCEPT !.query = NonEmptyQ])
  ELSE IF c = cHASH THEN GotoU(m, "fragment", m.i + 1, [u1 EXCEPT !.frag = NonEmptyQ])
  ELSE IF c # EOFC
  THEN GotoU(m, "path", m.i, Shorten([u1 EXCEPT !.query = <<>>]))
  ELSE Done([m EXCEPT !.url = u1])

RelativeSlash(x, m) ==
  LET b == x.base[1] c == Ch(x.inp, m.i) IN
  IF Special(m.url) /\ c \in {cSL, cBS}
  THEN Goto(IF c = cBS THEN Err(m, "invalid-reverse-solidus") ELSE m,
            "special authority ignore slashes", m.i + 1)
  ELSE IF c = cSL THEN Goto(m, "authority", m.i + 1)
  ELSE GotoU(m, "path", m.i,
         [m.url EXCEPT !.user = b.user, !.pass = b.pass, !.host = b.host,
                       !.port = b.port])

SpecialAuthSlashes(x, m) ==
  IF Slash2(x, m.i) THEN Goto(m, "special authority ignore slashes", m.i + 2)
  ELSE Goto(Err(m, "special-scheme-missing-following-solidus"),
            "special authority ignore slashes", m.i)

SpecialAuthIgnore(x, m) ==
  LET k == SelectInSubSeq(x.inp, m.i, Len(x.inp), LAMBDA c : c \notin {cSL, cBS})
      j == IF k = 0 THEN Len(x.inp) + 1 ELSE k
  IN  Goto(ErrN(m, "special-scheme-missing-following-solidus", j - m.i),
           "authority", j)

AuthEnd(u) == IF Special(u) THEN {cSL, cBS, cQ, cHASH} ELSE {cSL, cQ, cHASH}

Authority(x, m) ==
  LET e == ScanTo(x.inp, m.i, AuthEnd(m.url))
      at == SelectLastInSubSeq(x.inp, m.i, e - 1, LAMBDA c : c = cAT)
      cred == SubSeq(x.inp, m.i, at - 1)
      k == ScanTo(cred, 1, {cCOLON})
      u1 == [m.url EXCEPT
               !.user = @ \o PctEnc(SubSeq(cred, 1, k - 1), UserinfoSet),
               !.pass = @ \o PctEnc(SubSeq(cred, k + 1, Len(cred)), UserinfoSet)]
      m1 == ErrN([m EXCEPT !.url = u1], "invalid-credentials", CountC(cred, cAT) + 1)
  IN  IF e <= m.i \/ at = 0 THEN Goto(m, "host", m.i)
      ELSE IF at = e - 1 THEN Fail(Err(m1, "invalid-credentials"), "URLParseError")
      ELSE Goto(m1, "host", at + 1)

RECURSIVE HostEnd(_, _, _, _)
HostEnd(s, i, inBr, stop) ==
  IF i > Len(s) THEN i
  ELSE LET c == s[i] IN
       IF c = cCOLON /\ ~inBr THEN i
       ELSE IF c \in stop THEN i
       ELSE HostEnd(s, i + 1, IF c = cLB THEN TRUE ELSE IF c = cRB THEN FALSE ELSE inBr,
                    stop)

\* Apply a host parser result.
WithHost(m, r, K(_)) ==
  LET m1 == [m EXCEPT !.errs = @ \o r.errs]
  IN  IF r.ok THEN K(m1) ELSE Fail(m1, r.fail)

HostState(x, m) ==
  LET u == m.url
      j == HostEnd(x.inp, m.i, FALSE, AuthEnd(u))
      c == Ch(x.inp, j)
      buf == SubSeq(x.inp, m.i, j - 1)
      r == HostParse(buf, ~Special(u), x.env)
      Set(m1) == [m1 EXCEPT !.url = [u EXCEPT !.host = r.h]]
  IN
  IF x.ovr # "" /\ u.scheme = sFile THEN Goto(m, "file host", m.i)
  ELSE IF c = cCOLON THEN
    IF Len(buf) = 0 THEN Fail(Err(m, "host-missing"), "URLParseError")
    ELSE IF x.ovr = "hostname" THEN Done(m)
    ELSE WithHost(m, r, LAMBDA m1 : Goto(Set(m1), "port", j + 1))
  ELSE IF Special(u) /\ Len(buf) = 0
  THEN Fail(Err(m, "host-missing"), "URLParseError")
  ELSE IF x.ovr # "" /\ Len(buf) = 0 /\ (HasCreds(u) \/ u.port # -1) THEN Done(m)
  ELSE WithHost(m, r, LAMBDA m1 : IF x.ovr # "" THEN Done(Set(m1))
                                  ELSE Goto(Set(m1), "path start", j))

Port(x, m) ==
  LET k == SelectInSubSeq(x.inp, m.i, Len(x.inp), LAMBDA c : ~IsDigit(c))
      j == IF k = 0 THEN Len(x.inp) + 1 ELSE k
      c == Ch(x.inp, j)
      buf == SubSeq(x.inp, m.i, j - 1)
      p == SatVal(buf, 10, 65536)
      u1 == IF Len(buf) = 0 THEN m.url
            ELSE [m.url EXCEPT !.port = IF p = DefaultPort(m.url.scheme) THEN -1 ELSE p]
  IN
  IF c = EOFC \/ c \in AuthEnd(m.url) \/ x.ovr # "" THEN
    IF Len(buf) > 0 /\ p > 65535
    THEN Fail(Err(m, "port-out-of-range"), "URLParseError")
    ELSE IF x.ovr # "" THEN Done([m EXCEPT !.url = u1])
    ELSE GotoU(m, "path start", j, u1)
  ELSE Fail(Err(m, "port-invalid"), "URLParseError")

File(x, m) ==
  LET c == Ch(x.inp, m.i)
      u0 == [m.url EXCEPT !.scheme = sFile, !.host = EmptyHost]
      withBase == Len(x.base) = 1 /\ x.base[1].scheme = sFile
      b == x.base[1]
      u1 == [u0 EXCEPT !.host = b.host, !.path = b.path, !.query = b.query]
  IN
  IF c \in {cSL, cBS}
  THEN GotoU(IF c = cBS THEN Err(m, "invalid-reverse-solidus") ELSE m,
             "file slash", m.i + 1, u0)
  ELSE IF withBase THEN
    IF c = cQ THEN GotoU(m, "query", m.i + 1, [u1 EXCEPT !.query = NonEmptyQ])
    ELSE IF c = cHASH THEN GotoU(m, "fragment", m.i + 1, [u1 EXCEPT !.frag = NonEmptyQ])
    ELSE IF c = EOFC THEN Done([m EXCEPT !.url = u1])
    ELSE IF StartsWithDrive(x.inp, m.i)
    THEN GotoU(Err(m, "file-invalid-Windows-drive-letter"), "path", m.i,
               [u1 EXCEPT !.query = <<>>, !.path = <<>>])
    ELSE GotoU(m, "path", m.i, Shorten([u1 EXCEPT !.query = <<>>]))
  ELSE GotoU(m, "path", m.i, u0)

FileSlash(x, m) ==
  LET c == Ch(x.inp, m.i)
      withBase == Len(x.base) = 1 /\ x.base[1].scheme = sFile
      b == x.base[1]
      u1 == [m.url EXCEPT !.host = b.host]
      u2 == IF ~StartsWithDrive(x.inp, m.i) /\ Len(b.path) > 0 /\ IsNormDrive(b.path[1])
            THEN [u1 EXCEPT !.path = Append(@, b.path[1])] ELSE u1
  IN
  IF c \in {cSL, cBS}
  THEN Goto(IF c = cBS THEN Err(m, "invalid-reverse-solidus") ELSE m,
            "file host", m.i + 1)
  ELSE GotoU(m, "path", m.i, IF withBase THEN u2 ELSE m.url)

FileHost(x, m) ==
  LET j == ScanTo(x.inp, m.i, {cSL, cBS, cQ, cHASH})
      buf == SubSeq(x.inp, m.i, j - 1)
      r == HostParse(buf, ~Special(m.url), x.env)
      h == IF r.h = LocalHost THEN EmptyHost ELSE r.h
      After(m1, hh) == LET m2 == [m1 EXCEPT !.url.host = hh]
                       IN  IF x.ovr # "" THEN Done(m2) ELSE Goto(m2, "path start", j)
  IN
  IF x.ovr = "" /\ IsDrive(buf)
  THEN Goto(Err(m, "file-invalid-Windows-drive-letter-host"), "path", m.i)
  ELSE IF Len(buf) = 0 THEN After(m, EmptyHost)
  ELSE WithHost(m, r, LAMBDA m1 : After(m1, h))

PathStart(x, m) ==
  LET c == Ch(x.inp, m.i) IN
  IF Special(m.url)
  THEN Goto(IF c = cBS THEN Err(m, "invalid-reverse-solidus") ELSE m,
            "path", IF c \in {cSL, cBS} THEN m.i + 1 ELSE m.i)
  ELSE IF x.ovr = "" /\ c = cQ
  THEN GotoU(m, "query", m.i + 1, [m.url EXCEPT !.query = NonEmptyQ])
  ELSE IF x.ovr = "" /\ c = cHASH
  THEN GotoU(m, "fragment", m.i + 1, [m.url EXCEPT !.frag = NonEmptyQ])
  ELSE IF c # EOFC THEN Goto(m, "path", IF c = cSL THEN m.i + 1 ELSE m.i)
  ELSE IF x.ovr # "" /\ m.url.host.k = "none"
  THEN Done([m EXCEPT !.url.path = Append(@, <<>>)])
  ELSE Done(m)

\* One path segment per visit.
Path(x, m) ==
  LET u == m.url
      sp == Special(u)
      stop == (IF sp THEN {cSL, cBS} ELSE {cSL})
              \cup (IF x.ovr = "" THEN {cQ, cHASH} ELSE {})
      j == ScanTo(x.inp, m.i, stop)
      c == Ch(x.inp, j)
      slash == c = cSL \/ (sp /\ c = cBS)
      raw == SubSeq(x.inp, m.i, j - 1)
      seg == PctEnc(raw, PathSet)
      m1 == ErrN(m, "invalid-URL-unit", UnitErrs(x.inp, m.i, j - 1))
      m2 == IF sp /\ c = cBS THEN Err(m1, "invalid-reverse-solidus") ELSE m1
      u1 == IF IsDoubleDot(seg)
            THEN LET s == Shorten(u)
                 IN  IF slash THEN s ELSE [s EXCEPT !.path = Append(@, <<>>)]
            ELSE IF IsSingleDot(seg)
            THEN IF slash THEN u ELSE [u EXCEPT !.path = Append(@, <<>>)]
            ELSE [u EXCEPT !.path = Append(@,
                   IF u.scheme = sFile /\ Len(u.path) = 0 /\ IsDrive(seg)
                   THEN <<seg[1], cCOLON>> ELSE seg)]
  IN  IF c = EOFC THEN Done([m2 EXCEPT !.url = u1])
      ELSE IF c = cQ THEN GotoU(m2, "query", j + 1, [u1 EXCEPT !.query = NonEmptyQ])
      ELSE IF c = cHASH THEN GotoU(m2, "fragment", j + 1, [u1 EXCEPT !.frag = NonEmptyQ])
      ELSE GotoU(m2, "path", j + 1, u1)

OpaquePath(x, m) ==
  LET j == ScanTo(x.inp, m.i, {cQ, cHASH})
      c == Ch(x.inp, j)
      u1 == [m.url EXCEPT !.path = <<@[1] \o PctEnc(SubSeq(x.inp, m.i, j - 1), C0Set)>>]
      m1 == ErrN(m, "invalid-URL-unit", UnitErrs(x.inp, m.i, j - 1))
  IN  IF c = EOFC THEN Done([m1 EXCEPT !.url = u1])
      ELSE IF c = cQ THEN GotoU(m1, "query", j + 1, [u1 EXCEPT !.query = NonEmptyQ])
      ELSE GotoU(m1, "fragment", j + 1, [u1 EXCEPT !.frag = NonEmptyQ])

Query(x, m) ==
  LET j == IF x.ovr = "" THEN ScanTo(x.inp, m.i, {cHASH}) ELSE Len(x.inp) + 1
      enc == IF ~Special(m.url) \/ m.url.scheme \in {sWs, sWss} THEN "utf-8" ELSE x.enc
      set == IF Special(m.url) THEN SpQuerySet ELSE QuerySet
      u1 == [m.url EXCEPT !.query =
               <<@[1] \o PctEncWith(SubSeq(x.inp, m.i, j - 1), set, enc)>>]
      m1 == ErrN([m EXCEPT !.url = u1], "invalid-URL-unit",
                 UnitErrs(x.inp, m.i, j - 1))
  IN  IF Ch(x.inp, j) = cHASH
      THEN [m1 EXCEPT !.st = "fragment", !.i = j + 1, !.url.frag = NonEmptyQ]
      ELSE Done(m1)

Fragment(x, m) ==
  LET n == Len(x.inp)
  IN  Done([ErrN(m, "invalid-URL-unit", UnitErrs(x.inp, m.i, n)) EXCEPT
              !.url.frag = <<@[1] \o PctEnc(SubSeq(x.inp, m.i, n), FragmentSet)>>])

Step(x, m) ==
  CASE m.st = "scheme start" -> SchemeStart(x, m)
    [] m.st = "scheme" -> Scheme(x, m)
    [] m.st = "no scheme" -> NoScheme(x, m)
    [] m.st = "special relative or authority" -> SpecialRelOrAuth(x, m)
    [] m.st = "path or authority" -> PathOrAuth(x, m)
    [] m.st = "relative" -> Relative(x, m)
    [] m.st = "relative slash" -> RelativeSlash(x, m)
    [] m.st = "special authority slashes" -> SpecialAuthSlashes(x, m)
    [] m.st = "special authority ignore slashes" -> SpecialAuthIgnore(x, m)
    [] m.st = "authority" -> Authority(x, m)
    [] m.st = "host" -> HostState(x, m)
    [] m.st = "hostname" -> HostState(x, m)
    [] m.st = "port" -> Port(x, m)
    [] m.st = "file" -> File(x, m)
    [] m.st = "file slash" -> FileSlash(x, m)
    [] m.st = "file host" -> FileHost(x, m)
    [] m.st = "path start" -> PathStart(x, m)
    [] m.st = "path" -> Path(x, m)
    [] m.st = "opaque path" -> OpaquePath(x, m)
    [] m.st = "query" -> Query(x, m)
    [] m.st = "fragment" -> Fragment(x, m)

Halted(m) == m.st \in {"done", "fail"}
RECURSIVE Run(_, _)
Run(x, m) == IF Halted(m) THEN m ELSE Run(x, Step(x, m))

(*--------------------------- entry points ----------------------------------*)
TabNl == {cTAB, cLF, cCR}
StripNl(s) == IF \E i \in 1..Len(s) : s[i] \in TabNl THEN Filter(s, TabNl) ELSE s
Trim(s) ==
  LET f == SelectInSeq(s, LAMBDA c : c > 32)
      l == SelectLastInSeq(s, LAMBDA c : c > 32)
  IN  IF f = 0 THEN <<>> ELSE SubSeq(s, f, l)

\* Errors reported for the pre-processing.
TrimErrs(s) == IF Len(s) > 0 /\ (s[1] <= 32 \/ s[Len(s)] <= 32)
               THEN <<"invalid-URL-unit">> ELSE <<>>
NlErrs(s) == IF \E i \in 1..Len(s) : s[i] \in TabNl
             THEN <<"invalid-URL-unit">> ELSE <<>>

\* Whole-URL parse: base is optional URL record.
BasicParse(s, base, enc, env) ==
  LET t == Trim(s)
      x == [inp |-> StripNl(t), base |-> base, ovr |-> "", enc |-> enc, env |-> env]
      m == Run(x, [Machine("scheme start", EmptyURL) EXCEPT
                     !.errs = TrimErrs(s) \o NlErrs(t)])
  IN  m

\* Parse with a state override onto an existing record.
OverrideParse(s, u, st, enc, env) ==
  LET x == [inp |-> StripNl(s), base |-> <<>>, ovr |-> st, enc |-> enc, env |-> env]
  IN  Run(x, [Machine(st, u) EXCEPT !.errs = NlErrs(s)])

\* parse_url: base is an optional string.
ParseUrl(s, base, enc, env) ==
  IF Len(base) = 0 THEN BasicParse(s, <<>>, enc, env)
  ELSE LET b == BasicParse(base[1], <<>>, enc, env)
       IN  IF b.st = "fail" THEN b
           ELSE LET m == BasicParse(s, <<b.url>>, enc, env)
                IN  [m EXCEPT !.errs = b.errs \o @]

(*--------------------------- serialization ---------------------------------*)
PathSer(u) == IF u.opq THEN u.path[1]
              ELSE FoldLeft(LAMBDA a, s : a \o <<cSL>> \o s, <<>>, u.path)
AuthSer(u) ==
  (IF HasCreds(u)
   THEN u.user \o (IF Len(u.pass) > 0 THEN <<cCOLON>> \o u.pass ELSE <<>>) \o <<cAT>>
   ELSE <<>>)
  \o HostSer(u.host)
  \o (IF u.port = -1 THEN <<>> ELSE <<cCOLON>> \o DecDigits(u.port))
UrlSer(u, noFrag) ==
  u.scheme \o <<cCOLON>>
  \o (IF u.host.k # "none" THEN <<cSL, cSL>> \o AuthSer(u)
      ELSE IF ~u.opq /\ Len(u.path) > 1 /\ Len(u.path[1]) = 0
      THEN <<cSL, cDOT>> ELSE <<>>)
  \o PathSer(u)
  \o (IF Len(u.query) = 1 THEN <<cQ>> \o u.query[1] ELSE <<>>)
  \o (IF ~noFrag /\ Len(u.frag) = 1 THEN <<cHASH>> \o u.frag[1] ELSE <<>>)
Href(u) == UrlSer(u, FALSE)

\* What a URL record answers about itself; short: after "shorten a URL's path".
RecQ(u) == [opq |-> u.opq, special |-> Special(u), notspecial |-> ~Special(u),
            creds |-> HasCreds(u), nocreds |-> CannotHaveCreds(u),
            host |-> IF u.host.k = "none" THEN <<>> ELSE HostSer(u.host),
            path |-> PathSer(u), url |-> Href(u), nf |-> UrlSer(u, TRUE),
            short |-> IF u.opq THEN u ELSE Shorten(u)]

\* What a parse writes to the log: levels ("I"nformation, "E"rror), types.
LogOf(errs, fatal) ==
  [l |-> IF Len(errs) = 0 THEN <<>>
         ELSE Force([i \in 1..Len(errs) |-> IF fatal /\ i = Len(errs) THEN "E" ELSE "I"]),
   t |-> errs]

\* Origin: optional [scheme, host, port].
TupleOrigin(u) == <<[scheme |-> u.scheme, host |-> u.host, port |-> u.port]>>
RECURSIVE Origin(_, _)
Origin(u, env) ==
  IF u.scheme = sBlob THEN
    LET m == BasicParse(PathSer(u), <<>>, "utf-8", env)
    IN  IF m.st = "done" /\ m.url.scheme \in {sHttp, sHttps, sFile}
        THEN Origin(m.url, env) ELSE <<>>
  ELSE IF u.scheme \in {sFtp, sHttp, sHttps, sWs, sWss} THEN TupleOrigin(u)
  ELSE <<>>
OriginSer(o) == IF Len(o) = 0 THEN sNull
                ELSE o[1].scheme \o sColonSlash2 \o HostSer(o[1].host)
                     \o (IF o[1].port = -1 THEN <<>>
                         ELSE <<cCOLON>> \o DecDigits(o[1].port))
=============================================================================
