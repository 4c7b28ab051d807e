-------------------------------- MODULE MCRec --------------------------------
(***************************************************************************)
(* URL records as values: every record over small sets of component        *)
(* values, what it answers about itself, and "shorten a URL's path"        *)
(* repeated on it.                                                         *)
(***************************************************************************)
EXTENDS Wf, Json

CONSTANTS Depth, Emit

Schemes == {S("http"), S("ws"), S("ftp"), S("file"), S("foo"), S("blob"), S("wsss"), S("")}
Creds == {<<<<>>, <<>>>>, <<S("u"), <<>>>>, <<<<>>, S("p")>>, <<S("u"), S("p")>>}
Hosts == {NullHost, StrHost(<<>>), StrHost(S("h")), [k |-> "v4", v |-> <<256, 1>>],
          [k |-> "v6", v |-> <<0, 0, 0, 0, 0, 0, 0, 1>>]}
Ports == {-1, 0, 80}
OptTexts(t) == {<<>>, NonEmptyQ, <<S(t)>>}
Paths == {<<>>, <<<<>>>>, <<S("a")>>, <<S("C:")>>, <<S("C|")>>, <<<<>>, S("x")>>, <<<<>>, <<>>>>, <<S("C:"), S("d:")>>,
          <<S("a"), <<>>, S("b")>>}
Opaque == {<<<<>>>>, <<S("x")>>, <<S("/y")>>, <<S("http://h/")>>}
Records ==
  {[scheme |-> s, user |-> c[1], pass |-> c[2], host |-> h, port |-> p, path |-> a, opq |-> FALSE, query |-> q, frag |-> f] :
     s \in Schemes, c \in Creds, h \in Hosts, p \in Ports, a \in Paths, q \in OptTexts("q"), f \in OptTexts("f")}
  \cup
  {[scheme |-> s, user |-> <<>>, pass |-> <<>>, host |-> NullHost, port |-> -1, path |-> a, opq |-> TRUE, query |-> q, frag |-> f] :
     s \in Schemes, a \in Opaque, q \in OptTexts("q"), f \in OptTexts("f")}

VARIABLES mrU, mrN
vars == <<mrU, mrN>>
Init == mrU \in Records /\ mrN = 0
\* Asked (and printed), then shortened.
Show == (Emit) => PrintT("BEHAVIOUR " \o ToJson([k |-> "rq", rec |-> mrU, exp |-> [q |-> RecQ(mrU), rec |-> mrU]]))
Next == /\ mrN < Depth
        /\ (mrN = 0 => Show)
        /\ mrU' = RecQ(mrU).short
        /\ mrN' = mrN + 1
Spec == Init /\ [][Next]_vars

(*------------------------------- properties -------------------------------*)
Q == RecQ(mrU)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
InvAnswers ==
  /\ Q.special # Q.notspecial
  /\ mrU.host.k = "none" => Q.nocreds /\ Q.host = <<>>
  /\ mrU.scheme = sFile => Q.nocreds /\ Q.special
  \* the URL is its fragmentless serialization with the fragment, and starts with its scheme
  /\ Q.url = Q.nf \o (IF Len(mrU.frag) = 1 THEN <<cHASH>> \o mrU.frag[1] ELSE <<>>)
  /\ IsPrefixOf(mrU.scheme \o <<cCOLON>>, Q.nf)
  /\ (Q.opq \/ Len(mrU.path) = 0 \/ Q.path[1] = cSL)
\* Shortening drops at most the last segment, keeps a lone drive letter of a
\* file URL, touches nothing else, and gets to a fixed point.
InvShorten ==
  LET a == mrU b == Q.short IN
  /\ [a EXCEPT !.path = <<>>] = [b EXCEPT !.path = <<>>]
  /\ IsPrefixOf(b.path, a.path) /\ Len(a.path) - Len(b.path) \in {0, 1}
  /\ (a.scheme = sFile /\ ~a.opq /\ Len(a.path) > 0 /\ IsNormDrive(a.path[1])) => Len(b.path) >= 1
  /\ (b.path = a.path) => a.opq \/ Len(a.path) = 0 \/ (a.scheme = sFile /\ IsNormDrive(a.path[1]))
InvFixed == mrN = Depth /\ Depth > 3 => Q.short = mrU
=============================================================================
