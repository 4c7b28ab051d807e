-------------------------------- MODULE MCThr --------------------------------
(***************************************************************************)
(* Two threads of one program.  Each makes calls of its own on objects of  *)
(* its own and on base URLs both have and neither changes; the calls of    *)
(* the two interleave in every way on one heap.  What a thread sees of the *)
(* heap, and every answer it gets, is what it would see running alone, and *)
(* the shared objects stay as they were.  With Emit the programs of a      *)
(* complete run are printed with what each thread must observe; the        *)
(* harness runs them in threads.                                           *)
(***************************************************************************)
EXTENDS Wf, Json

CONSTANTS Depth, Emit

Threads == 1..2
None == [k |-> "none"]
New(s) == [op |-> "new", s |-> S(s), b |-> None]
NewOn(s, i) == [op |-> "new", s |-> S(s), b |-> [k |-> "obj", i |-> i]]
SetE(i, a, v) == [op |-> "set", i |-> i, a |-> a, v |-> S(v)]
P(op, n, v) == [op |-> op, n |-> S(n), v |-> v]

\* URLs 1 .. Len(start) are shared; the programs number their own after them.
Starts == {<<New("http://u:p@h:8/a/b/c?x=1&y=2#f")>>, <<New("file:///C:/a/b?x=1")>>, <<New("foo:/a/b?x=1")>>, <<New("foo:x?x=1")>>}
Menu ==
  {NewOn(r, 1) : r \in {"", "c", "../e", "?y=2", "#z", "//k:9/w"}}
  \cup {NewOn("d/./g", 2), New("ws://o/?x=2")}
  \cup {SetE(2, "pathname", "/z/.."), SetE(2, "search", "s=1"), SetE(2, "host", "k:9"), SetE(2, "protocol", "https")}
  \cup {[op |-> "upar", i |-> 2, p |-> p] : p \in {P("append", "a", <<S("1")>>), P("delete", "x", <<>>)}}
  \cup {[op |-> "uqry", i |-> i, p |-> P("get", "x", <<>>)] : i \in 1..2}
  \cup {[op |-> "can", s |-> S("c"), b |-> [k |-> "obj", i |-> 1]], [op |-> "eq", i |-> 1, j |-> 2, x |-> TRUE]}
  \cup {[op |-> "npar", x |-> [k |-> "upar", i |-> i]] : i \in 1..2}
  \cup {[op |-> "par", i |-> 1, p |-> P("append", "m", <<S("1")>>)], [op |-> "pqry", i |-> 1, p |-> P("str", "", <<>>)]}

\* mtW: the heap; mtUx, mtPx: where a thread's objects are in it; mtAns: its
\* last answer.  mtLone: each thread's heap and last answer had it run alone.
VARIABLES mtBase, mtW, mtDone, mtUx, mtPx, mtAns, mtLone
vars == <<mtBase, mtW, mtDone, mtUx, mtPx, mtAns, mtLone>>
Sh == Len(mtBase)

\* The objects a thread has, under the numbers it gives them.
Own(w, ux, px) == [urls |-> [k \in 1..Len(ux) |-> w.urls[ux[k]]] \o <<>>, pars |-> [k \in 1..Len(px) |-> w.pars[px[k]]] \o <<>>]
\* A call of a thread, on the one heap.
Global(t, e) ==
  CASE e.op \in {"new", "can"} -> IF e.b.k = "obj" THEN [e EXCEPT !.b.i = mtUx[t][@]] ELSE e
    [] e.op = "npar" -> [e EXCEPT !.x.i = mtUx[t][@]]
    [] e.op \in {"par", "pqry"} -> [e EXCEPT !.i = mtPx[t][@]]
    [] e.op = "eq" -> [e EXCEPT !.i = mtUx[t][@], !.j = mtUx[t][@]]
    [] OTHER -> [e EXCEPT !.i = mtUx[t][@]]
Allowed(t, e) ==
  LET nu == Len(mtUx[t]) np == Len(mtPx[t]) IN
  CASE e.op \in {"new", "can"} -> e.b.k = "obj" => e.b.i <= nu
    [] e.op \in {"set", "upar"} -> e.i > Sh /\ e.i <= nu
    [] e.op = "npar" -> e.x.i <= nu
    [] e.op \in {"par", "pqry"} -> e.i <= np
    [] e.op = "eq" -> e.j <= nu
    [] OTHER -> e.i <= nu

Start == LET Go[k \in 0..Sh] == IF k = 0 THEN EmptyWorld ELSE Apply(Go[k - 1], mtBase[k], <<>>).w IN Go[Sh]

Made(t) == Len(mtDone'[t])
Report ==
  [k |-> "thr", sh |-> mtBase, hs |-> [t \in Threads |-> mtDone'[t]] \o <<>>,
   exp |-> [t \in Threads |-> [exc |-> mtAns'[t].exc, ret |-> mtAns'[t].ret, gi |-> 0,
                               seen |-> Seen(Own(mtW', mtUx'[t], mtPx'[t]))]] \o <<>>]

Init ==
  /\ mtBase \in Starts
  /\ mtW = Start
  /\ mtDone = [t \in Threads |-> <<>>]
  /\ mtUx = [t \in Threads |-> [k \in 1..Sh |-> k]]
  /\ mtPx = [t \in Threads |-> <<>>]
  /\ mtAns = [t \in Threads |-> [exc |-> "", ret |-> <<>>]]
  /\ mtLone = [t \in Threads |-> WRes(Start, "", <<>>)]
Call(t, e) ==
  /\ Len(mtDone[1]) + Len(mtDone[2]) < Depth
  /\ Allowed(t, e)
  /\ LET r == Apply(mtW, Global(t, e), <<>>)
         nu == Len(mtW.urls) np == Len(mtW.pars)
     IN  /\ r.exc # "unknown"
         /\ mtW' = r.w
         /\ mtUx' = IF Len(r.w.urls) > nu THEN [mtUx EXCEPT ![t] = Append(@, nu + 1)] ELSE mtUx
         /\ mtPx' = IF Len(r.w.pars) > np THEN [mtPx EXCEPT ![t] = Append(@, np + 1)] ELSE mtPx
         /\ mtAns' = [mtAns EXCEPT ![t] = [exc |-> r.exc, ret |-> r.ret]]
  /\ mtDone' = [mtDone EXCEPT ![t] = Append(@, e)]
  /\ mtLone' = [mtLone EXCEPT ![t] = Apply(@.w, e, <<>>)]
  /\ UNCHANGED mtBase
  /\ (Emit /\ t = 2 /\ Made(1) >= 1 /\ Made(1) + Made(2) = Depth) => PrintT("BEHAVIOUR " \o ToJson(Report))
Next == \E t \in Threads, e \in Menu : Call(t, e)
Spec == Init /\ [][Next]_vars

(*------------------------------- properties -------------------------------*)
InvAlone == \A t \in Threads : WRes(Own(mtW, mtUx[t], mtPx[t]), mtAns[t].exc, mtAns[t].ret) = mtLone[t]
\* The shared objects stay as they were: the same before and after every call.
InvShared == \A t \in Threads : SubSeq(mtW.urls, 1, Sh) = SubSeq(mtLone[t].w.urls, 1, Sh)
PropShared == [][SubSeq(mtW'.urls, 1, Sh) = SubSeq(mtW.urls, 1, Sh)]_vars
\* Nothing belongs to two threads but what was shared.
InvApart == \A i \in Sh + 1..Len(mtUx[1]), j \in Sh + 1..Len(mtUx[2]) : mtUx[1][i] # mtUx[2][j]
=============================================================================
