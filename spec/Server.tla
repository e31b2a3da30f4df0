-------------------------------- MODULE Server ---------------------------------
(***************************************************************************)
(* What the server promises: one shared state, a set of trackers           *)
(* <<name, window, paths>> (the unnamed ones under the name ""), on which  *)
(* every request acts at once, and what each request may be answered.      *)
(***************************************************************************)
EXTENDS Tracker

\* a query is a sequence of [key, val, n]; n is the value as a number, or -1
First(q, key) == LET S == {j \in 1 .. Len(q) : q[j].key = key} IN IF S = {} THEN 0 ELSE Min(S)
NumberOf(q, key, default) == IF First(q, key) = 0 THEN default ELSE q[First(q, key)].n
NameOf(q) == IF First(q, "tracker_name") = 0 THEN "" ELSE q[First(q, "tracker_name")].val

\* which operation a request asks for; "none" for everything the server does not know or cannot make sense of
Route(op) ==
    LET w == NumberOf(op.q, "window_size", -1)
        known == {<<"GET", "/">>, <<"GET", "/knn">>, <<"GET", "/routing_knn">>, <<"GET", "/path">>,
                  <<"POST", "/track/add">>, <<"POST", "/track/point">>, <<"GET", "/track/stats">>}
        need == {"/knn", "/routing_knn", "/path", "/track/point"}
    IN IF <<op.m, op.p>> \notin known THEN "none"
       ELSE IF op.p \in need /\ op.pt = 0 THEN "none"
       ELSE IF op.p \in {"/track/add", "/track/stats"} /\ w < 0 THEN "none"
       ELSE IF op.p \in {"/knn", "/routing_knn"} /\ NumberOf(op.q, "k", 10) < 0 THEN "none"
       ELSE op.p
Stateful == {"/track/add", "/track/point", "/track/stats"}

Empty == {}
Windows(st, name) == {t[2] : t \in {t \in st : t[1] = name}}
PathsOf(st, name, w) == (CHOOSE t \in st : t[1] = name /\ t[2] = w)[3]
\* the state after a tracking request; path is the path of the point it carries, <<>> if there is none
After(st, op, path) ==
    LET name == NameOf(op.q)
        w == NumberOf(op.q, "window_size", -1)
    IN CASE op.p = "/track/add" -> IF w \in Windows(st, name) THEN st ELSE st \cup {<<name, w, <<>>>>}
         [] op.p = "/track/point" -> IF path = <<>> THEN st
                                     ELSE {IF t[1] = name THEN <<name, t[2], Added(t[2], t[3], path)>> ELSE t : t \in st}
         [] OTHER -> st
\* may the request be answered res in state st?  Stats(s, res): res are the statistics of the paths s
Absent(res, name, w) == res.t = "unknown" /\ res.name = name /\ res.win \in {-1, w}
Answer(st, op, path, res, Stats(_, _)) ==
    LET name == NameOf(op.q)
        w == NumberOf(op.q, "window_size", -1)
        nothing == Windows(st, name) = {}
    IN CASE op.p = "/track/add" -> res.t = "add" /\ res.ok = (w \notin Windows(st, name))
         [] op.p = "/track/point" ->
              \/ nothing /\ (res.t = "unknown" => res.name = name) /\ (res.t = "track" => ~res.ok) /\ res.t \in {"unknown", "track", "err"}
                 /\ (res.t = "err" => path = <<>>)
              \/ ~nothing /\ IF path = <<>> THEN res.t = "err" ELSE res.t = "track" /\ res.ok
         [] OTHER -> IF w \in Windows(st, name) THEN res.t = "stats" /\ Stats(PathsOf(st, name, w), res)
                     ELSE Absent(res, name, w)
================================================================================
