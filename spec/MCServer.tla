------------------------------- MODULE MCServer --------------------------------
(***************************************************************************)
(* The server as built: every connection has a queue and a worker that     *)
(* takes one request at a time; trackers live in workers of their own,     *)
(* one per name, that are sent messages and answer on a channel made for   *)
(* the message.  A request may be bad for the connection's worker or for   *)
(* the tracker's worker (it panics there), or be abandoned by its client.  *)
(***************************************************************************)
EXTENDS Server, TLC

CONSTANTS Conns, Reqs,      \* requests 1 .. Reqs are sent in this order, over any connection
          Names, Wins,
          Catch             \* workers survive a panic
Kinds == {"add", "point", "stats", "panic", "poison", "pure"}
R == 1 .. Reqs

VARIABLES what,     \* request -> kind, name, window
          sent,     \* number of requests sent
          conn,     \* request -> connection ("": not sent)
          queue,    \* connection -> requests waiting
          busy,     \* connection -> the request its worker is at and where: <<>> or <<request, stage>>
          alive,    \* worker -> is it running?  (connections and names)
          exists,   \* names with a worker
          box,      \* name -> messages waiting
          state,    \* name -> what its worker holds: set of <<window, paths>>
          reply,    \* request -> the answer on its inner channel
          got,      \* request -> the answer the client got: "" none yet
          left,     \* requests whose client has gone
          abs,      \* the abstract state
          owed      \* request -> the answer the abstract state gave when it took effect
vars == <<what, sent, conn, queue, busy, alive, exists, box, state, reply, got, left, abs, owed>>
None == [t |-> "none"]
Workers == Conns \cup Names
Op(r) == [m |-> "", p |-> CASE what[r].k = "add" -> "/track/add" [] what[r].k \in {"point", "poison"} -> "/track/point" [] OTHER -> "/track/stats",
          pt |-> 1, q |-> <<[key |-> "tracker_name", val |-> what[r].n, n |-> -1], [key |-> "window_size", val |-> "", n |-> what[r].w]>>]
PathIn(r) == IF what[r].k = "poison" THEN <<>> ELSE <<r>>

AName == CHOOSE n \in Names : TRUE
AWin == Min(Wins)
Requests == {x \in [k : Kinds, n : Names, w : Wins] : /\ x.k \in {"panic", "pure"} => x.n = AName
                                                      /\ x.k \in {"panic", "pure", "point", "poison"} => x.w = AWin}
Init == /\ what \in [R -> Requests]
        /\ sent = 0 /\ conn = [r \in R |-> ""] /\ queue = [c \in Conns |-> <<>>] /\ busy = [c \in Conns |-> <<>>]
        /\ alive = [x \in Workers |-> TRUE] /\ exists = {} /\ box = [n \in Names |-> <<>>] /\ state = [n \in Names |-> {}]
        /\ reply = [r \in R |-> None] /\ got = [r \in R |-> None] /\ left = {} /\ abs = Empty /\ owed = [r \in R |-> None]

Send(c) ==
    /\ sent < Reqs /\ sent' = sent + 1
    /\ conn' = [conn EXCEPT ![sent + 1] = c]
    /\ IF alive[c] THEN queue' = [queue EXCEPT ![c] = Append(@, sent + 1)] /\ UNCHANGED got
       ELSE got' = [got EXCEPT ![sent + 1] = [t |-> "err"]] /\ UNCHANGED queue
    /\ UNCHANGED <<what, busy, alive, exists, box, state, reply, left, abs, owed>>
Leave(r) ==
    /\ conn[r] # "" /\ got[r] = None /\ r \notin left /\ Cardinality(left) < 1 /\ left' = left \cup {r}
    /\ UNCHANGED <<what, sent, conn, queue, busy, alive, exists, box, state, reply, got, abs, owed>>
Deliver(r, res) == got' = IF r \in left THEN got ELSE [got EXCEPT ![r] = res]

\* the connection's worker takes a request: answers it, fails at it, or hands it on
Take(c) ==
    /\ alive[c] /\ busy[c] = <<>> /\ queue[c] # <<>>
    /\ LET r == Head(queue[c])
           k == what[r].k
           n == what[r].n
       IN /\ queue' = [queue EXCEPT ![c] = Tail(@)]
          /\ CASE k = "pure" -> Deliver(r, [t |-> "pure"]) /\ UNCHANGED <<busy, alive, exists, abs, owed>>
               [] k = "panic" -> Deliver(r, [t |-> "err"]) /\ alive' = [alive EXCEPT ![c] = Catch] /\ UNCHANGED <<busy, exists, abs, owed>>
               [] k = "add" -> /\ exists' = exists \cup {n} /\ busy' = [busy EXCEPT ![c] = <<r, "look">>]
                               /\ UNCHANGED <<got, alive, abs, owed>>
               [] OTHER -> busy' = [busy EXCEPT ![c] = <<r, "look">>] /\ UNCHANGED <<got, alive, exists, abs, owed>>
    /\ UNCHANGED <<what, sent, conn, box, state, reply, left>>
Absence(r) == [t |-> "unknown", name |-> what[r].n, win |-> -1]
Look(c) ==
    /\ busy[c] # <<>> /\ busy[c][2] = "look"
    /\ LET r == busy[c][1]
           n == what[r].n
       IN IF n \notin exists THEN
             /\ Assert(Answer(abs, Op(r), PathIn(r), Absence(r), LAMBDA s, x : FALSE), <<"absence", abs, r>>)
             /\ Deliver(r, Absence(r)) /\ owed' = [owed EXCEPT ![r] = Absence(r)]
             /\ busy' = [busy EXCEPT ![c] = <<>>] /\ UNCHANGED box
          ELSE IF alive[n] THEN
             box' = [box EXCEPT ![n] = Append(@, r)] /\ busy' = [busy EXCEPT ![c] = <<r, "wait">>] /\ UNCHANGED <<got, owed>>
          ELSE Deliver(r, [t |-> "err"]) /\ busy' = [busy EXCEPT ![c] = <<>>] /\ UNCHANGED <<box, owed>>
    /\ UNCHANGED <<what, sent, conn, queue, alive, exists, state, reply, left, abs>>
\* the tracker's worker deals with a message: here the request takes effect
Local(n) == {<<n, t[1], t[2]>> : t \in state[n]}
Result(n, r) ==
    LET op == Op(r)
        w == what[r].w
    IN CASE what[r].k = "add" -> [t |-> "add", ok |-> w \notin Windows(Local(n), n)]
         [] what[r].k = "poison" -> [t |-> "err"]
         [] what[r].k = "point" -> [t |-> "track", ok |-> state[n] # {}]
         [] OTHER -> IF w \in Windows(Local(n), n) THEN [t |-> "stats", s |-> PathsOf(Local(n), n, w)]
                     ELSE [t |-> "unknown", name |-> n, win |-> w]
Work(n) ==
    /\ alive[n] /\ box[n] # <<>>
    /\ LET r == Head(box[n])
           res == Result(n, r)
       IN /\ box' = IF res.t = "err" /\ ~Catch THEN [box EXCEPT ![n] = <<>>] ELSE [box EXCEPT ![n] = Tail(@)]
          /\ alive' = [alive EXCEPT ![n] = Catch \/ res.t # "err"]
          /\ state' = [state EXCEPT ![n] = {<<t[2], t[3]>> : t \in After(Local(n), Op(r), PathIn(r))}]
          /\ abs' = After(abs, Op(r), PathIn(r))
          /\ reply' = [x \in R |-> IF x = r THEN res
                                    ELSE IF ~alive'[n] /\ (\E j \in 1 .. Len(box[n]) : box[n][j] = x) THEN [t |-> "err"] ELSE reply[x]]
          /\ owed' = [owed EXCEPT ![r] = res]
          /\ Assert(Answer(abs, Op(r), PathIn(r), res, LAMBDA s, x : x.s = s), <<"answer", abs, r, res>>)
    /\ UNCHANGED <<what, sent, conn, queue, busy, exists, got, left>>
Pass(c) ==
    /\ busy[c] # <<>> /\ busy[c][2] = "wait" /\ reply[busy[c][1]] # None
    /\ Deliver(busy[c][1], reply[busy[c][1]])
    /\ busy' = [busy EXCEPT ![c] = <<>>]
    /\ UNCHANGED <<what, sent, conn, queue, alive, exists, box, state, reply, left, abs, owed>>
\* a dead worker's queue is dropped: its clients learn that there will be no answer
Dropped(c) ==
    /\ ~alive[c] /\ queue[c] # <<>>
    /\ Deliver(Head(queue[c]), [t |-> "err"]) /\ queue' = [queue EXCEPT ![c] = Tail(@)]
    /\ UNCHANGED <<what, sent, conn, busy, alive, exists, box, state, reply, left, abs, owed>>

Serve == (\E c \in Conns : Take(c) \/ Look(c) \/ Pass(c) \/ Dropped(c)) \/ (\E n \in Names : Work(n))
Next == Serve \/ (\E c \in Conns : Send(c)) \/ (\E r \in R : Leave(r))
Spec == Init /\ [][Next]_vars
             /\ \A c \in Conns : WF_vars(Take(c)) /\ WF_vars(Look(c)) /\ WF_vars(Pass(c)) /\ WF_vars(Dropped(c))
             /\ \A n \in Names : WF_vars(Work(n))

\* the workers' states together are the one shared state
Shared == abs = UNION {Local(n) : n \in Names}
\* a client gets the answer to its own request, the one the shared state gave
Own == \A r \in R : got[r] # None =>
          /\ conn[r] # ""
          /\ what[r].k = "pure" => got[r].t = "pure"
          /\ what[r].k = "panic" => got[r].t = "err"
          /\ what[r].k \in {"add", "point", "stats"} => got[r] = owed[r]
          /\ what[r].k = "poison" => got[r].t \in {"err", "unknown"}
\* one at a time on a connection, and a message is with one worker only
Once == \A r \in R : Cardinality({c \in Conns : busy[c] # <<>> /\ busy[c][1] = r})
                     + Cardinality({<<c, j>> \in Conns \X R : j <= Len(queue[c]) /\ queue[c][j] = r})
                     + (IF got[r] # None THEN 1 ELSE 0) <= 1
Answered == \A r \in R : conn[r] # "" ~> (got[r] # None \/ r \in left)
\* whatever was sent before, a request that makes sense is not refused
Unharmed == \A r \in R : got[r] # None /\ what[r].k \notin {"panic", "poison"} => got[r].t # "err"
================================================================================
