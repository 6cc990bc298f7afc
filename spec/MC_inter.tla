------------------------------ MODULE MC_inter ------------------------------
(***************************************************************************)
(* Operations that run interleaved.  Every process carries out one         *)
(* operation; a step of a process is one call of the reader, writer or tag *)
(* it was given.  A process sees nothing but its own bytes and what is     *)
(* shared and never changes (the registry and the tags), so what it gives  *)
(* is what it gives alone: the invariant.  Every schedule of every pair of *)
(* operations is handed to the implementation: on threads, one call at a   *)
(* time, and with the second operation running inside of one call of the   *)
(* first.                                                                  *)
(***************************************************************************)
EXTENDS Judge, Json, TLC

CONSTANTS MODE, MAXLEN, PROCS

T(k, id, b, w, c, s) == Tag(k, id, b, w, c, s)
Tags == <<T("ilint", WNat(10), <<>>, <<WNat(300)>>, <<>>, <<>>),
          T("str", WNat(17), <<97, 98>>, <<>>, <<>>, <<>>),
          T("raw", WNat(17), <<97, 98>>, <<>>, <<>>, <<>>),
          T("u16", WNat(5), <<7, 8>>, <<>>, <<>>, <<>>),
          T("seq", WNat(22), <<>>, <<>>, <<T("bool", WNat(1), <<1>>, <<>>, <<>>, <<>>)>>, <<>>),
          T("dict", WNat(30), <<>>, <<>>, <<T("null", WZero, <<>>, <<>>, <<>>, <<>>)>>, <<<<>>>>)>>
R == StdReg(FALSE)
Old(k, id) == Tag(k, id, IF k = "bool" THEN <<0>> ELSE IF k = "str" THEN <<111>> ELSE <<>>, IF k = "ilarr" THEN <<WNat(9)>> ELSE <<>>, <<>>, <<>>)
Dj(b) == [k |-> "dec", b |-> b]
Jobs == {Dj(<<10, 248, 5>>), Dj(<<5, 1, 2>>), Dj(<<1, 1>>), Dj(<<1, 2>>), Dj(<<17, 2, 99, 100>>), Dj(<<17, 2, 195, 40>>), Dj(<<16, 3, 1, 2, 3>>),
         Dj(<<22, 2, 0, 0>>), Dj(<<21, 2, 1, 0>>), Dj(<<30, 4, 1, 17, 0, 0>>), Dj(<<25, 2, 1, 7>>), Dj(<<77, 1, 66>>), Dj(<<17, 3, 65>>),
         [k |-> "into", b |-> <<17, 1, 97>>, t |-> Old("str", WNat(17))], [k |-> "into", b |-> <<25, 2, 1, 8>>, t |-> Old("ilarr", WNat(25))]}
        \cup {[k |-> "scan", b |-> <<10, 248, 0, 3, 9>>], [k |-> "scan", b |-> <<16, 1, 5, 0>>]}
        \cup {[k |-> "ser", i |-> i - 1] : i \in DOMAIN Tags}
        \cup {[k |-> "clone", i |-> i] : i \in {0, 4}} \cup {[k |-> "eq", i |-> 1, j |-> j] : j \in {0, 2}}
E0 == [tags |-> Tags, R |-> R]
\* the calls of an operation (at most: what an implementation calls may differ)
Calls(j) == CASE j.k \in {"dec", "into"} -> Len(j.b) [] j.k = "scan" -> Len(j.b) + 1
              [] j.k = "ser" -> Len(Ser(Tags[j.i + 1])) + 2 [] j.k = "clone" -> 3 [] OTHER -> 6
List == SetToSeq(Jobs)
VARIABLES jobs, pos, sched, at
vars == <<jobs, pos, sched, at>>
Init == /\ pos = [i \in 1..PROCS |-> 0] /\ sched = <<>>
        /\ \E w \in [1..PROCS -> DOMAIN List] :
             /\ jobs = [i \in 1..PROCS |-> List[w[i]]]
             /\ IF MODE = "nest" THEN at \in 1..Calls(List[w[1]])
                ELSE /\ at = 0
                     /\ \A i \in 1..(PROCS - 1) : w[i] <= w[i + 1]
                     /\ FoldFunction(+, 0, [i \in 1..PROCS |-> Calls(List[w[i]])]) <= MAXLEN
Step(i) == /\ pos[i] < Calls(jobs[i]) /\ (MODE = "nest" => (i = 1 => pos[1] < at \/ pos[2] = Calls(jobs[2])) /\ (i = 2 => pos[1] = at))
           /\ pos' = [pos EXCEPT ![i] = @ + 1] /\ sched' = (IF MODE = "nest" THEN sched ELSE Append(sched, i - 1)) /\ UNCHANGED <<jobs, at>>
Next == \E i \in 1..PROCS : Step(i)
\* what a process has seen, and what it can say
Seen(i) == IF "b" \in DOMAIN jobs[i] THEN [jobs[i] EXCEPT !.b = SubSeq(@, 1, IF pos[i] > Len(@) THEN Len(@) ELSE pos[i])] ELSE jobs[i]
AllSeen == \A i \in 1..PROCS : pos[i] = Calls(jobs[i])
\* an operation that is over stays with its result, whatever the others do
Inv == \A i \in 1..PROCS : pos[i] = Calls(jobs[i]) => Alone(E0, Seen(i)) = Alone(E0, jobs[i])
Emit == AllSeen => PrintT("VEC " \o ToJson([op |-> "inter", mode |-> MODE, at |-> at, sched |-> sched, jobs |-> jobs, tags |-> Tags, R |-> R]))
=============================================================================
