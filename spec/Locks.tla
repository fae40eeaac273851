------------------------------ MODULE Locks ------------------------------
(* Threads and the locks they share (C25).  The library keeps its rules,    *)
(* patterns and regular expressions in global places: mutexes, and things   *)
(* that are done once (the registration of all rules, what is made at its   *)
(* first use).  What a thread does from holding nothing to holding nothing  *)
(* is a run, recorded from the real code: `+x` take, `-x` give back, `(x`   *)
(* `)x` do once, `=x` find it done.  A run is recorded with what the thread *)
(* knew to be done before it.  Every set of N recorded runs is let go at    *)
(* once; in no interleaving may threads wait for each other in a circle.    *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Lines == ndJsonDeserialize(IOEnv.RUNS)
N == atoi(IOEnv.THREADS)
T == 1..N
Range(s) == { s[i] : i \in DOMAIN s }
Runs == [i \in DOMAIN Lines |-> [need |-> Range(Lines[i].need), run |-> Lines[i].run]]
OfKind(es, r) == { r.run[i].x : i \in { i \in DOMAIN r.run : r.run[i].e \in es } }
Onces == UNION { Runs[i].need \cup OfKind({"(", "="}, Runs[i]) : i \in DOMAIN Runs }
Mutexes == UNION { OfKind({"+"}, Runs[i]) : i \in DOMAIN Runs }

VARIABLES who,      \* which run each thread does
          pc,       \* its next step; 0: it has not begun
          own,      \* the thread that has a mutex, 0: none
          once      \* 0: not done, t: thread t is doing it, N + 1: done
vars == << who, pc, own, once >>

Done == N + 1
Steps(t) == Runs[who[t]].run
Ended(t) == pc[t] > Len(Steps(t))
At(t) == Steps(t)[pc[t]]

(* what none of the threads does for the first time has been done before *)
Init == /\ who \in { w \in [T -> DOMAIN Runs] : \A t \in T : t > 1 => w[t - 1] <= w[t] }
        /\ pc = [t \in T |-> 0]
        /\ own = [x \in Mutexes |-> 0]
        /\ once = [x \in Onces |-> IF \E t \in T : x \in OfKind({"("}, Runs[who[t]]) THEN 0 ELSE Done]

Begin(t) == /\ pc[t] = 0 /\ \A x \in Runs[who[t]].need : once[x] = Done
            /\ pc' = [pc EXCEPT ![t] = 1]
            /\ UNCHANGED << who, own, once >>
Go(t) == pc' = [pc EXCEPT ![t] = @ + 1]
(* the run can't be done like that any more, as another thread was first: it is given up *)
GiveUp(t) == /\ pc' = [pc EXCEPT ![t] = Len(Steps(t)) + 1]
             /\ own' = [x \in Mutexes |-> IF own[x] = t THEN 0 ELSE own[x]]
             /\ once' = [x \in Onces |-> IF once[x] = t THEN Done ELSE once[x]]
Step(t) ==
  /\ pc[t] > 0 /\ ~Ended(t)
  /\ LET x == At(t).x IN
     CASE At(t).e = "+" -> own[x] = 0 /\ own' = [own EXCEPT ![x] = t] /\ Go(t) /\ UNCHANGED once
       [] At(t).e = "-" -> own' = [own EXCEPT ![x] = 0] /\ Go(t) /\ UNCHANGED once
       [] At(t).e = "(" -> \/ once[x] = 0 /\ once' = [once EXCEPT ![x] = t] /\ Go(t) /\ UNCHANGED own
                           \/ once[x] = Done /\ GiveUp(t)
       [] At(t).e = ")" -> once' = [once EXCEPT ![x] = Done] /\ Go(t) /\ UNCHANGED own
       [] At(t).e = "=" -> \/ once[x] = Done /\ Go(t) /\ UNCHANGED << own, once >>
                           \/ once[x] = 0 /\ GiveUp(t)
  /\ UNCHANGED who
Next == \E t \in T : Begin(t) \/ Step(t)

(* whom a thread waits for: 0, nobody *)
Waits(t) == IF pc[t] = 0 \/ Ended(t) THEN 0
            ELSE LET x == At(t).x IN
                 CASE At(t).e = "+" -> own[x]
                   [] At(t).e \in {"(", "="} -> IF once[x] = Done THEN 0 ELSE once[x]
                   [] OTHER -> 0
RECURSIVE After(_, _)
After(t, k) == IF k = 0 \/ t = 0 THEN t ELSE After(Waits(t), k - 1)
Circle == { t \in T : After(t, N) # 0 }
NoCircle == Circle = {} \/ PrintT(<< "CIRCLE", { At(t).x : t \in Circle }, { who[t] : t \in Circle } >>) = FALSE

(* sanity of the recorded runs and of the machine *)
TypeOk == /\ \A x \in Mutexes : own[x] \in 0..N
          /\ \A x \in Onces : once[x] \in 0..Done
          /\ \A t \in T : Ended(t) => /\ \A x \in Mutexes : own[x] # t
                                      /\ \A x \in Onces : once[x] # t
=============================================================================
