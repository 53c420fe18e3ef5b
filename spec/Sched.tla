------------------------------- MODULE Sched -------------------------------
(* Several calls on one shared instance: one after another, at the same time *)
(* (two threads) and from within each other (a parameter container that      *)
(* calls the instance while it is being read).  The grain is one access to a *)
(* caller's parameter container, the only place where a call can be made to  *)
(* wait for, or to run, other code.                                          *)
(*                                                                           *)
(* What a call accumulates (conversions, numbers, values) is `acc`.  The     *)
(* design keeps it per call; Design = "shared" keeps it on the instance and  *)
(* clears it when a call begins, "leak" keeps it and clears it when a call   *)
(* succeeds, "memo" keeps it per call but remembers finished conversions by  *)
(* query alone, "identity" by the object the parameters come in, "swallow"   *)
(* takes a failing access for a missing parameter.  TLC finds that only the  *)
(* first keeps calls independent and lets the caller's own failures through. *)
(*                                                                           *)
(* In mode "recycled" the caller may hand over the same container again and  *)
(* again, refilled before each call (o = 1), or a new one (o = 0).           *)
(*                                                                           *)
(* In mode "faults" an access may fail on its own account (the container or  *)
(* the iterable of rows raises): the call then fails with that very failure. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Design,    \* "percall" | "shared" | "leak" | "memo" | "identity" | "swallow"
          Mode,      \* "threads" | "history" | "recycled" | "nested" | "faults"
          MaxCalls,  \* calls per thread
          EmitOn

\* Call templates: the query, the values it comes to (20 and 21 are elements
\* of a tuple given for parameter 2), and the reference (if any) whose
\* parameter is missing.
Lib == << [q |-> 1, refs |-> << 1 >>,         miss |-> 0],
          [q |-> 2, refs |-> << 1, 2 >>,      miss |-> 0],
          [q |-> 3, refs |-> << 2, 1, 2 >>,   miss |-> 0],
          [q |-> 4, refs |-> << 1, 3 >>,      miss |-> 2],
          [q |-> 5, refs |-> << >>,           miss |-> 0],
          [q |-> 2, refs |-> << 1, 20, 21 >>, miss |-> 0] >>
Templates == CASE Mode = "threads" -> { 1, 2, 4 }
               [] Mode \in { "nested", "faults" } -> { 2, 3, 4, 6 }
               [] OTHER            -> 1..Len(Lib)
Threads == IF Mode = "threads" THEN { 1, 2 } ELSE { 1 }

\* The access at which a call's container fails (0: it does not).
Faults == IF Mode = "faults" THEN 0..7 ELSE { 0 }

\* The container a call's parameters come in: 1 is the same one every time.
Objects == IF Mode = "recycled" THEN { 0, 1 } ELSE { 0 }

VARIABLES prog,   \* calls each thread will make: template, fault and container
          stack,  \* per thread: calls under way (the last one is running)
          made,   \* per thread: calls begun
          acc,    \* accumulators: per thread and depth, or one for all
          memo,   \* remembered outcomes, by query ("memo") or container ("identity")
          done,   \* finished calls with their outcome
          sched   \* history: which thread moved, and whether it called from within
vars == << prog, stack, made, acc, memo, done, sched >>

FAULT == << -1 >>   \* the outcome of a call whose container failed
Solo(t) == IF Lib[t].miss # 0 THEN << 0 >> ELSE Lib[t].refs

PerCall == Design \in { "percall", "memo", "identity", "swallow" }
Slot(th, d) == IF PerCall THEN << th, d >> ELSE << 0, 0 >>
Get(s) == IF s \in DOMAIN acc THEN acc[s] ELSE << >>
Set(s, v) == [x \in DOMAIN acc \union { s } |-> IF x = s THEN v ELSE acc[x]]
Drop(s) == [x \in DOMAIN acc \ { s } |-> acc[x]]

SeqUpTo(S, n) == UNION { [1..k -> S] : k \in 1..n }

Init == /\ prog \in [Threads -> SeqUpTo([t : Templates, f : Faults, o : Objects], MaxCalls)]
        /\ stack = [th \in Threads |-> << >>] /\ made = [th \in Threads |-> 0]
        /\ acc = << >> /\ memo = << >> /\ done = << >> /\ sched = << >>

Top(th) == stack[th][Len(stack[th])]
Depth(th) == Len(stack[th])
Push(th) ==
  LET p == prog[th][made[th] + 1]
  IN /\ stack' = [stack EXCEPT ![th] = Append(@, [t |-> p.t, f |-> p.f, o |-> p.o, n |-> 0, pc |-> 1, phase |-> "scan"])]
     /\ made' = [made EXCEPT ![th] = @ + 1]
     /\ acc' = IF Design = "leak" THEN acc ELSE Set(Slot(th, Depth(th) + 1), << >>)

Pop(th) == SubSeq(stack[th], 1, Len(stack[th]) - 1)

\* Start the next call of the program, when none is under way.
Begin(th) == /\ Depth(th) = 0 /\ made[th] < Len(prog[th])
             /\ Push(th) /\ sched' = Append(sched, th) /\ UNCHANGED << prog, memo, done >>

\* Start it from within the one under way, while that reads a parameter.
Nest(th) == /\ Mode = "nested" /\ Depth(th) > 0 /\ made[th] < Len(prog[th])
            /\ Top(th).phase = "scan" /\ Top(th).pc <= Len(Lib[Top(th).t].refs)
            /\ Push(th) /\ sched' = Append(sched, -th) /\ UNCHANGED << prog, memo, done >>

Finish(th, r, clear) ==
  /\ LET key == CASE Design = "memo" -> Lib[Top(th).t].q [] Design = "identity" -> Top(th).o [] OTHER -> 0
         kept == key # 0 /\ r \notin { << 0 >>, FAULT }
         v == IF kept /\ key \in DOMAIN memo THEN memo[key] ELSE r
         hit == Top(th).f # 0 /\ Top(th).n + 1 = Top(th).f
     IN /\ done' = Append(done, [t |-> Top(th).t, r |-> v, hit |-> hit])
        /\ memo' = IF kept THEN [x \in DOMAIN memo \union { key } |-> IF x = key THEN v ELSE memo[x]] ELSE memo
  /\ stack' = [stack EXCEPT ![th] = Pop(th)]
  /\ acc' = IF PerCall THEN Drop(Slot(th, Depth(th))) ELSE IF clear THEN Set(Slot(th, Depth(th)), << >>) ELSE acc

Faulty(th) == Top(th).f # 0 /\ Top(th).n + 1 = Top(th).f

\* The access fails: so does the call, with that failure and no other.
Fault(th) ==
  /\ Depth(th) > 0 /\ Faulty(th)
  /\ sched' = Append(sched, th)
  /\ UNCHANGED << prog, made >>
  /\ Finish(th, IF Design = "swallow" THEN << 0 >> ELSE FAULT, FALSE)

\* One access: while scanning, a reference is recorded; then the values are
\* read in the recorded order.
Access(th) ==
  /\ Depth(th) > 0 /\ ~Faulty(th)
  /\ sched' = Append(sched, th)
  /\ UNCHANGED << prog, made >>
  /\ LET f == Top(th)
         s == Slot(th, Depth(th))
         refs == Lib[f.t].refs
     IN CASE f.phase = "scan" /\ f.pc <= Len(refs) /\ f.pc = Lib[f.t].miss ->
               Finish(th, << 0 >>, FALSE)
          [] f.phase = "scan" /\ f.pc <= Len(refs) /\ f.pc # Lib[f.t].miss ->
               /\ acc' = Set(s, Append(Get(s), refs[f.pc]))
               /\ stack' = [stack EXCEPT ![th][Depth(th)] = [@ EXCEPT !.pc = @ + 1, !.n = @ + 1]]
               /\ UNCHANGED << memo, done >>
          [] f.phase = "scan" /\ f.pc > Len(refs) ->
               /\ stack' = [stack EXCEPT ![th][Depth(th)] = [@ EXCEPT !.phase = "bind", !.pc = 1, !.n = @ + 1]]
               /\ UNCHANGED << acc, memo, done >>
          [] f.phase = "bind" /\ f.pc <= Len(Get(s)) ->
               /\ stack' = [stack EXCEPT ![th][Depth(th)] = [@ EXCEPT !.pc = @ + 1, !.n = @ + 1]]
               /\ UNCHANGED << acc, memo, done >>
          [] OTHER -> Finish(th, Get(s), Design = "leak")

Next == \E th \in Threads : Begin(th) \/ Nest(th) \/ Access(th) \/ Fault(th)
Spec == Init /\ [][Next]_vars

\* Every call returns what it returns alone.
Isolation == \A i \in 1..Len(done) : ~done[i].hit => done[i].r = Solo(done[i].t)
\* A call whose container failed fails with that failure, and only such a call.
FaultComesThrough == \A i \in 1..Len(done) : done[i].hit <=> done[i].r = FAULT

\* With no call under way, nothing of those that were is kept.
Released == (\A th \in Threads : Depth(th) = 0) => memo = << >> /\ \A s \in DOMAIN acc : acc[s] = << >>

AllDone == \A th \in Threads : Depth(th) = 0 /\ made[th] = Len(prog[th])
EmitBehaviour == (EmitOn /\ AllDone) => PrintT("@@" \o ToJson([prog |-> [i \in 1..Cardinality(Threads) |-> prog[i]], sched |-> sched]))
=============================================================================
