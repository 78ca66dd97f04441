----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* Several callers use the library at the same time. Every caller converts   *)
(* (or resizes) an image all of them share, which nobody writes to, into an  *)
(* image of its own, and that one into another one of its own.               *)
(*                                                                         *)
(* An operation is a number of tasks, one per part of the image. Some         *)
(* operations execute them themselves, one after the other. The others hand  *)
(* them to a pool of workers and return when all of them are done. The caller *)
(* may be a worker of the same pool: instead of just waiting it executes      *)
(* whatever is left to do, which includes operations of other callers.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Callers,   \* their names
          Parts,     \* of an image: 1..Parts
          Workers,   \* threads of the pool
          Steal      \* do waiting workers execute other jobs? FALSE: what would happen otherwise

VARIABLES kind,   \* caller -> "alone" (executes its tasks itself), "pool"
          place,  \* caller -> "thread" (of its own), "worker" (a job of the pool itself)
          mid,    \* caller -> contents of its intermediate image
          dst,    \* caller -> contents of its destination
          op,     \* caller -> operation, 0: not started, 1, 2, 3: finished
          left,   \* caller -> tasks of the operation which haven't been started
          busy,   \* caller -> tasks being executed
          jobs,   \* what may be picked up by workers
          stack   \* worker -> what it executes, the last one on top of what it waits for

cvars == <<kind, place, mid, dst, op, left, busy, jobs, stack>>

None == <<>>
Source(p) == <<"src", p>>
F(c, v) == <<"converted by", c, v>>

Indices == 1..Parts
Fresh == [p \in Indices |-> None]

CInit ==
    /\ kind \in [Callers -> {"alone", "pool"}]
    /\ place \in [Callers -> {"thread", "worker"}]
    /\ mid = [c \in Callers |-> Fresh] /\ dst = [c \in Callers |-> Fresh]
    /\ op = [c \in Callers |-> 0]
    /\ left = [c \in Callers |-> {}] /\ busy = [c \in Callers |-> {}]
    /\ jobs = {<<c, 0>> : c \in {d \in Callers : place[d] = "worker"}}
    /\ stack = [w \in 1..Workers |-> <<>>]

(* Effect of a task *)
Execute(c, p) ==
    IF op[c] = 1 THEN mid' = [mid EXCEPT ![c][p] = F(c, Source(p))] /\ UNCHANGED dst
    ELSE dst' = [dst EXCEPT ![c][p] = F(c, mid[c][p])] /\ UNCHANGED mid

Begin(c) ==
    /\ op' = [op EXCEPT ![c] = op[c] + 1]
    /\ left' = [left EXCEPT ![c] = IF op[c] < 2 THEN Indices ELSE {}]
    /\ jobs' = IF kind[c] = "pool" /\ op[c] < 2 THEN jobs \cup {<<c, p>> : p \in Indices} ELSE jobs
    /\ UNCHANGED <<kind, place, mid, dst, busy>>

Done(c) == left[c] = {} /\ busy[c] = {}

(* The code of caller c itself, which is running on a thread or on a worker *)
CanAdvance(c) == op[c] < 3 /\ Done(c)
AloneTask(c) ==
    /\ kind[c] = "alone" /\ left[c] # {}
    /\ \E p \in left[c] : Execute(c, p) /\ left' = [left EXCEPT ![c] = @ \ {p}]
    /\ UNCHANGED <<kind, place, op, busy, jobs, stack>>

OnThread(c) ==
    /\ place[c] = "thread"
    /\ \/ CanAdvance(c) /\ Begin(c) /\ UNCHANGED stack
       \/ AloneTask(c)

Top(w) == stack[w][Len(stack[w])]
Pop(w) == [stack EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]

(* Is it a caller, waiting for the tasks of its operation? *)
Waits(j) == Steal /\ j[2] = 0 /\ kind[j[1]] = "pool" /\ op[j[1]] < 3 /\ ~CanAdvance(j[1])

Take(w) ==
    /\ IF stack[w] = <<>> THEN TRUE ELSE Waits(Top(w))
    /\ \E j \in jobs :
          /\ jobs' = jobs \ {j}
          /\ stack' = [stack EXCEPT ![w] = Append(@, j)]
          /\ IF j[2] = 0 THEN UNCHANGED <<left, busy>>
             ELSE left' = [left EXCEPT ![j[1]] = @ \ {j[2]}] /\ busy' = [busy EXCEPT ![j[1]] = @ \cup {j[2]}]
    /\ UNCHANGED <<kind, place, mid, dst, op>>

Work(w) ==
    /\ stack[w] # <<>>
    /\ LET c == Top(w)[1]  p == Top(w)[2] IN
       IF p # 0
       THEN /\ Execute(c, p) /\ busy' = [busy EXCEPT ![c] = @ \ {p}] /\ stack' = Pop(w)
            /\ UNCHANGED <<kind, place, op, left, jobs>>
       ELSE \/ CanAdvance(c) /\ Begin(c) /\ UNCHANGED stack
            \/ AloneTask(c)
            \/ op[c] = 3 /\ stack' = Pop(w) /\ UNCHANGED <<kind, place, mid, dst, op, left, busy, jobs>>

CNext == (\E c \in Callers : OnThread(c)) \/ (\E w \in 1..Workers : Take(w) \/ Work(w))
CSpec == CInit /\ [][CNext]_cvars /\ WF_cvars(CNext)

(* What every caller gets is what it would get if it were alone *)
Mine(c, m, d) == \A p \in Indices : m[p] \in {None, F(c, Source(p))} /\ d[p] \in {None, F(c, F(c, Source(p)))}
NoInterference == \A c \in Callers : Mine(c, mid[c], dst[c])
(* An operation has happened entirely when it returns *)
Returned == \A c \in Callers :
    /\ op[c] >= 2 => \A p \in Indices : mid[c][p] = F(c, Source(p))
    /\ op[c] >= 3 => \A p \in Indices : dst[c][p] = F(c, F(c, Source(p)))
(* Tasks of different callers never write to the same image: a step changes one image only *)
OneImage == [][Cardinality({c \in Callers : mid'[c] # mid[c]}) + Cardinality({c \in Callers : dst'[c] # dst[c]}) <= 1]_cvars
(* No caller waits forever, even if all workers are occupied by callers *)
AllReturn == <>(\A c \in Callers : op[c] = 3)
=============================================================================
