------------------------------ MODULE MCResize ------------------------------
(***************************************************************************)
(* 1. The geometry of Resize, for all sizes up to MaxSize: every destination *)
(*    group has a source, groups are in order, nothing is lost when growing,  *)
(*    both ends of the source are represented, equal sizes are a copy, the    *)
(*    weights are symmetric.                                                 *)
(* 2. The execution: a resizer has scratch memory per plane, planes are       *)
(*    resized concurrently, resizers are used repeatedly with images of       *)
(*    different numbers of planes, and cloned. Whatever the interleaving and  *)
(*    history is, a plane of the destination is made from the plane of the    *)
(*    source, by using the scratch memory of nobody else.                    *)
(***************************************************************************)
EXTENDS Resize

CONSTANTS MaxSize, Planes, Calls

VARIABLES S, D,        \* sizes
          scratch,     \* resizer -> contents of its scratch memories
          call,        \* the running call: resizer, number of planes; or none
          pc, out,     \* per plane: progress, result
          n            \* calls so far
vars == <<S, D, scratch, call, pc, out, n>>

None == [r |-> 0, np |-> 0]

GeoSound ==
    (n = 0 /\ call = None) =>
    LET at == [x \in 0..(D - 1) |-> NearestAt(x, S, D)] IN
    /\ \A x \in 0..(D - 1) : at[x] \in 0..(S - 1) /\ NearestSet(x, S, D) \cap 0..(S - 1) # {}
    /\ \A x \in 1..(D - 1) : at[x - 1] <= at[x]
    /\ D >= S => \A j \in 0..(S - 1) : \E x \in 0..(D - 1) : at[x] = j
    (* no more than the (rounded up) scale is skipped at the ends, and between *)
    /\ at[0] <= S \div D /\ S - 1 - at[D - 1] <= S \div D
    /\ \A x \in 1..(D - 1) : at[x] - at[x - 1] <= (S + D - 1) \div D
    /\ S = D => \A x \in 0..(D - 1) : at[x] = x
    /\ \A alg \in {a \in DOMAIN AlgInfo : AlgInfo[a].k # "nearest" /\ AlgInfo[a].f # "box"} : \A x \in 0..(D - 1) :
          LET k == Kernel(alg, x, S, D)  r == Kernel(alg, D - 1 - x, S, D)  m == Len(k.w)  t == k.t
          IN
          /\ Len(r.w) = m /\ r.lo = S - k.lo - m /\ t > 0
          /\ \A i \in 1..m : k.w[i] = r.w[m + 1 - i] /\ (alg \in Bounded => k.w[i] > 0)
          (* a constant stays a constant, results are inside of the range of the source *)
          /\ Mean(k, LAMBDA j : 77) = 77
          /\ alg \in Bounded => Mean(k, LAMBDA j : (j % 3) * 100) \in 0..200
          (* a ramp stays where it is, away from the borders *)
          /\ (k.lo > 0 /\ k.lo + m < S /\ AlgInfo[alg].f \in {"bilinear", "catmull", "mitchell"} /\ D >= S)
             => LET v == Mean(k, LAMBDA j : (2 * j + 1) * 1000)  e == ((2 * x + 1) * S * 1000) \div D IN v - e \in -8..8
          (* when shrinking with the wide filter every sample of the source has an influence *)
    /\ D <= S => \A j \in 0..(S - 1) : \E x \in 0..(D - 1) :
          Weight("conv-bilinear", x, j, S, D) > 0
    /\ \A x \in 0..(D - 1) : \/ BoxTie("conv-box", x, S, D)
                             \/ Kernel("conv-box", x, S, D).t \in {Max2(S, D) \div D, Max2(S, D) \div D + 1}

(* The filters: symmetric by construction; what they're known for *)
ASSUME FiltersSound ==
    LET t == KernelData  f(nm, i) == t[nm][i + 1] IN
    /\ \A nm \in DOMAIN t : t[nm][Len(t[nm])] = 0 /\ Len(t[nm]) = 1 + 256 * (CASE nm \in {"bilinear", "hamming"} -> 1 [] nm \in {"catmull", "mitchell"} -> 2 [] OTHER -> 3)
    (* interpolating filters are 1 at zero, 0 at all other groups *)
    /\ \A nm \in {"bilinear", "hamming", "catmull", "lanczos"} :
          f(nm, 0) = 4096 /\ \A i \in 1..((Len(t[nm]) - 1) \div 256) : f(nm, 256 * i) = 0
    (* cubic filters add up to one everywhere; the equations of Mitchell and Netravali *)
    /\ \A nm \in {"catmull", "mitchell"} : \A i \in 0..255 :
          (f(nm, i) + f(nm, 256 - i) + f(nm, 256 + i) + f(nm, 512 - i)) - 4096 \in -2..2
    /\ \A i \in 0..255 :
          LET x == i * 16  q == (x * x) \div 4096  c == (q * x) \div 4096 IN
          /\ f("catmull", i) - ((3 * c - 5 * q) \div 2 + 4096) \in -4..4
          /\ f("mitchell", i) - ((21 * c - 36 * q) \div 18 + 3641) \in -4..4
    /\ f("mitchell", 256) - 228 \in -1..1
    (* a Gaussian of deviation 1/2: its logarithm is a parabola; exp(-2), exp(-1/2) *)
    /\ f("gaussian", 0) = 3268 /\ f("gaussian", 256) - 442 \in -1..1 /\ f("gaussian", 128) - 1982 \in -1..1
    /\ \A i \in 1..256 : LET a == f("gaussian", i - 1)  b == f("gaussian", i)  c == f("gaussian", i + 1) IN
          a >= b /\ (a * c - b * b) \div 4096 \in -4..4
    (* sinc(1/2) = 2/pi, sinc(1/6) = 3/pi, sinc(3/2) = -2/3pi *)
    /\ f("lanczos", 128) - 2490 \in -1..1 /\ f("lanczos", 384) - (-553) \in -1..1
    /\ f("hamming", 128) - 1408 \in -1..1

---------------------------------------------------------------------------
Init ==
    /\ S \in 1..MaxSize /\ D \in 1..MaxSize
    /\ scratch = <<<<>>>> /\ call = None /\ pc = <<>> /\ out = <<>> /\ n = 0

(* The execution doesn't depend on the sizes *)
Exec == S = 1 /\ D = 1

Start(r, np) ==
    /\ Exec /\ call = None /\ n < Calls
    /\ call' = [r |-> r, np |-> np]
    /\ scratch' = [scratch EXCEPT ![r] = [p \in 1..Max2(Len(scratch[r]), np) |->
                      IF p <= Len(scratch[r]) THEN scratch[r][p] ELSE "empty"]]
    /\ pc' = [p \in 1..np |-> "first"] /\ out' = [p \in 1..np |-> <<>>]
    /\ n' = n + 1 /\ UNCHANGED <<S, D>>

(* The first pass fills the scratch memory, the second one reads it *)
First(p) ==
    /\ pc[p] = "first"
    /\ pc' = [pc EXCEPT ![p] = "second"]
    /\ scratch' = [scratch EXCEPT ![call.r][p] = <<n, p>>]
    /\ UNCHANGED <<S, D, call, out, n>>
Second(p) ==
    /\ pc[p] = "second"
    /\ pc' = [pc EXCEPT ![p] = "done"]
    /\ out' = [out EXCEPT ![p] = scratch[call.r][p]]
    /\ UNCHANGED <<S, D, call, scratch, n>>
(* Axes of equal size don't need it *)
Direct(p) ==
    /\ pc[p] = "first"
    /\ pc' = [pc EXCEPT ![p] = "done"] /\ out' = [out EXCEPT ![p] = <<n, p>>]
    /\ UNCHANGED <<S, D, call, scratch, n>>
Return ==
    /\ call # None /\ \A p \in 1..call.np : pc[p] = "done"
    /\ call' = None /\ UNCHANGED <<S, D, scratch, pc, out, n>>
Clone(r) ==
    /\ Exec /\ call = None /\ Len(scratch) < 2
    /\ scratch' = Append(scratch, scratch[r]) /\ UNCHANGED <<S, D, call, pc, out, n>>

Next ==
    \/ \E r \in 1..Len(scratch), np \in 1..Planes : Start(r, np)
    \/ call # None /\ \E p \in 1..call.np : First(p) \/ Second(p) \/ Direct(p)
    \/ Return
    \/ \E r \in 1..Len(scratch) : Clone(r)
Spec == Init /\ [][Next]_vars

(* The result of a call is made from the planes of the images of this call *)
OutputIsFunction == \A p \in 1..Len(pc) : pc[p] = "done" => out[p] = <<n, p>>
=============================================================================
