---------------------------- MODULE ResizeTrace ----------------------------
(* Checks recorded histories of resizes. State: the resizers (their           *)
(* algorithm is all that matters of them).                                   *)
EXTENDS ResizeCheck

VARIABLES rz,  \* algorithms of the resizers
          k    \* step of the event
vars == <<views, l, rz, k>>

E == Trace[l]
O == E.out[k]

Confined(d, before, after) ==
    /\ Len(after) = Len(before)
    /\ \A r \in 1..Len(before) : \A i \in 1..Len(before[r]) : before[r][i] = after[r][i] \/ Visible(d, r, i - 1)

(* Large pictures with a color in every quarter: samples which are far enough   *)
(* from the others have the color of their quarter                             *)
Quarters(d, color) ==
    \A i \in 1..Len(O.wins) : \A c \in 1..Fmt[d.f].nc :
        \A j \in 1..Len(O.wv[i][c]) : O.wv[i][c][j] = color[c][O.wins[i].q]

Call ==
    LET s == ViewOf(O.src)  d == ViewOf(O.dst)  alg == rz[O.r] IN
    /\ Chk("source was modified", O.srcdiff = -1)
    /\ Chk("panic", ~IsPanic(O.res))
    /\ IF s.f = d.f
       THEN /\ Chk("failed", IsOk(O.res))
            /\ Has(O, "ad") => Chk("memory outside of the image was modified", Confined(d, O.bd, O.ad))
            /\ Has(O, "wv") => Chk("wrong color", Quarters(d, O.src.d.v))
            /\ Has(O, "bi") => Chk("memory outside of the image was modified", O.bi = O.ai)
            /\ Has(O, "dv") => Holds(ValuesOk(alg, s, d, O.sv, O.dv))
       ELSE /\ Chk("resized an image of another format", O.res = [k |-> "err", e |-> "DifferentFormats"])
            /\ Has(O, "ad") => Chk("failed, but modified the destination", O.ad = O.bd)
    (* a new resizer of the same algorithm does the same *)
    /\ Chk("a new resizer decides differently", O.fres = O.res)
    /\ Chk("a new resizer has another result", O.fdiff = -1 /\ O.fdg = O.dg)
    /\ UNCHANGED <<views, rz>>

Clone ==
    /\ Chk("panic", IsOk(O.res))
    /\ rz' = Append(rz, rz[O.r])
    /\ UNCHANGED views

Begin ==
    /\ rz = <<>> /\ E.op = "resize"
    /\ rz' = E.algs /\ k' = 1 /\ l' = l /\ UNCHANGED views
Step ==
    /\ rz # <<>> /\ k <= Len(E.out)
    /\ IF O.op = "clone" THEN Clone ELSE Call
    /\ k' = k + 1 /\ l' = l
Finish ==
    /\ rz # <<>> /\ k = Len(E.out) + 1
    /\ Chk("number of steps", Len(E.out) = Len(E.steps))
    /\ rz' = <<>> /\ k' = 1 /\ Advance(l + 1) /\ UNCHANGED views

Init == l = 1 /\ views = NoViews /\ rz = <<>> /\ k = 1
Next == l <= N /\ NoCrash /\ (Begin \/ Step \/ Finish)
Spec == Init /\ [][Next]_vars
TraceAccepted == AllExplained
=============================================================================
