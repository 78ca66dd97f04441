---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Checks recorded sessions: operations on images which share memory.        *)
(*                                                                         *)
(* State: the contents of all of the memory, and the resizers. This is all   *)
(* that may carry over from one step to the next, and every step is judged   *)
(* by what is in the memory when it starts.                                  *)
(***************************************************************************)
EXTENDS ColorCheck, ConvertRules, ResizeCheck

VARIABLES mem,  \* region -> bytes
          rz,   \* algorithms of the resizers
          k     \* step of the event, 0: none
vars == <<views, l, mem, rz, k>>

E == Trace[l]
St == E.steps[k]
O == E.out[k]

(* The memory after the step, as it was observed *)
After == [r \in 1..Len(mem) |->
            IF \E i \in 1..Len(O.mem) : O.mem[i].rg = r THEN O.mem[CHOOSE i \in 1..Len(O.mem) : O.mem[i].rg = r].b ELSE mem[r]]

SrcImg == E.slots[St.s] @@ [crop |-> St.sc]
DstImg == E.slots[St.d] @@ [crop |-> St.dc]

(* Do all windows fit into what they are cropped from? *)
RECURSIVE FitsAll(_, _, _)
FitsAll(w, h, wins) ==
    wins = <<>> \/ LET x == Head(wins) IN
                   /\ x.x <= w /\ x.y <= h /\ x.w <= w - x.x /\ x.h <= h - x.y
                   /\ FitsAll(x.w, x.h, Tail(wins))
Croppable(img) == FitsAll(img.w, img.h, img.crop)

(* Values of all samples of a view *)
ValuesOf(v, m) ==
    TLCEval([c \in 1..Fmt[v.f].nc |->
        [i \in 1..(CompW(v.f, c, v.w) * CompH(v.f, c, v.h)) |->
            ValueIn(v, m, c, (i - 1) % CompW(v.f, c, v.w), (i - 1) \div CompW(v.f, c, v.w))]])

Unchanged(m) == Chk("failed, but modified memory", m = mem)

(* An image could not be cropped *)
CropRejected ==
    /\ IsErr(O.res) /\ Has(O.res, "at")
    /\ Chk("untruthful error of crop",
           O.res.e = "WindowSizeOutOfBounds" /\ ~Croppable(IF O.res.at = "src" THEN SrcImg ELSE DstImg))
    /\ Unchanged(After)

Kept(sv, dv) == Chk("a sample changed its value", sv = dv)

Converted(s, sci, d, dci) ==
    LET sv == ValuesOf(s, mem)  dv == ValuesOf(d, After) IN
    IF s.f = d.f /\ SameColor(sci, dci) THEN Kept(sv, dv)
    ELSE IF ~ValidCodes(d, dv) THEN Chk("a sample exceeds the bit depth", FALSE)
    ELSE /\ Chk("alpha", Fmt[d.f].nc = 4 => IF Fmt[s.f].nc = 4 THEN dv[4] = sv[4] ELSE \A i \in 1..Len(dv[4]) : dv[4][i] = 255)
         /\ Chk("wrong value", SampledCorrect(s, sci, d, dci, sv, dv, E.every, k))

Confined(d) == Chk("memory outside of the image was modified", ConfinedTo(d, mem, After))

Transform ==
    /\ Chk("panic", ~IsPanic(O.res) \/ (St.op = "copy" /\ SrcImg.fmt # DstImg.fmt))
    /\ IF ~IsOk(O.res) /\ Has(O.res, "at") THEN CropRejected
       ELSE LET s == ViewOf(SrcImg)  d == ViewOf(DstImg)  sci == SrcImg.ci  dci == IF St.op = "copy" THEN sci ELSE DstImg.ci IN
            IF IsPanic(O.res) THEN Unchanged(After)
            ELSE
            /\ Chk("cropped out of bounds", Croppable(SrcImg) /\ Croppable(DstImg))
            /\ IF IsOk(O.res)
               THEN /\ Chk("succeeded although it isn't possible", IF St.op = "copy" THEN s.f = d.f /\ ~CopyMustFail(s, d) ELSE ~MustFail(s, sci, d, dci))
                    /\ Confined(d)
                    /\ Converted(s, sci, d, dci)
               ELSE /\ Chk("untruthful error", MayFailWith(s, sci, d, dci, O.res))
                    /\ Unchanged(After)
    /\ mem' = After /\ UNCHANGED rz

Resized ==
    /\ Chk("panic", ~IsPanic(O.res))
    /\ IF ~IsOk(O.res) /\ Has(O.res, "at") THEN CropRejected
       ELSE LET s == ViewOf(SrcImg)  d == ViewOf(DstImg) IN
            /\ Chk("cropped out of bounds", Croppable(SrcImg) /\ Croppable(DstImg))
            /\ IF s.f = d.f
               THEN /\ Chk("failed", IsOk(O.res))
                    /\ Confined(d)
                    /\ Holds(ValuesOk(rz[St.r], s, d, ValuesOf(s, mem), ValuesOf(d, After)))
               ELSE /\ Chk("resized an image of another format", O.res = [k |-> "err", e |-> "DifferentFormats"])
                    /\ Unchanged(After)
    /\ mem' = After /\ UNCHANGED rz

Clone == Chk("cloning modified memory", After = mem) /\ rz' = Append(rz, rz[St.r]) /\ UNCHANGED mem

(* The caller writes to an image *)
Fill == Confined(ViewOf(DstImg)) /\ mem' = After /\ UNCHANGED rz

Begin ==
    /\ k = 0 /\ E.op = "session"
    /\ Chk("number of steps", Len(E.out) = Len(E.steps))
    /\ mem' = E.mem0 /\ rz' = E.algs /\ k' = 1 /\ l' = l
Step ==
    /\ k > 0 /\ k <= Len(E.out)
    /\ CASE St.op \in {"convert", "copy"} -> Transform
         [] St.op = "resize" -> Resized
         [] St.op = "clone" -> Clone
         [] St.op = "fill" -> Fill
    /\ k' = k + 1 /\ l' = l
Finish == k > 0 /\ k = Len(E.out) + 1 /\ mem' = <<>> /\ rz' = <<>> /\ k' = 0 /\ Advance(l + 1)

Init == l = 1 /\ views = NoViews /\ mem = <<>> /\ rz = <<>> /\ k = 0
Next == l <= N /\ NoCrash /\ UNCHANGED views /\ (Begin \/ Step \/ Finish)
Spec == Init /\ [][Next]_vars
TraceAccepted == AllExplained
=============================================================================
