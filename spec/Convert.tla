------------------------------- MODULE Convert -------------------------------
(***************************************************************************)
(* Conversions between images, at the level of the API: when they are      *)
(* possible, which memory they change and which samples of the source      *)
(* decide about a sample of the destination.                               *)
(*                                                                         *)
(* State: the contents of the memory the source and the destination live   *)
(* in (a sequence of regions of bytes each) and the result of the last      *)
(* call.                                                                   *)
(***************************************************************************)
EXTENDS ConvertRules

VARIABLES smem, dmem, result

---------------------------------------------------------------------------
(* Actions *)

ConvertOk(s, sci, d, dci, after) ==
    /\ Holds(~MustFail(s, sci, d, dci))
    /\ Holds(ConfinedTo(d, dmem, after))
    /\ dmem' = after
    /\ smem' = smem
    /\ result' = "ok"

ConvertErr(s, sci, d, dci, e) ==
    /\ Holds(MayFailWith(s, sci, d, dci, e))
    /\ UNCHANGED <<smem, dmem>>
    /\ result' = "err"
=============================================================================
