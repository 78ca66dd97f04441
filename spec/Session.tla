------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Sequences of operations on a set of images, some of which are windows of  *)
(* the same memory.                                                         *)
(*                                                                         *)
(* Memory consists of cells, quarters of images. W is an image of the cells  *)
(* 1 to 4, T and B are images of their own whose memory are the upper and    *)
(* lower half of W's. X and Y are images with memory of their own.           *)
(*                                                                         *)
(* The contents of a cell is what it is the result of: <<>> initially,        *)
(* otherwise the operation and the contents it was computed from. So the     *)
(* meaning of a sequence is the composition of the meanings of its steps:     *)
(* there is no other state than the cells and the resizers, each of which is *)
(* only what it was created as.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cells,   \* contents
          rs,      \* resizers: which one it is a clone of
          hist     \* the steps

svars == <<cells, rs, hist>>

Slots == {"W", "T", "B", "X", "Y"}
Halves == {"T", "B"}
Wins == {"all", "L", "R", "U", "D", "UL", "UR", "DL", "DR"}
WinsOf(s) == IF s \in Halves THEN {"all", "L", "R"} ELSE Wins

First == [W |-> 0, T |-> 0, B |-> 2, X |-> 4, Y |-> 8]
Quarters == [all |-> <<1, 2, 3, 4>>, L |-> <<1, 3>>, R |-> <<2, 4>>, U |-> <<1, 2>>, D |-> <<3, 4>>,
             UL |-> <<1>>, UR |-> <<2>>, DL |-> <<3>>, DR |-> <<4>>]
HalfQuarters == [all |-> <<1, 2>>, L |-> <<1>>, R |-> <<2>>]

(* The cells of a window, in rows *)
CellsAt(s, w) ==
    LET q == IF s \in Halves THEN HalfQuarters[w] ELSE Quarters[w] IN [i \in 1..Len(q) |-> First[s] + q[i]]
SetOf(q) == {q[i] : i \in 1..Len(q)}

(* Width and height of a window in cells *)
Cols(s, w) == IF w \in {"all", "U", "D"} THEN 2 ELSE 1
RowsOf(s, w) == IF s \in Halves THEN 1 ELSE IF w \in {"all", "L", "R"} THEN 2 ELSE 1

(* Images whose memory overlaps can't take part in the same operation *)
Apart(s, d) == s # d /\ ~(s = "W" /\ d \in Halves) /\ ~(d = "W" /\ s \in Halves)

---------------------------------------------------------------------------
(* Meaning of a step: new contents of the cells *)

SameSize(st) == Cols(st.s, st.sw) = Cols(st.d, st.dw) /\ RowsOf(st.s, st.sw) = RowsOf(st.d, st.dw)

SrcCells(st) == IF st.op \in {"convert", "copy", "resize"} THEN SetOf(CellsAt(st.s, st.sw)) ELSE {}
DstCells(st) == IF st.op \in {"convert", "copy", "resize", "fill"} /\ st.ok THEN SetOf(CellsAt(st.d, st.dw)) ELSE {}

Meaning(v, st) ==
    IF st.op = "clone" \/ ~st.ok THEN v ELSE
    LET d == CellsAt(st.d, st.dw)
        index(c) == CHOOSE i \in 1..Len(d) : d[i] = c
    IN  [c \in DOMAIN v |->
            IF c \notin SetOf(d) THEN v[c]
            ELSE CASE st.op = "fill" -> <<"fill", st.n, c>>
                   (* images whose cells have different sizes *)
                   [] st.op \in {"copy", "convert"} /\ ~SameSize(st) -> <<st.op, index(c), st.s, st.d, [i \in 1..Len(CellsAt(st.s, st.sw)) |-> v[CellsAt(st.s, st.sw)[i]]]>>
                   [] st.op = "copy" -> v[CellsAt(st.s, st.sw)[index(c)]]
                   [] st.op = "convert" -> <<"convert", st.s, st.d, v[CellsAt(st.s, st.sw)[index(c)]]>>
                   (* every sample may depend on all of the source *)
                   [] st.op = "resize" -> <<"resize", index(c), st.alg, [i \in 1..Len(CellsAt(st.s, st.sw)) |-> v[CellsAt(st.s, st.sw)[i]]]>>]

RECURSIVE Composed(_, _)
Composed(v, steps) == IF steps = <<>> THEN v ELSE Composed(Meaning(v, Head(steps)), Tail(steps))

InitialCells == [c \in 1..12 |-> <<c>>]

SInit == cells = InitialCells /\ rs = <<1, 2>> /\ hist = <<>>

Do_(st) == cells' = Meaning(cells, st) /\ hist' = Append(hist, st)

(* ok(..): does it succeed, as decided by the preconditions *)
Transform(op, s, sw, d, dw, ok) ==
    /\ Apart(s, d) /\ sw \in WinsOf(s) /\ dw \in WinsOf(d)
    /\ Do_([op |-> op, s |-> s, sw |-> sw, d |-> d, dw |-> dw, ok |-> ok])
    /\ UNCHANGED rs
Resize_(r, s, sw, d, dw, ok) ==
    /\ Apart(s, d) /\ sw \in WinsOf(s) /\ dw \in WinsOf(d) /\ r \in 1..Len(rs)
    /\ Do_([op |-> "resize", r |-> r, alg |-> rs[r], s |-> s, sw |-> sw, d |-> d, dw |-> dw, ok |-> ok])
    /\ UNCHANGED rs
Clone_(r) == r \in 1..Len(rs) /\ rs' = Append(rs, rs[r]) /\ Do_([op |-> "clone", r |-> r, ok |-> TRUE])
Fill_(d, dw) == dw \in WinsOf(d) /\ Do_([op |-> "fill", d |-> d, dw |-> dw, n |-> Len(hist), ok |-> TRUE]) /\ UNCHANGED rs

---------------------------------------------------------------------------
(* Properties *)

(* An operation only affects the window of its destination, and nothing if it fails *)
Frame == [][\A c \in DOMAIN cells : cells'[c] = cells[c] \/ c \in DstCells(hist'[Len(hist')])]_svars
(* There is no state besides the cells *)
IsComposition == cells = Composed(InitialCells, hist)
(* A clone is what it was cloned from *)
ClonesEqual == \A i \in 1..Len(hist) : hist[i].op = "resize" => hist[i].alg \in {1, 2} /\ hist[i].alg = rs[hist[i].r]
(* Steps commute unless one writes what the other one reads or writes *)
Independent(a, b) ==
    /\ DstCells(a) \cap (SrcCells(b) \cup DstCells(b)) = {}
    /\ DstCells(b) \cap SrcCells(a) = {}
Commute ==
    Len(hist) >= 2 =>
        LET n == Len(hist)  a == hist[n - 1]  b == hist[n]
            before == Composed(InitialCells, SubSeq(hist, 1, n - 2))
        IN  Independent(a, b) => Meaning(Meaning(before, b), a) = cells
(* Reading through a half is reading through the whole *)
WindowsAgree ==
    /\ \A w \in {"all", "L", "R"} :
          LET u == IF w = "all" THEN "U" ELSE IF w = "L" THEN "UL" ELSE "UR"
              d == IF w = "all" THEN "D" ELSE IF w = "L" THEN "DL" ELSE "DR"
          IN  CellsAt("T", w) = CellsAt("W", u) /\ CellsAt("B", w) = CellsAt("W", d)
=============================================================================
