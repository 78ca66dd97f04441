------------------------------ MODULE Parallel ------------------------------
(***************************************************************************)
(* The multi threaded conversion: the images are cut into horizontal strips *)
(* of an even number of rows, one task per strip, at most one per thread.    *)
(* The first strips get one more pair of rows if the number of pairs isn't   *)
(* divisible. Every task converts its strips of the source and destination   *)
(* independently, pair of rows by pair of rows.                              *)
(***************************************************************************)
EXTENDS Convert

CONSTANTS Pairs, W, MaxH, MaxThreads

VARIABLES pair, h, n, heights, next, log

vars == <<pair, h, n, heights, next, log>>

SF == pair[1]
DF == pair[2]

Sections == h \div 2
Tasks == IF Sections = 0 THEN 0 ELSE Min2(n, Sections)

StripHeights ==
    [t \in 1..Tasks |-> 2 * (Sections \div Tasks + (IF t <= Sections % Tasks THEN 1 ELSE 0))]

StripTop(t) == SumTo(heights, t - 1)

(* Views of the strips: cropped from the whole images *)
Whole(f) == View(f, W, h, [p \in 1..Fmt[f].np |->
                [rg |-> p, off |-> 0, st |-> RowBytes(f, p, W) + 1,
                 len |-> MinLen(f, p, W, h, RowBytes(f, p, W) + 1)]])
Strip(f, t) == Cropping(Whole(f), <<[x |-> 0, y |-> StripTop(t), w |-> W, h |-> heights[t]]>>)

PInit ==
    /\ pair \in Pairs
    /\ h \in {i \in 0..MaxH : i % 2 = 0}
    /\ n \in 1..MaxThreads
    /\ heights = <<>>
    /\ next = <<>>
    /\ log = {}

Split == heights = <<>> /\ Tasks > 0
         /\ heights' = StripHeights /\ next' = [t \in 1..Tasks |-> 0]
         /\ UNCHANGED <<pair, h, n, log>>

(* A task converts a pair of rows of its strip *)
RowBytesAt(v, y, k) ==
    UNION {{<<v.pl[p].rg, v.pl[p].off + (r \div Fmt[v.f].planes[p].rdiv) * v.pl[p].st + b>> :
              r \in y..(y + k - 1), b \in 0..(RowBytes(v.f, p, v.w) - 1)} : p \in 1..Fmt[v.f].np}

Step(t) ==
    /\ heights # <<>> /\ next[t] < heights[t]
    /\ log' = log \cup {[task |-> t,
                         row |-> StripTop(t) + next[t],
                         reads |-> RowBytesAt(Strip(SF, t), next[t], 2),
                         writes |-> RowBytesAt(Strip(DF, t), next[t], 2)]}
    /\ next' = [next EXCEPT ![t] = @ + 2]
    /\ UNCHANGED <<pair, h, n, heights>>

PNext == Split \/ \E t \in 1..Len(next) : Step(t)
PSpec == PInit /\ [][PNext]_vars /\ WF_vars(PNext)

Finished == (heights # <<>> /\ \A t \in 1..Len(next) : next[t] = heights[t]) \/ Tasks = 0

(* The strips cover the image, without overlapping *)
Partition == heights # <<>> => SumTo(heights, Len(heights)) = h /\ \A t \in 1..Len(heights) : heights[t] > 0 /\ heights[t] % 2 = 0
Fair == heights # <<>> => \A a, b \in 1..Len(heights) : heights[a] - heights[b] <= 2

(* No task writes what any other task accesses: the order doesn't matter *)
NoRace == \A a, b \in log : a.task # b.task => a.writes \cap b.writes = {}
Confined == \A a \in log : (\A o \in a.writes : Visible(Whole(DF), o[1], o[2]))
                            /\ (\A o \in a.reads : Visible(Whole(SF), o[1], o[2]))
(* Every pair of rows is written from the same pair of rows of the source, as *)
(* by the single threaded conversion                                          *)
SameAsSingle == \A a \in log : a.writes = RowBytesAt(Whole(DF), a.row, 2) /\ a.reads = RowBytesAt(Whole(SF), a.row, 2)
Complete == Finished => {a.row : a \in log} = {y \in 0..(h - 1) : y % 2 = 0}
StripsAdequate == heights # <<>> => \A t \in 1..Len(heights) : ViewAdequate(Strip(SF, t)) /\ ViewAdequate(Strip(DF, t))
Terminates == <>Finished
=============================================================================
