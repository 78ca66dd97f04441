------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* How a conversion walks over the images: 2 rows at a time, in blocks of   *)
(* 2*LEN columns as long as they fit, then in blocks of 2 columns. Each      *)
(* visit reads the samples covering the block and writes all samples of the  *)
(* destination covering it.                                                  *)
(*                                                                         *)
(* Memory is modelled by the byte, the contents by "who wrote it": the set  *)
(* of source samples a written sample was computed from. Checked: the walk  *)
(* refines the single step of Convert - it writes each sample exactly once,  *)
(* from exactly the samples it depends on, and accesses nothing else - for   *)
(* every pair of formats and every LEN.                                      *)
(***************************************************************************)
EXTENDS Convert

CONSTANTS Srcs, Dsts, Ws, H, Lens, PAD

VARIABLES cf, x, y, pc, reads, writes

vars == <<cf, x, y, pc, reads, writes>>

(* formats, width and number of lanes of the vectors *)
SF == cf.sf
DF == cf.df
W == cf.w
LEN == cf.len

MkView(f) == View(f, W, H, [p \in 1..Fmt[f].np |->
                [rg |-> p, off |-> 1, st |-> RowBytes(f, p, W) + PAD,
                 len |-> MinLen(f, p, W, H, RowBytes(f, p, W) + PAD)]])
S == MkView(SF)
D == MkView(DF)

Block == LEN * 2
Vectored == W - (W % Block)

(* Samples of a component covering the pixels x..x+n-1, y..y+1 *)
Covering(f, c, bx, by, n) ==
    {<<cx, cy>> \in (0..(W - 1)) \X (0..(H - 1)) :
        LET co == Fmt[f].comps[c] IN
        /\ cx < CompW(f, c, W) /\ cy < CompH(f, c, H)
        /\ Overlap(cx * co.ssx, co.ssx, bx, n)
        /\ Overlap(cy * co.ssy, co.ssy, by, 2)}

(* A vector of n/ssx samples is loaded (stored) per row and component *)
Accesses(v, bx, by, n) ==
    UNION {{<<v.pl[Fmt[v.f].comps[c].plane].rg,
              v.pl[Fmt[v.f].comps[c].plane].off
                + SampleOff(v.f, c, cx \div Fmt[v.f].comps[c].ssx, (by + r) \div Fmt[v.f].comps[c].ssy,
                            v.pl[Fmt[v.f].comps[c].plane].st) + b>> :
              cx \in bx..(bx + n - 1), r \in 0..1, b \in 0..(Fmt[v.f].bps - 1)} : c \in 1..Fmt[v.f].nc}

Samples(v) == UNION {{<<c, cx, cy>> : cx \in 0..(CompW(v.f, c, W) - 1), cy \in 0..(CompH(v.f, c, H) - 1)} :
                       c \in 1..Fmt[v.f].nc}

EInit == cf \in [sf : Srcs, df : Dsts, w : Ws, len : Lens] /\ x = 0 /\ y = 0 /\ pc = "run" /\ reads = {} /\ writes = [s \in Samples(D) |-> <<>>]

Visit(n) ==
    /\ pc = "run" /\ y < H
    /\ reads' = reads \cup Accesses(S, x, y, n)
    /\ writes' = [s \in Samples(D) |->
                    IF <<s[2], s[3]>> \in Covering(DF, s[1], x, y, n)
                    THEN Append(writes[s],
                           UNION {{<<c, p[1], p[2]>> : p \in {q \in Covering(SF, c, x, y, n) :
                                       DependsOn(DF, s[1], s[2], s[3], SF, c, q[1], q[2], FALSE)}} : c \in 1..Fmt[SF].nc})
                    ELSE writes[s]]
    /\ IF x + n < W THEN x' = x + n /\ y' = y ELSE x' = 0 /\ y' = y + 2
    /\ UNCHANGED <<pc, cf>>

VisitVector == x < Vectored /\ Visit(Block)
VisitScalar == x >= Vectored /\ Visit(2)
Finish == pc = "run" /\ (y >= H \/ W = 0) /\ pc' = "done" /\ UNCHANGED <<cf, x, y, reads, writes>>

ENext == (W > 0 /\ (VisitVector \/ VisitScalar)) \/ Finish
ESpec == EInit /\ [][ENext]_vars /\ WF_vars(ENext)

ReadsConfined == \A a \in reads : Visible(S, a[1], a[2])
(* a visit never writes a sample twice, no two visits write the same sample *)
WrittenOnce == \A s \in Samples(D) : Len(writes[s]) <= 1
FromFootprint ==
    \A s \in Samples(D) : Len(writes[s]) = 1 =>
        writes[s][1] = {t \in Samples(S) : DependsOn(DF, s[1], s[2], s[3], SF, t[1], t[2], t[3], FALSE)}
Complete == pc = "done" => \A s \in Samples(D) : Len(writes[s]) = 1
AllRead == pc = "done" /\ ~(HasAlpha(SF) /\ ~HasAlpha(DF)) =>
              \A p \in 1..Fmt[SF].np, o \in 0..200 : Visible(S, p, o) => <<p, o>> \in reads
Terminates == <>(pc = "done")
=============================================================================
