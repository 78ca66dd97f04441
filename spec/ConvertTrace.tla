---------------------------- MODULE ConvertTrace ----------------------------
(* Checks recorded conversions against Convert: results, memory which is     *)
(* changed, dependencies between samples                                     *)
EXTENDS Convert, TraceLib

VARIABLE k   \* step of the event

vars == <<views, smem, dmem, result, l, k>>

E == Trace[l]
Vs(r) == ViewOf(r.src)
Vd(r) == ViewOf(r.dst)

NextStep(last) == IF k = last THEN Advance(l + 1) /\ k' = 1 ELSE l' = l /\ k' = k + 1

(* The caller provides the images *)
Setup(r) == smem' = <<>> /\ dmem' = Get(r, "bd", <<>>) /\ result' = "" /\ UNCHANGED views

(* A call of convert or convert_multi_thread *)
CallConvert(r) ==
    LET s == Vs(r)  d == Vd(r)  sci == r.src.ci  dci == r.dst.ci IN
    /\ Chk("source was modified", r.srcdiff = -1)
    /\ Chk("panic", ~IsPanic(r.res))
    /\ Chk("memory outside of the image was modified", Has(r, "bi") => r.bi = r.ai)
    /\ IF IsOk(r.res)
       THEN /\ Chk("converted although it isn't possible", ~MustFail(s, sci, d, dci))
            /\ Do("memory outside of the image was modified", ConfinedTo(d, dmem, Get(r, "ad", <<>>)),
                  ConvertOk(s, sci, d, dci, Get(r, "ad", <<>>)))
       ELSE /\ Chk("error of the constructor", ~Has(r.res, "at"))
            /\ Chk("untruthful error", MayFailWith(s, sci, d, dci, r.res))
            /\ Chk("failed, but modified the destination", Get(r, "ad", <<>>) = dmem)
            /\ ConvertErr(s, sci, d, dci, r.res)
    /\ UNCHANGED views

CallCopy(r) ==
    LET s == Vs(r)  d == Vd(r) IN
    /\ Chk("source was modified", r.srcdiff = -1)
    /\ Chk("memory outside of the image was modified", Has(r, "bi") => r.bi = r.ai)
    /\ IF IsOk(r.res)
       THEN /\ Chk("copied although it isn't possible", s.f = d.f /\ ~CopyMustFail(s, d))
            /\ Chk("memory outside of the image was modified", ConfinedTo(d, dmem, Get(r, "ad", <<>>)))
            /\ dmem' = Get(r, "ad", <<>>) /\ result' = "ok"
       ELSE /\ Chk("failed to copy", s.f # d.f \/ (IsErr(r.res) /\ MayFailWith(s, r.src.ci, d, r.src.ci, r.res)))
            /\ Chk("failed, but modified the destination", Get(r, "ad", <<>>) = dmem)
            /\ UNCHANGED dmem /\ result' = "err"
    /\ UNCHANGED <<smem, views>>

Call(r) == IF r.api = "copy" THEN CallCopy(r) ELSE CallConvert(r)

Run == E.runs[(k + 1) \div 2]

RunsOf(Rel) ==
    /\ E.op = "multi"
    /\ IF k % 2 = 1 THEN Setup(Run) ELSE Call(Run)
    /\ (k = 2 * Len(E.runs) => Rel)
    /\ NextStep(2 * Len(E.runs))

---------------------------------------------------------------------------
(* Relations between the runs of an event *)

AllOk == \A i \in 1..Len(E.runs) : IsOk(E.runs[i].res)

(* Same source, but destinations whose contents were different in every byte: *)
(* every sample has been written, to the same value                           *)
Independent ==
    LET d == Vd(E.runs[1])  a == Get(E.runs[1], "ad", <<>>)  b == Get(E.runs[2], "ad", <<>>) IN
    /\ Chk("failed", AllOk)
    /\ Chk("result depends on the previous contents of the destination",
           Get(E.runs[1], "dh", 0) = Get(E.runs[2], "dh", 0))
    /\ Chk("result depends on the previous contents of the destination",
           \A r \in 1..Len(a) : \A i \in 1..Len(a[r]) : a[r][i] = b[r][i] \/ ~Visible(d, r, i - 1))

(* Same contents, but differently laid out memory *)
SameValues ==
    /\ Chk("failed", AllOk)
    /\ Chk("result depends on the memory layout or on memory which is not part of the image",
           \A i \in 2..Len(E.runs) : /\ Get(E.runs[i], "dv", 0) = Get(E.runs[1], "dv", 0)
                                    /\ Get(E.runs[i], "dh", 0) = Get(E.runs[1], "dh", 0))

(* The same call, single and multi threaded, both decide in the same way *)
SameDecision ==
    Chk("single and multi threaded disagree",
        \A i \in 2..Len(E.runs) : E.runs[i].api = "mt" => (IsOk(E.runs[i].res) <=> IsOk(E.runs[1].res)))

(* runs[1] converts a whole image, the others windows of it *)
Abs(a) == IF a < 0 THEN -a ELSE a
(* of large images only the windows are recorded *)
TiledFar ==
    /\ Chk("failed", AllOk)
    /\ Chk("converting a window differs from the window of the conversion",
           \A i \in 2..Len(E.runs) :
              LET a == E.runs[i].dv  b == E.runs[1].wv[i - 1] IN
              /\ Len(a) = Len(b)
              /\ \A c \in 1..Len(a) : Len(a[c]) = Len(b[c]) /\ \A j \in 1..Len(a[c]) : Abs(a[c][j] - b[c][j]) <= E.tol)

Tiled ==
    LET d1 == Vd(E.runs[1]) IN
    /\ Chk("failed", AllOk)
    /\ Chk("converting a window differs from the window of the conversion",
           \A i \in 2..Len(E.runs) :
              LET d == Vd(E.runs[i])  win == E.runs[i].win IN
              \A c \in 1..Fmt[d.f].nc :
                 \A cx \in 0..(CompW(d.f, c, d.w) - 1), cy \in 0..(CompH(d.f, c, d.h) - 1) :
                    Abs(At(d, E.runs[i].dv, c, cx, cy)
                        - At(d1, E.runs[1].dv, c, cx + win.x \div Fmt[d.f].comps[c].ssx,
                                                  cy + win.y \div Fmt[d.f].comps[c].ssy)) <= E.tol)

(* Samples keep their exact value *)
Identical ==
    LET r == E.runs[1]  s == Vs(r)  d == Vd(r) IN
    /\ Chk("failed", AllOk)
    /\ Chk("a sample changed its value",
           \A c \in 1..Fmt[d.f].nc :
              IF Has(r, "dh") THEN (c <= Fmt[s.f].nc => r.dh[c] = r.sh[c])
              ELSE IF c <= Fmt[s.f].nc THEN r.dv[c] = r.sv[c]
              ELSE \A i \in 1..Len(r.dv[c]) : r.dv[c][i] = 255)

(* Written in one format, read back as another one without any loss *)
EvMulti ==
    CASE E.rel = "independent" -> RunsOf(Independent)
      [] E.rel = "layout"      -> RunsOf(SameValues)
      [] E.rel = "decide"      -> RunsOf(SameDecision)
      [] E.rel = "tile"        -> RunsOf(Tiled)
      [] E.rel = "far"         -> RunsOf(TiledFar)
      [] E.rel = "identical"   -> RunsOf(Identical)

---------------------------------------------------------------------------
(* The multi threaded conversion has the same effect as the single threaded *)
(* one, whatever the number of threads is                                    *)
EvMt ==
    LET s == Vs(E)  d == Vd(E) IN
    /\ E.op = "mt"
    /\ Chk("source was modified", E.srcdiff = -1)
    /\ Chk("single threaded", IF IsOk(E.res) THEN ~MustFail(s, E.src.ci, d, E.dst.ci)
                              ELSE IsErr(E.res) /\ MayFailWith(s, E.src.ci, d, E.dst.ci, E.res))
    /\ \A i \in 1..Len(E.runs) :
          LET r == E.runs[i] IN
          /\ Chk("panic", ~IsPanic(r.res))
          /\ Chk("decision", r.res.k = E.res.k /\ (IsErr(r.res) => MayFailWith(s, E.src.ci, d, E.dst.ci, r.res)))
          /\ Chk("memory differs from the single threaded conversion", r.diff = -1 /\ r.dg = E.dg)
    /\ Advance(l + 1) /\ k' = 1 /\ UNCHANGED <<views, smem, dmem, result>>

---------------------------------------------------------------------------
(* A changed sample of the source only affects samples depending on it *)

(* The sample of the view a byte belongs to *)
SamplesAt(v, r, o) ==
    UNION {{<<c, cx, cy>> : cx \in {j \in 0..(CompW(v.f, c, v.w) - 1) :
                \E b \in 0..(Fmt[v.f].bps - 1) :
                   LET q == v.pl[Fmt[v.f].comps[c].plane] IN
                   /\ q.rg = r /\ o >= q.off
                   /\ (o - q.off) % q.st = (Fmt[v.f].comps[c].first + j * Fmt[v.f].comps[c].step) * Fmt[v.f].bps + b},
             cy \in {j \in 0..(CompH(v.f, c, v.h) - 1) :
                LET q == v.pl[Fmt[v.f].comps[c].plane] IN q.rg = r /\ o >= q.off /\ j = (o - q.off) \div q.st}} :
           c \in 1..Fmt[v.f].nc}

EvPerturb ==
    LET s == Vs(E)  d == Vd(E)  same == SameColor(E.src.ci, E.dst.ci) IN
    /\ E.op = "perturb"
    /\ Chk("failed", IsOk(E.res))
    /\ \A i \in 1..Len(E.pts) :
          LET p == E.pts[i] IN
          /\ Chk("failed", IsOk(p.res))
          /\ Chk("a sample depends on an unrelated one",
                 \A j \in 1..Len(p.changed) :
                    LET t == SamplesAt(d, p.changed[j][1], p.changed[j][2]) IN
                    /\ t # {}
                    /\ \A q \in t : DependsOn(d.f, q[1], q[2], q[3], s.f, p.c, p.x, p.y, same))
          (* a strong change of the luma or of alpha is always visible *)
          /\ Chk("a sample has no influence",
                 (Fmt[s.f].yuv /\ p.c = 1 /\ E.must) \/ (p.c = 4 /\ HasAlpha(d.f)) => p.changed # <<>>)
    /\ Advance(l + 1) /\ k' = 1 /\ UNCHANGED <<views, smem, dmem, result>>

Init == l = 1 /\ k = 1 /\ views = NoViews /\ smem = <<>> /\ dmem = <<>> /\ result = ""
Next == l <= N /\ NoCrash /\ CASE E.op = "multi" -> EvMulti [] E.op = "mt" -> EvMt [] E.op = "perturb" -> EvPerturb
Spec == Init /\ [][Next]_vars
TraceAccepted == AllExplained

(* After a failed call the destination is as the caller provided it *)
ErrorsHaveNoEffect == [][result' = "err" /\ result = "" => dmem' = dmem]_vars
=============================================================================
