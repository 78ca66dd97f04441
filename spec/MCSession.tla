----------------------------- MODULE MCSession -----------------------------
EXTENDS Session
CONSTANTS MaxSteps, Few

ok(s, sw, d, dw) == Cols(s, sw) = Cols(d, dw) /\ RowsOf(s, sw) = RowsOf(d, dw)
MCWins(s) == IF Few THEN {"all", "L"} ELSE WinsOf(s)

MCNext ==
    /\ Len(hist) < MaxSteps
    /\ \/ \E s, d \in Slots : \E sw \in MCWins(s), dw \in MCWins(d) :
             \/ \E op \in {"convert", "copy"} : Transform(op, s, sw, d, dw, ok(s, sw, d, dw))
             \/ \E r \in 1..Len(rs), k \in BOOLEAN : Resize_(r, s, sw, d, dw, k)
       \/ \E r \in 1..Len(rs) : Clone_(r)
       \/ \E d \in Slots : \E dw \in MCWins(d) : Fill_(d, dw)
MCSpec == SInit /\ [][MCNext]_svars
=============================================================================
