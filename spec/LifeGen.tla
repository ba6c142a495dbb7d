------------------------------ MODULE LifeGen ------------------------------
(* Histories of Life, printed when nothing is left to do. *)
EXTENDS Life, Sequences
VARIABLES hist
Log(o, r) == hist' = Append(hist, <<o, r[1], r[2]>>)
GInit == LInit /\ hist = <<>>
Done == Quiet /\ \A g \in 1 .. Runs : at[<<g, Parser>>] = "gone"
GNext == \E r \in All : \/ (Make(r) /\ Log("c", r))
                        \/ (Start(r) /\ Log("s", r))
                        \/ (Wait(r) /\ Log("w", r))
                        \/ (Destroy(r) /\ Log("d", r))
GSpec == GInit /\ [][GNext]_<<lvars, hist>>
Emit == Done => PrintT(<<"HIST", hist>>)
=============================================================================
