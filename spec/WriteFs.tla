------------------------------ MODULE WriteFs ------------------------------
(***************************************************************************)
(* Files under write_dat: a path is Absent, holds the UserFile (perhaps an  *)
(* EmptyFile) or written columns; mode "x" (the default) never replaces.    *)
(***************************************************************************)
EXTENDS Vec

Absent == [what |-> "absent"]
UserFile == [what |-> "user"]
EmptyFile == [what |-> "empty"]
CanWrite(fs, op) == op.mode = "w" \/ fs[op.path] = Absent
\* the files after an attempt to write new contents
AfterWrite(fs, op, new) == IF CanWrite(fs, op) THEN [fs EXCEPT ![op.path] = new] ELSE fs
\* a value as the format writes it: kind (f, e, g, repr) and digits
FmtOf == ".3f" :> <<"f", 3>> @@ ".6f" :> <<"f", 6>> @@ ".0f" :> <<"f", 0>> @@ ".1f" :> <<"f", 1>> @@ ".12f" :> <<"f", 12>> @@ ".5e" :> <<"s", 6>>
         @@ ".7g" :> <<"s", 7>> @@ ".17g" :> <<"r", 0>> @@ "" :> <<"r", 0>> @@ "12.4f" :> <<"f", 4>> @@ "+.2f" :> <<"f", 2>>
As(f, x) == CASE FmtOf[f][1] = "f" -> RRound(R(x), FmtOf[f][2])
              [] FmtOf[f][1] = "s" -> RSig(R(x), FmtOf[f][2])
              [] OTHER -> R(x)
Written(op) == [what |-> "written", cols |-> TLCEval([j \in 1..3 |-> Map(op.cols[j], LAMBDA x : As(op.fmts[j], x))])]
=============================================================================
