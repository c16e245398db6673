------------------------------ MODULE OptionsMC ----------------------------
(* Which source decides an option: every state of the cell, of the modern   *)
(* and of the legacy spelling, for every option, beside a second option.    *)
EXTENDS Options
VARIABLES o, cell, kw, legacy, other, extra
vars == <<o, cell, kw, legacy, other, extra>>
Cells == {"absent", "null", "nan", "value"}
Init == o = "" /\ cell \in Cells /\ kw \in BOOLEAN /\ other \in {"none", "cell", "kw"} /\ extra \in {"none", "unknown", "verbose"} /\ legacy \in BOOLEAN
Next == o = "" /\ o' \in OptionKeys /\ UNCHANGED <<cell, kw, legacy, other, extra>>
Spec == Init /\ [][Next]_vars
Ready == o # ""
Other == IF o = "salinity" THEN "dic" ELSE IF o = "pH_min" THEN "dic" ELSE "pH_min"
Legacy == CASE o = "file_type" -> "read_dat_method" :> "L" [] o = "pH_max" -> "pH_range" :> <<"l", "L">> [] o = "pH_min" -> "pH_range" :> <<"L", "l">>
            [] o \in ReadKeys -> "read_dat_kwargs" :> (o :> "L") [] OTHER -> <<>>
Row == (CASE cell = "absent" -> <<>> [] cell = "null" -> (o :> Null) [] cell = "nan" -> (o :> NaN) [] OTHER -> (o :> "C"))
       @@ (IF other = "cell" THEN Other :> "OC" ELSE <<>>) @@ ("user_note" :> "x")
Kw == (IF kw /\ ~legacy THEN o :> "K" ELSE <<>>) @@ (IF kw /\ legacy THEN Legacy ELSE <<>>) @@ (IF other = "kw" THEN Other :> "OK" ELSE <<>>)
      @@ (CASE extra = "unknown" -> "pHmax" :> "x" [] extra = "verbose" -> "verbose" :> FALSE [] OTHER -> <<>>)
e == TLCEval(Effective(Row, Kw))
given == kw /\ (~legacy \/ DOMAIN Legacy # {})
Priority == Ready => /\ Has(e, o) <=> (cell = "value" \/ given)
                     /\ cell = "value" => e[o] = "C"
                     /\ (cell # "value" /\ given) => e[o] = (IF legacy THEN "L" ELSE "K")
\* other options are not concerned; nothing that is no option gets through
Local == Ready => /\ (other = "cell" => e[Other] = "OC") /\ (other = "kw" /\ ~(legacy /\ given /\ o \in {"pH_max", "pH_min"}) => e[Other] = "OK")
                  /\ DOMAIN e \subseteq OptionKeys
\* the legacy spelling means the modern one
Spelling == (Ready /\ legacy /\ given) => LET a == Effective(Row, Legacy) IN a[o] = Effective(Row, o :> "L")[o]
\* reported: the unknown name and only that
Reported == Ready => Ignored(Kw) = IF extra = "unknown" THEN {"pHmax"} ELSE {}
Inv == Priority /\ Local /\ Spelling /\ Reported
=============================================================================
