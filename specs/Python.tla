------------------------------- MODULE Python -------------------------------
(***************************************************************************)
(* A session of Python that runs programs: each run is one of Runner's,    *)
(* asked for with one of the functions of the module, and what it writes   *)
(* goes, all of it and in order, to the callback that the call names, or   *)
(* to standard output when it names none.  Nothing goes anywhere else, and *)
(* what a run does depends on none before it: not on where their output    *)
(* went, nor on how they ended.                                            *)
(***************************************************************************)
EXTENDS Runner
CONSTANT Ears
VARIABLES heard,   \* what each of the handlers of the session has collected
          printed  \* what standard output got
pvars == <<vars, heard, printed>>

Apis == <<"run", "run", "run", "run_bytes", "run_bytes", "run_bytes", "main", "script">>
ApiForms(a) == CASE a = "run" -> <<"ll", "bc", "bcll">>
                 [] a = "run_bytes" -> <<"bytes", "bcbytes">>
                 [] a = "main" -> <<"ll", "bc">>
                 [] OTHER -> <<"ll", "bc", "input">>
PyHarm(f) == IF f \in {"ll", "bc", "bcll"} /\ RandomElement(0..1) = 0 THEN FileHarm ELSE Harm
(* replaces Runner's request *)
PyRequest(p) ==
  TLCEval(LET a == IF Fails(p) THEN "script" ELSE Pick(Apis)
              f == Pick(ApiForms(a))
              k == RandomElement(0..14)
              d == RandomElement(0..3) = 0
              called == a \in {"run", "run_bytes"}
              names == <<"", "h1", "nobody", "mai", "main ">> \o [x \in 1..Len(p.funcs) |-> p.funcs[x].nm]
              many == Len(SelectSeq(p.funcs, LAMBDA x : x.entry)) > 1
          IN [api |-> a, form |-> f,
              default |-> d, shots |-> IF d THEN 1 ELSE IF RandomElement(0..39) = 0 THEN Pick(<<64, 100, 256, 260>>) ELSE Pick(<<0, 1, 1, 2, 2, 3, 5>>),
              filter |-> IF many /\ RandomElement(0..3) > 0 THEN <<p.funcs[RandomElement(1..2)].nm>>
                         ELSE IF RandomElement(0..3) = 0 THEN <<Pick(names)>> ELSE <<>>,
              seed |-> IF RandomElement(0..1) = 0 THEN <<>> ELSE <<RandomElement(0..1000000)>>,
              harm |-> IF k = 0 THEN Pick(PyHarm(f)) ELSE "",
              style |-> RandomElement(0..7), call |-> RandomElement(0..4),
              to |-> IF ~called THEN 0 ELSE Pick(<<0, 0>> \o [x \in 1..(2 * Ears) |-> (x + 1) \div 2]),
              \* the callback gives up when it is called for this time
              deaf |-> IF called /\ RandomElement(0..5) = 0 THEN RandomElement(1..9) ELSE 0,
              thread |-> called /\ RandomElement(0..5) = 0])
(* replaces Runner's label: only text can be given to a callback *)
Letters == <<<<195, 169>>, <<207, 128>>, <<226, 130, 172>>, <<240, 159, 152, 128>>, <<9>>, <<127>>>>
PyLabel(u) ==
  TLCEval(IF RandomElement(0..149) = 0 THEN LongLabel(0) ELSE IF RandomElement(0..2) = 0 THEN <<>>
          ELSE LET n == RandomElement(0..6)
                   l == [x \in 1..n |-> IF RandomElement(0..4) = 0 THEN Pick(Letters) ELSE <<RandomElement(32..126)>>]
               IN  <<FlattenSeq(TLCEval(l))>>)

PyInit == Init /\ heard = [e \in 1..Ears |-> <<>>] /\ printed = <<>>
PyNext ==
  /\ Next
  /\ IF Len(hist') = Len(hist) THEN UNCHANGED <<heard, printed>>
     ELSE LET e == hist'[Len(hist')]  r == e.req IN
          \* what a callback that gives up has heard is its own affair
          IF r.deaf > 0 THEN UNCHANGED <<heard, printed>>
          ELSE IF r.to > 0 THEN heard' = [heard EXCEPT ![r.to] = @ \o e.out] /\ UNCHANGED printed
          ELSE printed' = printed \o e.out /\ UNCHANGED heard
PySpec == PyInit /\ [][PyNext]_pvars

(* all that the runs wrote is somewhere, once *)
Sum(s) == FoldLeft(+, 0, s)
Kept == Sum([k \in 1..Len(hist) |-> IF hist[k].req.deaf > 0 THEN 0 ELSE Len(hist[k].out)])
        = Len(printed) + Sum([e \in 1..Ears |-> Len(heard[e])])
(* a run reaches one listener only *)
Once == [][Cardinality({e \in 1..Ears : heard'[e] # heard[e]}) + (IF printed' # printed THEN 1 ELSE 0) <= 1]_pvars
PyEmit == (Len(hist) = Runs /\ phase = "idle") =>
            CSVWrite("%1$s", <<ToJson([hist |-> hist, heard |-> heard, printed |-> printed])>>, Out)

=============================================================================
