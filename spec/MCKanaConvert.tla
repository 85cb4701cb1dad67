---------------------------- MODULE MCKanaConvert -----------------------------
(* Runs of the converter program: every argument list of up to MaxArgs of Opts,*)
(* and interactive sessions of up to MaxLines of Lines. Checked:               *)
(*  - an argument list fails or gives settings; its settings are those of its  *)
(*    last source and target option and of the set of its flags                *)
(*  - a line changes at most the one setting it names, and only a command      *)
(*    prints the settings; any other line is converted under those in force    *)
(*  - a session has ended exactly after q, or waits in the flag prompt          *)
(* Every run is printed for replay.                                            *)
EXTENDS KanaConvert, Json
CONSTANTS Opts, LinesOf, MaxArgs, MaxLines
VARIABLES args, in, z, asking, ended
O_quick == {"-h", "-k", "-r", "-H", "-R", "-n", "-i", "-f", "n", "x", "--", "-?", "-z"}
L_quick == {"", "q", "c", "f", "h", "r", "k", "-r", "-k", "-H", "-zz", "t2"}
L_thorough == L_quick \cup {"n", "-h", "-K", "-R", "t1", "t3", "-"}
vars == <<args, in, z, asking, ended>>
Init == args = <<>> /\ in = <<>> /\ z = DefaultZ /\ asking = FALSE /\ ended = FALSE
AddArg == /\ in = <<>> /\ Len(args) < MaxArgs /\ z = DefaultZ /\ ~ended
          /\ \E o \in Opts : args' = Append(args, o)
          /\ UNCHANGED <<in, z, asking, ended>>
Show == \/ in # <<>> /\ PrintT("HIST " \o ToJson([args |-> args, in |-> in]))
        \/ in = <<>> /\ PrintT("HIST " \o ToJson([args |-> args, in |-> in]))
AddLine == /\ args = <<"-i">> /\ Len(in) < MaxLines /\ ~ended
           /\ \E l \in LinesOf : LET a == Line(z, asking, l) IN
                /\ in' = Append(in, l) /\ z' = a.z /\ asking' = a.asking /\ ended' = a.end
           /\ UNCHANGED args
Next == AddArg \/ AddLine
Spec == Init /\ [][Next]_vars
P == Args(args, 1, DefaultZ, "", <<>>)
RECURSIVE LastType(_, _)
LastType(a, S) == IF a = <<>> THEN "" ELSE IF a[Len(a)] \in S THEN a[Len(a)] ELSE LastType(SubSeq(a, 1, Len(a) - 1), S)
\* the options before a "--"
Cut == IF \E i \in 1..Len(args) : args[i] = "--" THEN SubSeq(args, 1, (CHOOSE i \in 1..Len(args) : args[i] = "--" /\ \A j \in 1..(i - 1) : args[j] # "--") - 1) ELSE args
Good == P.act \in {"strings", "read", "chart"} =>
  LET s == LastType(Cut, {"-H", "-K", "-R"})
      t == LastType(Cut, {"-h", "-k", "-r"})
  IN /\ P.z.src = (IF s = "" THEN "" ELSE Named[Ch(s, 2)])
     /\ P.z.target = (IF t = "" THEN "Hiragana" ELSE Named[Ch(t, 2)])
     /\ P.z.flags = (IF \E i \in 1..(Len(Cut) - 1) : Cut[i] = "-f" /\ Cut[i + 1] = "n" THEN 4 ELSE 0)
     /\ Cardinality({i \in 1..Len(Cut) : Cut[i] \in {"-n", "-i"}}) <= 1
     /\ (P.act = "strings") = (P.strings # <<>>)
Bad == P.act = "fail" => P.err # ""
\* what a line may change
Steps == [][in' # in =>
  LET l == in'[Len(in')]
      o == Line(z, asking, l).out
  IN /\ (z'.src # z.src => ~asking /\ l \in {"-H", "-K", "-R"} /\ z'.src = Named[Ch(l, 2)])
     /\ (z'.target # z.target => ~asking /\ l \in {"-h", "-k", "-r"} /\ z'.target = Named[Ch(l, 2)])
     /\ (z'.flags # z.flags => (asking /\ l \in FlagKeys /\ z'.flags = z.flags + FlagBit[l]) \/ (~asking /\ l = "c" /\ z'.flags = 0))
     /\ (ended' <=> (~asking /\ l = "q"))
     /\ (z' # z => EndsWith(o, Options(z')))
     /\ (asking' => o = FlagPrompt /\ z' = z)
     /\ (~asking /\ ~asking' /\ ~Has(o, Options(z')) => z' = z /\ (l \in {"", "q"} \/ o = Converted(z, l) \o "\n"))]_vars
Alias == [args |-> args, in |-> in]
Emit == Show
Inv == Good /\ Bad /\ Emit
=============================================================================
