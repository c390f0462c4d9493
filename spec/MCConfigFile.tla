---------------------------- MODULE MCConfigFile ----------------------------
(* Builders with the same options parse, write and lose configuration files. *)
EXTENDS ConfigFile, FiniteSets, TLC
CONSTANTS NB, MaxEnv
Vals == {"a", "b"}
Opts == << [list |-> FALSE, slots |-> 2, ess |-> TRUE, com |-> << <<"c">> >>], [list |-> TRUE, slots |-> 1, ess |-> FALSE, com |-> << << >> >>] >>
Places == << [ext |-> TRUE, dir |-> TRUE], [ext |-> TRUE, dir |-> FALSE], [ext |-> FALSE, dir |-> TRUE] >>
Lists == { <<"a">>, <<"b", "a">> }
Values == {<<x, y>> : x, y \in Lists} \cup {<< <<u, v>>, w>> : u, v \in Vals, w \in Lists}
Start == << <<"a", "b">>, <<"a">> >>
B == 1..NB
VARIABLES files, D, P,
          T,     \* what the user of each builder was told last
          out,   \* outcome of the last step: builder, success
          env    \* steps of the environment
vars == <<files, D, P, T, out, env>>
Init == /\ files = [f \in DOMAIN Places |-> Absent] /\ D = [b \in B |-> Start] /\ P = [b \in B |-> Start]
        /\ T = [b \in B |-> << >>] /\ out = [what |-> "none"] /\ env = 0
Cell(s) == { <<"ok", "a">>, <<"ok", "b">>, <<"miss", "">>, <<"bad", "">> }
AnyFile == {[kind |-> "ok", hdr |-> << >>, def |-> << << >>, << >> >>, com |-> << << << >> >>, << << >> >> >>,
         val |-> << <<x, y>>, <<z>> >>] : x, y \in Cell(1), z \in {<<"ok", <<"b", "a">> >>, <<"ok", << >> >>, <<"miss", << >> >>, <<"bad", << >> >>}}
       \cup {[kind |-> "broken"], [kind |-> "dir"]}
\* the user places or removes a file
Put(f) == /\ env < MaxEnv /\ Places[f].dir /\ \E c \in (IF files[f].kind = "absent" THEN AnyFile ELSE {Absent}) : files' = [files EXCEPT ![f] = c]
          /\ env' = env + 1 /\ out' = [what |-> "env"] /\ UNCHANGED <<D, P, T>>
Reset(b) == /\ env < MaxEnv /\ env' = env + 1 /\ \E i \in {1, 2}, v \in Lists \cup {<<x, y>> : x, y \in Vals} : (i = 1 => Len(v) = 2)
               /\ D' = [D EXCEPT ![b][i] = v] /\ P' = [P EXCEPT ![b][i] = v]
            /\ out' = [what |-> "reset"] /\ UNCHANGED <<files, T>>
DoParse(b, f) ==
  \E r \in {Parse(Opts, Places[f], files[f], P[b], D[b])} :
    /\ files' = [files EXCEPT ![f] = r.file]
    /\ out' = [what |-> "parse", b |-> b, f |-> f, ok |-> r.ok]
    /\ (IF r.ok THEN P' = [P EXCEPT ![b] = r.val] /\ T' = [T EXCEPT ![b] = r.val]
        ELSE \E U \in SUBSET (IF r.read THEN DOMAIN Opts \ r.bad ELSE {}) :
               P' = [P EXCEPT ![b] = [i \in DOMAIN Opts |-> IF i \in U THEN r.val[i] ELSE @[i]]] /\ T' = T)
    /\ UNCHANGED <<D, env>>
Write(b, f, all) ==
  LET can == CanWrite(Opts, Places[f], files[f]) IN
    /\ files' = [files EXCEPT ![f] = IF can THEN Content(Opts, P[b], D[b], all, << >>) ELSE @]
    /\ out' = [what |-> "write", b |-> b, f |-> f, ok |-> can] /\ UNCHANGED <<D, P, T, env>>
Next == \E b \in B : Reset(b) \/ \E f \in DOMAIN Places : Put(f) \/ DoParse(b, f) \/ \E all \in BOOLEAN : Write(b, f, all)
Spec == Init /\ [][Next]_vars
\* the library never changes a file that exists
NeverOverwrites == [][\A f \in DOMAIN Places : (files[f].kind # "absent" /\ out'.what # "env") => files'[f] = files[f]]_vars
\* a usable place always ends up with a file that can be read, and the values come from it or from the defaults
ParseWorks == [][\A b \in B, f \in DOMAIN Places : (out'.what = "parse" /\ out'.b = b /\ out'.f = f /\ out'.ok) =>
                  /\ files'[f].kind = "ok"
                  /\ \A i \in DOMAIN Opts : T'[b][i] = Loaded(Opts[i], files'[f].val[i], D[b][i])]_vars
Creates == [][\A b \in B, f \in DOMAIN Places : (files[f] = Absent /\ out'.what = "parse" /\ out'.f = f /\ out'.b = b) =>
                (out'.ok = (Places[f].ext /\ Places[f].dir) /\ (out'.ok => P'[b] = P[b]))]_vars
\* whoever reads a completely written file gets the values of its writer
RoundTrip == \A b \in B, c \in B : LET F == Content(Opts, P[b], D[b], TRUE, << >>) r == Parse(Opts, Places[1], F, P[c], D[c]) IN
               r.ok /\ r.val = P[b] /\ r.file = F
\* the essential part of a file determines the essential options, all others get their defaults
Essential == \A b \in B, c \in B : LET r == Parse(Opts, Places[1], Content(Opts, P[b], D[b], FALSE, << >>), P[c], D[c]) IN
               r.ok /\ \A i \in DOMAIN Opts : r.val[i] = IF Opts[i].ess THEN P[b][i] ELSE D[c][i]
OnlyWhereAllowed == files[2] = Absent /\ (files[3].kind = "ok" => env > 0)
=============================================================================
