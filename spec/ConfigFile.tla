----------------------------- MODULE ConfigFile -----------------------------
(* Configuration files as GParserBuilder reads and writes them, and its command line.

   An option is [list |-> BOOLEAN, slots |-> number of entries, ess |-> BOOLEAN, com |-> comment lines].
   A value of an option is a sequence of texts: one per slot, or, for a list, one per element.
   A file is [kind |-> "absent" | "dir" | "broken"] or
             [kind |-> "ok", val |-> entries per option, def |-> , com |-> , hdr |-> ];
   an entry is <<"ok", value>>, <<"miss", _>> (not in the file) or <<"bad", _>> (not of the option's type).
   A place for a file is [ext |-> it has the required extension, dir |-> its directory exists]. *)
EXTENDS Naturals, Sequences

Absent == [kind |-> "absent"]
\* what the entries of a file mean for an option with default D: entries that are missing or
\* unreadable leave the default
Loaded(o, entries, D) == IF o.list THEN (IF entries[1][1] = "ok" THEN entries[1][2] ELSE D)
                         ELSE [i \in DOMAIN D |-> IF entries[i][1] = "ok" THEN entries[i][2] ELSE D[i]]
\* a list with an unreadable element makes the whole file unusable
Unusable(o, entries) == o.list /\ entries[1][1] = "bad"

Entries(o, v) == IF o.list THEN << <<"ok", v>> >> ELSE [i \in DOMAIN v |-> <<"ok", v[i]>>]
NoEntries(o) == IF o.list THEN << <<"miss", << >> >> >> ELSE [i \in 1..o.slots |-> <<"miss", "">>]
Chosen(o, all) == all \/ o.ess
\* the file written for stored values P and defaults D
Content(opts, P, D, all, hdr) ==
  [kind |-> "ok", hdr |-> hdr,
   val |-> [i \in DOMAIN opts |-> IF Chosen(opts[i], all) THEN Entries(opts[i], P[i]) ELSE NoEntries(opts[i])],
   def |-> [i \in DOMAIN opts |-> IF Chosen(opts[i], all) THEN D[i] ELSE << >>],
   com |-> [i \in DOMAIN opts |-> IF Chosen(opts[i], all) THEN opts[i].com ELSE [j \in DOMAIN opts[i].com |-> << >>]]]
\* a file is only ever created, never overwritten
CanWrite(opts, place, file) == file.kind = "absent" /\ place.ext /\ place.dir /\ opts # << >>
Auto == <<"*">>   \* the header of a file created by a parse
\* outcome of parsing: the file afterwards, success, values per option, options that spoil the file
Parse(opts, place, file, P, D) ==
  LET F == IF CanWrite(opts, place, file) THEN Content(opts, P, D, TRUE, Auto) ELSE file IN
  IF F.kind # "ok" \/ ~place.ext THEN [file |-> F, read |-> FALSE, ok |-> FALSE, val |-> P, bad |-> {}]
  ELSE LET bad == {i \in DOMAIN opts : Unusable(opts[i], F.val[i])} IN
       [file |-> F, read |-> TRUE, ok |-> bad = {}, val |-> [i \in DOMAIN opts |-> Loaded(opts[i], F.val[i], D[i])], bad |-> bad]

\* the command line: an option that is absent has its default, one without a value its implicit value
ClValue(use, d, im) == CASE use[1] = "none" -> d [] use[1] = "bare" -> im [] use[1] = "val" -> use[2]
=============================================================================
