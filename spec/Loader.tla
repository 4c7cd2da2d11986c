------------------------------- MODULE Loader -------------------------------
(* The user's dictionary files and the loader that follows them.
   A file is absent or a sequence of lines; a line is [s, p]: its text, and the
   words it defines (<<>> for blank lines and comments, one word for a faulty
   line, which ends what is read).  x.fs[f] = [ex, x, term, mt]; x.ram[f]: what
   the running loader has read; x.on: replacement active; x.seen[f]: the time
   at the last check (0: absent); x.up: running; x.shut: the directory cannot be
   made, there are no user files. *)
EXTENDS LM
FileNames == {"u", "x", "r"}
NoFile == [ex |-> FALSE, x |-> <<>>, term |-> TRUE, mt |-> 0]
RECURSIVE Entries(_)
Entries(ls) == IF ls = <<>> THEN <<>>
               ELSE IF ls[1].p = <<>> THEN Entries(Tail(ls))
               ELSE IF Len(ls[1].p) = 1 THEN <<>>
               ELSE <<ls[1].p>> \o Entries(Tail(ls))
ReadFile(f) == IF f.ex THEN Entries(f.x) ELSE <<>>
Start0 == [fs |-> [f \in FileNames |-> NoFile], ram |-> [f \in FileNames |-> <<>>],
           seen |-> [f \in FileNames |-> 0], on |-> FALSE, up |-> FALSE, plain |-> FALSE, n |-> 0, shut |-> FALSE]
\* The next check: each file that changed, appeared or disappeared is followed.
Check(x) == [x EXCEPT !.ram = [f \in FileNames |-> ReadFile(x.fs[f])],
                      !.seen = [f \in FileNames |-> x.fs[f].mt],
                      !.on = x.fs["r"].ex]
Header(f) == IF f = "u" THEN <<[s |-> "# user", p |-> <<>>], [s |-> "", p |-> <<>>]>> ELSE <<[s |-> "# excluded", p |-> <<>>]>>
Populated(fs, f, mt) == IF fs[f].ex THEN fs[f] ELSE [ex |-> TRUE, x |-> Header(f), term |-> TRUE, mt |-> mt]
StartUp(x) == IF x.shut THEN Check([x EXCEPT !.up = TRUE, !.plain = FALSE]) ELSE
              LET fs2 == [x.fs EXCEPT !["u"] = Populated(x.fs, "u", -(x.n + 1)), !["x"] = Populated(x.fs, "x", -(x.n + 1))]
              IN Check([x EXCEPT !.fs = fs2, !.up = TRUE, !.plain = FALSE, !.n = @ + 1])
Added(x, v, r) ==
  IF ~x.up \/ ~x.fs["u"].ex THEN x
  ELSE Check([x EXCEPT !.fs["u"] = [@ EXCEPT !.x = Append(@, [s |-> v \o " " \o r, p |-> <<v, r>>]), !.term = TRUE, !.mt = -(x.n + 1)],
                       !.n = @ + 1])
After_(x, e) ==
  CASE e.k = "start" -> StartUp(x)
    [] e.k = "free" -> [x EXCEPT !.shut = FALSE]
    [] e.k = "edit" -> [x EXCEPT !.fs[e.f] = [ex |-> TRUE, x |-> e.x, term |-> e.term \/ e.x = <<>>, mt |-> e.mt]]
    [] e.k = "rm" -> [x EXCEPT !.fs[e.f] = NoFile]
    [] e.k = "check" -> IF x.up THEN Check(x) ELSE x
    [] e.k = "add" -> Added(x, e.v, e.r)
    [] e.k = "mode" -> [x EXCEPT !.plain = e.plain]
\* The language model configuration of the running loader.
Config(x, lm, plain) ==
  [Empty EXCEPT !.lm = IF x.plain THEN plain ELSE lm,
                !.user = [i \in DOMAIN x.ram["u"] |-> [v |-> x.ram["u"][i][1], k |-> x.ram["u"][i][2]]],
                !.excl = [i \in DOMAIN x.ram["x"] |-> [v |-> x.ram["x"][i][1], k |-> x.ram["x"][i][2]]],
                !.repl = [i \in DOMAIN x.ram["r"] |-> [v |-> x.ram["r"][i][1], to |-> x.ram["r"][i][2]]],
                !.ron = x.on]
Offer(x, lm, plain, key) == IF ~x.up THEN <<>>
  ELSE LET u == Unigrams(Config(x, lm, plain), key) IN [i \in DOMAIN u |-> u[i][1]]
===========================================================================
