-------------------------------- MODULE Files --------------------------------
(* A small file tree, the objects that map or load its files, and the change
   detector.  fs[p]: [kind, c, mt] with kind "none", "file", "dir" or "link" (a
   link to nowhere); c: which content (0: empty); mt: modification time.
   mm[s], lm: the content held, or -1; ts[p]: time recorded, 0 if the path did
   not exist. *)
EXTENDS Util
Absent == [kind |-> "none", c |-> 0, mt |-> 0]
Openable(f) == f.kind = "file" /\ f.c > 0
Exists(f) == f.kind \in {"file", "dir"}
Held(old, f) == IF old = -1 /\ Openable(f) THEN f.c ELSE old
OpenAnswer(old, f) == old = -1 /\ Openable(f)
Differs(f, stamp) == IF Exists(f) THEN f.mt # stamp ELSE stamp # 0
Stamp(f) == IF Exists(f) THEN f.mt ELSE 0
Start(paths) == [fs |-> [p \in paths |-> Absent], mm |-> [s \in {"a", "b"} |-> -1], lm |-> -1,
                 ts |-> [p \in paths |-> 0]]
After(x, e) ==
  CASE e.k = "write" -> [x EXCEPT !.fs[e.p] = [kind |-> "file", c |-> e.c, mt |-> e.mt]]
    [] e.k = "rm" -> [x EXCEPT !.fs[e.p] = Absent]
    [] e.k = "mkdir" -> [x EXCEPT !.fs[e.p] = [kind |-> "dir", c |-> 0, mt |-> e.mt]]
    [] e.k = "link" -> [x EXCEPT !.fs[e.p] = [kind |-> "link", c |-> 0, mt |-> 0]]
    [] e.k = "touch" -> [x EXCEPT !.fs[e.p].mt = IF Exists(x.fs[e.p]) THEN e.mt ELSE @]
    [] e.k = "open" -> [x EXCEPT !.mm[e.s] = Held(@, x.fs[e.p])]
    [] e.k = "close" -> [x EXCEPT !.mm[e.s] = -1]
    [] e.k \in {"moveto", "assign"} -> [x EXCEPT !.mm = [@ EXCEPT ![e.d] = x.mm[e.s], ![e.s] = -1]]
    [] e.k = "lopen" -> [x EXCEPT !.lm = Held(@, x.fs[e.p])]
    [] e.k = "lclose" -> [x EXCEPT !.lm = -1]
    [] e.k = "check" -> [x EXCEPT !.ts[e.p] = Stamp(x.fs[e.p])]
\* System resources that may be in use: one descriptor and one mapping for every
\* object that holds a file; four objects are loaded together.
Holders(x) == (IF x.mm["a"] = -1 THEN 0 ELSE 1) + (IF x.mm["b"] = -1 THEN 0 ELSE 1) + (IF x.lm = -1 THEN 0 ELSE 4)
Answer(x, e) == CASE e.k = "open" -> OpenAnswer(x.mm[e.s], x.fs[e.p])
                  [] e.k = "lopen" -> OpenAnswer(x.lm, x.fs[e.p])
                  [] OTHER -> FALSE
===========================================================================
