--------------------------- MODULE SmallKeyboard ---------------------------
(* The keyboard of the models: the keys of one vowel and one tone mark, under
   names that survive TLC's state queue on disk. *)
LOCAL INSTANCE Naturals
SmallNames ==
  << [j \in 1..21 |-> "x"], [j \in 1..3 |-> "x"], [j \in 1..13 |-> IF j = 1 THEN "a" ELSE "x"],
     [j \in 1..4 |-> IF j = 2 THEN "d" ELSE "x"] >>
SmallValid(b, k) == k \in {"8", "3"}
===========================================================================
