-------------------------------- MODULE Agree --------------------------------
(* The comparison between what a specification allows and what was observed. *)
(* It has a module of its own so that an evaluation error inside it -- TLC   *)
(* refuses to compare values of different types -- can be told apart from an *)
(* error in a specification: such an error means that the two differ.        *)
Agree(want, got) == want = got
==============================================================================
