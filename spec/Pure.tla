-------------------------------- MODULE Pure --------------------------------
(* Inside an action TLC re-validates every cached LET value against the       *)
(* current and the next state, which costs more than the computation when     *)
(* states hold keys.  Pure(op, x) is op(x) for an op that depends on no       *)
(* variable; its accelerator evaluates it outside any state.                  *)
Pure(op(_), x) == op(x)
=============================================================================
