------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The build configurations of the three crates: which features imply which, *)
(* and which operations there are.  Every reachable state is a configuration  *)
(* that has to build; the driver builds each of them from the dump.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Crates == {"ml-kem", "x-wing", "dhkem"}
Nist == {"k256", "p256", "p384", "p521"}
Features(c) ==
  CASE c = "ml-kem" -> {"std", "deterministic", "zeroize"}
    [] c = "x-wing" -> {"getrandom", "zeroize"}
    [] c = "dhkem"  -> Nist \union {"ecdh", "x25519", "zeroize"}
Implies(c, f) == IF c = "dhkem" /\ f \in Nist THEN {"ecdh"} ELSE {}
Close(c, S) == S \union UNION {Implies(c, f) : f \in S}

Kem == {"generate", "encapsulate", "decapsulate", "export", "import", "compare", "clone"}
Of(a, S) == {<<a, o>> : o \in S}
\* what a program can call
Ops(c, S) ==
  CASE c = "ml-kem" ->
         UNION {Of(a, Kem \union {"public key of a private key"}
                       \union (IF "deterministic" \in S THEN {"generate from d, z", "encapsulate m"} ELSE {})
                       \union (IF "zeroize" \in S THEN {"erase at drop"} ELSE {}))
                : a \in {"ML-KEM-512", "ML-KEM-768", "ML-KEM-1024"}}
    [] c = "x-wing" ->
         Of("X-Wing", Kem \union {"public key of a private key"}
                       \union (IF "getrandom" \in S THEN {"generate with the system's generator"} ELSE {})
                       \union (IF "zeroize" \in S THEN {"erase at drop", "wipe"} ELSE {}))
    [] c = "dhkem" ->
         UNION {Of(a, {"generate", "encapsulate", "decapsulate", "unwrap", "compare"} \union (IF "zeroize" \in S THEN {"wipe"} ELSE {}))
                : a \in S \intersect (Nist \union {"x25519"})}
         \union (IF "ecdh" \in S THEN Of("any curve", {"generate", "encapsulate", "decapsulate"}) ELSE {})

VARIABLES crate, on
Init == crate \in Crates /\ on = {}
Enable == \E f \in Features(crate) \ on : on' = Close(crate, on \union {f}) /\ UNCHANGED crate
Next == Enable
Spec == Init /\ [][Next]_<<crate, on>>

Closed == Close(crate, on) = on /\ on \subseteq Features(crate)
\* a feature adds operations and takes none away (configurations are joined by cargo)
Additive == [][Ops(crate, on) \subseteq Ops(crate, on')]_<<crate, on>>
\* what a configuration offers does not depend on the order in which features were asked for
Joined == \A f, g \in Features(crate) : Close(crate, Close(crate, on \union {f}) \union {g}) = Close(crate, Close(crate, on \union {g}) \union {f})
\* one group's operations do not depend on another group being there
Groups == Nist \union {"x25519"}
Apart == \A f \in (Features(crate) \intersect Groups) \ on :
           {o \in Ops(crate, Close(crate, on \union {f})) : o[1] \notin {f, "any curve"}} = {o \in Ops(crate, on) : o[1] # "any curve"}
Dump == PrintT("CONFIG " \o ToJson([crate |-> crate, on |-> on]))
=============================================================================
