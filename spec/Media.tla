------------------------------- MODULE Media -------------------------------
(* Which classes of media, fractions and depolarisation factors are mixed,  *)
(* and what is known about the result without computing it.                 *)
EXTENDS Common
VARIABLES ema, ca, cb, f, L, same, done
vars == <<ema, ca, cb, f, L, same, done>>
Classes == {"void", "dielectric", "weak", "absorber", "metal"}
Init == /\ ema \in {"linear", "maxwell-garnett", "bruggeman"}
        /\ ca \in Classes /\ cb \in Classes
        /\ f \in {"zero", "small", "in", "big", "one"}
        /\ L \in {"zero", "third", "half", "in", "one"}
        /\ same \in BOOLEAN /\ (same => ca = cb) /\ done = FALSE
Mix == ~done /\ done' = TRUE /\ UNCHANGED <<ema, ca, cb, f, L, same>>
Next == Mix
\* a mixture of media without loss has none
Lossless == {ca, cb} \subseteq {"void", "dielectric"}
\* the result is known to be one of the constituents
Known == IF same \/ f = "zero" THEN "a" ELSE IF f = "one" THEN "b" ELSE "mix"
KnownOk == (same /\ f = "one") => Known = "a"
Emit == done => PrintT(ToJson([ema |-> ema, ca |-> ca, cb |-> cb, f |-> f, L |-> L,
                               same |-> same, known |-> Known, lossless |-> Lossless]))
=============================================================================
