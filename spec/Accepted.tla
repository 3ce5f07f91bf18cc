------------------------------- MODULE Accepted -------------------------------
(* KemTrace, telling which of the recorded traces are accepted (bin/corrupt)  *)
EXTENDS KemTrace
Report == Accepted_ => IF Agreement /\ NoOtherWay /\ OneSecretPerCiphertext /\ Functional /\ Fresh THEN PrintT(<<"accepted", Traces[tr].id>>) ELSE TRUE
=============================================================================
