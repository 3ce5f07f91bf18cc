------------------------------ MODULE KemModel ------------------------------
(* KemSym with the bounds of one run, given by a file. *)
EXTENDS KemSym, IOUtils
Conf == ndJsonDeserialize(IOEnv.MODEL)[1]
CfgAlgs == {Conf.algs[i] : i \in 1..Len(Conf.algs)}
CfgCalls == Conf.calls
CfgLoads == Conf.loads
CfgRecording == Conf.record
CfgStreams == Conf.streams
=============================================================================
