CONSTANTS
  UnitOf <- SymUnit
  AtomOf <- SymAtom
  TakeGen <- TTakeGen
  TakeEnc <- TTakeEnc
  KeyPair <- TKeyPair
  PublicOf <- TPublicOf
  Seal <- TSeal
  Open <- TOpen
  Encode <- TEncode
  Decode <- TDecode
  SameDraw <- TSameDraw
  SameShare <- TSameShare
  Degenerate <- TDegenerate
  Algs <- CfgAlgs
  Streams <- CfgStreams
  MaxCalls <- CfgCalls
  Recording <- CfgRecording
  Loads <- CfgLoads
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Agreement NoOtherWay OneSecretPerCiphertext Functional Fresh PublicInside Lossless RejectionOwn Bound Apart Delivered DrawnOnce
PROPERTIES Immutable Forward FailSafe Randomness
VIEW View
