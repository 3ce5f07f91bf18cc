CONSTANTS
  UnitOf <- SymUnit
  AtomOf <- SymAtom
  TakeGen <- TTakeGen
  TakeEnc <- TTakeEnc
  KeyPair <- TKeyPair
  PublicOf <- TPublicOf
  Seal <- TSeal
  Open <- TOpen
  Encode <- TEncode
  Decode <- TDecode
  SameDraw <- TSameDraw
  SameShare <- TSameShare
  Degenerate <- TDegenerate
  Algs <- CfgAlgs
  Streams <- CfgStreams
  MaxCalls <- CfgCalls
  Recording <- CfgRecording
  Loads <- CfgLoads
INIT Init
NEXT DeepNext
CHECK_DEADLOCK FALSE
INVARIANTS DAgreement DNoOtherWay DOneSecret DForeign Fresh PublicInside Lossless DRejectionOwn Bound DApart Delivered DrawnOnce
PROPERTIES Immutable Randomness
VIEW DeepView
