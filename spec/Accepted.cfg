CONSTANTS
  TakeGen <- PTakeGen
  TakeEnc <- PTakeEnc
  KeyPair <- PKeyPair
  PublicOf <- PPublicOf
  Seal <- PSeal
  Open <- POpen
  Encode <- BEncode
  Decode <- PDecode
  SameDraw <- BSameDraw
  SameShare <- BSameShare
  Degenerate <- BDegenerate
INIT Init
NEXT Next
INVARIANT Report
CHECK_DEADLOCK FALSE
VIEW View
