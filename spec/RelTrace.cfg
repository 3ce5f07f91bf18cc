CONSTANTS
  UnitOf <- Digits
  AtomOf <- HexAtom
  TakeGen <- TTakeGen
  TakeEnc <- TTakeEnc
  KeyPair <- TKeyPair
  PublicOf <- TPublicOf
  Seal <- TSeal
  Open <- TOpen
  Encode <- TEncode
  Decode <- TDecode
  SameDraw <- TSameDraw
  SameShare <- TSameShare
  Degenerate <- TDegenerate
INIT Init
NEXT Next
INVARIANT AtEnd
ALIAS Where
VIEW View
