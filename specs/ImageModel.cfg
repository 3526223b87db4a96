CONSTANTS
  MaxW = 3
  MaxH = 2
  A = 2
  Size = 16
  Rate = 3
SPECIFICATION Spec
INVARIANTS
  Decodable
  SameModel
  InRange
