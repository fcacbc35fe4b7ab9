SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS Allowed Sound Obeys MeansListed Disjoint ListedInOrder
CONSTANTS
  Add <- PlusN
  Le <- LeN
  V <- IdN
  Max32 = 60
  Max16 = 2
  MaxLen = 20
  LFH = 30
  CDH = 46
  EOCD = 22
  Z64R = 56
  Z64L = 20
  DD16 = 16
  DD24 = 24
  MaxOps = 3
  Alphabet = "full"
