SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS HashIsDelivered NeverBeyond OwnPrefix CheckedRight EofOnlyAtEnd
CONSTANTS
  MaxData = 3
  Room = 2
