SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS HashIsDelivered NeverBeyond OwnPrefix CheckedRight EofOnlyAtEnd
CONSTANTS
  MaxData = 5
  Room = 3
