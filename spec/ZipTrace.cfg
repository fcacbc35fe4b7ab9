SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Add <- NAdd
  Le <- NLe
  V <- Num
  Max32 <- NMax32
  Max16 <- NMax16
  MaxLen = 65535
  LFH = 30
  CDH = 46
  EOCD = 22
  Z64R = 56
  Z64L = 20
  DD16 = 16
  DD24 = 24
