SPECIFICATION TraceSpec
POSTCONDITION TraceDone
INVARIANTS AllWellFormed DokNoZeros
CHECK_DEADLOCK FALSE
CONSTANTS
  VZero <- GZero
  VOne <- GOne
  VAdd <- GAdd
  VSub <- GSub
  VMul <- GMul
  VNeg <- GNeg
  VConj <- GConj
  VRe <- GRe
  VIm <- GIm
  VI <- GI
  VStr <- GStr
  VPretty <- GPretty
  VLt <- GLt
  VDiv <- GDiv
