SPECIFICATION TraceSpec
POSTCONDITION TraceDone
INVARIANTS AllWellFormed DokNoZeros
CHECK_DEADLOCK FALSE
CONSTANTS
  VZero <- IZero
  VOne <- IOne
  VAdd <- IAdd
  VSub <- ISub
  VMul <- IMul
  VNeg <- INeg
  VConj <- IId
  VRe <- IId
  VIm <- IZ
  VI <- IErr
  VStr <- IStr
  VPretty <- IStr
  VLt <- ILt
  VDiv <- IDiv
