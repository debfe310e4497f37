SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  News = {"ok", "claim", "skip"}
  Recvs = {"pass", "absorb", "stop"}
  Dones = {"none", "obj"}
  Ends = {""}
  Emit = FALSE
INVARIANTS Told Contiguous AllBytes Absorbed OneFile Finish Stopped Skipped
PROPERTY Ends2
