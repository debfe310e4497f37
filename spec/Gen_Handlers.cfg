SPECIFICATION Spec
CONSTANTS
  N = 2
  News = {"ok", "claim", "skip", "stop"}
  Recvs = {"pass", "absorb", "skip", "stop"}
  Dones = {"none", "obj", "stop"}
  Ends = {"", "answer"}
  Emit = TRUE
PROPERTY Ends2
INVARIANTS Told Contiguous AllBytes Absorbed OneFile Finish Stopped Skipped
