SPECIFICATION Spec
CONSTANTS
  N = 2
  News = {"ok", "claim", "skip", "stop", "reset"}
  Recvs = {"pass", "absorb", "double", "empty", "reset", "skip", "stop"}
  Dones = {"none", "obj", "reset", "stop"}
  Ends = {"", "answer"}
  Emit = FALSE
PROPERTY Ends2
INVARIANTS Told Contiguous AllBytes Absorbed OneFile Finish Stopped Skipped
