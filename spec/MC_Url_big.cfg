SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Tokens = {47, 58, 97, 63, 35, 59, 91, 93, 37, 64, 65, 1001, 1002, 1003}
  MaxTokens = 6
  HostTokens = {97, 71, 48, 46, 58, 91, 93, 45, 95}
  MaxHost = 7
INVARIANTS Parts Authority HostForm Rebuilt
