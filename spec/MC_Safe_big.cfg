SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Tokens = {47, 92, 58, 97, 120, 64, 63, 35, 9, 32, 1, 91, 93, 1001, 1002, 1003}
  MaxTokens = 5
  HostTokens = {46, 97, 98}
  MaxHost = 5
  Https = FALSE
INVARIANTS Foreign Secure Nobody Accepted Match Matches
