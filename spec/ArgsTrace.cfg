INIT Init
NEXT Next
VIEW View
POSTCONDITION Post
CONSTANTS
  TraceFile = "t.ndjson"
  ResultFile = "r.json"
  Focus = {"OUT","WHAT","REG","DEF","VAL","ACC","NUM","MODE","ADDL","SLOT","LIVE","VLOG","USAGE","LEAK","CRASH"}
  MaxReject = 20
  Known = {"K1"}
