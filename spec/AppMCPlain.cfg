SPECIFICATION Spec
CONSTANTS Files = {"a", "b"}
          Workers = {1, 2}
          Broken = {"x"}
          Fix = FALSE
INVARIANTS TypeOK FilesIntact AllProcessed SummaryExact
PROPERTY Ends
CHECK_DEADLOCK FALSE
