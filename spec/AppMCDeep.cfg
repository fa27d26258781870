SPECIFICATION Spec
CONSTANTS Files = {"a", "b", "c"}
          Workers = {1, 2}
          Broken = {"x"}
          Fix = TRUE
INVARIANTS TypeOK FilesIntact AllProcessed SummaryExact
CHECK_DEADLOCK FALSE
