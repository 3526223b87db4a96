SPECIFICATION Spec
CONSTANTS S = 2
          A = 2
          Ops = 2
INVARIANTS Kept NothingElse GivenUp Owned
PROPERTIES Final Refuses
CHECK_DEADLOCK FALSE
