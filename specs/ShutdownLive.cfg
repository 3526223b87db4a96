SPECIFICATION Fair
CONSTANTS S = 2
          A = 1
          Ops = 1
PROPERTIES Ends Everybody
CHECK_DEADLOCK FALSE
