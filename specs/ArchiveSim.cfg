SPECIFICATION Spec
CONSTANTS
 Depth = 30
 Sizes = {0, 1, 9, 10, 18}
 Emit = TRUE
INVARIANTS Tiling OneSegmentEach SurvivesReopening Lifetimes EntriesWhole Namespace FreeWhole EmitLog
CHECK_DEADLOCK FALSE
