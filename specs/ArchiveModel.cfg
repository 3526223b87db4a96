SPECIFICATION Spec
CONSTANTS
 Depth = 4
 Sizes = {0, 9}
 Emit = FALSE
VIEW View
INVARIANTS Tiling OneSegmentEach SurvivesReopening Lifetimes EntriesWhole Namespace FreeWhole
PROPERTIES Removed Grows GrowsOnlyWhenNothingFits
CHECK_DEADLOCK FALSE
