SPECIFICATION Spec
INVARIANT Distinct
INVARIANT Independent
INVARIANT Own
INVARIANT CachesWithoutFile
CHECK_DEADLOCK FALSE
