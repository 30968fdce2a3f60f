SPECIFICATION Spec
CONSTANT Configs <- AllConfigs
CHECK_DEADLOCK FALSE
INVARIANT Laws
INVARIANT SetIsFound
INVARIANT IncDec
INVARIANT NeverInconsistent
