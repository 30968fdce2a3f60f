SPECIFICATION Spec
CONSTANT Configs <- AllConfigs
CHECK_DEADLOCK FALSE
INVARIANT NeverGains
INVARIANT Nobody
INVARIANT Kept
INVARIANT NeverInconsistent
PROPERTY RolesOnlyDrop
PROPERTY NothingLeftOpen
