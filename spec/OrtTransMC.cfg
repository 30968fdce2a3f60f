SPECIFICATION Spec
CONSTANT Configs <- AllConfigs
CHECK_DEADLOCK FALSE
INVARIANT Plain
INVARIANT SeenConsistent
INVARIANT NeverInconsistent
INVARIANT OneWriter
PROPERTY AllOrNothing
PROPERTY Unseen
PROPERTY RolesOnlyDrop
PROPERTY NothingLeftOpen
