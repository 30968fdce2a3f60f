SPECIFICATION Spec
CONSTANT Configs <- AllConfigs
CHECK_DEADLOCK FALSE
INVARIANT SchemaReached
INVARIANT Reached
PROPERTY NeverLost
