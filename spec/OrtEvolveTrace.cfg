SPECIFICATION TraceSpec
CONSTANT Configs <- TraceConfigs
CHECK_DEADLOCK FALSE
INVARIANT DiffLaws
INVARIANT SchemaReached
PROPERTY NeverLost
