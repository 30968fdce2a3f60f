SPECIFICATION TraceSpec
CONSTANT Configs <- TraceConfigs
CHECK_DEADLOCK FALSE
INVARIANT Valid
