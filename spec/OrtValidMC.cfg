SPECIFICATION MSpec
CONSTANT Configs <- AllConfigs
CHECK_DEADLOCK FALSE
INVARIANT Valid
INVARIANT Decided
