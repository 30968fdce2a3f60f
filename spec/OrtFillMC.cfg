SPECIFICATION MSpec
CONSTANT Configs <- AllConfigs
CHECK_DEADLOCK FALSE
INVARIANT Settled
INVARIANT Told
INVARIANT Private
INVARIANT Listed
INVARIANT Apart
