SPECIFICATION MSpec
CONSTANT Configs <- AllConfigs
CHECK_DEADLOCK FALSE
INVARIANT FileOK
INVARIANT Laws
PROPERTY Kept
