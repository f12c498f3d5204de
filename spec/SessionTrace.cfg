SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANT CfgOf <- TraceCfg
