SPECIFICATION Spec
CONSTANTS Size = 5
INVARIANT Consistent NoFalseAlarm Refuses
CHECK_DEADLOCK FALSE
