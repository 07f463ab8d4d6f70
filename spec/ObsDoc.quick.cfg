SPECIFICATION Spec
INVARIANT Emit
PROPERTY Kept
CONSTANTS
  MaxLines = 3
  Times = {1, 2, 3}
  Systems = {"G", "R", "X"}
  Bads = {"feb30", "hour", "minute", "sec60", "nan", "hourword"}
  Others = {"event", "slip", "COMMENT", "blank", "accent"}
CHECK_DEADLOCK FALSE
