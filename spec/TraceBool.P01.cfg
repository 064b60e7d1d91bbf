CONSTANT Prop = "P01"
SPECIFICATION Spec
INVARIANTS TypeOK RecordOK
CHECK_DEADLOCK FALSE
