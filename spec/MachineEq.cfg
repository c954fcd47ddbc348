SPECIFICATION Spec
INVARIANTS SameReports SameTables SameGraph NotLarger
CHECK_DEADLOCK FALSE
