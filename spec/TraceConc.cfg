CONSTANT PROP = "P03"
SPECIFICATION Spec
INVARIANT Conforms
POSTCONDITION AllRead
CHECK_DEADLOCK FALSE
