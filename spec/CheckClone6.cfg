SPECIFICATION Spec
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
CONSTANT Judge <- JudgeClone
