SPECIFICATION Spec
CONSTANT Judge <- JudgeHeap
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
