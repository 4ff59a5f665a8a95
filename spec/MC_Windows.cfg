SPECIFICATION Spec
CONSTANT Games = {1, 4, 8}
INVARIANTS Cut Delayed Shape
CHECK_DEADLOCK FALSE
