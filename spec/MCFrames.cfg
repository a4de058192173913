SPECIFICATION Spec
INVARIANTS SameRows NoTwins Admissible Declared Untouched Counted Bounded
CHECK_DEADLOCK FALSE
