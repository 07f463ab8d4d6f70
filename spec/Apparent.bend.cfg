SPECIFICATION Spec
INVARIANTS Whole Straight Away Sphere Emit
CONSTANTS
  Kind = "bend"
  Size = 0
CHECK_DEADLOCK FALSE
