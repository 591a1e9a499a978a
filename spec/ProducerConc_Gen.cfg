SPECIFICATION Spec
CONSTANT Len1 = 16
