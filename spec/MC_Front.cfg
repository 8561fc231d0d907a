SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", " ", "\n", ".", ",", "\\", "<", ">", "[", "]", "{", "}"}
  MaxLen = 3
INVARIANTS TokenizerInv ContextInv FramesInv GrammarInv TreeInv CleanInv PlainInv PlaceInv
CHECK_DEADLOCK FALSE
