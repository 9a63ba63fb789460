SPECIFICATION Spec
CONSTANTS MinN = 1 MaxN = 3
CHECK_DEADLOCK FALSE
INVARIANTS
  WordsAgree
  Associative
  UnitElement
  Generators
  GradeParts
  WedgeAssociative
  WedgeNilpotent
  Commutators
  Jacobi
  ContractionLaw
  Involutive
  ReverseIsReversal
  AntiAutomorphism
  Automorphism
  ConjugateAnti
  DualRelations
  HodgeInverses
  Complements
  RegressiveLaws
  Polarised
  VersorBlades
  VersorInverse
  Outermorphism
