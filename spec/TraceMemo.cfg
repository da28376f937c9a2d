SPECIFICATION Spec
CONSTANTS InitState <- MInit
 Step <- MStep
