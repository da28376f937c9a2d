SPECIFICATION Spec
CONSTANTS InitState <- PInit
 Step <- PStep
