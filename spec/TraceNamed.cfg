SPECIFICATION Spec
CONSTANTS InitState <- NInit
 Step <- NStep
