SPECIFICATION Spec
CONSTANTS InitState <- LInit
 Step <- LStep
