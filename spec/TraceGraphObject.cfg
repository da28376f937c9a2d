SPECIFICATION Spec
CONSTANTS InitState <- GInit
 Step <- GStep
