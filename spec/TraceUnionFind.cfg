SPECIFICATION Spec
CONSTANTS InitState <- UInit
 Step <- UStep
