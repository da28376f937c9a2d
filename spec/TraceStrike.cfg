SPECIFICATION Spec
CONSTANTS InitState <- SInit
 Step <- SStep
