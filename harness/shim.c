/* what the driver looks at in an instance of the import library */
#include "FMI.h"

int verif_mode(FMIInstance *instance) { return (int)instance->state; }
int verif_kind(FMIInstance *instance) { return (int)instance->interfaceType; }
int verif_version(FMIInstance *instance) { return (int)instance->fmiMajorVersion; }
