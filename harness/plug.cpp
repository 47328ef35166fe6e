#include "SubsystemLibrary.h"
#include <log/Logger.h>
extern void harness_register(CSubsystemLibrary *, core::log::Logger &);
extern "C" __attribute__((visibility("default"))) void ParameterFrameworkPluginEntryPointMagicV1(CSubsystemLibrary *l, core::log::Logger &g) { harness_register(l, g); }
