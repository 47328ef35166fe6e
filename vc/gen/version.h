#pragma once
#define PARAMETER_FRAMEWORK_VERSION "v0.0.0"
