#pragma once
#define PARAMETER_EXPORT __attribute__((visibility("default")))
#define PARAMETER_NO_EXPORT
#define PARAMETER_DEPRECATED
