#pragma once
#define CPARAMETER_EXPORT __attribute__((visibility("default")))
#define CPARAMETER_NO_EXPORT
#define CPARAMETER_DEPRECATED
