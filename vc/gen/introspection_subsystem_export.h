#pragma once
#define INTROSPECTION_SUBSYSTEM_EXPORT __attribute__((visibility("default")))
#define INTROSPECTION_SUBSYSTEM_NO_EXPORT
#define INTROSPECTION_SUBSYSTEM_DEPRECATED
