#pragma once
#define REMOTE_PROCESSOR_EXPORT __attribute__((visibility("default")))
#define REMOTE_PROCESSOR_NO_EXPORT
#define REMOTE_PROCESSOR_DEPRECATED
