#pragma once
// analysis stand-in for the header CMake's generate_export_header() writes
#define GIRGS_API
#define GIRGS_NO_EXPORT
#define GIRGS_DEPRECATED
