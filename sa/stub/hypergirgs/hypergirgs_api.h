#pragma once
// analysis stand-in for the header CMake's generate_export_header() writes
#define HYPERGIRGS_API
#define HYPERGIRGS_NO_EXPORT
#define HYPERGIRGS_DEPRECATED
