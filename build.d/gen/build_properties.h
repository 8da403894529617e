#ifndef BUILD_PROPERTIES_H_
#define BUILD_PROPERTIES_H_
// stand-in for the header CMake generates
#define VEGA_VERSION_MAJOR 3
#define VEGA_VERSION_MINOR 1
#define VEGA_VERSION_PATCH 1
#define VEGA_VERSION_EXTRA ""
#define PROJECT_BASE_DIR "/repo"
#define PROJECT_BINARY_DIR "/nonexistent"
#define Backtrace_FOUND 0
#define LIBUNWIND_FOUND 0
#define VALGRIND_FOUND 1
#define TESTS_NIGHTLY_BUILD ""
#define BUILD_TYPE "Debug"
#define DOXYGEN_DOT_EXECUTABLE ""
#define RUN_ASTER 0
#define ENABLE_ASTER 1
#define RUN_SYSTUS 0
#define RUN_NASTRAN 0
#endif
