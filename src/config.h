// Stand-in for the CMake-generated config.h (same values as the pinned build).
#define OPEN_VCDIFF_VERSION "0.8.4"
#define HAVE_GETTIMEOFDAY
#define HAVE_MALLOC_H
#define HAVE_MEMALIGN
#define HAVE_MPROTECT
#define HAVE_POSIX_MEMALIGN
#define HAVE_SYS_MMAN_H
#define HAVE_SYS_TIME_H
#define HAVE_UNISTD_H
