/* Configuration used when the checks compile the library from /repo/src.
   Mirrors what ./configure finds in this sandbox. */
#ifndef VP_CONFIG_H
#define VP_CONFIG_H
#define HAVE_BZERO 1
#define HAVE_CEIL 1
#define HAVE_COMPLEX_H 1
#define HAVE_DLFCN_H 1
#define HAVE_FCNTL_H 1
#define HAVE_FLOOR 1
#define HAVE_FSTAT64 1
#define HAVE_GETLINE 1
#define HAVE_GSL_GSL_COMBINATION_H 1
#define HAVE_GSL_GSL_PERMUTATION_H 1
#define HAVE_GSL_GSL_RANDIST_H 1
#define HAVE_GSL_GSL_RNG_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIMITS_H 1
#define HAVE_MEMCPY 1
#define HAVE_MEMSET 1
#define HAVE_MKDIR 1
#define HAVE_MKSTEMP 1
#define HAVE_RANDOM 1
#define HAVE_REGCOMP 1
#define HAVE_SIGNAL_H 1
#define HAVE_SQRT 1
#define HAVE_SRANDOM 1
#define HAVE_STDBOOL_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRCASECMP 1
#define HAVE_STRCASESTR 1
#define HAVE_STRCHR 1
#define HAVE_STRCSPN 1
#define HAVE_STRERROR 1
#define HAVE_STRFTIME 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_STRRCHR 1
#define HAVE_STRSTR 1
#define HAVE_STRTOL 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TIMES_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_SYS_WAIT_H 1
#define HAVE_TIME 1
#define HAVE_UNISTD_H 1
#define HAVE_WAIT_H 1
#define PACKAGE "libplcurve"
#define PACKAGE_BUGREPORT "jason.cantarella@uga.edu"
#define PACKAGE_NAME "libplCurve"
#define PACKAGE_STRING "libplCurve 11.1.1"
#define PACKAGE_TARNAME "libplcurve"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "11.1.1"
#define STDC_HEADERS 1
#define SVNVERSION ""
#define VERSION "11.1.1"
#endif
