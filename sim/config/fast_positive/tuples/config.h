/* Configuration used by the simulator build (what CMake finds on this box). */
#pragma once
#define HAVE_MEMMEM
#define HAVE_MEMRCHR
#define HAVE_UNISTD_H
#define HAVE_SYS_UIO_H
#define HAVE_SYS_STAT_H
#define HAVE_SYSTIME_H_TIMEVAL_TV_USEC
#define HAVE_TIMESPEC_TV_NSEC
#define HAVE_VALGRIND_MEMCHECK_H
#define HAVE_nanf
#define HAVE_nan
#define HAVE_IEEE754_H
#define HAVE_FPTU_VERSIONINFO 0
#define FPTU_ENABLE_TESTS 1
