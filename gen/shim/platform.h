#ifndef T_PLATFORM_H
#define T_PLATFORM_H
#include <errno.h>
#include <sys/stat.h>
#define MKDIR(x) mkdir(x, S_IRWXU | S_IRWXG | S_IRWXO)
#endif
