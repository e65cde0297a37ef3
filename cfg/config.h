#ifndef __CONFIG_H
#define __CONFIG_H
#define PACKAGE_VERSION "0.0.0"
#define HAVE_GETRUSAGE
#define HAVE_GETHOSTNAME
#define HAVE_ARPA_INET_H
#define HAVE_DIRENT_H
#define HAVE_ERRNO_H
#define HAVE_FCNTL_H
#define HAVE_LIBGEN_H
#define HAVE_LIMITS_H
#define HAVE_NETDB_H
#define HAVE_NETINET_IN_H
#define HAVE_SIGNAL_H
#define HAVE_SYSEXITS_H
#define HAVE_SYS_RESOURCE_H
#define HAVE_SYS_SOCKET_H
#define HAVE_SYS_STAT_H
#define HAVE_SYS_TIME_H
#define HAVE_SYS_TYPES_H
#define HAVE_SYS_WAIT_H
#define HAVE_TIME_H
#define HAVE_UNISTD_H
#endif
