#ifndef CCS_VERSION_H_
#define CCS_VERSION_H_
#define CCS_VERSION_STRING  "v0.0.2.0"
#define CCS_VERSION_MAJOR 0
#define CCS_VERSION_MINOR 0
#define CCS_VERSION_PATCH 2
#define CCS_VERSION_REVISION 0
#endif
