#ifndef SIM_MERCURY_CONFIG_H
#define SIM_MERCURY_CONFIG_H
#define HG_INLINE inline
#define HG_FALLTHROUGH() __attribute__((fallthrough))
#endif
