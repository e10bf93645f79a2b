#ifndef STUB_COMPAT_H
#define STUB_COMPAT_H
#define ACE_TIME_PROGMEM
#endif
