/* The data structures the generated C++ files initialise, field by field in
 * the documented order. Low resolution for basic and extended, high for
 * complete. */
#ifndef STUB_INFOS_H
#define STUB_INFOS_H
#include <stdint.h>
#include <stddef.h>
#include "compat.h"
namespace ace_time {
struct Context_ {
  int16_t startYear, untilYear, startYearAccurate, untilYearAccurate, baseYear, maxTransitions;
  const char* tzVersion;
  uint8_t numFragments, numLetters;
  const char* const* fragments;
  const char* const* letters;
};
namespace low_ {
struct Rule {
  int8_t fromYear, toYear; uint8_t inMonth, onDayOfWeek; int8_t onDayOfMonth;
  uint8_t atTimeCode, atTimeModifier, deltaCode, letterIndex;
};
struct Policy { const Rule* rules; uint8_t numRules; };
struct Era {
  const Policy* policy; const char* format; int8_t offsetCode; uint8_t deltaCode;
  int8_t untilYear; uint8_t untilMonth, untilDay, untilTimeCode, untilTimeModifier;
};
struct Info {
  const char* name; uint32_t zoneId; const Context_* context; uint8_t numEras;
  const Era* eras; const Info* targetInfo;
};
}
namespace high_ {
struct Rule {
  int16_t fromYear, toYear; uint8_t inMonth, onDayOfWeek; int8_t onDayOfMonth;
  uint8_t atTimeModifier; uint16_t atTimeCode; int8_t deltaMinutes; uint8_t letterIndex;
};
struct Policy { const Rule* rules; uint8_t numRules; };
struct Era {
  const Policy* policy; const char* format; int16_t offsetCode; uint8_t offsetRemainder;
  int8_t deltaMinutes; int16_t untilYear; uint8_t untilMonth, untilDay;
  uint16_t untilTimeCode; uint8_t untilTimeModifier;
};
struct Info {
  const char* name; uint32_t zoneId; const Context_* context; uint8_t numEras;
  const Era* eras; const Info* targetInfo;
};
}
#define STUB_SCOPE(SCOPE, RES) namespace SCOPE { \
  typedef Context_ ZoneContext; typedef RES::Rule ZoneRule; typedef RES::Policy ZonePolicy; \
  typedef RES::Era ZoneEra; typedef RES::Info ZoneInfo; }
STUB_SCOPE(basic, low_)
STUB_SCOPE(extended, low_)
STUB_SCOPE(complete, high_)
}
#endif
