/* The data structures the generated C files initialise, field by field in the
 * documented order. */
#ifndef STUB_ZONE_INFO_H
#define STUB_ZONE_INFO_H
#include <stdint.h>
#include <stddef.h>
typedef struct AtcZoneContext {
  int16_t startYear, untilYear, startYearAccurate, untilYearAccurate, maxTransitions;
  const char* tzVersion;
  uint8_t numFragments, numLetters;
  const char* const* fragments;
  const char* const* letters;
} AtcZoneContext;
typedef struct AtcZoneRule {
  int16_t fromYear, toYear; uint8_t inMonth, onDayOfWeek; int8_t onDayOfMonth;
  uint8_t atTimeModifier; uint16_t atTimeCode; int8_t deltaMinutes; uint8_t letterIndex;
} AtcZoneRule;
typedef struct AtcZonePolicy { const AtcZoneRule* rules; uint8_t numRules; } AtcZonePolicy;
typedef struct AtcZoneEra {
  const AtcZonePolicy* policy; const char* format; int16_t offsetCode; uint8_t offsetRemainder;
  int8_t deltaMinutes; int16_t untilYear; uint8_t untilMonth, untilDay;
  uint16_t untilTimeCode; uint8_t untilTimeModifier;
} AtcZoneEra;
typedef struct AtcZoneInfo {
  const char* name; uint32_t zoneId; const AtcZoneContext* context; uint8_t numEras;
  const AtcZoneEra* eras; const struct AtcZoneInfo* targetInfo;
} AtcZoneInfo;
#endif
