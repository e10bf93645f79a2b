/* Print a compiled database as JSON.  The including file defines the types
 * RULE POLICY ERA INFO CONTEXT, and LOW or HIGH. */
#include <stdio.h>
#include <string.h>
typedef struct { const char* name; const POLICY* p; } PolSym;
typedef struct { const char* name; const INFO* p; uint32_t id; int buf; } InfoSym;

static void str(const char* s) {
  if (!s) { printf("null"); return; }
  putchar('"');
  for (; *s; s++) {
    unsigned char c = (unsigned char) *s;
    if (c < 32 || c > 126 || c == '"' || c == '\\') printf("\\u%04x", c); else putchar(c);
  }
  putchar('"');
}
static void codes(const char* s) {
  const char* c = s;
  putchar('[');
  for (; *c; c++) printf("%s%u", c == s ? "" : ",", (unsigned) (unsigned char) *c);
  putchar(']');
}
static void id(uint32_t x) { printf("[%u,%u]", (unsigned) (x >> 16), (unsigned) (x & 0xffff)); }

static void rule(const RULE* r) {
  printf("{\"from\":%d,\"to\":%d,\"month\":%d,\"dow\":%d,\"dom\":%d,\"code\":%d,\"mod\":%d,\"letter\":%d,",
    r->fromYear, r->toYear, r->inMonth, r->onDayOfWeek, r->onDayOfMonth, r->atTimeCode, r->atTimeModifier, r->letterIndex);
#ifdef LOW
  printf("\"delta\":%d}", r->deltaCode);
#else
  printf("\"delta\":%d}", r->deltaMinutes);
#endif
}
static void era(const ERA* e, const PolSym* pols) {
  const char* p = e->policy ? "?" : "";
  for (; pols->name; pols++) if (pols->p == e->policy) p = pols->name;
  printf("{\"policy\":"); str(p);
  printf(",\"format\":"); str(e->format);
  printf(",\"off\":%d,\"year\":%d,\"month\":%d,\"day\":%d,\"code\":%d,\"mod\":%d,",
    e->offsetCode, e->untilYear, e->untilMonth, e->untilDay, e->untilTimeCode, e->untilTimeModifier);
#ifdef LOW
  printf("\"delta\":%d,\"rem\":0}", e->deltaCode);
#else
  printf("\"delta\":%d,\"rem\":%d}", e->deltaMinutes, e->offsetRemainder);
#endif
}
static const char* symOf(const INFO* p, const InfoSym* s) {
  for (; s->name; s++) if (s->p == p) return s->name;
  return p ? "?" : "";
}
static void strings(const char* key, const char* const* a, int n) {
  printf("\"%s\":[", key);
  for (int i = 0; i < n; i++) { if (i) putchar(','); if (a[i]) str(a[i]); else printf("\"<null>\""); }
  printf("],\n");
}
static void registry(const char* key, const INFO* const* r, int n, int len, const InfoSym* s) {
  printf("\"%s\":{\"size\":%d,\"entries\":[", key, n);
  for (int i = 0; i < len; i++) { if (i) putchar(','); str(symOf(r[i], s)); }
  printf("],\"ids\":[");
  for (int i = 0; i < len; i++) { if (i) putchar(','); if (r[i]) id(r[i]->zoneId); else printf("[0,0]"); }
  printf("]},\n");
}
static void dump(const CONTEXT* c, int base, const InfoSym* infos, const PolSym* pols) {
  printf("\"context\":{\"start\":%d,\"until\":%d,\"startAcc\":%d,\"untilAcc\":%d,\"base\":%d,\"max\":%d,\"version\":",
    c->startYear, c->untilYear, c->startYearAccurate, c->untilYearAccurate, base, c->maxTransitions);
  str(c->tzVersion);
  printf(",\"numFragments\":%d,\"numLetters\":%d},\n", c->numFragments, c->numLetters);
  strings("fragments", c->fragments, c->numFragments);
  strings("letters", c->letters, c->numLetters);
  printf("\"policies\":{");
  for (const PolSym* p = pols; p->name; p++) {
    if (p != pols) printf(",\n");
    str(p->name); printf(":[");
    for (int i = 0; i < p->p->numRules; i++) { if (i) putchar(','); rule(&p->p->rules[i]); }
    printf("]");
  }
  printf("},\n\"infos\":{");
  for (const InfoSym* s = infos; s->name; s++) {
    const INFO* z = s->p;
    if (s != infos) printf(",\n");
    str(s->name); printf(":{\"name\":"); codes(z->name);
    printf(",\"id\":"); id(z->zoneId);
    printf(",\"constId\":"); id(s->id);
    printf(",\"buf\":%d,\"context\":%s,\"target\":", s->buf, z->context == c ? "true" : "false");
    str(symOf(z->targetInfo, infos));
    printf(",\"shared\":%s", z->targetInfo && z->eras == z->targetInfo->eras ? "true" : "false");
    printf(",\"eras\":[");
    for (int i = 0; i < z->numEras; i++) { if (i) putchar(','); era(&z->eras[i], pols); }
    printf("]}");
  }
  printf("}}\n");
}
