/* pearson.h boundary: any function of the callsign will do for the properties checked here (pearson.c itself: property pearson-hash) */
#include "pearson.h"
#ifndef PEARSON_VALUE
#define PEARSON_VALUE 7
#endif
uint8_t pearson_get(const uint8_t *data, const size_t len) { (void)data; (void)len; return PEARSON_VALUE; }
