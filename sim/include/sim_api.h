/* What the simulated input deck may ask of the simulator. */
#ifndef SIM_API_H
#define SIM_API_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
long long sim_geti(const char *key, long long def); /* workload configuration */
double sim_getd(const char *key, double def);
void sim_rec(const char *key, const void *data, size_t n); /* record for this rank */
void sim_note(const char *counter, long long n);           /* coverage probe */
void sim_yield(void);                                      /* schedule point */
void sim_mark(int what);                                   /* 1 enter / 2 leave a limited region */
int sim_phase(void);                                       /* execution index inside a scenario */
#ifdef __cplusplus
}
#endif
#endif
