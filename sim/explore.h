/* Exhaustive choice explorer shared by every harness.
 *
 * A harness body is a deterministic function of the sequence of ex_choose() answers.
 * Two engines enumerate the whole choice tree (optionally cutting subtrees whose deviation cost exceeds a budget):
 *   EX_FORK : at each choice point the process forks one child per alternative (state is inherited, nothing replays)
 *   EX_LOOP : the body is re-run from scratch for every leaf (odometer over the recorded choice vector)
 * Results are gathered in shared memory by up to `jobs` processes.
 */
#ifndef EXPLORE_H
#define EXPLORE_H
#include <stdint.h>
#include <stddef.h>
enum { EX_FORK, EX_LOOP };
int      ex_choose(int n, const char *label);              /* free choice                                   */
int      ex_deviate(int n, const char *label);             /* choice 0 is the default; others cost 1 each     */
void     ex_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void     ex_note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* human readable history      */
void     ex_state(uint64_t h);                             /* a visited (observed) state, hashed              */
void     ex_step(void);                                    /* one transition (operation/delivery) executed    */
void     ex_cut(void) __attribute__((noreturn));           /* EX_FORK: abandon this branch (horizon), counted */
void     ex_done(void) __attribute__((noreturn));          /* EX_FORK: this execution is complete             */
void     ex_nontrivial(void);                              /* mark this execution as non-trivial              */
uint64_t ex_hash(uint64_t h, const void *p, size_t n);
uint64_t ex_hash_s(uint64_t h, const char *s);
void     ex_beat(void);                                    /* progress: restarts the CPU-hang timer           */
int      ex_replaying(void);
const char *ex_param(const char *name, const char *dflt);  /* name=value command line arguments               */
long     ex_iparam(const char *name, long dflt);
extern int ex_outfd;
/* entry point: parses argv (replay=FILE, out=FILE, jobs=N, budget=N, name=value...), explores, writes JSON */
int  ex_main(int argc, char **argv, int engine, const char *harness, void (*setup)(void), void (*body)(void));
#endif
