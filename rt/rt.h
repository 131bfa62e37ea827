/* Monitor runtime: the event log every generated program reports to. */
#ifndef VERIF_RT_H
#define VERIF_RT_H
typedef unsigned long long u64;

/* callable from the code under test (through the stubs of abi.S) */
void log_c(char v);
void log_i(int v);
void log_u(unsigned int v);
void log_l(long v);
void log_m(unsigned long v);
void log_q(long long v);
void log_v(unsigned long long v);
int ev(int id);        /* logs an event, returns id */
int ev2(int id, int r); /* logs an event, returns r */
char evc(int id, char r);
long evl(int id, long r);
void log_s(char *s);   /* logs a string */
void log_b(char *p, int n); /* logs n bytes */
void dirty(void);      /* fills the stack below with garbage */

/* host side only */
void sub(void);        /* starts the next sub-case */
void raw_event(const char *kind, u64 v);
u64 abi_call(void *fn, const u64 *args, int n); /* monitored call of the code under test */
#define POISON 0xa5c3f01e00000000ull
static inline u64 ax_c(char v) { return (unsigned char)v | 0xa5c3f01edeadbe00ull; }
static inline u64 ax_i(int v) { return (unsigned int)v | POISON; }
static inline u64 ax_u(unsigned int v) { return v | POISON; }
static inline u64 ax_l(long v) { return (u64)v; }
static inline u64 ax_m(unsigned long v) { return v; }
static inline u64 ax_q(long long v) { return (u64)v; }
static inline u64 ax_v(unsigned long long v) { return v; }
static inline u64 ax_p(const void *v) { return (u64)v; }
void host_log_c(char v);
void host_log_i(int v);
void host_log_u(unsigned int v);
void host_log_l(long v);
void host_log_m(unsigned long v);
void host_log_q(long long v);
void host_log_v(unsigned long long v);
void host_log_s(const char *s);
void host_log_b(const void *p, int n);

/* grids: call fn on boundary and pseudo-random operand tuples, one sub-case each.
 * types are the letters of the log functions; extra: random tuples beside the boundary ones */
void grid1(void *fn, char r, char t1, u64 seed, int extra);
void grid2(void *fn, char r, char t1, char t2, u64 seed, int extra);
void gridn(void *fn, char r, const char *types, u64 seed, int count); /* random boundary mixes */
void log_as(char t, u64 v);
typedef void (*case_fn)(void);
extern const case_fn cases[];
extern const int n_cases;
extern int abi_depth;
#endif
