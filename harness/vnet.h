/* Virtual environment for libstrophe: network, clock, DNS, allocator. */
#ifndef VNET_H
#define VNET_H
#include <stddef.h>
#include <stdint.h>
#include "strophe.h"

#define VFD_BASE 600
#define VFD_MAX 400

extern uint64_t v_clock_us;
extern int v_errno_noise;

void ev_begin(const char *ev);
void ev_int(const char *k, long long v);
void ev_str(const char *k, const char *v); /* hex encoded, null if NULL */
void ev_hex(const char *k, const void *p, size_t n);
void ev_lit(const char *k, const char *v); /* plain identifier text */
void ev_end(void);
void die(int code, const char *why);

/* network control (called by the command interpreter) */
void net_reset(void);
void net_set_fate(const char *addr, const char *fate);
void net_set_host(const char *name, const char *csv);
void net_set_dns(const unsigned char *p, long n);
int net_last_fd(void);
int net_rx(int fd, const unsigned char *p, size_t n, int raw);
int net_eof(int fd, int err);
int net_wplan(int fd, const char *csv);
int net_tls_on(int fd);
void net_tls_cfg(const char *mode, const char *cert, const char *key,
                 const char *minv, const char *maxv, const char *ca, int autostart);
int net_pending_rx(int fd);
int net_is_open(int fd);
void net_rawchunk(int fd, int n);
void net_loop_begin(void);
int net_open_count(void);

/* allocator accounting */
struct acct;
struct acct *acct_new(int slot);
const xmpp_mem_t *acct_mem(struct acct *a);
long acct_live(struct acct *a);
long acct_total(struct acct *a);
long acct_bad(struct acct *a);
void acct_free(struct acct *a);
void acct_dump(struct acct *a);
int acct_owns(const void *p);
extern int acct_cmd, acct_trace;
void acct_flush(void);
extern int bypass_armed;
#endif
