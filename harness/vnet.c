#define _GNU_SOURCE
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <expat.h>
#include <zlib.h>
#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include "vnet.h"

uint64_t v_clock_us = 1700000000ull * 1000000ull;

/* ---------------------------------------------------------------- events */
void ev_begin(const char *ev)
{
    printf("{\"ev\":\"%s\",\"t\":%llu", ev,
           (unsigned long long)(v_clock_us / 1000 - 1700000000000ull));
}
void ev_int(const char *k, long long v) { printf(",\"%s\":%lld", k, v); }
void ev_lit(const char *k, const char *v) { printf(",\"%s\":\"%s\"", k, v); }
void ev_hex(const char *k, const void *p, size_t n)
{
    static const char d[] = "0123456789abcdef";
    const unsigned char *b = p;
    size_t i;
    printf(",\"%s\":\"", k);
    for (i = 0; i < n; i++) {
        putchar(d[b[i] >> 4]);
        putchar(d[b[i] & 15]);
    }
    putchar('"');
}
void ev_str(const char *k, const char *v)
{
    if (!v)
        printf(",\"%s\":null", k);
    else
        ev_hex(k, v, strlen(v));
}
void ev_end(void) { printf("}\n"); }
void die(int code, const char *why)
{
    ev_begin("die");
    ev_lit("why", why);
    ev_end();
    fflush(stdout);
    _exit(code);
}

/* ---------------------------------------------------------------- sockets */
struct chunk {
    struct chunk *next;
    size_t len, off;
    int err; /* 0 data, -1 eof, >0 errno */
    unsigned char d[];
};
enum { S_FREE, S_NEW, S_CONNECTING, S_CONNECTED, S_FAILED, S_HANG };
struct vs {
    int st, err, used, tls, hs_done, tls_seen, txbytes;
    int closed_by_lib, peer_gone, notified;
    char addr[80];
    struct chunk *in, *in_tail;
    int plan[4096];
    int nplan, iplan;
    int rawchunk;
    int nb; /* O_NONBLOCK */
    SSL *ssl;
    BIO *rb, *wb;
    long cut;
    long srv_out;
};
static struct vs V[VFD_MAX];
static int last_fd = -1;
static long loop_calls;
static uint64_t loop_clock0;

struct kv {
    char k[400], v[600];
};
static struct kv fates[512], hosts[512];
static int nfates, nhosts;
static unsigned char *dns_buf;
static long dns_len = -1;

static char t_mode[32] = "ok", t_cert[512], t_key[512], t_min[8], t_max[8], t_ca[512];
static int t_auto;
static SSL_CTX *t_ctx;
static int in_bio; /* reading for the TLS layer */

void net_loop_begin(void)
{
    loop_calls = 0;
    loop_clock0 = v_clock_us;
}
static void tick(void)
{
    if (++loop_calls > 100000)
        die(97, "spin");
}
static struct vs *get(int fd)
{
    if (fd < VFD_BASE || fd >= VFD_BASE + VFD_MAX)
        return NULL;
    return &V[fd - VFD_BASE];
}
static void vs_clear(struct vs *s)
{
    struct chunk *c;
    while ((c = s->in)) {
        s->in = c->next;
        free(c);
    }
    if (s->ssl)
        SSL_free(s->ssl);
    memset(s, 0, sizeof(*s));
}
static long ai_live;
void net_reset(void)
{
    ai_live = 0;
    int i;
    for (i = 0; i < VFD_MAX; i++)
        vs_clear(&V[i]);
    last_fd = -1;
    nfates = nhosts = 0;
    free(dns_buf);
    dns_buf = NULL;
    dns_len = -1;
    strcpy(t_mode, "ok");
    t_auto = 0;
    if (t_ctx)
        SSL_CTX_free(t_ctx);
    t_ctx = NULL;
}
int net_open_count(void)
{
    int i, n = 0;
    for (i = 0; i < VFD_MAX; i++)
        if (V[i].st != S_FREE && !V[i].closed_by_lib)
            n++;
    return n;
}
static void put(struct kv *t, int *n, const char *k, const char *v)
{
    int i;
    for (i = 0; i < *n; i++)
        if (!strcmp(t[i].k, k))
            break;
    if (i == *n) {
        if (*n >= 512)
            die(96, "kvfull");
        (*n)++;
    }
    snprintf(t[i].k, sizeof(t[i].k), "%s", k);
    snprintf(t[i].v, sizeof(t[i].v), "%s", v);
}
static const char *lookup(struct kv *t, int n, const char *k)
{
    int i;
    for (i = 0; i < n; i++)
        if (!strcmp(t[i].k, k))
            return t[i].v;
    return NULL;
}
void net_set_fate(const char *addr, const char *fate) { put(fates, &nfates, addr, fate); }
void net_set_host(const char *name, const char *csv) { put(hosts, &nhosts, name, csv); }
void net_set_dns(const unsigned char *p, long n)
{
    free(dns_buf);
    dns_buf = NULL;
    dns_len = n;
    if (n >= 0) {
        dns_buf = malloc(n ? n : 1);
        memcpy(dns_buf, p, n);
    }
}
int net_last_fd(void) { return last_fd; }
int net_is_open(int fd)
{
    struct vs *s = get(fd);
    return s && s->st != S_FREE && !s->closed_by_lib;
}

static void push(struct vs *s, const unsigned char *p, size_t n, int err)
{
    struct chunk *c = malloc(sizeof(*c) + n);
    c->next = NULL;
    c->len = n;
    c->off = 0;
    c->err = err;
    if (n)
        memcpy(c->d, p, n);
    if (s->in_tail && s->in)
        s->in_tail->next = c;
    else
        s->in = c;
    s->in_tail = c;
}
static void push_raw(struct vs *s, const unsigned char *p, size_t n)
{
    size_t k = s->rawchunk > 0 ? (size_t)s->rawchunk : n;
    while (n) {
        size_t m = n < k ? n : k;
        push(s, p, m, 0);
        p += m;
        n -= m;
    }
}
static void tls_flush_out(struct vs *s)
{
    unsigned char b[16384];
    int n;
    while ((n = BIO_read(s->wb, b, sizeof(b))) > 0) {
        if (s->cut >= 0 && s->srv_out + n > s->cut) {
            long m = s->cut - s->srv_out;
            if (m > 0)
                push_raw(s, b, m);
            if (s->srv_out <= s->cut)
                push(s, NULL, 0, -1);
            s->srv_out = s->cut + 1;
            continue;
        }
        s->srv_out += n;
        push_raw(s, b, n);
    }
}
static void fd_hex_event(const char *ev, struct vs *s, const void *p, size_t n)
{
    ev_begin(ev);
    ev_int("fd", (int)(s - V) + VFD_BASE);
    ev_int("sec", s->tls && s->hs_done);
    ev_hex("d", p, n);
    ev_end();
}
static void tls_pump(struct vs *s)
{
    unsigned char b[16384];
    int r;
    if (!s->ssl)
        return;
    if (!s->hs_done) {
        r = SSL_accept(s->ssl);
        if (r == 1) {
            unsigned char ex[32], fin[64];
            size_t fl;
            s->hs_done = 1;
            memset(ex, 0, sizeof(ex));
            SSL_export_keying_material(s->ssl, ex, 32, "EXPORTER-Channel-Binding", 24,
                                       (const unsigned char *)"", 0, 1);
            if (SSL_session_reused(s->ssl))
                fl = SSL_get_finished(s->ssl, fin, sizeof(fin));
            else
                fl = SSL_get_peer_finished(s->ssl, fin, sizeof(fin));
            ev_begin("tls");
            ev_int("fd", (int)(s - V) + VFD_BASE);
            ev_lit("ver", SSL_get_version(s->ssl));
            ev_hex("exporter", ex, 32);
            ev_hex("unique", fin, fl);
            {
                X509 *pc = SSL_get1_peer_certificate(s->ssl);
                ev_int("clientcert", pc != NULL);
                if (pc)
                    X509_free(pc);
            }
            ev_str("sni", SSL_get_servername(s->ssl, TLSEXT_NAMETYPE_host_name));
            ev_end();
        } else {
            int e = SSL_get_error(s->ssl, r);
            if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) {
                tls_flush_out(s);
                ev_begin("tlsfail");
                ev_int("fd", (int)(s - V) + VFD_BASE);
                ev_end();
                push(s, NULL, 0, -1);
                SSL_free(s->ssl);
                s->ssl = NULL;
                ERR_clear_error();
                return;
            }
        }
        ERR_clear_error();
    }
    if (s->hs_done) {
        while ((r = SSL_read(s->ssl, b, sizeof(b))) > 0)
            fd_hex_event("tx", s, b, r);
        ERR_clear_error();
    }
    tls_flush_out(s);
}
void net_tls_cfg(const char *mode, const char *cert, const char *key,
                 const char *minv, const char *maxv, const char *ca, int autostart)
{
    snprintf(t_mode, sizeof(t_mode), "%s", mode);
    snprintf(t_cert, sizeof(t_cert), "%s", cert);
    snprintf(t_key, sizeof(t_key), "%s", key);
    snprintf(t_min, sizeof(t_min), "%s", minv);
    snprintf(t_max, sizeof(t_max), "%s", maxv);
    snprintf(t_ca, sizeof(t_ca), "%s", ca);
    t_auto = autostart;
    if (t_ctx)
        SSL_CTX_free(t_ctx);
    t_ctx = NULL;
}
static int vername(const char *s)
{
    return !strcmp(s, "1.2") ? TLS1_2_VERSION : TLS1_3_VERSION;
}
static int accept_any(int ok, X509_STORE_CTX *c)
{
    (void)ok;
    (void)c;
    return 1;
}
int net_tls_on(int fd)
{
    struct vs *s = get(fd);
    if (!s)
        return -1;
    s->tls = 1;
    s->cut = -1;
    if (strcmp(t_mode, "ok") && strncmp(t_mode, "cut", 3))
        return 0;
    if (!strncmp(t_mode, "cut", 3))
        s->cut = atol(t_mode + 3);
    if (!t_ctx) {
        t_ctx = SSL_CTX_new(TLS_server_method());
        SSL_CTX_set_min_proto_version(t_ctx, vername(t_min));
        SSL_CTX_set_max_proto_version(t_ctx, vername(t_max));
        if (SSL_CTX_use_certificate_chain_file(t_ctx, t_cert) != 1 ||
            SSL_CTX_use_PrivateKey_file(t_ctx, t_key, SSL_FILETYPE_PEM) != 1)
            die(96, "servercert");
        SSL_CTX_set_session_cache_mode(t_ctx, SSL_SESS_CACHE_OFF);
        SSL_CTX_set_num_tickets(t_ctx, 0);
        if (strcmp(t_ca, "-"))
            SSL_CTX_set_verify(t_ctx, SSL_VERIFY_PEER, accept_any);
    }
    s->ssl = SSL_new(t_ctx);
    s->rb = BIO_new(BIO_s_mem());
    s->wb = BIO_new(BIO_s_mem());
    SSL_set_bio(s->ssl, s->rb, s->wb);
    SSL_set_accept_state(s->ssl);
    return 0;
}
void net_rawchunk(int fd, int n)
{
    struct vs *s = get(fd);
    if (s)
        s->rawchunk = n;
}
int net_rx(int fd, const unsigned char *p, size_t n, int raw)
{
    struct vs *s = get(fd);
    if (!s || s->st == S_FREE)
        return -1;
    if (s->closed_by_lib)
        return 0;
    if (s->tls && !raw) {
        if (!s->ssl || !s->hs_done)
            return -2;
        if (n)
            SSL_write(s->ssl, p, n);
        tls_flush_out(s);
        return 1;
    }
    push_raw(s, p, n);
    return 1;
}
int net_eof(int fd, int err)
{
    struct vs *s = get(fd);
    if (!s || s->st == S_FREE)
        return -1;
    if (s->closed_by_lib)
        return 0;
    if (err == -2 || err == -3) { /* TLS close_notify, then EOF or nothing */
        int done = s->ssl && s->hs_done;
        if (done) {
            SSL_shutdown(s->ssl);
            tls_flush_out(s);
        }
        if (err == -3 && done)
            return 1;
        err = -1;
    }
    push(s, NULL, 0, err);
    s->peer_gone = 1;
    return 1;
}
int net_wplan(int fd, const char *csv)
{
    struct vs *s = get(fd);
    const char *p = csv;
    if (!s)
        return -1;
    s->nplan = s->iplan = 0;
    while (*p && strcmp(csv, "-")) {
        if (s->nplan >= 4096)
            break;
        s->plan[s->nplan++] = strtol(p, (char **)&p, 10);
        if (*p == ',')
            p++;
    }
    return 0;
}
int net_pending_rx(int fd)
{
    struct vs *s = get(fd);
    return s && s->in != NULL;
}

/* ------------------------------------------------- wrapped libc functions */
int vv_socket(int d, int t, int p)
{
    int i;
    static int rr;
    (void)d;
    (void)t;
    (void)p;
    tick();
    for (i = 0; i < VFD_MAX; i++) {
        int j = (rr + i) % VFD_MAX;
        if (V[j].st == S_FREE || V[j].closed_by_lib) {
            /* reuse only when the whole range went round */
            if (V[j].closed_by_lib)
                vs_clear(&V[j]);
            rr = (j + 1) % VFD_MAX;
            memset(&V[j], 0, sizeof(V[j]));
            V[j].st = S_NEW;
            V[j].cut = -1;
            V[j].nb = t & SOCK_NONBLOCK ? 1 : 0;
            last_fd = VFD_BASE + j;
            return last_fd;
        }
    }
    errno = EMFILE;
    return -1;
}
static void addr2s(const struct sockaddr *sa, char *b, size_t n)
{
    char ip[64] = "?";
    int port = 0;
    if (sa->sa_family == AF_INET) {
        inet_ntop(AF_INET, &((struct sockaddr_in *)sa)->sin_addr, ip, sizeof(ip));
        port = ntohs(((struct sockaddr_in *)sa)->sin_port);
    } else if (sa->sa_family == AF_INET6) {
        inet_ntop(AF_INET6, &((struct sockaddr_in6 *)sa)->sin6_addr, ip, sizeof(ip));
        port = ntohs(((struct sockaddr_in6 *)sa)->sin6_port);
    }
    snprintf(b, n, "%s/%d", ip, port);
}
static void sleep_us(uint64_t us);
int vv_connect(int fd, const struct sockaddr *sa, socklen_t l)
{
    struct vs *s = get(fd);
    const char *f;
    (void)l;
    tick();
    if (!s || s->st == S_FREE || s->closed_by_lib) {
        ev_begin("badfd");
        ev_lit("op", "connect");
        ev_end();
        errno = EBADF;
        return -1;
    }
    addr2s(sa, s->addr, sizeof(s->addr));
    f = lookup(fates, nfates, s->addr);
    if (!f)
        f = lookup(fates, nfates, "*");
    if (!f)
        f = "accept";
    ev_begin("connect");
    ev_int("fd", fd);
    ev_lit("addr", s->addr);
    ev_lit("fate", f);
    ev_end();
    s->used = 1;
    if (!strcmp(f, "accept") || !strcmp(f, "now")) {
        s->st = S_CONNECTED;
        if (t_auto)
            net_tls_on(fd);
        if (f[0] == 'n' || !s->nb)
            return 0;
        errno = EINPROGRESS;
        return -1;
    }
    if (!strcmp(f, "refuse")) {
        s->st = S_NEW;
        errno = ECONNREFUSED;
        return -1;
    }
    if (!strcmp(f, "unreach")) {
        s->st = S_NEW;
        errno = ENETUNREACH;
        return -1;
    }
    if (!s->nb) {
        /* the call itself waits */
        s->st = S_NEW;
        if (!strncmp(f, "late", 4)) {
            errno = f[4] ? ECONNRESET : ECONNREFUSED;
            return -1;
        }
        sleep_us(127000000);
        errno = ETIMEDOUT;
        return -1;
    }
    if (!strcmp(f, "late")) {
        s->st = S_FAILED;
        s->err = ECONNREFUSED;
        errno = EINPROGRESS;
        return -1;
    }
    if (!strcmp(f, "latereset")) {
        s->st = S_FAILED;
        s->err = ECONNRESET;
        errno = EINPROGRESS;
        return -1;
    }
    s->st = S_HANG;
    errno = EINPROGRESS;
    return -1;
}
static int plan_next(struct vs *s)
{
    if (s->iplan < s->nplan)
        return s->plan[s->iplan++];
    return 1 << 30;
}
static ssize_t do_send(int fd, const void *buf, size_t n, int flags)
{
    struct vs *s = get(fd);
    int k;
    tick();
    if (!s || s->closed_by_lib || s->st == S_FREE) {
        ev_begin("badfd");
        ev_lit("op", "send");
        ev_end();
        errno = EBADF;
        return -1;
    }
    if (s->st != S_CONNECTED) {
        errno = ENOTCONN;
        return -1;
    }
    k = plan_next(s);
    if (k == -2 || k == -3) {
        if (k == -2 && !(flags & MSG_NOSIGNAL)) {
            ev_begin("sigpipe");
            ev_end();
        }
        ev_begin("werr");
        ev_int("fd", fd);
        ev_end();
        errno = k == -2 ? EPIPE : ECONNRESET;
        return -1;
    }
    if (k == -4) {
        errno = EINTR;
        return -1;
    }
    if (k <= 0) {
        if (!s->nb && !(flags & MSG_DONTWAIT))
            sleep_us(127000000);
        ev_begin("wblock");
        ev_int("fd", fd);
        ev_end();
        errno = EAGAIN;
        return -1;
    }
    if ((size_t)k < n)
        n = k;
    if (n && s->tls) {
        if (!s->tls_seen) {
            s->tls_seen = 1;
            ev_begin("hello");
            ev_int("fd", fd);
            ev_end();
            if (!strcmp(t_mode, "garbage"))
                push(s, (const unsigned char *)"<this is not tls/>", 18, 0);
            else if (!strcmp(t_mode, "close"))
                push(s, NULL, 0, -1);
            else if (!strcmp(t_mode, "rst"))
                push(s, NULL, 0, ECONNRESET);
            else if (!strcmp(t_mode, "alert"))
                push(s, (const unsigned char *)"\x15\x03\x03\x00\x02\x02\x28", 7, 0);
        }
        fd_hex_event("txr", s, buf, n);
        if (s->ssl) {
            BIO_write(s->rb, buf, n);
            tls_pump(s);
        }
    } else if (n)
        fd_hex_event("tx", s, buf, n);
    s->txbytes += n;
    return n;
}
ssize_t vv_send(int fd, const void *b, size_t n, int f) { return do_send(fd, b, n, f); }
ssize_t vv_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l)
{
    (void)a;
    (void)l;
    return do_send(fd, b, n, f);
}
ssize_t vv_write(int fd, const void *b, size_t n)
{
    if (!get(fd))
        return write(fd, b, n);
    return do_send(fd, b, n, 0);
}
ssize_t vv_sendmsg(int fd, const struct msghdr *m, int f)
{
    if (!m->msg_iovlen)
        return 0;
    return do_send(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, f);
}
ssize_t vv_recv(int fd, void *buf, size_t n, int flags)
{
    struct vs *s = get(fd);
    struct chunk *c;
    (void)flags;
    tick();
    if (!s || s->closed_by_lib || s->st == S_FREE) {
        ev_begin("badfd");
        ev_lit("op", "recv");
        ev_end();
        errno = EBADF;
        return -1;
    }
    if (s->st == S_FAILED) {
        errno = s->err;
        return -1;
    }
    if (s->st != S_CONNECTED) {
        errno = ENOTCONN;
        return -1;
    }
    c = s->in;
    if (!c) {
        if (!s->nb && !(flags & MSG_DONTWAIT))
            sleep_us(127000000);
        errno = EAGAIN;
        return -1;
    }
    if (c->err == -1) {
        if (!c->off) {
            ev_begin("rxeof");
            ev_int("fd", fd);
            ev_end();
            c->off = 1;
        }
        errno = 0;
        return 0; /* EOF stays */
    }
    if (c->err == -EAGAIN || c->err == -EINTR) {
        errno = -c->err;
        s->in = c->next;
        free(c);
        return -1;
    }
    if (c->err > 0) {
        if (!c->off) {
            ev_begin("rxeof");
            ev_int("fd", fd);
            ev_end();
            c->off = 1;
        }
        errno = c->err;
        return -1;
    }
    if (n > c->len - c->off)
        n = c->len - c->off;
    memcpy(buf, c->d + c->off, n);
    if (!in_bio)
        fd_hex_event("rx", s, c->d + c->off, n);
    c->off += n;
    if (c->off == c->len) {
        s->in = c->next;
        free(c);
    }
    return n;
}
ssize_t vv_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l)
{
    (void)a;
    (void)l;
    return vv_recv(fd, b, n, f);
}
ssize_t vv_read(int fd, void *b, size_t n)
{
    if (!get(fd))
        return read(fd, b, n);
    return vv_recv(fd, b, n, 0);
}
int vv_close(int fd)
{
    struct vs *s = get(fd);
    if (!s)
        return close(fd);
    tick();
    if (s->st == S_FREE || s->closed_by_lib) {
        ev_begin("badfd");
        ev_lit("op", "close");
        ev_end();
        errno = EBADF;
        return -1;
    }
    s->closed_by_lib = 1;
    ev_begin("close");
    ev_int("fd", fd);
    ev_end();
    return 0;
}
int vv_shutdown(int fd, int how)
{
    (void)how;
    if (!get(fd))
        return shutdown(fd, how);
    return 0;
}
int vv_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    long a;
    va_start(ap, cmd);
    a = va_arg(ap, long);
    va_end(ap);
    if (!get(fd))
        return fcntl(fd, cmd, a);
    if (cmd == F_SETFL)
        get(fd)->nb = a & O_NONBLOCK ? 1 : 0;
    return cmd == F_GETFL ? (O_RDWR | (get(fd)->nb ? O_NONBLOCK : 0)) : 0;
}
int vv_ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    int *on;
    va_start(ap, req);
    on = va_arg(ap, int *);
    va_end(ap);
    if (req == FIONBIO && get(fd))
        get(fd)->nb = *on ? 1 : 0;
    return 0;
}
int vv_setsockopt(int fd, int l, int o, const void *v, socklen_t n)
{
    (void)fd;
    (void)l;
    (void)o;
    (void)v;
    (void)n;
    return 0;
}
int vv_getsockopt(int fd, int l, int o, void *v, socklen_t *n)
{
    struct vs *s = get(fd);
    if (s && l == SOL_SOCKET && o == SO_ERROR) {
        *(int *)v = s->st == S_FAILED ? s->err : 0;
        *n = sizeof(int);
        return 0;
    }
    memset(v, 0, *n);
    return 0;
}
int vv_getpeername(int fd, struct sockaddr *sa, socklen_t *l)
{
    struct vs *s = get(fd);
    if (!s || s->closed_by_lib) {
        errno = EBADF;
        return -1;
    }
    if (s->st == S_CONNECTED) {
        memset(sa, 0, *l);
        sa->sa_family = AF_INET;
        return 0;
    }
    errno = ENOTCONN;
    return -1;
}
static int readable(struct vs *s)
{
    return s->st == S_FAILED || (s->st == S_CONNECTED && s->in);
}
static int writable(struct vs *s) { return s->st == S_FAILED || s->st == S_CONNECTED; }
static void sleep_us(uint64_t us)
{
    v_clock_us += us;
    if (v_clock_us - loop_clock0 > 120ull * 1000000ull)
        die(99, "block");
}
int vv_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    int i, n = 0;
    tick();
    for (i = 0; i < VFD_MAX; i++) {
        int fd = VFD_BASE + i;
        struct vs *s = &V[i];
        int wr = r && FD_ISSET(fd, r), ww = w && FD_ISSET(fd, w);
        if (!wr && !ww)
            continue;
        if (fd >= nfds) {
            if (wr)
                FD_CLR(fd, r);
            if (ww)
                FD_CLR(fd, w);
            continue;
        }
        if (s->st == S_FREE || s->closed_by_lib) {
            ev_begin("badfd");
            ev_lit("op", "select");
            ev_end();
            errno = EBADF;
            return -1;
        }
        if (wr) {
            if (readable(s))
                n++;
            else
                FD_CLR(fd, r);
        }
        if (ww) {
            if (writable(s))
                n++;
            else
                FD_CLR(fd, w);
        }
    }
    if (e)
        FD_ZERO(e);
    if (n == 0 && tv)
        sleep_us((uint64_t)tv->tv_sec * 1000000ull + tv->tv_usec);
    if (n == 0 && !tv)
        die(99, "block");
    return n;
}
int vv_poll(struct pollfd *p, nfds_t n, int timeout)
{
    nfds_t i;
    int c = 0;
    tick();
    for (i = 0; i < n; i++) {
        struct vs *s = get(p[i].fd);
        p[i].revents = 0;
        if (!s)
            continue;
        if ((p[i].events & POLLIN) && readable(s))
            p[i].revents |= POLLIN;
        if ((p[i].events & POLLOUT) && writable(s))
            p[i].revents |= POLLOUT;
        if (p[i].revents)
            c++;
    }
    if (!c)
        sleep_us((uint64_t)(timeout < 0 ? 1000 : timeout) * 1000);
    return c;
}
int vv_usleep(useconds_t us)
{
    tick();
    sleep_us(us);
    return 0;
}
int vv_nanosleep(const struct timespec *t, struct timespec *rem)
{
    (void)rem;
    tick();
    sleep_us((uint64_t)t->tv_sec * 1000000ull + t->tv_nsec / 1000);
    return 0;
}
int vv_gettimeofday(struct timeval *tv, void *tz)
{
    (void)tz;
    tv->tv_sec = v_clock_us / 1000000;
    tv->tv_usec = v_clock_us % 1000000;
    return 0;
}
int vv_clock_gettime(clockid_t id, struct timespec *ts)
{
    (void)id;
    ts->tv_sec = v_clock_us / 1000000;
    ts->tv_nsec = (v_clock_us % 1000000) * 1000;
    return 0;
}
time_t vv_time(time_t *t)
{
    time_t v = v_clock_us / 1000000;
    if (t)
        *t = v;
    return v;
}
int vv_getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res)
{
    const char *csv = lookup(hosts, nhosts, node), *p;
    struct addrinfo *head = NULL, **tail = &head;
    (void)h;
    tick();
    ev_begin("gai");
    ev_str("host", node);
    ev_str("svc", svc);
    ev_end();
    if (!csv)
        csv = lookup(hosts, nhosts, "*");
    if (!csv)
        csv = "10.0.0.1";
    if (!strcmp(csv, "fail"))
        return EAI_NONAME;
    for (p = csv; *p;) {
        char ip[64];
        size_t n = strcspn(p, ",");
        struct addrinfo *ai = calloc(1, sizeof(*ai) + sizeof(struct sockaddr_in6));
        memcpy(ip, p, n);
        ip[n] = 0;
        ai->ai_socktype = SOCK_STREAM;
        ai->ai_protocol = IPPROTO_TCP;
        ai->ai_addr = (void *)(ai + 1);
        if (strchr(ip, ':')) {
            struct sockaddr_in6 *a = (void *)ai->ai_addr;
            ai->ai_family = a->sin6_family = AF_INET6;
            inet_pton(AF_INET6, ip, &a->sin6_addr);
            a->sin6_port = htons(atoi(svc));
            ai->ai_addrlen = sizeof(*a);
        } else {
            struct sockaddr_in *a = (void *)ai->ai_addr;
            ai->ai_family = a->sin_family = AF_INET;
            inet_pton(AF_INET, ip, &a->sin_addr);
            a->sin_port = htons(atoi(svc));
            ai->ai_addrlen = sizeof(*a);
        }
        *tail = ai;
        tail = &ai->ai_next;
        ai_live++;
        p += n;
        if (*p == ',')
            p++;
    }
    *res = head;
    return 0;
}
void vv_freeaddrinfo(struct addrinfo *ai)
{
    while (ai) {
        struct addrinfo *n = ai->ai_next;
        free(ai);
        ai_live--;
        ai = n;
    }
}
long net_ai_live(void) { return ai_live; }
int vv_res_query(const char *dname, int class, int type, unsigned char *ans, int anslen)
{
    tick();
    ev_begin("dns");
    ev_str("name", dname);
    ev_int("class", class);
    ev_int("type", type);
    ev_end();
    if (dns_len < 0)
        return -1;
    memcpy(ans, dns_buf, dns_len < anslen ? dns_len : anslen);
    return dns_len;
}

/* TLS socket BIO on the virtual network */
static int bio_write(BIO *b, const char *d, int n)
{
    int fd = (int)(intptr_t)BIO_get_data(b);
    ssize_t r = do_send(fd, d, n, MSG_NOSIGNAL);
    BIO_clear_retry_flags(b);
    if (r < 0 && (errno == EAGAIN || errno == EINTR))
        BIO_set_retry_write(b);
    return r;
}
static int bio_read(BIO *b, char *d, int n)
{
    int fd = (int)(intptr_t)BIO_get_data(b);
    ssize_t r;
    in_bio = 1;
    r = vv_recv(fd, d, n, 0);
    in_bio = 0;
    BIO_clear_retry_flags(b);
    if (r < 0 && (errno == EAGAIN || errno == EINTR))
        BIO_set_retry_read(b);
    return r;
}
static long bio_ctrl(BIO *b, int cmd, long num, void *ptr)
{
    switch (cmd) {
    case BIO_CTRL_FLUSH:
        return 1;
    case BIO_C_GET_FD:
        if (ptr)
            *(int *)ptr = (int)(intptr_t)BIO_get_data(b);
        return (int)(intptr_t)BIO_get_data(b);
    default:
        (void)num;
        return 0;
    }
}
static int bio_create(BIO *b)
{
    BIO_set_init(b, 1);
    return 1;
}
int vv_SSL_set_fd(SSL *ssl, int fd)
{
    static BIO_METHOD *m;
    BIO *b;
    if (!get(fd)) /* no connection yet (feature probe) */
        return SSL_set_fd(ssl, fd);
    if (!m) {
        m = BIO_meth_new(BIO_TYPE_SOURCE_SINK | BIO_TYPE_DESCRIPTOR | BIO_get_new_index(), "vnet");
        BIO_meth_set_write(m, bio_write);
        BIO_meth_set_read(m, bio_read);
        BIO_meth_set_ctrl(m, bio_ctrl);
        BIO_meth_set_create(m, bio_create);
    }
    b = BIO_new(m);
    BIO_set_data(b, (void *)(intptr_t)fd);
    SSL_set_bio(ssl, b, b);
    return 1;
}
int vv_SSL_read(SSL *ssl, void *buf, int n)
{
    int fd = SSL_get_fd(ssl);
    int r = SSL_read(ssl, buf, n);
    struct vs *s = get(fd);
    if (r > 0 && s)
        fd_hex_event("rx", s, buf, r);
    if (r <= 0 && s && !s->notified && (SSL_get_shutdown(ssl) & SSL_RECEIVED_SHUTDOWN)) {
        s->notified = 1;
        ev_begin("rxeof"); /* close_notify has been read */
        ev_int("fd", fd);
        ev_end();
    }
    return r;
}

/* -------------------------------------------------------------- allocator */
struct blk {
    struct blk *next;
    void *p;
    size_t n;
    struct acct *a;
    long seq;
    int birth;
};
#define HB 4096
/* block deltas per command in which the blocks were allocated */
int acct_cmd, acct_trace;
#define MAXD 65536
static struct {
    int ctx, birth, n;
} delta[MAXD];
static int ndelta;
static void dlt(int ctx, int birth, int n)
{
    int i;
    if (!acct_trace)
        return;
    for (i = ndelta - 1; i >= 0; i--)
        if (delta[i].birth == birth && delta[i].ctx == ctx) {
            delta[i].n += n;
            return;
        }
    if (ndelta < MAXD) {
        delta[ndelta].ctx = ctx;
        delta[ndelta].birth = birth;
        delta[ndelta++].n = n;
    }
}
void acct_flush(void) /* ,"blk":[command,[[ctx,command of birth,change],...]] */
{
    int i, k = 0;
    if (!acct_trace)
        return;
    printf(",\"blk\":[%d,[", acct_cmd);
    for (i = 0; i < ndelta; i++)
        if (delta[i].n)
            printf("%s[%d,%d,%d]", k++ ? "," : "", delta[i].ctx, delta[i].birth, delta[i].n);
    printf("]]");
    ndelta = 0;
}
static struct blk *tab[HB];
struct acct {
    xmpp_mem_t mem;
    int slot;
    long live, total, bad;
};
static unsigned hp(const void *p) { return ((uintptr_t)p >> 4) % HB; }
static struct blk **find(const void *p)
{
    struct blk **b = &tab[hp(p)];
    while (*b && (*b)->p != p)
        b = &(*b)->next;
    return b;
}
static void reg(struct acct *a, void *p, size_t n)
{
    struct blk *b = malloc(sizeof(*b));
    b->p = p;
    b->n = n;
    b->a = a;
    b->seq = ++a->total;
    b->birth = acct_cmd;
    dlt(a->slot, acct_cmd, 1);
    b->next = tab[hp(p)];
    tab[hp(p)] = b;
    a->live++;
}
static void *a_alloc(size_t n, void *u)
{
    void *p = malloc(n);
    if (p) {
        memset(p, 0xA5, n);
        reg(u, p, n);
    }
    return p;
}
static int unreg(struct acct *a, void *p)
{
    struct blk **b = find(p), *x = *b;
    if (!x || x->a != a) {
        a->bad++;
        ev_begin("badfree");
        ev_int("ctx", a->slot);
        ev_int("foreign", x != NULL);
        ev_end();
        return -1;
    }
    *b = x->next;
    a->live--;
    dlt(a->slot, x->birth, -1);
    free(x);
    return 0;
}
static void a_free(void *p, void *u)
{
    if (!p)
        return;
    if (unreg(u, p) == 0)
        free(p);
}
static void *a_realloc(void *p, size_t n, void *u)
{
    void *q;
    struct blk **b;
    size_t old = 0;
    if (!p)
        return a_alloc(n, u);
    b = find(p);
    if (*b)
        old = (*b)->n;
    if (unreg(u, p))
        return NULL;
    q = malloc(n ? n : 1);
    memset(q, 0xA5, n);
    memcpy(q, p, old < n ? old : n);
    free(p);
    reg(u, q, n);
    return q;
}
struct acct *acct_new(int slot)
{
    struct acct *a = calloc(1, sizeof(*a));
    a->slot = slot;
    a->mem.alloc = a_alloc;
    a->mem.free = a_free;
    a->mem.realloc = a_realloc;
    a->mem.userdata = a;
    return a;
}
const xmpp_mem_t *acct_mem(struct acct *a) { return &a->mem; }
long acct_live(struct acct *a) { return a->live; }
long acct_total(struct acct *a) { return a->total; }
long acct_bad(struct acct *a) { return a->bad; }
int acct_owns(const void *p) { return *find(p) != NULL; }
void acct_dump(struct acct *a)
{
    int i;
    struct blk *b;
    for (i = 0; i < HB; i++)
        for (b = tab[i]; b; b = b->next)
            if (b->a == a) {
                ev_begin("leak");
                ev_int("seq", b->seq);
                ev_int("n", b->n);
                ev_hex("d", b->p, b->n < 48 ? b->n : 48);
                ev_end();
            }
}
void acct_free(struct acct *a)
{
    int i;
    struct blk **b, *x;
    for (i = 0; i < HB; i++)
        for (b = &tab[i]; *b;)
            if ((*b)->a == a) {
                x = *b;
                *b = x->next;
                free(x->p);
                free(x);
            } else
                b = &(*b)->next;
    free(a);
}
/* direct libc allocation from library objects */
int bypass_armed;
static void bypass(const char *f)
{
    if (!bypass_armed)
        return;
    ev_begin("bypass");
    ev_lit("fn", f);
    ev_end();
}
void *vv_malloc(size_t n)
{
    bypass("malloc");
    return malloc(n);
}
void *vv_calloc(size_t a, size_t b)
{
    bypass("calloc");
    return calloc(a, b);
}
void *vv_realloc(void *p, size_t n)
{
    bypass("realloc");
    return realloc(p, n);
}
void vv_free(void *p)
{
    if (p)
        bypass("free");
    if (p && acct_owns(p)) {
        ev_begin("badfree");
        ev_int("ctx", -1);
        ev_int("foreign", 1);
        ev_end();
        return;
    }
    free(p);
}
char *vv_strdup(const char *s)
{
    bypass("strdup");
    return strdup(s);
}
char *vv_strndup(const char *s, size_t n)
{
    bypass("strndup");
    return strndup(s, n);
}
/* third party libraries must be handed the user's allocator */
extern const xmpp_mem_t *cur_mem(void);
static void suite_check(const char *what, void *(*m)(size_t), void (*f)(void *))
{
    void *p;
    if (!bypass_armed)
        return;
    p = m(8);
    if (!acct_owns(p))
        bypass(what);
    f(p);
}
XML_Parser vv_XML_ParserCreate_MM(const XML_Char *enc, const XML_Memory_Handling_Suite *ms, const XML_Char *sep)
{
    if (!ms)
        bypass("expat");
    else
        suite_check("expat", ms->malloc_fcn, ms->free_fcn);
    return XML_ParserCreate_MM(enc, ms, sep);
}
XML_Parser vv_XML_ParserCreate(const XML_Char *enc)
{
    bypass("expat");
    return XML_ParserCreate(enc);
}
XML_Parser vv_XML_ParserCreateNS(const XML_Char *enc, XML_Char sep)
{
    bypass("expat");
    return XML_ParserCreateNS(enc, sep);
}
static void z_check(z_streamp z)
{
    void *p;
    if (!bypass_armed)
        return;
    if (!z->zalloc || !z->zfree) {
        bypass("zlib");
        return;
    }
    p = z->zalloc(z->opaque, 1, 8);
    if (!acct_owns(p))
        bypass("zlib");
    z->zfree(z->opaque, p);
}
int vv_deflateInit_(z_streamp z, int l, const char *v, int s)
{
    z_check(z);
    return deflateInit_(z, l, v, s);
}
int vv_deflateInit2_(z_streamp z, int l, int m, int w, int ml, int st, const char *v, int s)
{
    z_check(z);
    return deflateInit2_(z, l, m, w, ml, st, v, s);
}
int vv_inflateInit_(z_streamp z, const char *v, int s)
{
    z_check(z);
    return inflateInit_(z, v, s);
}
int vv_inflateInit2_(z_streamp z, int w, const char *v, int s)
{
    z_check(z);
    return inflateInit2_(z, w, v, s);
}
int vv___res_query(const char *d, int c, int t, unsigned char *a, int n) { return vv_res_query(d, c, t, a, n); }
int vv___res_nquery(void *s, const char *d, int c, int t, unsigned char *a, int n) { (void)s; return vv_res_query(d, c, t, a, n); }
