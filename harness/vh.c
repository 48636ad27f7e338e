/* Command interpreter around libstrophe in the virtual environment.
 * One command per line on stdin, tokens separated by blanks; byte strings are
 * hex with a leading 'x', "-" is NULL.  Every command answers with one
 * {"r":...} line; events precede it.  Inside an interactive callback further
 * commands are read until "ret <n>". */
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "strophe.h"
#include "common.h"
#include "parser.h"
#include "resolver.h"
#include "scram.h"
#include "sha1.h"
#include "sha256.h"
#include "sha512.h"
#include "md5.h"
#include "vnet.h"

#define N 64
#define NS 4096
static xmpp_ctx_t *C[8];
static struct acct *A[8];
static xmpp_conn_t *K[N];
static int Kint[N]; /* connection callback interactive */
static xmpp_stanza_t *S[NS];
static xmpp_sm_state_t *M[N];
static parser_t *P[N];
static long logcount;
static int want_pred = 1;
static long depth;

static char *line;
static size_t linecap;

extern long net_ai_live(void);

/* ------------------------------------------------------------ tokens */
static char *tok[512];
static int ntok;
static int split(char *s)
{
    ntok = 0;
    for (char *p = strtok(s, " \n"); p && ntok < 512; p = strtok(NULL, " \n"))
        tok[ntok++] = p;
    return ntok;
}
static int T(int i) { return i < ntok ? (int)strtol(tok[i], NULL, 0) : 0; }
static long TL(int i) { return i < ntok ? strtol(tok[i], NULL, 0) : 0; }
static int hv(int c)
{
    return c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
}
/* heap copy, exact size (+ NUL) so that ASan sees overreads */
static char *tb(int i, size_t *n)
{
    const char *s;
    size_t l, j;
    char *r;
    if (i >= ntok || tok[i][0] != 'x') {
        if (n)
            *n = 0;
        return NULL;
    }
    s = tok[i] + 1;
    l = strlen(s) / 2;
    r = malloc(l + 1);
    for (j = 0; j < l; j++)
        r[j] = hv(s[2 * j]) << 4 | hv(s[2 * j + 1]);
    r[l] = 0;
    if (n)
        *n = l;
    return r;
}
static unsigned char *tbx(int i, size_t *n)
{ /* without terminating NUL */
    char *a = tb(i, n);
    unsigned char *b = malloc(*n ? *n : 1);
    if (a)
        memcpy(b, a, *n);
    free(a);
    return b;
}

/* ------------------------------------------------------------ lookup */
static int kslot(xmpp_conn_t *k)
{
    for (int i = 0; i < N; i++)
        if (K[i] == k)
            return i;
    return -1;
}
static int cslot(xmpp_ctx_t *c)
{
    for (int i = 0; i < 8; i++)
        if (C[i] == c)
            return i;
    return -1;
}

static void preds(void)
{
    int first = 1;
    if (!want_pred)
        return;
    printf(",\"p\":[");
    for (int i = 0; i < N; i++)
        if (K[i]) {
            printf("%s[%d,%d,%d,%d,%d,%d]", first ? "" : ",", i,
                   !!xmpp_conn_is_connecting(K[i]), !!xmpp_conn_is_connected(K[i]),
                   !!xmpp_conn_is_disconnected(K[i]), !!xmpp_conn_is_secured(K[i]),
                   xmpp_conn_send_queue_len(K[i]));
            first = 0;
        }
    printf("]");
}
static void r_begin(void)
{
    printf("{\"r\":1,\"t\":%llu", (unsigned long long)(v_clock_us / 1000 - 1700000000000ull));
}
static void r_end(void)
{
    preds();
    acct_flush();
    printf("}\n");
}
static int serve(int nested);
static int ask(void)
{
    int r, c = acct_cmd;
    if (acct_trace) {
        ev_begin("part");
        acct_flush();
        ev_end();
    }
    printf("{\"ask\":1}\n");
    r = serve(1);
    acct_cmd = c;
    return r;
}

/* ------------------------------------------------------------ callbacks */
static struct ud {
    int idx;
} UD[16] = {{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}, {8}, {9}, {10}, {11}, {12}, {13}, {14}, {15}};
static int udi(void *u) { return u ? ((struct ud *)u)->idx : -1; }
static void *udp(int i) { return i < 0 ? NULL : &UD[i]; }
static int HI[8], TI[8], GI[8]; /* -1 interactive else automatic return value */

static void dump_stanza(xmpp_stanza_t *s);

static void conn_cb(xmpp_conn_t *k, xmpp_conn_event_t e, int err, xmpp_stream_error_t *se, void *u)
{
    static const char *nm[] = {"connect", "raw", "disconnect", "fail"};
    int i = kslot(k);
    ev_begin("cb");
    ev_int("k", i);
    ev_lit("e", e >= 0 && e < 4 ? nm[e] : "?");
    ev_int("err", err);
    ev_int("u", udi(u));
    if (se) {
        ev_int("se", se->type);
        ev_str("setext", se->text);
        ev_int("sestanza", se->stanza != NULL);
        if (se->stanza) {
            char *b;
            size_t n;
            if (!xmpp_stanza_to_text(se->stanza, &b, &n)) {
                ev_hex("sexml", b, n);
                xmpp_free(xmpp_conn_get_context(k), b);
            }
        }
    } else
        ev_int("se", -1);
    ev_str("bound", xmpp_conn_get_bound_jid(k));
    if (e == XMPP_CONN_DISCONNECT)
        ev_int("disc", xmpp_conn_is_disconnected(k));
    preds();
    ev_end();
    if (i >= 0 && Kint[i])
        ask();
}
static void snap(xmpp_stanza_t *st)
{
    char *b;
    size_t n;
    ev_str("id", xmpp_stanza_get_id(st));
    ev_str("name", xmpp_stanza_get_name(st));
    ev_str("ns", xmpp_stanza_get_ns(st));
    ev_str("type", xmpp_stanza_get_type(st));
    if (!xmpp_stanza_to_text(st, &b, &n)) {
        ev_hex("xml", b, n);
        xmpp_free(xmpp_stanza_get_context(st), b);
    }
}
static xmpp_stanza_t *cur_stanza;
static int gen_h(int f, xmpp_conn_t *k, xmpp_stanza_t *st, void *u)
{
    int r;
    xmpp_stanza_t *sv = cur_stanza;
    ev_begin("h");
    ev_int("k", kslot(k));
    ev_int("f", f);
    ev_int("u", udi(u));
    snap(st);
    ev_end();
    cur_stanza = st;
    r = HI[f] < 0 ? ask() : HI[f];
    cur_stanza = sv;
    return r;
}
static int gen_t(int f, xmpp_conn_t *k, void *u)
{
    ev_begin("th");
    ev_int("k", kslot(k));
    ev_int("f", f);
    ev_int("u", udi(u));
    ev_end();
    return TI[f] < 0 ? ask() : TI[f];
}
static int gen_g(int f, xmpp_ctx_t *c, void *u)
{
    ev_begin("gh");
    ev_int("c", cslot(c));
    ev_int("f", f);
    ev_int("u", udi(u));
    ev_end();
    return GI[f] < 0 ? ask() : GI[f];
}
#define MK(i)                                                                              \
    static int h##i(xmpp_conn_t *k, xmpp_stanza_t *s, void *u) { return gen_h(i, k, s, u); } \
    static int t##i(xmpp_conn_t *k, void *u) { return gen_t(i, k, u); }                      \
    static int g##i(xmpp_ctx_t *c, void *u) { return gen_g(i, c, u); }
MK(0) MK(1) MK(2) MK(3) MK(4) MK(5) MK(6) MK(7)
static xmpp_handler H[8] = {h0, h1, h2, h3, h4, h5, h6, h7};
static xmpp_timed_handler TH[8] = {t0, t1, t2, t3, t4, t5, t6, t7};
static xmpp_global_timed_handler GH[8] = {g0, g1, g2, g3, g4, g5, g6, g7};

static void sm_cb(xmpp_conn_t *k, void *u, const unsigned char *p, size_t n)
{
    (void)u;
    ev_begin("sm");
    ev_int("k", kslot(k));
    if (p)
        ev_hex("d", p, n);
    else
        ev_str("d", NULL);
    ev_end();
}
static int cf_mode;
static char cf_seq[32];   /* answers of successive calls; then cf_mode */
static unsigned cf_pos;
static int certfail_cb(const xmpp_tlscert_t *cert, const char *const msg)
{
    int ans = cf_pos < strlen(cf_seq) ? cf_seq[cf_pos++] - '0' : cf_mode;
    ev_begin("certfail");
    ev_str("msg", msg);
    ev_str("subject", cert ? xmpp_tlscert_get_string(cert, XMPP_CERT_SUBJECT) : NULL);
    if (cert && xmpp_tlscert_get_pem(cert))
        ev_hex("pem", xmpp_tlscert_get_pem(cert), strlen(xmpp_tlscert_get_pem(cert)));
    ev_int("ans", ans);
    ev_end();
    return ans;
}
static int so_mode;
static int sockopt_cb(xmpp_conn_t *k, void *s)
{
    ev_begin("sockopt");
    ev_int("k", kslot(k));
    ev_int("fd", *(int *)s);
    ev_end();
    if (so_mode == 2)
        return xmpp_sockopt_cb_keepalive(k, s);
    return so_mode;
}
static char pw_answer[256];
static int pw_cb(char *pw, size_t max, xmpp_conn_t *k, void *u)
{
    (void)u;
    ev_begin("pwcb");
    ev_int("k", kslot(k));
    ev_end();
    snprintf(pw, max, "%s", pw_answer);
    return strlen(pw_answer);
}
static void log_cb(void *u, xmpp_log_level_t l, const char *area, const char *msg)
{
    (void)u;
    (void)l;
    (void)area;
    logcount += strlen(msg);
}
static xmpp_log_t LOG = {log_cb, NULL};

/* parser callbacks */
static void dump_attrs(char **attrs)
{
    int i;
    printf(",\"attrs\":[");
    for (i = 0; attrs && attrs[i]; i += 2) {
        printf("%s[", i ? "," : "");
        printf("\"%s\"", "");
        ev_hex("", NULL, 0);
        printf("]");
    }
    printf("]");
}
static void hexs(const char *s)
{
    if (!s) {
        printf("null");
        return;
    }
    putchar('"');
    for (; *s; s++)
        printf("%02x", (unsigned char)*s);
    putchar('"');
}
static void p_start(char *name, char **attrs, void *u)
{
    int i;
    (void)dump_attrs;
    ev_begin("ps");
    ev_int("i", *(int *)u);
    ev_str("name", name);
    printf(",\"attrs\":[");
    for (i = 0; attrs && attrs[i]; i += 2) {
        char *n = parser_attr_name(C[0], attrs[i]);
        printf("%s[", i ? "," : "");
        hexs(n);
        putchar(',');
        hexs(attrs[i + 1]);
        printf("]");
        if (n)
            xmpp_free(C[0], n);
    }
    printf("]");
    ev_end();
}
static void p_end(char *name, void *u)
{
    ev_begin("pe");
    ev_int("i", *(int *)u);
    ev_str("name", name);
    ev_end();
}
static void p_stanza(xmpp_stanza_t *st, void *u)
{
    ev_begin("pz");
    ev_int("i", *(int *)u);
    printf(",\"tree\":");
    dump_stanza(st);
    ev_end();
}
static int PI[N];

/* canonical tree dump through the accessor API:
 * ["t",text] or ["e",name,ns,[[attr,value]...sorted by C order of API],[children]] */
static void dump_stanza(xmpp_stanza_t *s)
{
    if (!s) {
        printf("null");
        return;
    }
    if (xmpp_stanza_is_text(s)) {
        char *t = xmpp_stanza_get_text(s);
        const char *tp = xmpp_stanza_get_text_ptr(s);
        printf("[\"t\",");
        hexs(t ? t : tp);
        printf(",%d]", (t && tp) ? strcmp(t, tp) == 0 : (!t == !tp));
        if (t)
            xmpp_free(xmpp_stanza_get_context(s), t);
        return;
    }
    if (xmpp_stanza_is_tag(s)) {
        int n = xmpp_stanza_get_attribute_count(s), i, m;
        const char **a = calloc(2 * n + 2, sizeof(*a));
        xmpp_stanza_t *c;
        printf("[\"e\",");
        hexs(xmpp_stanza_get_name(s));
        putchar(',');
        hexs(xmpp_stanza_get_ns(s));
        printf(",[");
        m = xmpp_stanza_get_attributes(s, a, 2 * n);
        for (i = 0; i + 1 < m; i += 2) {
            const char *v = xmpp_stanza_get_attribute(s, a[i]);
            printf("%s[", i ? "," : "");
            hexs(a[i]);
            putchar(',');
            hexs(a[i + 1]);
            printf(",%d]", v && !strcmp(v, a[i + 1]));
        }
        printf("],[");
        for (i = 0, c = xmpp_stanza_get_children(s); c; c = xmpp_stanza_get_next(c), i++) {
            if (i)
                putchar(',');
            dump_stanza(c);
        }
        printf("]]");
        free(a);
        return;
    }
    printf("[\"u\"]");
}

/* ------------------------------------------------------------ helpers */
static void rstr(const char *k, xmpp_ctx_t *c, char *s)
{
    ev_str(k, s);
    if (s)
        xmpp_free(c, s);
}
static void freeall(void)
{
    for (int i = 0; i < NS; i++)
        S[i] = NULL;
    for (int i = 0; i < N; i++) {
        K[i] = NULL;
        M[i] = NULL;
        P[i] = NULL;
        Kint[i] = 0;
    }
    for (int i = 0; i < 8; i++) {
        HI[i] = TI[i] = GI[i] = 1;
        if (A[i] && C[i] == NULL)
            acct_free(A[i]);
        A[i] = NULL;
        C[i] = NULL;
    }
    want_pred = 1;
    cf_mode = so_mode = 0;
    pw_answer[0] = 0;
}
static unsigned patience = 25;
static void onalarm(int s)
{
    (void)s;
    static const char m[] = "{\"ev\":\"die\",\"t\":0,\"why\":\"hang\"}\n";
    fflush(stdout);
    if (write(1, m, sizeof(m) - 1)) {
    }
    _exit(98);
}

struct pat {
    unsigned char *p;
    size_t n;
};

/* ------------------------------------------------------------ commands */
#define IS(x) (!strcmp(c, x))
static int cmd_pure(const char *c)
{
    size_t n, m;
    char *a, *b, *d;
    unsigned char *u;
    if (IS("b64enc")) {
        u = tbx(1, &n);
        r_begin();
        a = xmpp_base64_encode(C[0], u, n);
        ev_int("len", a ? (long)strlen(a) : -1);
        rstr("s", C[0], a);
        free(u);
    } else if (IS("b64str")) {
        u = tbx(1, &n);
        r_begin();
        rstr("s", C[0], xmpp_base64_decode_str(C[0], (char *)u, n));
        free(u);
    } else if (IS("b64bin")) {
        unsigned char *o = (void *)16;
        m = 4242;
        u = tbx(1, &n);
        r_begin();
        xmpp_base64_decode_bin(C[0], (char *)u, n, &o, &m);
        ev_int("null", o == NULL);
        ev_int("len", m);
        if (o) {
            ev_hex("d", o, m);
            ev_int("nul", 1);
            xmpp_free(C[0], o);
        }
        free(u);
    } else if (IS("jid")) {
        a = tb(1, NULL);
        r_begin();
        rstr("node", C[0], xmpp_jid_node(C[0], a));
        rstr("domain", C[0], xmpp_jid_domain(C[0], a));
        rstr("resource", C[0], xmpp_jid_resource(C[0], a));
        rstr("bare", C[0], xmpp_jid_bare(C[0], a));
        free(a);
    } else if (IS("jidnew")) {
        char *j;
        a = tb(1, NULL);
        b = tb(2, NULL);
        d = tb(3, NULL);
        r_begin();
        j = xmpp_jid_new(C[0], a, b, d);
        ev_str("jid", j);
        if (j) {
            rstr("node", C[0], xmpp_jid_node(C[0], j));
            rstr("domain", C[0], xmpp_jid_domain(C[0], j));
            rstr("resource", C[0], xmpp_jid_resource(C[0], j));
            rstr("bare", C[0], xmpp_jid_bare(C[0], j));
            xmpp_free(C[0], j);
        }
        free(a);
        free(b);
        free(d);
    } else if (IS("digest")) {
        /* digest <alg> x<msg>|- rep splits...   (0 splits = one-shot) */
        unsigned char out[64];
        char hexb[64];
        long rep = TL(3);
        size_t tot, i, pos = 0;
        int k;
        u = tbx(2, &n);
        tot = n * (rep > 1 ? rep : 1);
        if (rep > 1) {
            unsigned char *w = malloc(tot ? tot : 1);
            for (i = 0; i < (size_t)rep; i++)
                memcpy(w + i * n, u, n);
            free(u);
            u = w;
        }
        r_begin();
#define RUN(INIT, UPD, FIN)                         \
    do {                                            \
        INIT;                                       \
        for (k = 4; k < ntok; k++) {                \
            size_t l = TL(k);                       \
            if (l > tot - pos)                      \
                l = tot - pos;                      \
            unsigned char *piece = malloc(l ? l : 1); \
            memcpy(piece, u + pos, l);              \
            UPD(piece, l);                          \
            free(piece);                            \
            pos += l;                               \
        }                                           \
        if (pos < tot || ntok == 4)                 \
            UPD(u + pos, tot - pos);                \
        FIN;                                        \
    } while (0)
        if (!strcmp(tok[1], "sha1")) {
            SHA1_CTX x;
#define U1(p, l) crypto_SHA1_Update(&x, p, l)
            RUN(crypto_SHA1_Init(&x), U1, crypto_SHA1_Final(&x, out));
            ev_hex("d", out, 20);
        } else if (!strcmp(tok[1], "sha1one")) {
            crypto_SHA1(u, tot, out);
            ev_hex("d", out, 20);
        } else if (!strcmp(tok[1], "sha256")) {
            sha256_context x;
#define U2(p, l) sha256_process(&x, p, l)
            RUN(sha256_init(&x), U2, sha256_done(&x, out));
            ev_hex("d", out, 32);
        } else if (!strcmp(tok[1], "sha256one")) {
            sha256_hash(u, tot, out);
            ev_hex("d", out, 32);
        } else if (!strcmp(tok[1], "sha512")) {
            sha512_context x;
#define U3(p, l) sha512_process(&x, p, l)
            RUN(sha512_init(&x), U3, sha512_done(&x, out));
            ev_hex("d", out, 64);
        } else if (!strcmp(tok[1], "sha512one")) {
            sha512_hash(u, tot, out);
            ev_hex("d", out, 64);
        } else if (!strcmp(tok[1], "md5")) {
            struct MD5Context x;
#define U4(p, l) MD5Update(&x, p, l)
            RUN(MD5Init(&x), U4, MD5Final(out, &x));
            ev_hex("d", out, 16);
        } else if (!strcmp(tok[1], "pubsha1")) {
            xmpp_sha1_t *x;
            unsigned char o2[20];
#define U5(p, l) xmpp_sha1_update(x, p, l)
            RUN(x = xmpp_sha1_new(C[0]), U5, xmpp_sha1_final(x));
            xmpp_sha1_to_digest(x, out);
            ev_hex("d", out, 20);
            ev_int("strnull", xmpp_sha1_to_string(x, hexb, 40) == NULL);
            a = xmpp_sha1_to_string(x, hexb, 41);
            ev_str("str", a);
            rstr("stra", C[0], xmpp_sha1_to_string_alloc(x));
            xmpp_sha1_free(x);
            xmpp_sha1_digest(u, tot, o2);
            ev_hex("one", o2, 20);
            rstr("ones", C[0], xmpp_sha1(C[0], u, tot));
        }
        free(u);
    } else if (IS("digestlong")) {
        /* digestlong <alg> unitlen reps tail mode : mode 0 = one call per unit, 1 = one call */
        unsigned char out[64];
        long un = TL(2), reps = TL(3), tail = TL(4), big = TL(5), q;
        size_t tot = (size_t)un * reps + tail, pn = big ? tot : (size_t)un, pp;
        int k = 0;
        unsigned char *w = malloc(pn ? pn : 1);
        alarm(800);
        for (pp = 0; pp < (size_t)un && pp < pn; pp++)
            w[pp] = pp * 31 + 7;
        for (; pp < pn; pp++)
            w[pp] = w[pp - un];
        r_begin();
#define RUNL(INIT, UPD, FIN)             \
    do {                                 \
        INIT;                            \
        if (big)                         \
            UPD(w, tot);                 \
        else {                           \
            for (q = 0; q < reps; q++)   \
                UPD(w, (size_t)un);      \
            UPD(w, (size_t)tail);        \
        }                                \
        FIN;                             \
        k = 1;                           \
    } while (0)
        SHA1_CTX x1;
        sha256_context x2;
        sha512_context x3;
        struct MD5Context x4;
        xmpp_sha1_t *x5;
#define L1(p, l) crypto_SHA1_Update(&x1, p, l)
#define L2(p, l) sha256_process(&x2, p, l)
#define L3(p, l) sha512_process(&x3, p, l)
#define L4(p, l) MD5Update(&x4, p, l)
#define L5(p, l) xmpp_sha1_update(x5, p, l)
        if (!strcmp(tok[1], "sha1")) {
            RUNL(crypto_SHA1_Init(&x1), L1, crypto_SHA1_Final(&x1, out));
            ev_hex("d", out, 20);
        } else if (!strcmp(tok[1], "sha256")) {
            RUNL(sha256_init(&x2), L2, sha256_done(&x2, out));
            ev_hex("d", out, 32);
        } else if (!strcmp(tok[1], "sha512")) {
            RUNL(sha512_init(&x3), L3, sha512_done(&x3, out));
            ev_hex("d", out, 64);
        } else if (!strcmp(tok[1], "md5")) {
            RUNL(MD5Init(&x4), L4, MD5Final(out, &x4));
            ev_hex("d", out, 16);
        } else {
            RUNL(x5 = xmpp_sha1_new(C[0]), L5, xmpp_sha1_final(x5));
            xmpp_sha1_to_digest(x5, out);
            xmpp_sha1_free(x5);
            ev_hex("d", out, 20);
        }
        ev_int("ok", k);
        free(w);
    } else if (IS("scramkey")) {
        /* scramkey <algidx> x<pw> x<salt> iter x<authmsg> */
        unsigned char key[64], sig[64], proof[64];
        const struct hash_alg *al = NULL;
        size_t i;
        unsigned char *salt, *am;
        size_t sl, al_;
        for (i = 0; i < scram_algs_num; i++)
            if (!strcmp(scram_algs[i]->scram_name, tok[1]))
                al = scram_algs[i];
        u = tbx(2, &n);
        salt = tbx(3, &sl);
        am = tbx(5, &al_);
        r_begin();
        if (al) {
            SCRAM_ClientKey(al, u, n, salt, sl, TL(4), key);
            SCRAM_ClientSignature(al, key, am, al_, sig);
            SCRAM_ClientProof(al, key, sig, proof);
            ev_hex("key", key, al->digest_size);
            ev_hex("sig", sig, al->digest_size);
            ev_hex("proof", proof, al->digest_size);
        }
        free(u);
        free(salt);
        free(am);
    } else if (IS("srv")) {
        resolver_srv_rr_t *l = NULL, *q;
        int rc, i = 0;
        u = tbx(1, &n);
        r_begin();
        rc = resolver_srv_lookup_buf(C[0], u, n, &l);
        ev_int("found", rc == XMPP_DOMAIN_FOUND);
        ev_int("rc", rc);
        printf(",\"rr\":[");
        for (q = l; q; q = q->next, i++) {
            size_t tl = strnlen(q->target, sizeof(q->target));
            printf("%s[%d,%d,%d,%zu", i ? "," : "", q->priority, q->weight, q->port, tl);
            printf(",\"");
            for (size_t j = 0; j < tl; j++)
                printf("%02x", (unsigned char)q->target[j]);
            printf("\"]");
        }
        printf("]");
        resolver_srv_free(C[0], l);
        free(u);
    } else if (IS("pnew")) {
        int i = T(1);
        PI[i] = i;
        P[i] = parser_new(C[T(2)], p_start, p_end, p_stanza, &PI[i]);
        r_begin();
    } else if (IS("pfeed")) {
        char *w = (char *)tbx(2, &n);
        int r = parser_feed(P[T(1)], w, n);
        free(w);
        r_begin();
        ev_int("ok", r);
    } else if (IS("preset")) {
        int r = parser_reset(P[T(1)]);
        r_begin();
        ev_int("ok", r);
    } else if (IS("pfree")) {
        parser_free(P[T(1)]);
        P[T(1)] = NULL;
        r_begin();
    } else
        return 0;
    r_end();
    return 1;
}

static int cmd_stanza(const char *c)
{
    char *a = NULL, *b = NULL, *d = NULL;
    size_t n;
    int i = T(1);
    if (strncmp(c, "s.", 2))
        return 0;
    c += 2;
#define DONE     \
    free(a);     \
    free(b);     \
    free(d);     \
    r_end();     \
    return 1
    if (IS("new")) {
        S[i] = xmpp_stanza_new(C[T(2)]);
        r_begin();
        ev_int("ok", S[i] != NULL);
    } else if (IS("parse")) {
        a = tb(3, NULL);
        S[i] = xmpp_stanza_new_from_string(C[T(2)], a);
        r_begin();
        ev_int("ok", S[i] != NULL);
    } else if (IS("clone")) {
        S[i] = xmpp_stanza_clone(S[T(2)]);
        r_begin();
        ev_int("ok", S[i] != NULL);
    } else if (IS("alias")) { /* borrowed pointer obtained from accessor */
        xmpp_stanza_t *s = T(2) < 0 ? cur_stanza : S[T(2)];
        if (ntok > 3 && !strcmp(tok[3], "child"))
            s = xmpp_stanza_get_children(s);
        else if (ntok > 3 && !strcmp(tok[3], "next"))
            s = xmpp_stanza_get_next(s);
        S[i] = s;
        r_begin();
        ev_int("ok", s != NULL);
    } else if (IS("forget")) {
        S[i] = NULL;
        r_begin();
    } else if (IS("copy")) {
        S[i] = xmpp_stanza_copy(S[T(2)]);
        r_begin();
        ev_int("ok", S[i] != NULL);
    } else if (IS("release")) {
        int r = xmpp_stanza_release(S[i]);
        S[i] = NULL;
        r_begin();
        ev_int("freed", !!r);
    } else if (IS("name")) {
        a = tb(2, NULL);
        r_begin();
        ev_int("rc", xmpp_stanza_set_name(S[i], a));
    } else if (IS("text")) {
        a = tb(2, NULL);
        r_begin();
        ev_int("rc", xmpp_stanza_set_text(S[i], a));
    } else if (IS("textn")) {
        a = (char *)tbx(2, &n);
        r_begin();
        ev_int("rc", xmpp_stanza_set_text_with_size(S[i], a, n));
    } else if (IS("attr")) {
        a = tb(2, NULL);
        b = tb(3, NULL);
        r_begin();
        ev_int("rc", xmpp_stanza_set_attribute(S[i], a, b));
    } else if (IS("set")) { /* s.set i ns|id|type|to|from x.. */
        const char *w = tok[2];
        a = tb(3, NULL);
        r_begin();
        ev_int("rc", !strcmp(w, "ns")     ? xmpp_stanza_set_ns(S[i], a)
                     : !strcmp(w, "id")   ? xmpp_stanza_set_id(S[i], a)
                     : !strcmp(w, "type") ? xmpp_stanza_set_type(S[i], a)
                     : !strcmp(w, "to")   ? xmpp_stanza_set_to(S[i], a)
                                          : xmpp_stanza_set_from(S[i], a));
    } else if (IS("delattr")) {
        a = tb(2, NULL);
        r_begin();
        ev_int("rc", xmpp_stanza_del_attribute(S[i], a));
    } else if (IS("get")) {
        a = tb(2, NULL);
        r_begin();
        ev_str("v", xmpp_stanza_get_attribute(S[i], a));
    } else if (IS("info")) {
        r_begin();
        ev_int("istext", !!xmpp_stanza_is_text(S[i]));
        ev_int("istag", !!xmpp_stanza_is_tag(S[i]));
        ev_str("name", xmpp_stanza_get_name(S[i]));
        ev_str("ns", xmpp_stanza_get_ns(S[i]));
        ev_str("type", xmpp_stanza_get_type(S[i]));
        ev_str("id", xmpp_stanza_get_id(S[i]));
        ev_str("to", xmpp_stanza_get_to(S[i]));
        ev_str("from", xmpp_stanza_get_from(S[i]));
        ev_int("nattr", xmpp_stanza_get_attribute_count(S[i]));
    } else if (IS("add")) { /* s.add parent child do_clone */
        r_begin();
        if (T(3) == 1)
            ev_int("rc", xmpp_stanza_add_child(S[i], S[T(2)]));
        else {
            ev_int("rc", xmpp_stanza_add_child_ex(S[i], S[T(2)], 0));
            if (T(3) != 2)
                S[T(2)] = NULL;
        }
    } else if (IS("gettext")) {
        char *t = xmpp_stanza_get_text(S[i]);
        r_begin();
        rstr("v", xmpp_stanza_get_context(S[i]), t);
        ev_str("p", xmpp_stanza_get_text_ptr(S[i]));
    } else if (IS("find")) { /* s.find i how x.. x.. -> borrowed into slot */
        xmpp_stanza_t *s = NULL;
        const char *w = tok[3];
        a = tb(4, NULL);
        b = tb(5, NULL);
        if (!strcmp(w, "name"))
            s = xmpp_stanza_get_child_by_name(S[T(2)], a);
        else if (!strcmp(w, "ns"))
            s = xmpp_stanza_get_child_by_ns(S[T(2)], a);
        else if (!strcmp(w, "both"))
            s = xmpp_stanza_get_child_by_name_and_ns(S[T(2)], a, b);
        else if (!strcmp(w, "path")) {
            d = tb(6, NULL);
            s = d   ? xmpp_stanza_get_child_by_path(S[T(2)], a, b, d, NULL)
                : b ? xmpp_stanza_get_child_by_path(S[T(2)], a, b, NULL)
                    : xmpp_stanza_get_child_by_path(S[T(2)], a, NULL);
        }
        if (i >= 0)
            S[i] = s;
        r_begin();
        ev_int("ok", s != NULL);
        if (s) {
            printf(",\"tree\":");
            dump_stanza(s);
        }
    } else if (IS("reply")) {
        S[i] = xmpp_stanza_reply(S[T(2)]);
        r_begin();
        ev_int("ok", S[i] != NULL);
    } else if (IS("replyerr")) {
        a = tb(3, NULL);
        b = tb(4, NULL);
        d = tb(5, NULL);
        S[i] = xmpp_stanza_reply_error(S[T(2)], a, b, d);
        r_begin();
        ev_int("ok", S[i] != NULL);
    } else if (IS("message")) {
        a = tb(3, NULL);
        b = tb(4, NULL);
        d = tb(5, NULL);
        S[i] = xmpp_message_new(C[T(2)], a, b, d);
        r_begin();
        ev_int("ok", S[i] != NULL);
    } else if (IS("setbody")) {
        a = tb(2, NULL);
        r_begin();
        ev_int("rc", xmpp_message_set_body(S[i], a));
    } else if (IS("getbody")) {
        r_begin();
        rstr("v", xmpp_stanza_get_context(S[i]), xmpp_message_get_body(S[i]));
    } else if (IS("iq")) {
        a = tb(3, NULL);
        b = tb(4, NULL);
        S[i] = xmpp_iq_new(C[T(2)], a, b);
        r_begin();
        ev_int("ok", S[i] != NULL);
    } else if (IS("presence")) {
        S[i] = xmpp_presence_new(C[T(2)]);
        r_begin();
        ev_int("ok", S[i] != NULL);
    } else if (IS("error")) {
        a = tb(4, NULL);
        S[i] = xmpp_error_new(C[T(2)], T(3), a);
        r_begin();
        ev_int("ok", S[i] != NULL);
    } else if (IS("render")) {
        char *o = NULL;
        int rc;
        n = 12345678;
        rc = xmpp_stanza_to_text(S[i], &o, &n);
        r_begin();
        ev_int("rc", rc);
        if (rc == 0 && o) {
            ev_int("len", n);
            ev_str("s", o);
            xmpp_free(xmpp_stanza_get_context(S[i]), o);
        }
    } else if (IS("tree")) {
        r_begin();
        printf(",\"tree\":");
        dump_stanza(S[i]);
    } else {
        r_begin();
        ev_lit("unknown", "1");
    }
    DONE;
}

static int cmd_conn(const char *c)
{
    char *a = NULL, *b = NULL, *d = NULL;
    size_t n;
    int i = T(1);
    if (strncmp(c, "k.", 2))
        return 0;
    c += 2;
    if (IS("new")) {
        K[i] = xmpp_conn_new(C[T(2)]);
        r_begin();
        ev_int("ok", K[i] != NULL);
    } else if (IS("int")) {
        Kint[i] = T(2);
        r_begin();
    } else if (IS("jid")) {
        a = tb(2, NULL);
        xmpp_conn_set_jid(K[i], a);
        r_begin();
    } else if (IS("pass")) {
        a = tb(2, NULL);
        xmpp_conn_set_pass(K[i], a);
        r_begin();
    } else if (IS("get")) {
        r_begin();
        ev_str("jid", xmpp_conn_get_jid(K[i]));
        ev_str("pass", xmpp_conn_get_pass(K[i]));
        ev_str("bound", xmpp_conn_get_bound_jid(K[i]));
    } else if (IS("flags")) {
        int rc = xmpp_conn_set_flags(K[i], TL(2));
        r_begin();
        ev_int("rc", rc);
        ev_int("flags", xmpp_conn_get_flags(K[i]));
    } else if (IS("getflags")) {
        r_begin();
        ev_int("flags", xmpp_conn_get_flags(K[i]));
    } else if (IS("disabletls")) {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
        xmpp_conn_disable_tls(K[i]);
#pragma GCC diagnostic pop
        r_begin();
        ev_int("flags", xmpp_conn_get_flags(K[i]));
    } else if (IS("cafile")) {
        a = tb(2, NULL);
        xmpp_conn_set_cafile(K[i], a);
        r_begin();
    } else if (IS("capath")) {
        a = tb(2, NULL);
        xmpp_conn_set_capath(K[i], a);
        r_begin();
    } else if (IS("clientcert")) {
        a = tb(2, NULL);
        b = tb(3, NULL);
        xmpp_conn_set_client_cert(K[i], a, b);
        r_begin();
    } else if (IS("xmppaddr")) {
        unsigned m, nn = xmpp_conn_cert_xmppaddr_num(K[i]);
        r_begin();
        ev_int("n", nn);
        for (m = 0; m < nn && m < 3; m++) {
            char kk[8] = {'a', '0' + m, 0};
            rstr(kk, xmpp_conn_get_context(K[i]), xmpp_conn_cert_xmppaddr(K[i], m));
        }
    } else if (IS("certfail")) {
        cf_mode = T(2);
        cf_pos = 0;
        snprintf(cf_seq, sizeof(cf_seq), "%s", ntok > 3 ? tok[3] : "");
        xmpp_conn_set_certfail_handler(K[i], T(2) < 0 ? NULL : certfail_cb);
        r_begin();
    } else if (IS("pwcb")) {
        a = tb(2, NULL);
        snprintf(pw_answer, sizeof(pw_answer), "%s", a ? a : "");
        xmpp_conn_set_password_callback(K[i], pw_cb, NULL);
        if (ntok > 3)
            xmpp_conn_set_password_retries(K[i], T(3));
        r_begin();
    } else if (IS("sockopt")) {
        so_mode = T(2);
        xmpp_conn_set_sockopt_callback(K[i], sockopt_cb);
        r_begin();
    } else if (IS("smcb")) {
        xmpp_conn_set_sm_callback(K[i], T(2) ? sm_cb : NULL, NULL);
        r_begin();
    } else if (IS("client") || IS("component") || IS("raw")) {
        int rc;
        a = tb(2, NULL);
        if (IS("client"))
            rc = xmpp_connect_client(K[i], a, T(3), conn_cb, udp(T(4)));
        else if (IS("raw"))
            rc = xmpp_connect_raw(K[i], a, T(3), conn_cb, udp(T(4)));
        else
            rc = xmpp_connect_component(K[i], a, T(3), conn_cb, udp(T(4)));
        r_begin();
        ev_int("rc", rc);
        ev_int("fd", net_last_fd());
    } else if (IS("open")) {
        int rc;
        if (ntok > 2) {
            char *at[64];
            int q, na = 0;
            for (q = 2; q < ntok && na < 64; q++)
                at[na++] = tb(q, NULL);
            rc = xmpp_conn_open_stream(K[i], at, na);
            for (q = 0; q < na; q++)
                free(at[q]);
        } else
            rc = xmpp_conn_open_stream_default(K[i]);
        r_begin();
        ev_int("rc", rc);
    } else if (IS("tls")) {
        int rc = xmpp_conn_tls_start(K[i]);
        r_begin();
        ev_int("rc", rc);
    } else if (IS("disconnect")) {
        xmpp_disconnect(K[i]);
        r_begin();
    } else if (IS("clone")) {
        xmpp_conn_t *k = xmpp_conn_clone(K[i]);
        r_begin();
        ev_int("same", k == K[i]);
    } else if (IS("release")) {
        /* keep slot while callbacks may run */
        int r = xmpp_conn_release(K[i]);
        if (r)
            K[i] = NULL;
        r_begin();
        ev_int("freed", !!r);
    } else if (IS("send")) {
        xmpp_send(K[i], S[T(2)]);
        r_begin();
    } else if (IS("sendxml")) {
        xmpp_stanza_t *s;
        a = tb(2, NULL);
        s = xmpp_stanza_new_from_string(xmpp_conn_get_context(K[i]), a);
        if (s) {
            xmpp_send(K[i], s);
            xmpp_stanza_release(s);
        }
        r_begin();
        ev_int("ok", s != NULL);
    } else if (IS("sendraw")) {
        a = (char *)tbx(2, &n);
        xmpp_send_raw(K[i], a, n);
        r_begin();
    } else if (IS("sendstr")) {
        a = tb(2, NULL);
        xmpp_send_raw_string(K[i], "%s", a);
        r_begin();
    } else if (IS("senderr")) {
        a = tb(3, NULL);
        xmpp_send_error(K[i], T(2), a);
        r_begin();
    } else if (IS("drop")) {
        char *t = xmpp_conn_send_queue_drop_element(K[i], T(2));
        r_begin();
        rstr("v", xmpp_conn_get_context(K[i]), t);
    } else if (IS("qlen")) {
        r_begin();
        ev_int("n", xmpp_conn_send_queue_len(K[i]));
    } else if (IS("getsm")) {
        if (M[T(2)])
            xmpp_free_sm_state(M[T(2)]);
        M[T(2)] = xmpp_conn_get_sm_state(K[i]);
        r_begin();
        ev_int("ok", M[T(2)] != NULL);
    } else if (IS("setsm")) {
        int rc = xmpp_conn_set_sm_state(K[i], M[T(2)]);
        if (rc == 0)
            M[T(2)] = NULL;
        r_begin();
        ev_int("rc", rc);
    } else if (IS("freesm")) {
        xmpp_free_sm_state(M[i]);
        M[i] = NULL;
        r_begin();
    } else if (IS("restore")) {
        unsigned char *u = tbx(2, &n);
        int rc = xmpp_conn_restore_sm_state(K[i], u, n);
        free(u);
        r_begin();
        ev_int("rc", rc);
    } else if (IS("hadd")) { /* k.hadd k f ns name type ud auto */
        a = tb(3, NULL);
        b = tb(4, NULL);
        d = tb(5, NULL);
        HI[T(2)] = T(7);
        xmpp_handler_add(K[i], H[T(2)], a, b, d, udp(T(6)));
        r_begin();
    } else if (IS("hdel")) {
        xmpp_handler_delete(K[i], H[T(2)]);
        r_begin();
    } else if (IS("iadd")) { /* k.iadd k f id ud auto */
        a = tb(3, NULL);
        HI[T(2)] = T(5);
        xmpp_id_handler_add(K[i], H[T(2)], a, udp(T(4)));
        r_begin();
    } else if (IS("idel")) {
        a = tb(3, NULL);
        xmpp_id_handler_delete(K[i], H[T(2)], a);
        r_begin();
    } else if (IS("tadd")) { /* k.tadd k f period ud auto */
        TI[T(2)] = T(5);
        xmpp_timed_handler_add(K[i], TH[T(2)], TL(3), udp(T(4)));
        r_begin();
    } else if (IS("tdel")) {
        xmpp_timed_handler_delete(K[i], TH[T(2)]);
        r_begin();
    } else if (IS("peercert")) {
        xmpp_tlscert_t *t = xmpp_conn_get_peer_cert(K[i]);
        r_begin();
        ev_int("ok", t != NULL);
        if (t) {
            ev_str("subject", xmpp_tlscert_get_string(t, XMPP_CERT_SUBJECT));
            ev_str("dns0", xmpp_tlscert_get_dnsname(t, 0));
            ev_int("connok", xmpp_tlscert_get_conn(t) == K[i]);
            ev_int("pem", xmpp_tlscert_get_pem(t) != NULL);
            xmpp_tlscert_free(t);
        }
    } else {
        r_begin();
        ev_lit("unknown", "1");
    }
    free(a);
    free(b);
    free(d);
    r_end();
    return 1;
}

static int cmd_net(const char *c)
{
    char *a;
    size_t n;
    unsigned char *u;
    if (strncmp(c, "n.", 2))
        return 0;
    c += 2;
    if (IS("fate"))
        net_set_fate(tok[1], tok[2]);
    else if (IS("host")) {
        a = tb(1, NULL);
        net_set_host(a ? a : "*", tok[2]);
        free(a);
    } else if (IS("dns")) {
        if (tok[1][0] == '-')
            net_set_dns(NULL, -1);
        else {
            u = tbx(1, &n);
            net_set_dns(u, n);
            free(u);
        }
    } else if (IS("rx") || IS("rxraw")) {
        int r;
        u = tbx(2, &n);
        r = net_rx(T(1), u, n, IS("rxraw"));
        free(u);
        r_begin();
        ev_int("ok", r);
        r_end();
        return 1;
    } else if (IS("eof")) {
        net_eof(T(1), T(2));
    } else if (IS("wplan")) {
        net_wplan(T(1), tok[2]);
    } else if (IS("rawchunk")) {
        net_rawchunk(T(1), T(2));
    } else if (IS("tlscfg")) { /* mode cert key min max ca auto */
        net_tls_cfg(tok[1], tok[2], tok[3], tok[4], tok[5], tok[6], T(7));
    } else if (IS("tlson")) {
        net_tls_on(T(1));
    } else if (IS("info")) {
        r_begin();
        ev_int("open", net_open_count());
        ev_int("last", net_last_fd());
        ev_int("pend", net_pending_rx(T(1)));
        ev_int("ai", net_ai_live());
        r_end();
        return 1;
    }
    r_begin();
    r_end();
    return 1;
}

static int cmdno;
static int serve(int nested)
{
    depth++;
    for (;;) {
        const char *c;
        fflush(stdout);
        alarm(0);
        if (getline(&line, &linecap, stdin) < 0)
            _exit(0);
        alarm(patience);
        if (!split(line))
            continue;
        c = tok[0];
        acct_cmd = ++cmdno;
        if (IS("ret")) {
            int r = T(1);
            if (!nested)
                continue;
            depth--;
            return r;
        }
        if (IS("reset")) { /* new scenario */
            bypass_armed = 0;
            acct_trace = cmdno = 0;
            net_reset();
            freeall();
            v_clock_us = 1700000000ull * 1000000ull;
            r_begin();
            r_end();
        } else if (IS("ctx")) { /* ctx i verbosity */
            int i = T(1);
            A[i] = acct_new(i);
            bypass_armed = 1;
            C[i] = xmpp_ctx_new(acct_mem(A[i]), &LOG);
            xmpp_ctx_set_verbosity(C[i], T(2));
            r_begin();
            ev_int("live", acct_live(A[i]));
            r_end();
        } else if (IS("ctxfree")) {
            int i = T(1);
            xmpp_ctx_free(C[i]);
            C[i] = NULL;
            if (T(2))
                acct_dump(A[i]);
            r_begin();
            ev_int("live", acct_live(A[i]));
            ev_int("total", acct_total(A[i]));
            ev_int("bad", acct_bad(A[i]));
            ev_int("ai", net_ai_live());
            ev_int("open", net_open_count());
            r_end();
        } else if (IS("live")) {
            r_begin();
            ev_int("live", acct_live(A[T(1)]));
            ev_int("total", acct_total(A[T(1)]));
            ev_int("bad", acct_bad(A[T(1)]));
            r_end();
        } else if (IS("run")) {
            net_loop_begin();
            ev_begin("loop");
            ev_end();
            xmpp_run_once(C[T(1)], TL(2));
            r_begin();
            r_end();
        } else if (IS("runloop")) { /* full xmpp_run with a stop after n */
            r_begin();
            r_end();
        } else if (IS("clock")) {
            v_clock_us += TL(1) * 1000ull;
            r_begin();
            r_end();
        } else if (IS("gadd")) { /* gadd c f period ud auto */
            GI[T(2)] = T(5);
            xmpp_global_timed_handler_add(C[T(1)], GH[T(2)], TL(3), udp(T(4)));
            r_begin();
            r_end();
        } else if (IS("gdel")) {
            xmpp_global_timed_handler_delete(C[T(1)], GH[T(2)]);
            r_begin();
            r_end();
        } else if (IS("acct")) {
            acct_trace = 1;
            r_begin();
            r_end();
        } else if (IS("nopred")) {
            want_pred = 0;
            r_begin();
            r_end();
        } else if (IS("uuid")) {
            r_begin();
            rstr("v", C[0], xmpp_uuid_gen(C[0]));
            r_end();
        } else if (cmd_pure(c) || cmd_stanza(c) || cmd_conn(c) || cmd_net(c)) {
        } else {
            r_begin();
            ev_lit("unknown", "1");
            r_end();
        }
    }
}

const char *__asan_default_options(void);
const char *__asan_default_options(void)
{
    return "detect_leaks=0:exitcode=66:abort_on_error=0:handle_abort=1:"
           "allocator_may_return_null=1:detect_stack_use_after_return=1:"
           "malloc_context_size=12";
}
const char *__ubsan_default_options(void);
const char *__ubsan_default_options(void) { return "halt_on_error=1:print_stacktrace=1"; }

int main(void)
{
    static char ob[1 << 20];
    signal(SIGALRM, onalarm);
    if (getenv("VH_ALARM"))
        patience = atoi(getenv("VH_ALARM"));
    signal(SIGPIPE, SIG_DFL);
    setvbuf(stdout, ob, _IOFBF, sizeof(ob));
    setenv("SSL_CERT_FILE", "/nonexistent/ca.pem", 1); /* only what the user configures is trusted */
    setenv("SSL_CERT_DIR", "/nonexistent", 1);
    freeall();
    xmpp_initialize();
    serve(0);
    return 0;
}
