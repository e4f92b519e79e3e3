/* A user of the published interface: compiled against /repo/include/turtls.h (as C and as C++) and linked to the
 * built shared library. Prints the worker lines of harness/tmon (S case, E evaluation, V violation, C count, Z end). */
#include <turtls.h>

#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef __cplusplus
#define LANG "c++"
#else
#define LANG "c"
#endif

static uint64_t rs;
static uint64_t rnd(void) {
    uint64_t z = (rs += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static unsigned below(unsigned n) { return (unsigned)(rnd() % n); }

static char desc[4000];
static void bad(const char *sig, const char *fmt, ...) {
    char b[2000];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    printf("V %s\x1f%s\x1e    case: %s (" LANG " program)\n", sig, b, desc);
    fflush(stdout);
}
static void count(const char *k) { printf("C 1 " LANG ":%s\n", k); }
static void done(const char *k, uint64_t id) {
    count(k);
    printf("E %llu 1\n", (unsigned long long)(id * 0x9e3779b97f4a7c15ull ^ (sizeof(LANG) << 60)));
}

/* ------------------------------------------------------------------ the transport */
struct net {
    unsigned char out[200000];
    size_t nout;
    size_t limit; /* bytes accepted before writes fail */
    const unsigned char *in;
    size_t nin, at;
    int closes, writes, reads, after_close, foreign, empty;
    long fail; /* what a failing callback returns */
};
static struct net *expect_ctx;
static struct net *check(const void *ctx, size_t amt) {
    struct net *n = expect_ctx;
    if (ctx != (const void *)n) n->foreign++;
    if (amt == 0) n->empty++;
    if (n->closes) n->after_close++;
    return n;
}
static ptrdiff_t wr(const void *buf, size_t amt, const void *ctx) {
    struct net *n = check(ctx, amt);
    n->writes++;
    if (n->nout >= n->limit) return n->fail;
    if (amt > n->limit - n->nout) amt = n->limit - n->nout;
    if (amt > sizeof n->out - n->nout) amt = sizeof n->out - n->nout;
    memcpy(n->out + n->nout, buf, amt);
    n->nout += amt;
    return (ptrdiff_t)amt;
}
static ptrdiff_t rd(void *buf, size_t amt, const void *ctx) {
    struct net *n = check(ctx, amt);
    n->reads++;
    if (n->at >= n->nin) return n->fail;
    if (amt > n->nin - n->at) amt = n->nin - n->at;
    memcpy(buf, n->in + n->at, amt);
    n->at += amt;
    return (ptrdiff_t)amt;
}
static void cl(const void *ctx) {
    struct net *n = check(ctx, 1);
    n->closes++;
}
static struct net *net_new(void) {
    struct net *n = (struct net *)calloc(1, sizeof *n);
    n->limit = (size_t)-1 / 2;
    n->fail = below(2) ? 0 : -(long)(1 + below(1000));
    return n;
}
static struct TurtlsConn *conn(struct net *n) {
    struct TurtlsIo io;
    io.write_fn = wr;
    io.read_fn = rd;
    io.close_fn = cl;
    io.ctx = n;
    struct TurtlsConn *c = turtls_new(io);
    /* the structure is passed by value */
    memset(&io, 0, sizeof io);
    return c;
}
static void net_check(struct net *n) {
    if (n->foreign) bad("context", "a callback got another context pointer (%d times)", n->foreign);
    if (n->empty) bad("empty-buffer", "a callback was asked for zero bytes (%d times)", n->empty);
    if (n->after_close) bad("io-after-close", "%d callbacks after the close", n->after_close);
}
static int connect_as(struct TurtlsConn *c, struct net *n) {
    expect_ctx = n;
    return turtls_connect(c);
}

/* ------------------------------------------------------------------ the ClientHello */
struct hello {
    int ok;
    unsigned suites[300], nsuites;
    unsigned groups[300], ngroups, has_groups;
    unsigned algs[300], nalgs, has_algs;
    unsigned shares[300], nshares;
    const unsigned char *sni, *alpn;
    size_t nsni, nalpn;
    unsigned ver_ok, unknown;
    size_t used;
};
static unsigned u16(const unsigned char *p) { return (unsigned)p[0] << 8 | p[1]; }
/* Joins the handshake records at the start of the output; returns the message or NULL. */
static unsigned char *message(const struct net *n, size_t *len, size_t *used) {
    unsigned char *m = (unsigned char *)malloc(n->nout + 1);
    size_t k = 0, p = 0;
    while (p + 5 <= n->nout && n->out[p] == 22) {
        size_t l = u16(n->out + p + 3);
        if (p + 5 + l > n->nout) break;
        memcpy(m + k, n->out + p + 5, l);
        k += l;
        p += 5 + l;
        if (k >= 4 && k >= 4 + ((size_t)m[1] << 16 | (size_t)m[2] << 8 | m[3])) {
            *len = k;
            *used = p;
            return m;
        }
    }
    free(m);
    return NULL;
}
static void parse(struct hello *h, const unsigned char *m, size_t n) {
    memset(h, 0, sizeof *h);
    if (n < 4 || m[0] != 1 || 4 + ((size_t)m[1] << 16 | (size_t)m[2] << 8 | m[3]) != n) return;
    size_t p = 4 + 2 + 32;
    if (p + 1 > n || m[p] != 0) return;
    p += 1;
    if (p + 2 > n) return;
    size_t l = u16(m + p);
    p += 2;
    if (p + l + 4 > n || l % 2 || l > 400) return;
    for (size_t i = 0; i < l; i += 2) h->suites[h->nsuites++] = u16(m + p + i);
    p += l;
    if (m[p] != 1 || m[p + 1] != 0) return;
    p += 2;
    if (p + 2 > n || u16(m + p) != n - p - 2) return;
    p += 2;
    while (p < n) {
        if (p + 4 > n) return;
        unsigned t = u16(m + p);
        size_t e = u16(m + p + 2);
        const unsigned char *d = m + p + 4;
        if (p + 4 + e > n) return;
        p += 4 + e;
        switch (t) {
        case 0:
            if (e < 5 || u16(d) != e - 2 || d[2] != 0 || u16(d + 3) != e - 5) return;
            h->sni = d + 5;
            h->nsni = e - 5;
            break;
        case 10:
        case 13: {
            if (e < 2 || u16(d) != e - 2 || e % 2 || e > 400) return;
            unsigned *v = t == 10 ? h->groups : h->algs;
            unsigned *c = t == 10 ? &h->ngroups : &h->nalgs;
            for (size_t i = 2; i < e; i += 2) v[(*c)++] = u16(d + i);
            *(t == 10 ? &h->has_groups : &h->has_algs) = 1;
            break;
        }
        case 16:
            if (e < 2 || u16(d) != e - 2) return;
            h->alpn = d + 2;
            h->nalpn = e - 2;
            break;
        case 43: h->ver_ok = e == 3 && d[0] == 2 && u16(d + 1) == 0x304; break;
        case 51: {
            if (e < 2 || u16(d) != e - 2) return;
            size_t q = 2;
            while (q < e) {
                if (q + 4 > e || q + 4 + u16(d + q + 2) > e) return;
                h->shares[h->nshares++ % 300] = u16(d + q);
                q += 4 + u16(d + q + 2);
            }
            break;
        }
        default: h->unknown++;
        }
    }
    h->ok = 1;
}
static int has(const unsigned *v, unsigned n, unsigned x) {
    while (n)
        if (v[--n] == x) return 1;
    return 0;
}

/* ------------------------------------------------------------------ cases */
static const enum TurtlsAlert alerts[] = {
    TURTLS_ALERT_CLOSE_NOTIFY, TURTLS_ALERT_UNEXPECTED_MESSAGE, TURTLS_ALERT_BAD_RECORD_MAC, TURTLS_ALERT_RECORD_OVERFLOW,
    TURTLS_ALERT_HANDSHAKE_FAILURE, TURTLS_ALERT_BAD_CERT, TURTLS_ALERT_UNSUPPORTED_CERT, TURTLS_ALERT_CERT_REVOKED,
    TURTLS_ALERT_CERT_EXPIRED, TURTLS_ALERT_CERT_UNKNOWN, TURTLS_ALERT_ILLEGAL_PARAM, TURTLS_ALERT_UNKNOWN_CA,
    TURTLS_ALERT_ACCESS_DENIED, TURTLS_ALERT_DECODE_ERROR, TURTLS_ALERT_DECRYPT_ERORR, TURTLS_ALERT_PROTOCOL_VERSION,
    TURTLS_ALERT_INSUFFICIENT_SECURITY, TURTLS_ALERT_INTERNAL_ERROR, TURTLS_ALERT_INAPPROPRIATE_FALLBACK,
    TURTLS_ALERT_USER_CANCELLED, TURTLS_ALERT_MISSING_EXTENSION, TURTLS_ALERT_UNSUPPORTED_EXTENSION,
    TURTLS_ALERT_UNRECOGNIZED_NAME, TURTLS_ALERT_BAD_CERT_STATUS_RESPONSE, TURTLS_ALERT_UNKNOWN_PSK_IDENTITY,
    TURTLS_ALERT_CERT_REQUIRED, TURTLS_ALERT_NO_APP_PROTOCOL};
/* RFC 8446 6: the wire values of the alerts above, and how the library words each (other words are
   fine, another alert's words are not) */
static const int codes[] = {0,  10, 20, 22, 40, 42, 43, 44, 45, 46, 47,  48,  49,  50,
                            51, 70, 71, 80, 86, 90, 109, 110, 112, 113, 115, 116, 120};
static const char *texts[] = {"closing connection", "unexpected message", "bad record MAC", "record overflow", "handshake failed",
                              "bad certificate", "unsupported certificate", "certificate revoked", "certificate expired",
                              "unknown certificate", "illegal parameter", "unknown certificate authority", "access denied",
                              "decode error", "decrypt error", "unsupported protocol version", "insufficient security",
                              "internal error", "inappropriate fallback", "user canceled", "missing extension",
                              "unsupported extension", "unrecognized server name", "bad certificate status response",
                              "unknown PSK identity", "certificate required", "no application protocol"};
#define NA (sizeof alerts / sizeof *alerts)
static enum TurtlsAlert known(int code) {
    for (size_t i = 0; i < NA; i++)
        if (codes[i] == code) return alerts[i];
    return TURTLS_ALERT_INTERNAL_ERROR;
}
static void strings(void) {
    static char *kept[NA];
    snprintf(desc, sizeof desc, "descriptions of all alerts");
    for (size_t i = 0; i < NA; i++) {
        if ((int)alerts[i] != codes[i]) bad("alert-value", "the header gives alert %d the value %d", codes[i], (int)alerts[i]);
        const char *s = turtls_stringify_alert(alerts[i]);
        if (!s || !*s) {
            bad("description-empty", "alert %d has no description", codes[i]);
            continue;
        }
        for (size_t j = 0; j < NA; j++)
            if (j != i && !strcmp(s, texts[j])) bad("description-of-another", "alert %d is described as \"%s\", alert %d", codes[i], s, codes[j]);
        if (kept[i]) {
            if (strcmp(kept[i], s)) bad("description-unstable", "alert %d: \"%s\", later \"%s\"", codes[i], kept[i], s);
        } else {
            kept[i] = strdup(s);
        }
        for (size_t j = 0; j < i; j++)
            if (kept[j] && !strcmp(kept[j], s)) bad("description-repeated", "alerts %d and %d are both described as \"%s\"", codes[j], codes[i], s);
        done("descriptions", 100 + i);
    }
}
static void defaults(void) {
    snprintf(desc, sizeof desc, "a new connection");
    struct net *n = net_new();
    struct TurtlsConn *c = conn(n);
    struct TurtlsConfig *g = c ? turtls_get_config(c) : NULL;
    expect_ctx = n;
    if (!c || !g) {
        bad("new", "no connection or no configuration");
        return;
    }
    if (g->extensions.server_name) bad("default-name", "default server name %p", (const void *)g->extensions.server_name);
    if (g->extensions.app_protos) bad("default-protocols", "default protocols %p", (const void *)g->extensions.app_protos);
    if (g->extensions.app_protos_len) bad("default-protocols", "default protocol length %zu", g->extensions.app_protos_len);
    if (g->extensions.sig_algs != TURTLS_ECDSA_SECP256R1) bad("default-algs", "default signature algorithms %#x", g->extensions.sig_algs);
    if (g->extensions.sup_groups != TURTLS_SECP256R1) bad("default-groups", "default groups %#x", g->extensions.sup_groups);
    if (g->cipher_suites != (TurtlsCipherList_TURTLS_CHA_CHA_POLY1305_SHA256 | TurtlsCipherList_TURTLS_AES_128_GCM_SHA256))
        bad("default-suites", "default cipher suites %#x", g->cipher_suites);
    if (turtls_get_config(c) != g) bad("config-moves", "the configuration has two addresses");
    const char *p = turtls_app_proto(c);
    if (!p || *p) bad("default-protocol", "a new connection reports the protocol %s", p ? p : "(null)");
    turtls_close(c);
    if (n->closes || n->nout) bad("close-unused", "closing an unused connection: %d closes, %zu bytes", n->closes, n->nout);
    turtls_free(c);
    if (turtls_app_proto(NULL)) bad("null", "turtls_app_proto(NULL) is not null");
    turtls_close(NULL);
    turtls_free(NULL);
    net_check(n);
    free(n);
    done("defaults", 1);
}
/* Sets a random configuration; returns what must be offered. */
struct want {
    int gcm, chacha, group, alg;
    char *sni;
    unsigned char *alpn;
    size_t nalpn;
};
static void configure(struct TurtlsConn *c, struct want *w, int group) {
    struct TurtlsConfig *g = turtls_get_config(c);
    unsigned suites = 1 + below(3), junk = below(3);
    memset(w, 0, sizeof *w);
    w->chacha = (suites & TurtlsCipherList_TURTLS_CHA_CHA_POLY1305_SHA256) != 0;
    w->gcm = (suites & TurtlsCipherList_TURTLS_AES_128_GCM_SHA256) != 0;
    w->group = group;
    w->alg = below(8) != 0;
    g->cipher_suites = (TurtlsCipherList)(suites | (junk ? (unsigned)rnd() & 0xfc : 0));
    g->extensions.sup_groups = (uint16_t)((group ? TURTLS_SECP256R1 : 0) | (junk ? (unsigned)rnd() & 0xfffe : 0));
    g->extensions.sig_algs = (uint16_t)((w->alg ? TURTLS_ECDSA_SECP256R1 : 0) | (junk ? (unsigned)rnd() & 0xfffe : 0));
    if (below(3)) {
        size_t n = below(4) ? 1 + below(60) : 1 + below(255);
        w->sni = (char *)malloc(n + 1);
        for (size_t i = 0; i < n; i++) w->sni[i] = (char)(33 + below(94));
        w->sni[n] = 0;
        g->extensions.server_name = w->sni;
    }
    if (below(3)) {
        unsigned k = 1 + below(5);
        w->alpn = (unsigned char *)malloc(k * 256);
        for (unsigned i = 0; i < k; i++) {
            size_t n = below(6) ? 1 + below(10) : 1 + below(255);
            w->alpn[w->nalpn++] = (unsigned char)n;
            while (n--) w->alpn[w->nalpn++] = (unsigned char)(33 + below(94));
        }
        unsigned char *exact = (unsigned char *)malloc(w->nalpn); /* no terminator behind it */
        memcpy(exact, w->alpn, w->nalpn);
        free(w->alpn);
        w->alpn = exact;
        g->extensions.app_protos = (const char *)w->alpn;
        g->extensions.app_protos_len = w->nalpn;
    }
    snprintf(desc, sizeof desc, "suites %#x groups %#x algs %#x name of %zu protocols of %zu", g->cipher_suites,
             g->extensions.sup_groups, g->extensions.sig_algs, w->sni ? strlen(w->sni) : 0, w->nalpn);
}
static void want_free(struct want *w) {
    free(w->sni);
    free(w->alpn);
}
static void hello_check(struct net *n, struct want *w) {
    size_t len, used;
    unsigned char *m = message(n, &len, &used);
    struct hello h;
    if (!m) {
        bad("hello-missing", "no ClientHello in %zu bytes", n->nout);
        return;
    }
    parse(&h, m, len);
    h.used = used;
    if (!h.ok) bad("hello-malformed", "the ClientHello does not parse");
    else {
        if ((int)has(h.suites, h.nsuites, 0x1303) != w->chacha || (int)has(h.suites, h.nsuites, 0x1301) != w->gcm ||
            (int)h.nsuites != w->chacha + w->gcm)
            bad("hello-suites", "%u suites offered, first %#x", h.nsuites, h.nsuites ? h.suites[0] : 0);
        if (h.ngroups != 1 || h.groups[0] != 0x17 || h.nshares != 1 || h.shares[0] != 0x17) bad("hello-groups", "groups or shares");
        if ((int)h.nalgs != w->alg || (w->alg && h.algs[0] != 0x403)) bad("hello-algs", "%u signature algorithms", h.nalgs);
        if (!h.ver_ok) bad("hello-version", "supported versions");
        if (h.unknown) bad("hello-unknown", "%u further extensions", h.unknown);
        if ((h.sni != NULL) != (w->sni != NULL) || (w->sni && (h.nsni != strlen(w->sni) || memcmp(h.sni, w->sni, h.nsni))))
            bad("hello-name", "server name of %zu bytes", h.nsni);
        if ((h.alpn != NULL) != (w->nalpn != 0) || (w->nalpn && (h.nalpn != w->nalpn || memcmp(h.alpn, w->alpn, h.nalpn))))
            bad("hello-protocols", "protocol list of %zu bytes", h.nalpn);
    }
    free(m);
}
static void expect(struct TurtlsConn *c, int r, enum TurtlsError e, const char *what) {
    if (r != -1) bad("result", "%s: connecting returned %d", what, r);
    if (turtls_get_error(c) != e) bad("error-value", "%s: error %d, header value %d", what, (int)turtls_get_error(c), (int)e);
}
static void config_case(void) {
    struct net *n = net_new();
    struct TurtlsConn *c = conn(n);
    struct want w;
    configure(c, &w, 1);
    int fail_first = below(3) == 0;
    if (fail_first) {
        n->limit = below(130);
        expect(c, connect_as(c, n), TURTLS_ERROR_WANT_WRITE, "refused write");
        n->limit = (size_t)-1 / 2;
        count("want-write");
    }
    expect(c, connect_as(c, n), TURTLS_ERROR_WANT_READ, "no input");
    hello_check(n, &w);
    if (n->closes) bad("closed", "closed while waiting");
    want_free(&w);
    size_t before = n->nout;
    if (below(2)) {
        turtls_close(c);
        if (n->nout != before + 7 || memcmp(n->out + before, "\x15\x03\x03\0\x02\x02", 6) || n->out[before + 6] != TURTLS_ALERT_CLOSE_NOTIFY)
            bad("close-notify", "closing wrote %zu bytes", n->nout - before);
        if (n->closes != 1) bad("close-count", "%d closes", n->closes);
        turtls_close(c);
        if (n->closes != 1) bad("close-count", "%d closes after closing twice", n->closes);
        count("close");
    }
    turtls_free(c);
    net_check(n);
    free(n);
    done("configurations", rnd());
}
static void no_group_case(void) {
    struct net *n = net_new();
    struct TurtlsConn *c = conn(n);
    struct want w;
    configure(c, &w, 0);
    expect(c, connect_as(c, n), TURTLS_ERROR_MISSING_EXTENSIONS, "no group");
    if (n->nout) bad("hello-without-group", "%zu bytes sent", n->nout);
    turtls_get_config(c)->extensions.sup_groups = TURTLS_SECP256R1;
    w.group = 1;
    expect(c, connect_as(c, n), TURTLS_ERROR_WANT_READ, "group enabled");
    hello_check(n, &w);
    turtls_free(c);
    want_free(&w);
    net_check(n);
    free(n);
    done("no-group", rnd());
}
static void peer_alert_case(int code, int level) {
    unsigned char rec[7] = {21, 3, 3, 0, 2, 0, 0};
    struct net *n = net_new();
    struct TurtlsConn *c = conn(n);
    rec[5] = (unsigned char)level;
    rec[6] = (unsigned char)code;
    snprintf(desc, sizeof desc, "alert %d level %d", code, level);
    n->in = rec;
    n->nin = 7;
    expect(c, connect_as(c, n), TURTLS_ERROR_TLS_PEER, "alert");
    if (turtls_get_tls_error(c) != known(code))
        bad("peer-alert-value", "alert %d reported as %d, header value %d", code, (int)turtls_get_tls_error(c), (int)known(code));
    if (n->closes != 1) bad("close-count", "%d closes after an alert", n->closes);
    const char *p = turtls_app_proto(c);
    if (!p || *p) bad("protocol", "a protocol is reported");
    turtls_free(c);
    net_check(n);
    free(n);
    done("peer-alerts", 1000 + (uint64_t)code * 4 + (uint64_t)level % 4);
}
static void fatal_case(void) {
    unsigned char in[700];
    struct net *n = net_new();
    struct TurtlsConn *c = conn(n);
    unsigned k = below(6);
    size_t len = 5;
    memset(in, 0, sizeof in);
    in[0] = 22;
    in[1] = in[2] = 3;
    enum TurtlsAlert want = TURTLS_ALERT_CLOSE_NOTIFY; /* any */
    const char *name = "";
    switch (k) {
    case 0: {
        unsigned l = 0x4101 + below(0x10000 - 0x4101);
        name = "oversized record";
        in[3] = (unsigned char)(l >> 8);
        in[4] = (unsigned char)l;
        want = TURTLS_ALERT_RECORD_OVERFLOW;
        break;
    }
    case 1:
        name = "application data";
        in[0] = 23;
        in[4] = 100;
        len += 100;
        break;
    case 2:
        name = "another message";
        in[4] = 4 + 50;
        in[5] = (unsigned char)(3 + below(250));
        in[8] = 50;
        len += 54;
        break;
    case 3:
        name = "short ServerHello";
        in[4] = 4 + 20;
        in[5] = 2;
        in[8] = 20;
        len += 24;
        break;
    case 4:
        name = "ServerHello of zeros";
        in[4] = 4 + 90;
        in[5] = 2;
        in[8] = 90;
        len += 94;
        break;
    default:
        name = "huge message";
        in[4] = 4;
        in[5] = 2;
        in[6] = (unsigned char)(2 + below(254));
        in[7] = 1;
        len += 4;
    }
    snprintf(desc, sizeof desc, "%s", name);
    n->in = in;
    n->nin = len;
    expect(c, connect_as(c, n), TURTLS_ERROR_TLS, name);
    enum TurtlsAlert got = turtls_get_tls_error(c);
    size_t ml, used;
    unsigned char *m = message(n, &ml, &used);
    if (!m) bad("hello-missing", "no ClientHello");
    else if (n->nout != used + 7 || memcmp(n->out + used, "\x15\x03\x03\0\x02\x02", 6)) bad("alert-form", "%zu bytes after the ClientHello", n->nout - used);
    else if ((int)known(n->out[used + 6]) != (int)got || n->out[used + 6] != (int)got)
        bad("alert-value", "alert %d sent, %d reported", n->out[used + 6], (int)got);
    if (want != TURTLS_ALERT_CLOSE_NOTIFY && got != want) bad("alert-choice", "alert %d, not %d", (int)got, (int)want);
    if (n->closes != 1) bad("close-count", "%d closes after a fatal error", n->closes);
    free(m);
    turtls_free(c);
    net_check(n);
    free(n);
    done(name, rnd());
}
#ifdef SHADOW
static void rng_case(void) {
    struct net *n = net_new();
    struct TurtlsConn *c = conn(n);
    int zero = (int)below(2);
    struct want w;
    configure(c, &w, 1);
    setenv("FAKERAND", zero ? "zero" : "fail", 1);
    expect(c, connect_as(c, n), zero ? TURTLS_ERROR_PRIV_KEY_IS_ZERO : TURTLS_ERROR_RNG, zero ? "zeros drawn" : "generator fails");
    if (n->nout) bad("hello-without-key", "%zu bytes sent", n->nout);
    unsetenv("FAKERAND");
    expect(c, connect_as(c, n), TURTLS_ERROR_WANT_READ, "generator works");
    hello_check(n, &w);
    want_free(&w);
    turtls_free(c);
    net_check(n);
    free(n);
    done(zero ? "zero-key" : "generator-failure", rnd());
}
#endif

int main(int argc, char **argv) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], NULL, 10) : 1;
    unsigned n = argc > 2 ? (unsigned)strtoul(argv[2], NULL, 10) : 100;
    for (unsigned i = 0; i < n; i++) {
        rs = seed * 0x2545f4914f6cdd1dull + i * 0x9e3779b97f4a7c15ull;
        rnd();
        printf("S %u\n", i);
        fflush(stdout);
#ifdef SHADOW
        rng_case();
#else
        if (i % 100 == 0) {
            strings();
            defaults();
        }
        peer_alert_case((int)(i % 256), (int)below(4));
        fatal_case();
        if (i % 4 == 0) no_group_case();
        config_case();
#endif
        if (i % 97 == 0) printf("P " LANG " program: %s\n", desc);
    }
    printf("Z\n");
    return 0;
}
