/*
 * Session and namespace commands (AUTH, SELECT, NSNEW, NSDEL, NSSET, NSJUMP,
 * RELOAD, FLUSH, INDEX, DATA, HOOKS, MIRROR, MASTER): contracts for every
 * session, namespace list state, argument and length. The two sources with
 * static lists (namespaces, clients) are included so that the harness can
 * build the lists; the storage functions are callees known by contract: the
 * precondition of each one is an obligation here.
 */
#include "namespace.c"
#include "redis.c"
#include "zv.h"
#include "os_s.h"
#include "commands_namespace.h"
#include "commands_system.h"
#include "commands_replicate.h"
#include "commands_auth.h"
#include <stdarg.h>

#ifndef NAMEMAX
#define NAMEMAX 128
#endif
#ifndef ARGC
#define ARGC 2
#endif
#ifndef PWMAX
#define PWMAX 64
#endif
#define ARGMAX 256

typedef struct session {
    namespace_t *ns[3];
    redis_client_t *c, *o;      /* the session of the request, another one */
    resp_request_t req;
    resp_object_t obj[5];
    resp_object_t *argv[5];
    uint8_t *arg[5];
    int len[5];

    /* pre-state */
    namespace_t pns[3];
    char pw[3][PWMAX + 1];
    index_root_t pidx[3];
    redis_client_t pc, po;
    char *admin;
    bool hadnonce;

    /* calls of the storage functions */
    unsigned cleans, idestroys, ddestroys, ideletes, ddeletes, iinits, dinits, creates, removes, switches, rehashes, ijumps, djumps, resets, lists, raws;
    void *clean_ns; void *clean_root, *idestroyed, *ddestroyed, *switched, *jumped_i, *jumped_d, *reset;
    fileid_t jumpid;
    char made[2][ZV_PATH], removed[2][ZV_PATH], deleted[2][ZV_PATH], inited[2][ZV_PATH];
    uint32_t newid;

    /* digest */
    unsigned hashes, challenges;
    char *hash_salt, *hash_pw;
    uint8_t digest[41];
} session_t;
static session_t S;

static index_root_t sw_index[4];
static data_root_t sw_data[4];
static redis_client_t sw_client[2];
static redis_client_t *sw_list[3];

#define EFFECT "[C10] only an administrator reaches this effect"
#ifndef IS_FLUSH
#define NEED_ADMIN() ZV_ASSERT(S.pc.admin, EFFECT)
#else
#define NEED_ADMIN() ((void) 0)
#endif

static void nondet_cpy(char *d, const char *s) {
    int i;
    for(i = 0; i < ZV_PATH - 1 && s[i]; i++)
        d[i] = s[i];
    d[i] = 0;
}
static bool nondet_streq(const char *a, const char *b) {
    for(int i = 0; i < ZV_PATH; i++) {
        if(a[i] != b[i]) return false;
        if(!a[i]) return true;
    }
    return false;
}
/* <root>/<one ordinary name> */
static bool nondet_inside(const char *p, char root) {
    if(p[0] != root || p[1] != '/' || p[2] == 0) return false;
    for(int i = 2; i < ZV_PATH && p[i]; i++)
        if(p[i] == '/') return false;
    if(p[2] == '.' && (p[3] == 0 || (p[3] == '.' && p[4] == 0))) return false;
    return true;
}
#define INSIDE "[C16] only a directory of its own under the index or data root is touched"

/* ---------------------------------------------- callees known by contract */
int index_clean_namespace(index_root_t *root, void *ns) { NEED_ADMIN(); S.cleans++; S.clean_root = root; S.clean_ns = ns; return 0; }
void index_destroy(index_root_t *root) { NEED_ADMIN(); S.idestroys++; S.idestroyed = root; }
void data_destroy(data_root_t *root) { NEED_ADMIN(); S.ddestroys++; S.ddestroyed = root; }
void index_delete_files(char *dir) { NEED_ADMIN(); S.ideletes++; nondet_cpy(S.deleted[0], dir); }
void data_delete_files(char *dir) { NEED_ADMIN(); S.ddeletes++; nondet_cpy(S.deleted[1], dir); }
index_root_t *index_init(zdb_settings_t *settings, char *dir, void *ns, index_branch_t **branches) {
    (void) settings; (void) branches; (void) ns;
    NEED_ADMIN();
    S.iinits++;
    nondet_cpy(S.inited[0], dir);
    sw_index[3].indexid = ND_U32();
    return &sw_index[3];
}
data_root_t *data_init(zdb_settings_t *settings, char *dir, fileid_t id) {
    (void) settings;
    ZV_ASSERT(id == sw_index[3].indexid, "data_init: the data file of the current index file is opened");
    S.dinits++;
    nondet_cpy(S.inited[1], dir);
    return &sw_data[3];
}
int zdb_dir_exists(char *path) { (void) path; return ND_BOOL() ? ZDB_DIRECTORY_EXISTS : ZDB_PATH_NOT_AVAILABLE; }
int zdb_dir_create(char *path) {
    NEED_ADMIN();
    ZV_ASSERT(nondet_inside(path, 'I') || nondet_inside(path, 'D'), INSIDE);
    nondet_cpy(S.made[S.creates & 1], path);
    S.creates++;
    return ND_BOOL() ? 0 : -1;
}
int zdb_dir_remove(char *path) {
    NEED_ADMIN();
    ZV_ASSERT(nondet_inside(path, 'I') || nondet_inside(path, 'D'), INSIDE);
    nondet_cpy(S.removed[S.removes & 1], path);
    S.removes++;
    return 0;
}
int index_switch_mode(index_root_t *root) { NEED_ADMIN(); S.switches++; S.switched = root; return 0; }
index_root_t *index_rehash(index_root_t *root) { NEED_ADMIN(); S.rehashes++; return root; }
size_t index_jump_next(index_root_t *root) { NEED_ADMIN(); S.ijumps++; S.jumped_i = root; S.newid = ND_U32(); return S.newid; }
size_t data_jump_next(data_root_t *root, fileid_t id) { NEED_ADMIN(); S.djumps++; S.jumped_d = root; S.jumpid = id; return id; }
void index_dirty_reset(index_root_t *root) { NEED_ADMIN(); S.resets++; S.reset = root; }
index_dirty_list_t index_dirty_list(index_root_t *root) {
    index_dirty_list_t l = {0};
    (void) root;
    NEED_ADMIN();
    S.lists++;
    return l;
}
void index_dirty_list_free(index_dirty_list_t *d) { (void) d; }
data_raw_t data_raw_get(data_root_t *root, fileid_t id, off_t off) {
    data_raw_t r = {0};
    (void) root; (void) id; (void) off;
    NEED_ADMIN();
    S.raws++;
    r.error = ND_BOOL() ? DATA_RAW_EOF : DATA_RAW_UNEXPECTED;
    return r;
}
char *zdb_challenge() {
    char *p = malloc(17);
    S.challenges++;
    for(int i = 0; i < 16; i++)
        p[i] = "0123456789abcdef"[ND_U8() & 15];
    p[16] = 0;
    return p;
}
/* the digest of a salt and a password: 40 characters, different for different
   pairs as far as the specification looks */
char *zdb_hash_password(char *salt, char *password) {
    char *p = malloc(41);
    S.hashes++;
    S.hash_salt = salt;
    S.hash_pw = password;
    for(int i = 0; i < 40; i++)
        p[i] = S.digest[i];
    p[40] = 0;
    return p;
}
#ifndef ZV_NATIVE
long long nondet_atoll;
long long atoll(const char *s) { (void) s; return nondet_atoll; }
char *strdup(const char *s) {
    size_t n = 0;
    while(s[n]) n++;
    char *p = malloc(n + 1);
    for(size_t i = 0; i <= n; i++) p[i] = s[i];
    return p;
}
#else
#define nondet_atoll atoll((char *) S.value)
#endif

/* -------------------------------------------------------------- the state */
static char *nondet_string(size_t max) {
    char *p = malloc(max + 1);
    nondet_fill((uint8_t *) p, max, max);
    p[max] = 0;
    return p;
}

static void nondet_namespaces(void) {
    nsroot = malloc(sizeof(ns_root_t));
    nsroot->namespaces = malloc(sizeof(namespace_t *) * 3);
    nsroot->length = 3;
    nsroot->settings = &zdb_rootsettings;
    nsroot->branches = NULL;
    zdb_rootsettings.indexpath = "I";
    zdb_rootsettings.datapath = "D";
    zdb_rootsettings.hook = NULL;
    zdb_rootsettings.zdbid = NULL;
    zdb_rootsettings.mode = ND_U8() % 5;
    for(int i = 0; i < 3; i++) {
        namespace_t *n = NULL;
        if(i < 2 || ND_BOOL()) {
            n = malloc(sizeof(namespace_t));
            n->name = i ? nondet_string(NAMEMAX) : strdup(NAMESPACE_DEFAULT);
            ZV_ASSUME(n->name[0]);
            n->password = NULL;
            S.pw[i][0] = 0;
            if(ND_BOOL()) {
                n->password = nondet_string(PWMAX);
                ZV_ASSUME(n->password[0]);
            }
            n->indexpath = malloc(NAMEMAX + 4);
            n->datapath = malloc(NAMEMAX + 4);
            n->indexpath[0] = 'I';
            n->datapath[0] = 'D';
            n->indexpath[1] = n->datapath[1] = '/';
            for(int j = 0; j <= NAMEMAX; j++) {
                n->indexpath[2 + j] = n->datapath[2 + j] = n->name[j];
                if(!n->name[j]) break;
            }
            n->index = &sw_index[i];
            n->data = &sw_data[i];
            n->index->mode = ND_U8() % 5;
            n->index->nextentry = ND_U64();
            n->index->nextid = ND_U32();
            n->index->indexid = ND_U32();
            n->index->indexdir = n->indexpath;
            n->data->datadir = n->datapath;
            n->public = ND_BOOL();
            n->worm = ND_BOOL();
            n->locked = ND_U8() % 3;
            n->maxsize = ND_U64();
            n->idlist = i;
            n->version = NAMESPACE_CURRENT_VERSION;
        }
        nsroot->namespaces[i] = n;
        S.ns[i] = n;
    }
    nsroot->effective = S.ns[2] ? 3 : 2;
    /* names are distinct and are the names of directories */
    ZV_ASSUME(nondet_inside(S.ns[1]->indexpath, 'I') && !nondet_streq(S.ns[1]->name, NAMESPACE_DEFAULT));
    ZV_ASSUME(!S.ns[2] || (nondet_inside(S.ns[2]->indexpath, 'I') && !nondet_streq(S.ns[2]->name, NAMESPACE_DEFAULT) && !nondet_streq(S.ns[2]->name, S.ns[1]->name)));
}

static void nondet_clients(int argc) {
    clients.length = 3;
    clients.list = sw_list;
    for(int i = 0; i < 2; i++) {
        redis_client_t *c = &sw_client[i];
        *c = (redis_client_t) {0};
        c->fd = i;
        c->ns = ND_BOOL() ? S.ns[0] : S.ns[1];
        if(S.ns[2] && ND_BOOL()) c->ns = S.ns[2];
        c->writable = ND_BOOL();
        c->admin = ND_BOOL();
        c->mirror = ND_BOOL();
        c->master = ND_BOOL();
        sw_list[i] = c;
    }
    sw_list[2] = NULL;
    S.c = &sw_client[0];
    S.o = &sw_client[1];
    S.c->request = &S.req;
    if(ND_BOOL()) {
        S.c->nonce = nondet_string(16);
        S.hadnonce = true;
    }
    S.req.argc = argc;
    S.req.argv = S.argv;
    S.req.state = RESP_FILLIN_HEADER;
}

static void nondet_arg(int i, int max, int rec) {
    resp_object_t *o = &S.obj[i];
    int n = ND_INT();
    ZV_ASSUME(n >= 0 && n <= max);
    o->type = STRING;
    o->length = S.len[i] = n;
    o->filled = o->size = n + 2;
    o->buffer = S.arg[i] = nondet_alloc(max + 2);
    nondet_fill(o->buffer, n, rec);
    /* the terminator of the protocol */
    S.arg[i][n] = '\r';
    S.arg[i][n + 1] = '\n';
    S.argv[i] = o;
}

static void nondet_snapshot(void) {
    for(int i = 0; i < 3; i++)
        if(S.ns[i]) {
            S.pns[i] = *S.ns[i];
            S.pidx[i] = *S.ns[i]->index;
            if(S.ns[i]->password)
                for(int j = 0; j <= PWMAX; j++)
                    S.pw[i][j] = S.ns[i]->password[j];
        }
    S.pc = *S.c;
    S.po = *S.o;
    S.admin = zdbd_rootsettings.adminpwd;
}

/* ---------------------------------------------------------- specification */
static bool nondet_ok(void) { return G.sends == 1 && G.out_len == 5 && G.out[0] == '+' && G.out[1] == 'O' && G.out[2] == 'K'; }
static bool nondet_error(void) { return G.sends == 1 && G.out_len >= 3 && G.out[0] == '-'; }

/* argument i is the text t (up to its first zero byte, like the code) */
static bool nondet_arg_is(int i, const char *t) {
    for(int j = 0; j <= NAMEMAX + 1; j++) {
        char a = j < S.len[i] ? S.arg[i][j] : 0;
        if(a != t[j]) return false;
        if(!a) return true;
    }
    return false;
}
/* argument i is exactly these bytes */
static bool nondet_arg_exact(int i, const char *t, int max) {
    for(int j = 0; j <= max; j++) {
        if(!t[j]) return S.len[i] == j;
        if(j >= S.len[i] || (char) S.arg[i][j] != t[j]) return false;
    }
    return false;
}
static namespace_t *nondet_target(void) {
    for(int i = 0; i < 3; i++)
        if(S.ns[i] && nondet_arg_is(1, S.pns[i].name)) return S.ns[i];
    return NULL;
}
static bool nondet_same_ns(int i) {
    namespace_t *n = S.ns[i], *p = &S.pns[i];
    if(!n) return nsroot->namespaces[i] == NULL;
    if(nsroot->namespaces[i] != n) return false;
    if(n->password && !nondet_streq(n->password, S.pw[i])) return false;
    return n->name == p->name && n->password == p->password && n->indexpath == p->indexpath && n->datapath == p->datapath && n->index == p->index
        && n->data == p->data && n->public == p->public && n->worm == p->worm && n->locked == p->locked && n->maxsize == p->maxsize && n->idlist == p->idlist
        && n->index->mode == S.pidx[i].mode;
}
static bool nondet_others_same(namespace_t *f) {
    for(int i = 0; i < 3; i++)
        if(!(f && S.ns[i] == f) && !nondet_same_ns(i)) return false;
    return true;
}
static bool nondet_session_same(void) {
    return S.c->admin == S.pc.admin && S.c->writable == S.pc.writable && S.c->ns == S.pc.ns && S.c->mirror == S.pc.mirror && S.c->master == S.pc.master;
}
static bool nondet_other_same(void) {
    return S.o->admin == S.po.admin && S.o->writable == S.po.writable && S.o->ns == S.po.ns && S.o->mirror == S.po.mirror && S.o->master == S.po.master
        && S.o->nonce == S.po.nonce;
}
static bool nondet_noeffect(void) {
    return !S.cleans && !S.idestroys && !S.ddestroys && !S.ideletes && !S.ddeletes && !S.iinits && !S.dinits && !S.creates && !S.removes && !S.switches
        && !S.rehashes && !S.ijumps && !S.djumps && !S.resets && !S.lists && !S.raws && !D.writes && nsroot->length == 3
        && nsroot->effective == (size_t) (S.ns[2] ? 3 : 2);
}
static bool nondet_nothing(void) { return nondet_noeffect() && nondet_others_same(NULL) && nondet_session_same() && nondet_other_same(); }

#include "session_spec.h"

#define GATE_CLAUSES(P) \
 P("[C10] without administrator rights the request is refused and has no effect", S.pc.admin || (nondet_error() && nondet_nothing()))
#ifdef IS_GATED
#define ALL_CLAUSES(P) GATE_CLAUSES(P) CLAUSES(P)
#else
#define ALL_CLAUSES(P) CLAUSES(P)
#endif

void harness(void) {
    S = (session_t) {0};
    G = (zv_ghost_t) {0};
    D = (zv_desc_t) {0};
    G.now = ND_U32();
    zdbd_rootsettings.adminpwd = NULL;
    nondet_namespaces();
    int argc = ND_U8() % 6;
    ZV_ASSUME(argc >= 1);
    nondet_clients(argc);
    nondet_setup();
    nondet_snapshot();
    CMD(S.c);
    ALL_CLAUSES(ZV_POST_1)
    COVERS()
}
