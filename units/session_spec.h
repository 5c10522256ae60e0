/* specifications of the session commands, one per command */
#define REFUSED (nondet_error() && nondet_nothing())

static void nondet_args(int max1, int max2, int max3, int max4) {
    int max[5] = { 16, max1, max2, max3, max4 };
    for(int i = 0; i < 5; i++) {
        nondet_arg(i, max[i], max[i] > NAMEMAX ? NAMEMAX + 1 : max[i]);
        if(i >= S.req.argc) S.argv[i] = NULL;
    }
    /* the parser never gives an empty command name */
    ZV_ASSUME(S.len[0] > 0);
}
static bool nondet_given(int argc) {
    if(S.req.argc != argc) return false;
    for(int i = 1; i < argc; i++)
        if(S.len[i] == 0) return false;
    return true;
}

#if defined(IS_AUTH)
/* ------------------------------------------------------------------ AUTH */
static char sw_admin[ADMAX + 1];
static void nondet_setup(void) {
    nondet_args(140, 64, 1, 1);
    for(int i = 0; i < ADMAX; i++)
        sw_admin[i] = ND_U8();
    sw_admin[ADMAX] = 0;
    ZV_ASSUME(sw_admin[0]);
    zdbd_rootsettings.adminpwd = ND_BOOL() ? sw_admin : NULL;
    for(int i = 0; i < 40; i++) {
        S.digest[i] = ND_U8();
        ZV_ASSUME(S.digest[i]);
    }
    S.c->admin = ND_BOOL();
}
static bool nondet_plain(void) { return S.admin && nondet_given(2) && S.len[1] <= 128 && nondet_arg_exact(1, S.admin, ADMAX); }
static bool nondet_secure_form(void) { return nondet_given(3) && S.hadnonce && S.admin && S.hashes == 1 && S.hash_salt == S.pc.nonce && S.hash_pw == S.admin; }
static bool nondet_secure(void) { return nondet_secure_form() && nondet_arg_exact(2, (char *) S.digest, 40); }
static bool nondet_is_challenge(void) { return nondet_given(3) && nondet_arg_is(1, "SECURE") && S.len[1] == 6 && S.len[2] == 9 && nondet_arg_is(2, "CHALLENGE"); }
static bool nondet_is_digest(void) { return S.admin && S.hadnonce && nondet_given(3) && S.len[1] == 6 && nondet_arg_is(1, "SECURE") && nondet_arg_exact(2, (char *) S.digest, 40); }

#define CLAUSES(P) \
 P("[C11] administrator rights are only gained by the exact password or the digest of the own challenge", !S.c->admin || S.pc.admin || nondet_plain() || nondet_secure()) \
 P("[C11] the exact password is accepted", !nondet_plain() || (S.c->admin == 1 && nondet_ok())) \
 P("[C11] the digest of the own challenge is accepted", !nondet_is_digest() || (S.c->admin == 1 && nondet_ok())) \
 P("[C11] exactly one reply, an error unless it is granted or a challenge", G.sends == 1 && (nondet_error() || nondet_plain() || nondet_secure() || S.challenges)) \
 P("[C11] an attempt without success leaves the rights of the session as they were", nondet_noeffect() && nondet_others_same(NULL) && nondet_other_same() \
     && S.c->ns == S.pc.ns && S.c->writable == S.pc.writable && S.c->mirror == S.pc.mirror && S.c->master == S.pc.master && (S.c->admin == S.pc.admin || nondet_ok())) \
 P("[C11] a challenge is gone after the attempt that used it", !S.hashes || S.c->nonce == NULL) \
 P("[C11] a challenge is given and kept when it is asked for", !nondet_is_challenge() || (S.challenges == 1 && S.c->nonce && S.c->nonce != S.pc.nonce && G.out[0] == '+' \
     && G.out_len == 19 && memcmp(G.out + 1, S.c->nonce, 16) == 0 && S.c->admin == S.pc.admin)) \
 P("[C11] a challenge only changes when it is asked for or used", S.challenges || S.hashes || S.c->nonce == S.pc.nonce) \
 P("[C11] without a configured password nothing is granted", S.admin || S.c->admin == S.pc.admin)
#define COVERS() \
    ZV_COVER(nondet_plain(), "[C11] password") \
    ; ZV_COVER(nondet_secure(), "[C11] digest") \
    ; ZV_COVER(S.challenges && !S.pc.admin, "[C11] challenge");

#elif defined(IS_SELECT)
/* ---------------------------------------------------------------- SELECT */
static void nondet_setup(void) {
    nondet_args(NAMEMAX + 20, 260, 64, 1);
    for(int i = 0; i < 40; i++) {
        S.digest[i] = ND_U8();
        ZV_ASSUME(S.digest[i]);
    }
}
static bool nondet_named(void) { return S.req.argc >= 2 && S.len[1] <= NAMESPACE_MAX_LENGTH && nondet_target(); }
static int nondet_which(void) {
    for(int i = 0; i < 3; i++)
        if(S.ns[i] && nondet_arg_is(1, S.pns[i].name)) return i;
    return 0;
}
static bool nondet_exact(void) { return S.req.argc == 3 && S.len[2] <= 255 && nondet_arg_exact(2, S.pw[nondet_which()], PWMAX); }
static bool nondet_digest_form(void) {
    return S.req.argc == 4 && S.hadnonce && S.hashes == 1 && S.hash_salt == S.pc.nonce && S.hash_pw == S.pns[nondet_which()].password
        && nondet_arg_exact(3, (char *) S.digest, 40);
}
static bool nondet_digest_ok(void) {
    return S.req.argc == 4 && S.hadnonce && S.len[2] == 6 && nondet_arg_is(2, "SECURE") && nondet_arg_exact(3, (char *) S.digest, 40);
}
/* the rights the request gives: -1 refused, 0 read only, 1 read and write */
static bool nondet_moved(int writable) { return nondet_ok() && S.c->ns == nondet_target() && S.c->writable == writable; }

#define CLAUSES(P) \
 P("[C12] a namespace which does not exist is refused", nondet_named() || (nondet_error() && nondet_session_same())) \
 P("[C12] a namespace without password gives write access", !nondet_named() || S.pns[nondet_which()].password || nondet_moved(1)) \
 P("[C12] without password, a public protected namespace is read-only and a private one is refused", !nondet_named() || !S.pns[nondet_which()].password || S.req.argc != 2 \
     || (S.pns[nondet_which()].public ? nondet_moved(0) : (nondet_error() && nondet_session_same()))) \
 P("[C12] the exact password gives write access", !nondet_named() || !S.pns[nondet_which()].password || !nondet_exact() || nondet_moved(1)) \
 P("[C12] the digest of the own challenge gives write access", !nondet_named() || !S.pns[nondet_which()].password || !nondet_digest_ok() || nondet_moved(1)) \
 P("[C12] any other password is refused", !nondet_named() || !S.pns[nondet_which()].password || S.req.argc == 2 || nondet_exact() || nondet_digest_form() \
     || (nondet_error() && nondet_session_same())) \
 P("[C12] one reply, and a refused request leaves the session where it was", G.sends == 1 && (nondet_ok() || (nondet_error() && nondet_session_same()))) \
 P("[C12] a selection changes nothing else", nondet_noeffect() && nondet_others_same(NULL) && nondet_other_same() && S.c->admin == S.pc.admin \
     && S.c->mirror == S.pc.mirror && S.c->master == S.pc.master) \
 P("[C12] a challenge is gone after the attempt that used it", !S.hashes || S.c->nonce == NULL)
#define COVERS() \
    ZV_COVER(nondet_named() && S.pns[nondet_which()].password && nondet_exact(), "[C12] password"); \
    ZV_COVER(nondet_named() && S.pns[nondet_which()].password && nondet_digest_ok() && nondet_ok(), "[C12] digest"); \
    ZV_COVER(nondet_ok() && S.c->writable == 0, "[C12] read-only");

#elif defined(IS_NSNEW)
/* ----------------------------------------------------------------- NSNEW */
static void nondet_setup(void) {
    nondet_args(NAMEMAX + 20, 4, 1, 1);
    D.nofile = ND_BOOL();
}
static bool nondet_name_ok(void) {
    char t[NAMEMAX + 4];
    t[0] = 'I';
    t[1] = '/';
    for(int j = 0; j <= NAMEMAX; j++)
        t[2 + j] = j < S.len[1] ? S.arg[1][j] : 0;
    return nondet_inside(t, 'I');
}
static bool nondet_wanted(void) {
    return S.pc.admin && nondet_given(2) && S.len[1] <= NAMESPACE_MAX_LENGTH && nondet_name_ok() && !nondet_target() && !nondet_arg_is(1, NAMESPACE_DEFAULT);
}
static namespace_t *nondet_new(void) {
    int i = S.ns[2] ? 3 : 2;
    return nsroot->length == (size_t) (S.ns[2] ? 4 : 3) ? nsroot->namespaces[i] : NULL;
}
static bool nondet_made(void) {
    namespace_t *n = nondet_new();
    return nsroot->effective == (size_t) (S.ns[2] ? 4 : 3) && n && nondet_arg_is(1, n->name) && nondet_arg_is(1, n->indexpath + 2) && nondet_arg_is(1, n->datapath + 2)
        && n->indexpath[0] == 'I' && n->datapath[0] == 'D' && n->idlist == (size_t) (S.ns[2] ? 3 : 2) && n->index == &sw_index[3] && n->data == &sw_data[3];
}
#define CLAUSES(P) \
 P("[C10,C16] only a new ordinary name creates a namespace, anything else is refused and creates nothing", nondet_wanted() || (nondet_error() && nondet_nothing())) \
 P("[C16] the namespace created has exactly the name, and directories of that name", !nondet_ok() || nondet_made()) \
 P("[C15] a new namespace starts public, without password, limit, lock or write-once mode", !nondet_ok() || (nondet_new()->public == 1 && !nondet_new()->password \
     && nondet_new()->maxsize == 0 && nondet_new()->worm == 0 && nondet_new()->locked == NS_LOCK_UNLOCKED)) \
 P("[C10] a refused creation changes no namespace", nondet_ok() || (nondet_error() && nondet_others_same(NULL) && nsroot->length == 3)) \
 P("[C16,C14] the other namespaces and sessions stay as they were", nondet_others_same(S.ns[2] ? NULL : (namespace_t *) 1) && (S.ns[2] || nondet_same_ns(0)) && nondet_session_same() && nondet_other_same()) \
 P("[C16] every directory made has the name of the namespace", (S.creates < 1 || nondet_arg_is(1, S.made[0] + 2)) && (S.creates < 2 || nondet_arg_is(1, S.made[1] + 2)) && S.creates <= 2) \
 P("[C15] the descriptor file is the one of the namespace, and is closed", !D.isopen && (!D.opens || D.path[0] == 'I'))
#define COVERS() \
    ZV_COVER(nondet_ok(), "[C10,C15,C16] created");

#elif defined(IS_NSDEL)
/* ----------------------------------------------------------------- NSDEL */
static void nondet_setup(void) { nondet_args(NAMEMAX + 20, 4, 1, 1); }
static int nondet_which(void) {
    for(int i = 1; i < 3; i++)
        if(S.ns[i] && nondet_arg_is(1, S.pns[i].name)) return i;
    return -1;
}
static bool nondet_wanted(void) {
    return S.pc.admin && nondet_given(2) && S.len[1] <= NAMESPACE_MAX_LENGTH && nondet_which() > 0 && S.pc.ns != S.ns[nondet_which()];
}
static bool nondet_gone(void) {
    int w = nondet_which();
    for(int i = 0; i < 3; i++)
        if(i != w && !nondet_same_ns(i)) return false;
    return nsroot->namespaces[w] == NULL && nsroot->effective == (size_t) (S.ns[2] ? 2 : 1) && nsroot->length == 3;
}
#define CLAUSES(P) \
 P("[C10] the default namespace, the current one and a missing one are never deleted", nondet_wanted() || REFUSED) \
 P("[C14] a deletion takes away exactly that namespace", !nondet_wanted() || (nondet_ok() && nondet_gone())) \
 P("[C14] exactly the entries of that namespace are dropped", !nondet_wanted() || (S.cleans == 1 && S.clean_ns == S.ns[nondet_which()] && S.clean_root == S.pns[nondet_which()].index \
     && S.idestroys == 1 && S.idestroyed == S.pns[nondet_which()].index && S.ddestroys == 1 && S.ddestroyed == S.pns[nondet_which()].data)) \
 P("[C16] exactly its two directories are removed", !nondet_wanted() || (S.removes == 2 && nondet_arg_is(1, S.removed[0] + 2) && nondet_arg_is(1, S.removed[1] + 2) \
     && S.removed[0][0] != S.removed[1][0])) \
 P("[C14] sessions of the deleted namespace are detached, the others stay", S.o->ns == (nondet_wanted() && S.po.ns == S.ns[nondet_which()] ? NULL : S.po.ns) \
     && S.o->admin == S.po.admin && S.o->writable == S.po.writable && nondet_session_same())
#define COVERS() \
    ZV_COVER(nondet_wanted(), "[C10,C14,C16] deleted");

#elif defined(IS_NSSET)
/* ----------------------------------------------------------------- NSSET */
static void nondet_setup(void) {
    nondet_args(NAMEMAX + 20, 270, 70, 1);
#ifndef ZV_NATIVE
    nondet_atoll = (long long) ND_U64();
#endif
}
static int nondet_which(void) {
    for(int i = 0; i < 3; i++)
        if(S.ns[i] && nondet_arg_is(1, S.pns[i].name)) return i;
    return -1;
}
static bool nondet_valid(void) {
    return S.pc.admin && nondet_given(4) && S.len[1] <= NAMESPACE_MAX_LENGTH && S.len[2] <= COMMAND_MAXLEN - 1 && S.len[3] <= 63 && nondet_which() >= 0;
}
static bool nondet_fresh(int i) { return S.pidx[i].nextentry == 0 && S.pidx[i].nextid == 0 && S.pidx[i].indexid == 0; }
static bool nondet_one(void) { return S.arg[3][0] == '1'; }
#define N S.ns[nondet_which()]
#define PN S.pns[nondet_which()]
#define PROP(t) (nondet_valid() && nondet_arg_is(2, t))
#define LATER(t) (PROP(t) && nondet_which() > 0)
/* everything but the named fields of the namespace is as before */
#define KEEP_PASS (N->password == PN.password && (!PN.password || nondet_streq(PN.password, S.pw[nondet_which()])))
static bool nondet_kept(int what) {
    int w = nondet_which();
    namespace_t *n = S.ns[w], *p = &S.pns[w];
    return (what == 1 || n->maxsize == p->maxsize) && (what == 2 || (n->password == p->password && (!p->password || nondet_streq(n->password, S.pw[w]))))
        && (what == 3 || n->public == p->public) && (what == 4 || n->worm == p->worm) && (what == 5 || n->locked == p->locked)
        && (what == 6 || n->index->mode == S.pidx[w].mode) && n->name == p->name && n->index == p->index && n->data == p->data
        && n->indexpath == p->indexpath && n->datapath == p->datapath && n->idlist == p->idlist;
}
static bool nondet_known(void) {
    if(PROP("mode")) return zdb_rootsettings.mode == ZDB_MODE_MIX && nondet_fresh(nondet_which()) && (nondet_arg_is(3, "user") || nondet_arg_is(3, "seq"));
    return PROP("lock") || PROP("freeze") || LATER("maxsize") || LATER("password") || LATER("public") || LATER("worm");
}
/* the descriptor on disk says what the namespace is */
static bool nondet_descriptor(void) {
    int w = nondet_which();
    namespace_t *n = S.ns[w];
    ns_header_t *h = (ns_header_t *) D.bytes;
    size_t nl = strlen(n->name), pl = n->password ? strlen(n->password) : 0;
    if(D.isopen || D.size < sizeof(ns_header_t) + nl + pl || h->version != NAMESPACE_CURRENT_VERSION || h->namelength != nl || h->passlength != pl
        || h->maxsize != n->maxsize || !(h->flags & NS_FLAGS_PUBLIC) != !n->public || !(h->flags & NS_FLAGS_WORM) != !n->worm || !(h->flags & NS_FLAGS_EXTENDED))
        return false;
    size_t k = zv_k;
    if(k < nl && D.bytes[sizeof(ns_header_t) + k] != (uint8_t) n->name[k]) return false;
    if(k < pl && D.bytes[sizeof(ns_header_t) + nl + k] != (uint8_t) n->password[k]) return false;
    return nondet_streq(D.path + strlen(n->indexpath), "/zdb-namespace");
}
#define CLAUSES(P) \
 P("[C10] an invalid or unknown setting is refused and changes nothing", (nondet_valid() && nondet_known()) || (nondet_error() && nondet_nothing())) \
 P("[C15] a valid setting is accepted", !(nondet_valid() && nondet_known()) || nondet_ok()) \
 P("[C24] the mode only changes while nothing was ever stored, on a server which allows it", nondet_others_same(nondet_valid() ? N : NULL) \
     && (!nondet_valid() || (PROP("mode") && nondet_known()) || N->index->mode == PN.index->mode || N->index->mode == S.pidx[nondet_which()].mode)) \
 P("[C24] the new mode is the one asked for, and the index follows", !PROP("mode") || !nondet_known() || (nondet_kept(6) && S.switches == 1 && S.switched == N->index \
     && N->index->mode == (nondet_arg_is(3, "user") ? ZDB_MODE_KEY_VALUE : ZDB_MODE_SEQUENTIAL))) \
 P("[C15] the size limit is the number sent", !LATER("maxsize") || (nondet_kept(1) && N->maxsize == (size_t) nondet_atoll)) \
 P("[C15] the password is the text sent, or none for *", !LATER("password") || (nondet_kept(2) && (nondet_arg_is(3, "*") ? N->password == NULL : (N->password && nondet_arg_is(3, N->password))))) \
 P("[C15] public access is what was sent", !LATER("public") || (nondet_kept(3) && !N->public == !nondet_one())) \
 P("[C15,C08] write-once mode is what was sent", !LATER("worm") || (nondet_kept(4) && !N->worm == !nondet_one())) \
 P("[C15,C09] the lock is what was sent", !PROP("lock") || (nondet_kept(5) && N->locked == (nondet_one() ? NS_LOCK_READ_ONLY : NS_LOCK_UNLOCKED))) \
 P("[C15,C09] the freeze is what was sent", !PROP("freeze") || (nondet_kept(5) && N->locked == (nondet_one() ? NS_LOCK_READ_WRITE : NS_LOCK_UNLOCKED))) \
 P("[C14] the other namespaces and sessions stay as they were", nondet_others_same(nondet_valid() ? N : NULL) && nondet_session_same() && nondet_other_same() && nsroot->length == 3) \
 P("[C15] after an accepted setting the descriptor on disk describes the namespace", !nondet_ok() || !nondet_valid() || D.nofile || nondet_descriptor())
#define COVERS() \
    ZV_COVER(PROP("mode") && nondet_known(), "[C24,C10] mode"); \
    ZV_COVER(LATER("password") && N->password, "[C15] password"); \
    ZV_COVER(LATER("maxsize"), "[C15] maxsize"); \
    ZV_COVER(PROP("freeze") && nondet_one(), "[C15,C09] freeze"); \
    ZV_COVER(LATER("worm") && nondet_one(), "[C15,C08] worm");

#elif defined(IS_NSJUMP)
static void nondet_setup(void) { nondet_args(4, 4, 1, 1); }
#define CLAUSES(P) \
 P("[C27] a forced jump moves the index and the data of the session's namespace to the same number", !S.pc.admin || (nondet_ok() && S.ijumps == 1 && S.djumps == 1 \
     && S.jumped_i == S.pc.ns->index && S.jumped_d == S.pc.ns->data && S.jumpid == S.newid)) \
 P("[C10] a jump changes no session", nondet_session_same() && nondet_other_same() && nondet_others_same(NULL))
#define COVERS() ZV_COVER(nondet_ok(), "[C10,C27] jump");

#elif defined(IS_RELOAD)
static void nondet_setup(void) { nondet_args(NAMEMAX + 20, 4, 1, 1); }
static int nondet_which(void) {
    for(int i = 0; i < 3; i++)
        if(S.ns[i] && nondet_arg_is(1, S.pns[i].name)) return i;
    return -1;
}
static bool nondet_wanted(void) { return S.pc.admin && nondet_given(2) && S.len[1] <= NAMESPACE_MAX_LENGTH && nondet_which() >= 0; }
#define PN S.pns[nondet_which()]
#define CLAUSES(P) \
 P("[C10] an invalid reload is refused and changes nothing", nondet_wanted() || REFUSED) \
 P("[C05] a reload drops the entries of the namespace and reads its own files again", !nondet_wanted() || (nondet_ok() && S.cleans == 1 && S.clean_ns == S.ns[nondet_which()] \
     && S.clean_root == PN.index && S.iinits == 1 && S.dinits == 1 && nondet_streq(S.inited[0], PN.indexpath) && nondet_streq(S.inited[1], PN.datapath) \
     && S.idestroyed == PN.index && S.ddestroyed == PN.data && S.ns[nondet_which()]->index == &sw_index[3] && S.ns[nondet_which()]->data == &sw_data[3])) \
 P("[C04,C14] a reload removes no file, and no other namespace or session changes", !S.ideletes && !S.ddeletes && !S.removes && nondet_session_same() && nondet_other_same() \
     && nondet_others_same(nondet_wanted() ? S.ns[nondet_which()] : NULL))
#define COVERS() ZV_COVER(nondet_wanted(), "[C10,C05,C14] reload");

#elif defined(IS_FLUSH)
static void nondet_setup(void) { nondet_args(4, 4, 1, 1); }
static int nondet_which(void) {
    for(int i = 0; i < 3; i++)
        if(S.ns[i] && S.pc.ns == S.ns[i]) return i;
    return 0;
}
#define PN S.pns[nondet_which()]
static bool nondet_wanted(void) { return !PN.public && PN.password && S.pc.writable && PN.locked == NS_LOCK_UNLOCKED && !PN.worm; }
#define CLAUSES(P) \
 P("[C09] a flush without write access, or locked or frozen, or public, is refused and changes nothing", nondet_wanted() || REFUSED) \
 P("[C08] a write-once namespace is never flushed", !PN.worm || REFUSED) \
 P("[C14] a flush clears exactly the namespace of the session", !nondet_wanted() || (nondet_ok() && S.cleans == 1 && S.clean_ns == S.pc.ns && S.ideletes == 1 && S.ddeletes == 1 \
     && nondet_streq(S.deleted[0], PN.indexpath) && nondet_streq(S.deleted[1], PN.datapath) && nondet_streq(S.inited[0], PN.indexpath) && nondet_streq(S.inited[1], PN.datapath))) \
 P("[C14] no other namespace or session changes", nondet_others_same(S.pc.ns) && nondet_session_same() && nondet_other_same())
#define COVERS() ZV_COVER(nondet_wanted(), "[C09,C08,C14] flush");

#else
/* INDEX, DATA, HOOKS, MIRROR, MASTER: the gate only */
static void nondet_setup(void) {
    nondet_args(270, 270, 20, 1);
    zdb_rootsettings.hooks.active = 0;
    zdb_rootsettings.hooks.length = 0;
}
#define CLAUSES(P) \
 P("[C10] nothing but the flag of the command changes", nondet_others_same(NULL) && nondet_other_same() && S.c->admin == S.pc.admin && S.c->writable == S.pc.writable && S.c->ns == S.pc.ns)
#define COVERS() ZV_COVER(S.pc.admin && S.req.argc == 2, "[C10] administrator");
#endif
