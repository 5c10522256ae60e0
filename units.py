"""Proof units and the properties they carry."""
ENV = ['mem.c', 'nd.c', 'os.c', 'stdio.c', 'zdb.c', 'zdbd.c', 'hookstub.c', 'world.c']
LIB = ['libzdb/data.c', 'libzdb/index.c', 'libzdb/index_set.c', 'libzdb/index_get.c', 'libzdb/index_branch.c',
       'libzdb/index_seq.c', 'libzdb/index_loader.c', 'libzdb/namespace.c', 'libzdb/settings.c']
CMD = ['zdbd/commands.c', 'zdbd/redis.c']
UW = {'index_entry_get.0': 4, 'index_branch_get_previous.0': 4, 'redis_send_response.0': 2, 'data_open_final.0': 2,
      'nondet_vfmt.0': 40, 'nondet_vfmt.2': 36, 'nondet_vfmt.3': 18, 'nondet_os_send.0': 34, 'nondet_os_read.0': 44, 'nondet_world_dhdr.0': 20, 'nondet_fds_balanced.0': 14, 'nondet_world_seq.0': 36, 'nondet_world_seq.2': 20, 'index_seqmap_from_seq.0': 4, 'nondet_number_at.0': 18, 'zv_memcpy.0': 18, 'zv_free.0': 3}
ASSUMPTIONS = []
def seqread(cmd, tag):
    return dict(src='seq_read.c', env=ENV, real=LIB + ['zdbd/commands_get.c', 'zdbd/commands_dataset.c'] + CMD, unwindset=UW, fns=['command_' + cmd],
                defs=['ZV_HEAPREG', 'IS_' + cmd.upper(), 'CMD=command_' + cmd, 'TAG="%s"' % tag])
def kvread(cmd, tag, **kw):
    return dict(src='kv_read.c', env=ENV, real=LIB + ['zdbd/commands_get.c', 'zdbd/commands_dataset.c'] + CMD, unwindset=UW, fns=['command_' + cmd],
                defs=['IS_' + cmd.upper(), 'CMD=command_' + cmd, 'TAG="%s"' % tag], **kw)
UNITS = {
 'seq_get': seqread('get', 'C02'), 'seq_exists': seqread('exists', 'C02'), 'seq_length': seqread('length', 'C02'),
 'kv_get': kvread('get', 'C01'), 'kv_exists': kvread('exists', 'C03'), 'kv_length': kvread('length', 'C03'),
 'kv_keytime': kvread('keytime', 'C03'), 'kv_check': kvread('check', 'C19'),
 'set_kv': dict(src='set_kv.c', env=ENV, real=LIB + ['zdbd/commands_set.c'] + CMD, unwindset=UW, fns=['command_set'], defs=['NOFAULT', 'NOROTATE']),
 'set_kv_rotate': dict(src='set_kv.c', env=ENV, real=LIB + ['zdbd/commands_set.c'] + CMD, unwindset=UW, fns=['command_set'], defs=['NOFAULT']),
 'set_kv_fault': dict(src='set_kv.c', env=ENV, real=LIB + ['zdbd/commands_set.c'] + CMD, unwindset=UW, fns=['command_set'], defs=['NOROTATE']),
}
def delu(seq, fault):
    return dict(src='del.c', env=ENV, real=LIB + ['zdbd/commands_set.c', 'zdbd/commands_dataset.c'] + CMD, unwindset=UW, fns=['command_del'],
                defs=(['IS_SEQ', 'ZV_HEAPREG'] if seq else []) + ([] if fault else ['NOFAULT']))
UNITS.update(del_kv=delu(0, 1), del_seq=delu(1, 1))
def setseq(*defs):
    return dict(src='set_seq.c', env=ENV, real=LIB + ['zdbd/commands_set.c'] + CMD, unwindset=UW, fns=['command_set'], defs=['ZV_HEAPREG'] + list(defs))
UNITS.update(set_seq_ins=setseq('INSERT', 'NOROTATE'), set_seq_upd=setseq('UPDATE', 'NOROTATE'), set_seq_ins_rot=setseq('INSERT', 'NOFAULT'), set_seq_upd_rot=setseq('UPDATE', 'NOFAULT'))
SENV = ['mem.c', 'nd.c', 'os_s.c', 'stdio.c', 'zdb.c', 'zdbd.c', 'hookstub.c']
SREAL = ['libzdb/settings.c', 'zdbd/commands.c', 'zdbd/commands_namespace.c', 'zdbd/commands_system.c', 'zdbd/commands_auth.c', 'zdbd/commands_replicate.c', 'zdbd/auth.c']
SUW = {'nondet_fill.0': 162, 'nondet_namespaces.0': 131, 'nondet_inside.0': 162, 'nondet_streq.0': 162, 'nondet_cpy.0': 162, 'nondet_path_copy.0': 162, 'nondet_snapshot.0': 67, 'nondet_os_send.0': 34,
       'strcmp.0': 132, 'strlen.0': 162, 'nondet_vfmt.0': 162, 'nondet_vfmt.2': 162, 'nondet_vfmt.3': 162, 'strdup.0': 132, 'strdup.1': 132, 'nondet_arg_is.0': 132, 'nondet_arg_exact.0': 142, 'write.0': 422, 'read.0': 422,
       'nondet_setup.0': 42, 'zdb_hash_password.0': 42, 'zdb_challenge.0': 18, 'nondet_name_ok.0': 131, 'strncasecmp.0': 140, 'strcasecmp.0': 140, 'strchr.0': 131, 'memcmp.0': 300}
SMALL = ['NAMEMAX=8', 'PWMAX=8']
def session(cmd, *defs, **kw):
    return dict(src='session.c', env=SENV, real=SREAL, unwindset=dict(SUW), fns=['command_' + cmd], group=12, defs=['IS_' + cmd.upper(), 'CMD=command_' + cmd] + list(defs), **kw)
UNITS.update({
 's_auth': session('auth', 'ADMAX=140'), 's_select': session('select'), 's_nsnew': session('nsnew', 'IS_GATED'), 's_nsdel': session('nsdel', 'IS_GATED'), 's_nsset': session('nsset', 'IS_GATED'),
 's_nsjump': session('nsjump', 'IS_GATED', *SMALL), 's_reload': session('reload', 'IS_GATED'), 's_flush': session('flush', *SMALL),
 's_index': session('index', 'IS_GATED', *SMALL), 's_data': session('data', 'IS_GATED', *SMALL), 's_hooks': session('hooks', 'IS_GATED', *SMALL), 's_mirror': session('mirror', 'IS_GATED', *SMALL), 's_master': session('master', 'IS_GATED', *SMALL),
})
from props import PROPERTIES
PROPS = {p["id"]: p for p in PROPERTIES if not p["na"]}
