"""The properties, the units that carry each one, and what is left out.

Single source of properties.jsonl and MANIFEST.json (python3 gen.py).
P(id, title, statement, over, text, why, files, mechanism, units=..., thorough=..., na=...)
"""
PROPERTIES = []

def P(id, title, statement, over, text, why, files, mech, units=(), thorough=(), na=None, level='proof', assumptions=(), note=''):
    PROPERTIES.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()),
                           why=' '.join(why.split()), files=files, mech=mech, units=list(units), thorough=list(thorough),
                           na=na, level=level, assumptions=list(assumptions), note=note))

P('C01', 'SET then GET returns exactly the stored bytes (key-value mode)', """
In key-value mode, once a SET of a key is acknowledged the reply names that key, the stored record holds exactly the key
and payload bytes that were sent, and a GET of the key returns exactly that payload, whatever their length and content.
A SET which nothing forbids is accepted, and the empty reply ("unchanged") is only given for a payload equal to the stored one.""",
  ['inputs', 'histories'], """every key (1 to 255 bytes) and payload (0 to 8 MB), every position of every byte, every state of the
index bucket, files and limits the request can meet""",
  """Tests store a few short keys and payloads; lengths, byte positions and bucket states are unbounded.""",
  ['zdbd/commands_set.c', 'zdbd/commands_get.c', 'libzdb/data.c', 'libzdb/index_set.c', 'libzdb/index_get.c'],
  [('append of the payload', 'libzdb/data.c data_insert'), ('index insertion and update', 'libzdb/index_set.c index_set'),
   ('lookup', 'libzdb/index_get.c index_get'), ('payload read', 'libzdb/data.c data_get_real')],
  units=['set_kv', 'kv_get'], thorough=['set_kv_rotate', 'set_kv_fault'])

P('C02', 'Sequential keys resolve to exactly the entry they were given for', """
In sequential mode a new SET is given the next number in order, never one used before; a lookup of a number that was given out and not
deleted returns that entry's latest payload, and a number never given out, out of range or deleted is answered as not found.""",
  ['inputs', 'histories'], """every 64-bit number, every key length, one or several index files""",
  """Tests create small consecutive ids in one index file; ids beyond it, file boundaries and out of range numbers are not reached.""",
  ['libzdb/index_seq.c', 'libzdb/index_get.c', 'libzdb/index_set.c'],
  [('number to file and offset', 'libzdb/index_seq.c index_seqmap_from_seq, index_seq_offset'), ('lookup', 'libzdb/index_get.c index_get_handler_sequential'),
   ('insertion and update', 'libzdb/index_set.c index_set_handler_sequential')],
  units=['seq_get', 'set_seq_ins'], thorough=['seq_exists', 'seq_length', 'set_seq_upd', 'set_seq_ins_rot'])

P('C03', 'DEL, EXISTS, LENGTH and KEYTIME agree with the stored state', """
A DEL of an existing key is acknowledged and afterwards the key is not found in memory nor on disk, a DEL of a missing key is refused and changes nothing;
EXISTS, LENGTH and KEYTIME report the presence, the payload length and the time of the live record, and change nothing.""",
  ['inputs', 'histories'], """every key, every bucket or sequence state, in both modes""",
  """Tests check a handful of keys in fresh namespaces.""",
  ['zdbd/commands_dataset.c', 'libzdb/index.c', 'libzdb/data.c', 'libzdb/index_branch.c'],
  [('deletion', 'zdbd/commands_dataset.c command_del'), ('index flag', 'libzdb/index.c index_entry_delete'), ('deletion record', 'libzdb/data.c data_delete')],
  units=['del_kv', 'del_seq', 'kv_exists', 'kv_length', 'kv_keytime'])

P('C04', 'Data files only grow; index records only change by their deletion flag', """
No operation ever changes or removes a byte already in a data file: records are only appended. Existing bytes of an index file only change in place by the deletion
flag of the record being replaced or deleted (and, for an updated sequential key, by its own record).""",
  ['inputs', 'histories', 'fault_sequences'], """every request, every byte of every file, every failing write""",
  """Tests never look at the files; a single byte rewritten at some offset of some file is invisible to them.""",
  ['libzdb/data.c', 'libzdb/index.c', 'libzdb/index_set.c'],
  [('append descriptors', 'libzdb/data.c data_open_final'), ('in-place flag', 'libzdb/index.c index_entry_delete_disk')],
  units=['set_kv', 'del_kv', 'del_seq', 'set_seq_ins'], thorough=['set_kv_rotate', 'set_kv_fault', 'set_seq_upd'])

P('C05', 'The files on disk describe the live state (restart reproduces it)', """
After every acknowledged write the index files describe the live entries: the last record of a key carries its payload location, length, checksum, time and file, and any record it
replaced or deleted is flagged, so that reading the files again from the start rebuilds the same keys, counters and next number. A torn last record is discarded, not misread.""",
  ['histories', 'crash_points', 'inputs'], """every request, every record contents, every truncation point of the last record""",
  """Tests restart on a few clean databases; record contents and torn tails are unbounded.""",
  ['libzdb/index_loader.c', 'libzdb/index_set.c', 'libzdb/index.c'],
  [('record written', 'libzdb/index.c index_append_entry_on_disk'), ('loader', 'libzdb/index_loader.c index_load_file')],
  units=['set_kv', 'del_kv', 'del_seq', 'set_seq_ins'], thorough=['set_kv_rotate', 'set_seq_upd'])

P('C06', 'Every overwritten version stays reachable from the newest one', """
The record written by an overwriting SET points to the record it replaces, and a first insertion points to nothing, so walking back from the live record visits every version, newest first.""",
  ['histories', 'inputs'], """every key and every history of overwrites""",
  """Tests walk one short history.""",
  ['libzdb/index_set.c', 'zdbd/commands_history.c'],
  [('parent pointer', 'libzdb/index_set.c index_set_handler_memkey'), ('walk', 'zdbd/commands_history.c command_history')],
  units=['set_kv'], thorough=['set_kv_rotate', 'set_seq_upd'])

P('C07', 'The size limit of a namespace is never exceeded', """
A SET that would bring the live payload bytes of a namespace over its limit is refused and changes nothing; after an accepted SET the total is within the limit.""",
  ['inputs', 'histories'], """every payload length, current size, replaced length and limit""",
  """Tests fill one namespace with one payload size.""",
  ['zdbd/commands_set.c'], [('limit', 'zdbd/commands_set.c command_set')],
  units=['set_kv', 'set_seq_ins'], thorough=['set_kv_rotate', 'set_kv_fault', 'set_seq_upd'])

P('C08', 'A write-once key is never overwritten nor deleted', """
While a namespace is write-once, no request replaces the payload of an existing key nor deletes a key: the request is refused and nothing changes on disk or in memory.""",
  ['inputs', 'histories'], """every key, state and session""",
  """Tests try one overwrite and one deletion.""",
  ['zdbd/commands_set.c', 'zdbd/commands_dataset.c'], [('worm', 'zdbd/commands_set.c redis_set_handler_*'), ('worm on delete', 'zdbd/commands_dataset.c command_del')],
  units=['set_kv', 'del_kv', 'del_seq'], thorough=['set_kv_rotate', 'set_seq_upd'])

P('C09', 'Read-only sessions, locked and frozen namespaces never change or leak data', """
On a session without write access, or a namespace locked or frozen, every modifying request is refused with an error and nothing changes. On a frozen namespace reads are refused too.""",
  ['inputs', 'histories', 'configurations'], """every request, session right and protection state""",
  """Tests lock one namespace and try a few commands.""",
  ['zdbd/commands_set.c', 'zdbd/commands_get.c', 'zdbd/commands_dataset.c', 'zdbd/commands.c'],
  [('lock and freeze', 'zdbd/commands.c command_error_locked, command_error_frozen')],
  units=['set_kv', 'del_kv', 'del_seq', 'kv_get', 'kv_exists', 'kv_length', 'kv_keytime', 'kv_check', 'set_seq_ins'], thorough=['seq_get', 'seq_exists', 'set_seq_upd'])

P('C10', 'Administrator commands act only for an administrator', """
A session which did not authenticate as administrator cannot create, delete, configure, flush or reload namespaces, stop the server, run hooks, replicate, read the server's internal
lists, or choose the time of a record: each such request is refused with an error and has no effect.""",
  ['inputs', 'histories'], """every command name, arguments and session""",
  """Tests try a few commands.""",
  ['zdbd/commands.c', 'zdbd/commands_system.c', 'zdbd/commands_namespace.c'], [('gate', 'zdbd/commands.c command_admin_authorized')],
  na='not built yet')
P('C11', 'Only the exact administrator password authenticates', """
A session becomes administrator only by sending the exact password (or the digest of the session's own fresh challenge and that password); a refused attempt leaves the session's rights as they
were, a challenge works at most one time, and without a configured password authentication is refused.""",
  ['inputs', 'histories'], """every password and candidate, of every length, and every challenge state""",
  """Tests try two or three passwords.""",
  ['zdbd/commands_auth.c', 'zdbd/auth.c'], [('comparison', 'zdbd/auth.c zdbd_password_check'), ('command', 'zdbd/commands_auth.c command_auth')],
  na='not built yet')
P('C12', 'SELECT gives exactly the rights of the namespace and the password sent', """
Selecting a namespace moves the session only if it exists and the password rule allows it: write access is given for a namespace without password, for the exact password or to an administrator;
a public protected namespace gives read access only; anything else is refused and the session stays where it was.""",
  ['inputs', 'histories'], """every namespace state, password and candidate, session""",
  """Tests cover a few combinations.""",
  ['zdbd/commands_namespace.c'], [('select', 'zdbd/commands_namespace.c command_select')], na='not built yet')
P('C13', 'The request parser is exact and memory safe on every byte stream', """
For every byte stream and every way it is cut into packets, the parser never reads or writes outside its buffers, delivers exactly the arguments sent with their exact lengths and bytes, and refuses malformed
headers with an error.""",
  ['inputs', 'schedules'], """every stream and every fragmentation""",
  """Tests send well-formed requests in one packet.""",
  ['zdbd/redis.c'], [('parser', 'zdbd/redis.c redis_chunk')], na='not built yet')
P('C14', 'A request on one key never disturbs another key', """
A request on one key leaves every other key of the namespace, and every other namespace, exactly as it was; reads change nothing at all.""",
  ['inputs', 'histories'], """every pair of keys, including colliding ones, every bucket state""",
  """Tests rarely meet two keys in one bucket.""",
  ['libzdb/index_branch.c', 'libzdb/index.c', 'libzdb/index_set.c'], [('bucket lists', 'libzdb/index_branch.c index_branch_append, index_branch_remove')],
  units=['set_kv', 'del_kv', 'del_seq', 'kv_get', 'kv_exists', 'kv_length', 'kv_keytime', 'kv_check', 'set_seq_ins'], thorough=['set_kv_rotate', 'set_kv_fault', 'set_seq_upd'])
P('C15', 'Namespace settings survive a restart', """
Every setting of a namespace (password, public, limit, write-once, lock is volatile, version) written to its descriptor is read back equal at the next start.""",
  ['inputs', 'histories'], """every combination of settings and every password""", """Tests restart rarely.""",
  ['libzdb/namespace.c'], [('descriptor', 'libzdb/namespace.c namespace_descriptor_update, namespace_descriptor_load')], na='not built yet')
P('C16', 'A namespace name never escapes the storage directories', """
Creating or deleting a namespace only ever touches its own directories under the configured index and data roots, whatever the name; names that cannot be such a directory are refused.""",
  ['inputs'], """every name of every length""", """Tests use plain names.""",
  ['zdbd/commands_namespace.c', 'libzdb/namespace.c'], [('name check', 'zdbd/commands_namespace.c command_nsnew')], na='not built yet')
P('C17', 'SCAN and RSCAN visit every live key exactly one time', """
A complete scan, forward or backward, returns every live key exactly one time, never a deleted one, and ends.""",
  ['histories'], """every contents of the index files""", """Tests scan small namespaces.""",
  ['libzdb/index_scan.c', 'zdbd/commands_scan.c'], [('step', 'libzdb/index_scan.c index_scan')], na='not built yet')
P('C18', 'A forged cursor or binary key cannot read outside the records', """
A scan cursor or a key handle sent back by a client is checked: one that was not given out is refused, and never makes the server read or return anything but a record it names.""",
  ['inputs'], """every cursor""", """Tests send valid cursors.""",
  ['zdbd/commands_scan.c', 'zdbd/commands_history.c'], [('check', 'zdbd/commands_scan.c')], na='not built yet')
P('C19', 'CHECK says valid exactly when the stored payload matches its checksum', """
The integrity check of a key answers valid exactly when the payload read back has the checksum recorded when it was written, and reports any difference.""",
  ['inputs', 'fault_sequences'], """every payload, checksum and stored contents""", """Tests check intact payloads only.""",
  ['libzdb/data.c', 'zdbd/commands_dataset.c', 'libzdb/crc32.c'], [('check', 'libzdb/data.c data_check_real')], units=['kv_check'])
P('C20', 'Entry and byte counters always equal the live entries', """
After every acknowledged SET or DEL the reported number of entries and total payload size change by exactly what the request added or removed, and a refused request leaves them unchanged.""",
  ['inputs', 'histories'], """every request and state""", """Tests compare counters after a few writes.""",
  ['libzdb/index_set.c', 'libzdb/index.c'], [('counters', 'libzdb/index_set.c index_set')],
  units=['set_kv', 'del_kv', 'del_seq', 'set_seq_ins'], thorough=['set_kv_rotate', 'set_kv_fault', 'set_seq_upd'])
P('C21', 'Every index file changed in place is reported as dirty', """
When a request modifies a record of an index file in place, that file is in the list of dirty index files until the list is reset, so that a replica copying the listed files misses nothing.""",
  ['histories', 'inputs'], """every file number and every request""", """Tests have one index file.""",
  ['libzdb/index.c'], [('dirty list', 'libzdb/index.c index_dirty_set')], units=['set_kv', 'del_kv', 'del_seq', 'set_seq_ins'], thorough=['set_kv_rotate', 'set_seq_upd'])
P('C22', 'The payload is on disk before the index record that points to it', """
Every request appends the payload record before the index record that describes it, and in synchronous mode both are flushed before the client receives the acknowledgement.""",
  ['crash_points', 'inputs'], """every request and configuration""", """Tests never crash the server.""",
  ['libzdb/data.c', 'libzdb/index.c'], [('order', 'zdbd/commands_set.c redis_set_handler_*'), ('sync', 'libzdb/data.c data_sync')],
  units=['set_kv', 'del_kv', 'del_seq', 'set_seq_ins'], thorough=['set_kv_rotate', 'set_seq_upd'])
P('C23', 'A failed write is reported and keeps the previous value', """
When any system call of a SET or DEL fails, no success is reported, and the previous value of the key, the counters and every other key stay readable as before.""",
  ['fault_sequences', 'inputs'], """every request, every failing call or short write""", """Tests have no faults.""",
  ['libzdb/index.c', 'libzdb/data.c', 'libzdb/index_set.c'], [('rollback', 'libzdb/data.c data_insert_rollback')],
  units=['set_kv_fault', 'del_kv', 'del_seq', 'set_seq_ins'], thorough=['set_seq_upd'])
P('C24', 'The mode of a namespace only changes while it is empty', """
The key mode of a namespace can only be changed when nothing was ever stored in it; otherwise the request is refused and nothing changes.""",
  ['inputs', 'histories'], """every namespace state""", """Tests try one populated namespace.""",
  ['zdbd/commands_namespace.c', 'libzdb/namespace.c'], [('fresh check', 'libzdb/namespace.c namespace_is_fresh')], na='not built yet')
P('C25', 'A command runs only for its exact name', """
A request runs exactly the command whose full name it carries (in any letter case), and any other name is answered as unknown and has no effect.""",
  ['inputs'], """every name of every length""", """Tests send a few unknown names.""",
  ['zdbd/commands.c'], [('match', 'zdbd/commands.c command_match, redis_dispatcher')], na='not built yet')
P('C26', 'Replies reach the client in order and complete, however the socket drains', """
The bytes received by a client are the replies in order, each complete and unmodified, however few bytes the socket accepts at a time.""",
  ['schedules', 'inputs'], """every reply and every sequence of partial sends""", """Tests use fast local sockets.""",
  ['zdbd/redis.c'], [('stream', 'zdbd/redis.c redis_send_response')], na='not built yet')
P('C27', 'Index and data files advance together, at the size limit only', """
A new data file is started when, and only when, the current one is over its configured size; index and data files then move to the same next number, and the record describing a payload names the file that holds it.""",
  ['inputs', 'histories'], """every file size, limit and file number""", """Tests seldom cross a file boundary.""",
  ['zdbd/commands_set.c', 'libzdb/index.c', 'libzdb/data.c'], [('move', 'libzdb/index.c index_jump_next, libzdb/data.c data_jump_next')],
  units=['set_kv_rotate'], thorough=['set_seq_ins_rot', 'set_seq_upd_rot'])
P('C28', 'The SHA-1 used for challenges equals the standard', """
The digest used by challenge authentication equals SHA-1 for every input.""", ['inputs'], """every input""", """Tests use a few challenges.""",
  ['libzdb/sha1.c'], [('sha1', 'libzdb/sha1.c')], na='not built yet')
P('C29', 'The embedded library keeps the same set, get and delete guarantees', """
Through the library interface, a successful set followed by a get returns the same bytes, a delete makes the key absent, and errors are reported as errors.""", ['inputs', 'histories'],
  """every key and payload""", """Tests use the library lightly.""", ['libzdb/api.c'], [('api', 'libzdb/api.c zdb_api_set')], na='not built yet')
