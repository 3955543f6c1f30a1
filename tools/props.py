NOTES = "See DESIGN.md. One command per property: run.sh builds the symbolic executor in gosym/ and runs the harnesses of that property over the current /repo."
PROPS = []
def prop(id, title, statement, over, qtext, why, files, mech, note, na=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=state or [], hook_needed=None),
        note=note, na=na))

BASE = "Bounded: holds for every value of the symbolic inputs within the bounds printed in the evidence file. Trusts the executor's Go semantics (every completed path and every counterexample is cross-checked by replay against natively compiled code), the SMT solvers, and the stand-ins for os/time/rand/snappy listed in DESIGN.md."

CRASH = " The crash model is a killed process: every write, rename, remove and truncate call happens entirely or not at all, and what was written stays."

prop('C01', 'Get returns exactly the messages stored to a topic, newest first',
 'While a database is open, Get on a topic returns every message that was acknowledged for that topic (and is neither deleted nor expired), each exactly once, with exactly the bytes that were stored, ordered from newest to oldest and cut to the newest ones when a limit applies. It returns no message of another topic. This holds whether the messages are still in memory, in the log or in the database files, and however puts, background log writes, syncs and reads follow each other.',
 ['histories', 'inputs', 'schedules'], 'every order of puts to several topics, log writes, time block changes, syncs and gets, all payload bytes, all limits (within the bounds)',
 'The tests write one batch of messages and read them back once; loss or mix-up needs a window or index block boundary, a second sync, or a read in a particular state of the memory/log/file hand-over.',
 ['db.go', 'db_internal.go', 'db_sync.go', 'time_window.go', 'time_window_reader.go', 'time_window_writer.go', 'block.go', 'block_reader.go', 'block_writer.go', 'query.go', 'memdb/db.go', 'trie.go'],
 [('window blocks per topic, chained newest first', 'time_window_writer.go'), ('index blocks by sequence', 'block_writer.go'), ('mem store to file hand-over', 'db_sync.go')], BASE)

prop('C02', 'Messages and their order survive close and open',
 'After Close and a new Open of the same directory, and after any number of such cycles mixed with puts and syncs, Get on every topic returns the same messages in the same order with the same content as if the database had stayed open; Close itself loses nothing that was acknowledged before it.',
 ['histories', 'inputs'], 'every order of puts, syncs and close/open cycles (within the bounds), all payload bytes',
 'The tests open a database once or twice with little data; what is lost depends on which blocks are full, on what was synced and on the number of sessions.',
 ['db.go', 'db_sync.go', 'recovery.go', 'db_internal.go', 'time_window.go', 'trie.go', 'memdb/recovery.go', 'memdb/tiny_log.go', 'wal/file.go', 'wal/reader.go', 'wal/writer.go'],
 [('log recovery on open', 'recovery.go'), ('topic trie rebuilt from window and data files', 'db.go'), ('final log write on close', 'memdb/tiny_log.go')], BASE)

prop('C03', 'A killed process loses no logged message and repeats none',
 'When the process is killed at any instant, including inside a log write, a sync, a close or the recovery of an open, the next Open succeeds and Get returns every message that had reached the write ahead log or the database files, exactly once, in order and with its content; messages not yet logged are either there completely or not at all; and messages put afterwards are stored next to them without replacing or losing any.',
 ['crash_points', 'histories', 'inputs'], 'kill before any file operation of a log write, sync, close or recovery, and between any two operations of a history (within the bounds), all payload bytes',
 'No test kills the process; the loss depends on the single system call at which it stops and on what the recovery then finds.',
 ['recovery.go', 'db_sync.go', 'db_info.go', 'memdb/recovery.go', 'memdb/db_internal.go', 'wal/file.go', 'wal/reader.go', 'wal/writer.go', 'block_writer.go', 'time_window_writer.go'],
 [('write ahead log with rename', 'wal/file.go'), ('log replay', 'memdb/recovery.go'), ('log entries moved to files', 'recovery.go')], BASE + CRASH)

prop('C04', 'A deleted message stays deleted and takes nothing else with it',
 'In a mutable database, after DeleteEntry of a message by its id returns, Get never returns that message again: not after further puts, syncs, close and open, nor after a kill once the delete was logged. All other messages stay readable with their content and order, also when the space of the deleted message is used again for new messages. Deleting a message twice changes nothing.',
 ['histories', 'crash_points', 'inputs'], 'every order of puts, deletes of any message (also repeated), syncs, close/open and kills (within the bounds), message sizes that fit or do not fit the freed space',
 'One test deletes one message and does not look at it after a sync or a reopen; damage to others shows when space is reused or when the log is replayed.',
 ['db.go', 'db_internal.go', 'block_writer.go', 'block.go', 'leasing.go', 'time_window.go', 'memdb/db.go', 'memdb/recovery.go', 'memdb/block.go'],
 [('delete marks in the log', 'memdb/db_internal.go'), ('index entry removed', 'block_writer.go'), ('freed space reuse', 'leasing.go')], BASE + CRASH)

prop('C05', 'A batch is stored as a whole or not at all',
 'When the function given to Batch returns an error, nothing of the batch is ever returned by Get, in this session or after a reopen; when it succeeds, all puts and deletes of the batch take effect, in order. Messages stored before, during or after the batch by others are not affected by its outcome, and a kill leaves either all of a committed batch or nothing of it.',
 ['histories', 'crash_points', 'inputs'], 'every order of puts, batches (succeeding, failing, with puts and deletes, with and without explicit writes), syncs, reopens and kills (within the bounds)',
 'The tests run batches that succeed and one that fails without looking at the messages around it; remains of a rolled back batch show only after a log write, a sync or a reopen.',
 ['batch.go', 'db.go', 'memdb/batch.go', 'memdb/db.go', 'memdb/recovery.go', 'memdb/block.go'],
 [('batch in its own time block', 'memdb/batch.go'), ('rollback on error', 'batch.go'), ('commit on success', 'batch.go')], BASE + CRASH + ' A batch that calls Write itself before it commits is not covered for kills between the two.')

prop('C07', 'A topic gets the messages of exactly the wildcards that match it',
 'A message stored to a topic with wildcards is returned by Get on every topic the wildcard matches ("*" one level, "..." the remaining levels) and by Get on no other topic. Messages of the topic itself and of matching wildcards come together, newest first.',
 ['inputs', 'histories'], 'every pair of stored wildcard topic and queried topic up to the depth bound, and orders of puts, syncs and reopens',
 'The tests use one or two wildcard topics; a mismatch depends on depth, on position of the wildcard and on other topics in the trie.',
 ['trie.go', 'message/topic.go', 'db_internal.go', 'query.go'],
 [('topic parts with wildcards', 'message/topic.go'), ('trie lookup', 'trie.go')], BASE)

prop('C09', 'Contracts are isolated from each other',
 'Get with a contract returns only messages stored with that contract, and a delete with a contract touches only messages of that contract, also for equal topic names and in batches. An entry or query without a contract uses the contract of its batch or the default one.',
 ['inputs', 'histories'], 'all pairs of contracts of the harness, topics equal or different, puts, deletes, batches, wildcards, syncs and reopens (within the bounds)',
 'The tests use one contract at a time; leaks need the same topic under two contracts and a particular path (batch, delete, wildcard).',
 ['db.go', 'batch.go', 'entry.go', 'query.go', 'trie.go', 'message/topic.go'],
 [('contract mixed into topic parts', 'message/topic.go'), ('contract default', 'db_internal.go')], BASE)

prop('C11', 'Reused space never overlaps a live message',
 'When messages are deleted and their space in the data file is used again, no two live messages share bytes: every live message keeps its content, whatever the sizes of the deleted and new messages, also after the free list was merged, written out, read back, and after a kill.',
 ['histories', 'inputs', 'crash_points'], 'every order of deletes and puts of the size classes in the harness, free list merges, close/open and kills (within the bounds)',
 'The tests never delete enough to reuse space; overlap needs adjacent frees, a merge and a later allocation of a fitting size.',
 ['leasing.go', 'block_writer.go', 'db_sync.go', 'db_internal.go'],
 [('free block list', 'leasing.go'), ('allocation on sync', 'block_writer.go')], BASE + CRASH)

prop('C29', 'After Sync returns the messages survive a power loss',
 'When Sync has returned, losing everything that was written to files but not flushed to the device does not lose any message that Sync moved from the log to the database files.',
 ['crash_points', 'histories', 'inputs'], 'every history of puts, syncs and close/open (within the bounds) followed by a power loss that discards all unflushed writes',
 'Tests cannot cut the power; the operating system hides a missing flush.',
 ['db_sync.go', 'file.go', 'db.go'], [('flush of all database files', 'file.go')], BASE + ' Power loss is modelled as: for each file the content at its last flush survives; directory operations survive.')

prop('C12', 'Message filter never loses a key',
 'A key added to the database\'s persisted message filter always tests as possibly present, whatever else was added before or after and after the filter has been written out and read back.',
 ['inputs', 'histories'], 'all 64-bit keys and orders of additions',
 'Filter tests add a handful of keys to one filter; a lost bit shows only for particular hash positions.',
 ['filter/bloom.go', 'filter/filter.go', 'filter.go'],
 [('bit set/test', 'filter/bloom.go'), ('serialised block', 'filter/filter.go')], BASE)

prop('C14', 'Consistent hashing always picks a live block and moves only what it must',
 'Every key is assigned to a block that is currently in use. Removing a block moves only the keys that were assigned to it; adding a block moves keys only onto the block that was added.',
 ['inputs', 'histories'], 'every key (every pseudo random stream), every capacity, initial size and order of block additions and removals',
 'The existing test samples a few keys and one size; misassignment depends on the key and on the removal history.',
 ['hash/consistent.go', 'hash/rand.go'], [('anchor hash tables A/K/W/L/R', 'hash/consistent.go')], BASE)

prop('C18', 'Message and client IDs survive their text encoding',
 'Encoding an 8 byte or 32 byte identifier as text and decoding the text gives back the same bytes, and different identifiers have different texts.',
 ['inputs'], 'all identifiers of 8 and 32 bytes',
 'No test covers the encoder; only one sample id is ever printed.',
 ['encoding/base32.go', 'encoding/base8.go', 'encoding/encoding.go'], [('bit packing', 'encoding')], BASE)

prop('C19', 'Encrypted payloads decrypt to what was stored and reject tampering',
 'A payload encrypted with a key decrypts with that key to the original bytes; a ciphertext that was modified, or is opened with another key, is rejected with an error and never yields other plaintext.',
 ['inputs', 'configurations'], 'all payloads, keys and single modifications',
 'The only test seals and opens one string with one key.',
 ['crypto/mac.go'], [('authenticated encryption with per message salt', 'crypto/mac.go')],
 BASE + ' The underlying cipher (ChaCha20-Poly1305) is an ideal one.')

prop('C06', 'A message is returned until its TTL runs out and never after',
 'A message put with a TTL (on the entry, as "?ttl=" on its topic or from the topic text) is returned by Get at every moment before it expires and never once it has expired, also after syncs, reopens and runs of the expirer. Messages without a TTL never expire, and expired messages do not use up the limit of a query or damage others when their space is used again.',
 ['inputs', 'histories'], 'every TTL and query time of the harness, entries with and without TTL, syncs, reopens and expirer runs in any order (within the bounds)',
 'No test waits for a message to expire; expiry depends on the clock, on where the message is stored and on the other messages of the topic.',
 ['entry.go', 'db.go', 'db_internal.go', 'expiry_window.go', 'message/topic.go', 'query.go'],
 [('expiry test on read', 'db.go'), ('ttl option of a topic', 'message/topic.go')], BASE + ' The clock is symbolic and does not run backwards.')

prop('C08', 'A query for the last period returns exactly the messages of that period',
 'Get on a topic with "?last=" and a duration returns every live message put within that duration before the query, newest first, up to the limit, and no older message. This is so whether the messages are still in the log, were synced, or the database was reopened.',
 ['inputs', 'histories'], 'every duration and every put time of the harness relative to the query, with syncs and reopens between (within the bounds)',
 'No test varies the clock; a wrong cut shows only for messages near the boundary or in older blocks of the topic.',
 ['query.go', 'db_internal.go', 'time_window.go', 'time_window_reader.go', 'message/topic.go'],
 [('cutoff of a lookup', 'time_window_reader.go'), ('last option of a topic', 'message/topic.go')], BASE)

prop('C10', 'Records read back from the files are the records written, each in its own place',
 'Every entry, index block, window block, header and log record that is written in binary form reads back with the same values in every field. Different blocks of a file never share bytes, for every block number the format allows.',
 ['inputs'], 'all values of all fields of every record, and all block numbers',
 'The tests write small sequences and short topics only; a truncated or overlapping field shows only for large values.',
 ['block.go', 'time_window.go', 'db_info.go', 'entry.go', 'wal/file.go', 'message/topic.go'],
 [('marshalling of blocks', 'block.go'), ('log records', 'wal')], BASE)

prop('C13', 'A message id tells its sequence and contract and is unique',
 'An id made for a sequence and contract gives back exactly that sequence, that contract and the second it was made, and is accepted for that contract and no other. Ids of different sequences or contracts differ.',
 ['inputs'], 'all sequences, contracts and times the id format has room for',
 'The tests make a few ids from small numbers; packing errors show only for large values.',
 ['message/id.go'],
 [('packing of fields', 'message/id.go')], BASE)

prop('C15', 'Encrypted messages are sealed in every file and open with their key only',
 'A message put with encryption (of the entry, its batch or the database) is never written to any file in clear beyond its first few bytes, whichever way it takes through log, batch and database files. It is read back unchanged next to unencrypted messages, also after a reopen or a kill; opened with another key, Get reports an error and never returns its content.',
 ['histories', 'configurations', 'crash_points'], 'databases with and without encryption, entries with and without, batches, syncs, reopens and kills in any order (within the bounds)',
 'No test looks at the files or opens a database with another key.',
 ['db_internal.go', 'db.go', 'batch.go', 'db_info.go', 'crypto/mac.go'],
 [('payload sealed before it is stored', 'db_internal.go'), ('encryption bit of the message id', 'db.go')], BASE + CRASH + ' The underlying cipher is an ideal one; the first bytes of a message serve as its nonce and are in clear by design.')

prop('C16', 'The memory store holds for each key exactly what was last put',
 'Get on the memory store returns the value last put for a key and an error once the key is deleted or its block was freed; the listed keys and the size agree with it. A failed batch leaves nothing behind, a successful one is there as a whole, and the block iterator hands every logged live entry to the reader before it is freed. All this holds across log writes, time blocks and close and open.',
 ['histories', 'inputs'], 'every order of puts, deletes, batches, log writes, drains and reopens (within the bounds), all values',
 'The tests put 255 keys in one block and read them back; errors need several time blocks, batches or sessions.',
 ['memdb/db.go', 'memdb/block.go', 'memdb/batch.go', 'memdb/db_internal.go', 'memdb/recovery.go', 'memdb/tiny_log.go', 'memdb/time_mark.go'],
 [('time blocks', 'memdb/db_internal.go'), ('log recovery', 'memdb/recovery.go')], BASE + ' A key is put again only after it was deleted.')

prop('C17', 'A kill does not undo what the memory store logged',
 'When the process is killed at any instant of a log write, a close or while blocks are handed out and freed, the memory store opens again with every logged entry that was not freed, with its value, and without any entry whose delete was logged.',
 ['crash_points', 'histories', 'inputs'], 'kill before any file operation of a log write, close or drain after any history (within the bounds)',
 'No test kills the process or frees blocks out of order.',
 ['memdb/db_internal.go', 'memdb/recovery.go', 'memdb/tiny_log.go', 'memdb/db.go', 'wal/file.go', 'wal/writer.go', 'wal/reader.go'],
 [('release of logs', 'memdb/db_internal.go'), ('order of time blocks', 'memdb/tiny_log.go')], BASE + CRASH)

SRV = " The protocol buffer library is an ideal codec over the field tags of the generated message code."

prop('C21', 'Every protocol message arrives as it was sent',
 'A message written to a server connection as bytes is read back as a message of the same kind with every field equal: ids, delivery mode and delay, flags, keys, topics, payloads, contract and session data, in the same order for messages with several entries. Acknowledgements and control messages keep their kind, id and content. Reading one message consumes exactly its bytes, so the message after it is read correctly as well.',
 ['inputs'], 'every message kind of the protocol with every field value (within the bounds), followed by another message',
 'The tests encode one message of a few kinds with fixed values; a swapped, truncated or defaulted field shows only for other values, and a wrong length only in the message that follows.',
 ['server/internal/net/message.go', 'server/utp/message.go', 'server/utp/connect.go', 'server/utp/publish.go', 'server/utp/relay.go', 'server/utp/subscribe.go', 'server/utp/flow_control.go'],
 [('fixed header with kind and length', 'server/internal/net/message.go'), ('pack and unpack per kind', 'server/utp')], BASE + SRV)

prop('C22', 'No bytes from a client crash the server\'s decoders',
 'Whatever bytes a client sends, reading them as protocol messages ends with a message or an error, never with a panic or a read beyond what was sent, and a key text taken from a client\'s topic either decodes to a key or is refused.',
 ['inputs'], 'every byte stream and key text up to the length bound',
 'Tests send well-formed messages; a panic needs a particular malformed length, kind or encoding.',
 ['server/internal/net/message.go', 'server/utp/message.go', 'server/internal/message/security/key.go'],
 [('reading of one message from a stream', 'server/internal/net/message.go'), ('decoding of a key', 'server/internal/message/security/key.go')], BASE + SRV)

prop('C23', 'An access key opens its own topic with its own permissions only',
 'A key generated for a contract, topic and set of permissions decodes to exactly these permissions and is valid for that topic, and for no other topic; the key of the topic "..." is valid for every topic. The text in front of a topic is taken as its key and options after the question mark are no part of the topic. Every byte of a topic counts for its key.',
 ['inputs'], 'every topic text, contract and permission set up to the length bound, every other topic',
 'Tests decode a few fixed keys; a key that opens another topic or gains a permission needs particular bit patterns.',
 ['server/internal/message/security/key.go', 'server/internal/pkg/hash/hash.go', 'server/internal/pkg/encoding/base32.go'],
 [('permissions and topic hash in the key bytes', 'server/internal/message/security/key.go'), ('key text in front of a topic', 'server/internal/message/security')], BASE + ' The 32-bit topic hash is treated as collision free in the key harnesses; two topics with the same hash are not told apart by the real one.')

prop('C24', 'Message ids on a connection are valid, unused and answered for',
 'Every id handed out for an outgoing message lies between 1 and 65535 and differs from the ids still in use, including those resumed from an earlier session, also when the numbers wrap around. The kind stored with an id is found until the id is freed, and freeing one id leaves the others.',
 ['histories', 'inputs'], 'every point of the id sequence and every set of resumed ids (within the bounds)',
 'The wrap-around after 65535 messages and a collision with a resumed id do not occur in a short test.',
 ['server/internal/message/messageids.go'],
 [('next id', 'server/internal/message/messageids.go')], BASE)

prop('C25', 'The cluster ring places every topic the same way on every node',
 'The node a key belongs to depends only on the set of nodes and on the hash function, not on the order or grouping in which the nodes were added, and so does the ring signature; it is always one of the nodes. Adding a node moves keys only to the new node.',
 ['inputs', 'histories'], 'every order and grouping of node additions, every hash function (its values are arbitrary, equal values included)',
 'The tests use one good hash function and a fixed order; placement differs between nodes only when hash values collide or the order changes.',
 ['server/internal/pkg/hash/ringhash.go'],
 [('ring of replica hashes', 'server/internal/pkg/hash/ringhash.go')], BASE)

prop('C26', 'The listener tells protocols apart by exactly the given prefixes',
 'A connection is given to a prefix matcher exactly when the bytes it sends start with one of the matcher\'s texts, or are equal to one of them where a whole match is asked for, whatever the texts have in common and however few bytes arrive.',
 ['inputs'], 'every set of texts and every byte stream up to the length bound',
 'Tests try a few methods; a wrong split of common prefixes shows only for particular sets of texts.',
 ['server/internal/net/listener/patricia.go', 'server/internal/net/listener/listener.go'],
 [('prefix tree', 'server/internal/net/listener')], BASE)

prop('C27', 'A connection over a message stream neither loses nor reorders bytes',
 'Bytes written to a connection that runs over a stream of messages are read at the other end once each and in order, whatever the sizes of the writes, of the messages and of the read buffers.',
 ['inputs', 'histories'], 'every sequence of write sizes, message sizes and read buffer sizes, and all contents (within the bounds)',
 'There is no test with read buffers smaller than the messages or writes larger than them.',
 ['server/common/conn.go', 'server/common/encode.go'], [('read offset into a message', 'server/common/conn.go'), ('writes cut into messages', 'server/common/encode.go')], BASE)

prop('C28', 'A client id is recognised as issued, and nothing else passes for one',
 'A client id issued by a server decodes to the same epoch, contract, owner number and permissions; a changed or cut text, or one issued under another server key, does not decode to a different id. A primary id issues secondary ids of the same contract that are not primary themselves.',
 ['inputs'], 'all field values, all single changes and cuts of the issued text, all other keys',
 'Tests decode one id; acceptance of a forged one or a swapped field needs particular values.',
 ['server/internal/pkg/uid/clientid.go', 'server/internal/pkg/crypto/mac.go'],
 [('fields of the id', 'server/internal/pkg/uid/clientid.go'), ('encryption with authentication', 'server/internal/pkg/crypto')], BASE + ' The AEAD primitive of the standard library is an ideal one.')

RACE = BASE + ' One of the two operations runs, as far as it can without waiting for the other, at any one statement of the other one (in the files listed), or after it; statements are atomic but for maps (two uses of a map at once, one of them a change, are a violation). The bug classes that need two or more such switches are outside the bounds.'

prop('C30', 'Operations of the database that run at once do not disturb each other',
 'Put, batch, delete, get, sync and the log writer may run at the same time from several goroutines: each has the effect it would have alone. No acknowledged message is lost or doubled, no deleted message returns, a get returns every message that is live throughout with its content, nothing fails, panics or waits forever, and closing the database while an operation runs keeps what was acknowledged.',
 ['schedules', 'histories', 'inputs'], 'every pair of operations, every statement of the one at which the other starts, after every short history (within the bounds)',
 'Tests run operations one after another or at random times; a lost update needs a switch between two particular statements.',
 ['db.go', 'db_internal.go', 'db_sync.go', 'batch.go', 'trie.go', 'time_window.go', 'block_reader.go', 'block_writer.go', 'time_window_writer.go', 'memdb/db.go', 'memdb/db_internal.go', 'memdb/tiny_log.go', 'memdb/batch.go'],
 [('entry moves from memory to files', 'db_sync.go'), ('put and time window', 'db.go'), ('topic trie', 'trie.go')], RACE)

prop('C31', 'Operations of the memory store that run at once do not disturb each other',
 'Put, delete, batch and get on the memory store and its log writer may run at the same time: each has the effect it would have alone, an acknowledged entry is written to the log by the next log write at the latest and is there after a kill, a deleted one stays deleted, and nothing panics or waits forever.',
 ['schedules', 'histories', 'inputs'], 'every pair of operations, every statement of the one (the log writer\'s goroutines included) at which the other starts (within the bounds)',
 'Tests use the store from one goroutine; an entry missing from the log needs a switch inside the log writer and a kill.',
 ['memdb/db.go', 'memdb/db_internal.go', 'memdb/tiny_log.go', 'memdb/batch.go', 'memdb/block.go', 'wal/writer.go', 'wal/file.go'],
 [('log write of a time block', 'memdb/db_internal.go'), ('start of a time block', 'memdb/tiny_log.go')], RACE)
