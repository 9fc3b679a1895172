#!/usr/bin/env python3
"""rewrites the table of seeded changes at the end of DESIGN.md from /verif/seeded and the notes below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed by the check as it was when the change was planted -> what was strengthened
LATE = {
 'c01-negative-zero': 'negative zeros among the values, messages with rare field types oftener',
 'c03-twice-as-many': 'blocks of a fixed number supplied whole numbers of times too often',
 'c08-empty-table': 'empty tables, and entries without a flavor',
 'c23-empty-list': 'dictionaries of no templates',
 'c31-days': 'waits of up to eight days',
 'c16-forgets': 'streaks of up to 150 failed polls',
 'c34-cached': 'packers are used throughout, and zeros of both signs given to one',
 'c19-same-payload': 'payloads are changed by the caller and posted again',
 'c07-same-message': 'messages are changed and serialised again',
 'c24-bytes-kept': 'values are changed and converted again',
 'c21-by-identity': 'values are changed and serialised again',
 'c07-same-datagram': 'results are changed by the caller and the datagram is decoded again',
 'c21-memo': 'values are changed by the caller and the document is read again',
 'c11-wrapped': 'thousands of packets are outstanding at once, and hundreds of addresses are in use',
 'c12-ten-tries': 'senders of up to 300 retries',
 'c15-hundred-events': 'responses of up to 300 events',
 'c16-backs-off': 'streaks of up to 20 failures',
 'c17-backlog': 'bursts of up to 600 messages',
 'c26-same-block': 'a block is added again, to its message or another',
 'c20-twice-asked': "the seed's own name and names asked for twice",
 'c33-lru': 'hundreds of addresses are in use',
 'c09-circuit-on-host': 'Host objects are kept and reused, a second dispatcher shares them',
 'c17-no-twins': 'the same message object is enqueued again',
 'c17-snapshot': 'messages are enqueued in the middle of a batch',
 'c22-big-sizes': 'larger sizes and counts in generated templates',
 'c23-by-file-name': 'template files are rewritten under one path',
 'c11-acks-of-duplicates': 'reliable datagrams are received again with other acks',
 'c09-sixteen-bits': 'a session of 66,000 datagrams',
 'c14-exact-match': 'names in the neighbourhood of registered ones',
 'c17-reliable-once': 'received messages are forwarded',
 'c22-hex-numbers': 'numbers spelled 0X',
 'c32-first-circuit': 'bystanders that are owed acks beside the peer',
 'c21-trimmed': 'binary and notation documents',
 'c16-no-pause': 'the monitor saw it, but formatting its message failed (exit 2); formatting can no longer lose a verdict',
}
exec(open(os.path.join(ROOT, 'tools', 'late.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'late.py')) else None
s = open(os.path.join(ROOT, 'DESIGN.md')).read()
head = '## Seeded changes and what catches them'
if head in s:
    s = s[:s.index(head)]
d = os.path.join(ROOT, 'seeded')
rows = []
for b in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, b, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'], LATE.get(b, '')))
s += head + '''

Each is caught by the quick check of its property (VERIF_SEED=1). The last column says what was strengthened where the
check as it was when the change was planted missed it.

| change | caught by | needs | strengthened |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(s)
print(len(rows))
