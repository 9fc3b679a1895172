#!/usr/bin/env python3
"""writes harness/checks.json and MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# property: (technique, what counts as distinct and non-trivial, least counters, note, extra assumptions)
G = 'runtime monitoring: '
CH = {
 'C01': (G + 'reference-encoder oracle on every serialised message',
         'one per (message name, repeat count of each block, length of the datagram) serialised and compared byte for byte with the reference encoder',
         {'serialised': 1000, 'type:Fixed': 3, 'type:Variable2': 50, 'type:LLUUID': 900, 'type:IPPORT': 7}, []),
 'C02': (G + 'reference-encoder oracle on every decoded datagram, round-trip monitor',
         'one per (message name, repeat count of each block, length of the datagram) decoded and compared field by field',
         {'decoded': 1000, 'reserialised': 400, 'PacketAck': 1}, []),
 'C03': (G + 'fault injection into message structure, wire tap on the dispatcher',
         'one per (message name, kind of misfit)',
         {'misfits': 350, 'refused by MessageSerializationError': 100}, []),
 'C04': (G + 'hostile-input workload (truncation, bit flips, splices, random bytes) with outcome and after-effect monitors',
         'one per (kind of damage, message name, length) decoded, and per (kind of damage, message it still decoded to)',
         {'hostile datagrams': 1000, 'prefixes': 3000, 'probes': 500, 'outcome message': 300, 'outcome error': 300, 'outcome nothing': 300}, []),
 'C05': (G + 'differential monitor: zero-coded against plain datagram',
         'one per (message name, longest zero run, body length, extra header length, number of acks)',
         {'pairs': 500, 'with zeros': 400, 'longest run >255': 30}, []),
 'C06': (G + 'reference-decoder oracle on header fields, wire tap on outgoing datagrams',
         'one per (message name, flags, extra header length, number of acks)',
         {'decoded': 350, 'sent': 350, 'acks decoded': 10000, 'acks sent': 20000, 'through the dispatcher': 100}, []),
 'C07': (G + 'differential monitor: codec with a history against a fresh one, mutation watch on earlier results',
         'one per (kind of input, message name, outcome)',
         {'decoded after a change': 60, 'decoded twice': 250, 'serialised twice': 150, 'skipped': 70, 'registered later': 60, 'kept messages': 1000, 'changed and serialised': 100}, []),
 'C08': (G + 'flavor-table oracle on codec, dispatcher and manager, wire tap and handler tap',
         'one per (message name, banned or not, table given or built in, through a manager)',
         {'banned tried': 250, 'permitted tried': 600, 'managers': 4, 'given tables': 9, 'built-in table': 3}, []),
 'C09': (G + 'trace monitor over the wire tap (packet ids, addresses, flags)',
         'one per (kind of sending, number of addresses, last packet id of the address, message name) of a datagram sent',
         {'datagrams out': 1000, 'retransmissions': 150, 'op unusable': 60, 'op malformed': 60, 'op recv': 400, 'datagrams of long sessions': 65537, 'crowds': 1}, []),
 'C10': (G + 'conservation monitor: ids due against ids acknowledged per address',
         'one per (kind of datagram, packet id, acks then due to the address) of an ack owed',
         {'acks out': 5000, 'rounds': 100, 'due: banned': 40, 'due: skipped': 90, 'due: registered': 80, 'due: PacketAck': 100, 'crowds': 1}, []),
 'C11': (G + 'reference-state monitor over outstanding packets after every step',
         'one per (kind of acking datagram, acks that hit, acks in it, packets then outstanding) of acks received',
         {'acks that hit': 600, 'acks in: PacketAck': 1000, 'acks in: skipped': 150, 'acks in: banned': 80, 'reliable sent': 500, 'crowds': 1, 'many outstanding': 500}, []),
 'C12': (G + 'exactly-n monitor over retransmissions seen by the wire tap',
         'one per (message name, retries left, packets sent so far) of a retransmission',
         {'retransmissions': 600, 'acked with retries left': 70, 'rounds': 300, 'patient senders': 3}, []),
 'C13': (G + 'online trace checker over handler calls under re-entrant subscription changes and injected exceptions',
         'one per (nesting depth, handlers called)',
         {'handler calls': 13000, 'raising notify': 500, 'unsubscribe': 2000, 'clear': 600, 'crowds of subscribers': 8}, []),
 'C14': (G + 'online trace checker over subscriber calls, direct, received and sent',
         'one per (path, message name, number of subscribers, nesting depth, raised or not)',
         {'handled directly': 300, 'handled received': 300, 'handled sent': 37, 'raising subscribers': 22, 'registered again': 290, 'banned': 42, 'crowds of subscribers': 2}, []),
 'C15': (G + 'exactly-once monitor over events delivered, scripted server with fault injection, virtual clock',
         'one per (message name, repeat count of each block) of an event delivered',
         {'events delivered': 340, 'answers: raise': 42, 'broken events': 90, 'raising handlers': 46, 'stopped by a handler': 4, 'large responses': 1}, []),
 'C16': (G + 'protocol monitor over requests and virtual times, stops at injected points',
         'one per (kind of answer, first poll or not, late or not) of a poll and per (sequence of answers, stop) of a history',
         {'stops': 24, 'polls with ack': 60, 'polls without ack': 25, 'final acknowledgements': 17, 'stopped during a poll': 10, 'streaks of failures': 8}, []),
 'C17': (G + 'exactly-once and ordering monitor over messages sent by the manager, virtual clock',
         'one per (message name, reliable or not, unsendable messages skipped before it, messages waiting) sent',
         {'enqueued': 660, 'enqueued with priority': 110, 'enqueued while sending': 300, 'unsendable': 190, 'forwarded': 20, 'bursts': 1, 'gave way in a send': 800, 'sent at once': 40, 'enqueued while a send gave way': 300, 'changed and enqueued again': 40}, []),
 'C18': (G + 'liveness and delivery monitor over the manager loop under hostile datagrams, virtual clock',
         'one per (message name, its block repeat counts) delivered, and per life cycle (timing, how it was constructed)',
         {'delivered': 400, 'acked reliable': 310, 'life cycles': 5, 'stopped by a handler': 3, 'stopped twice': 7}, []),
 'C19': (G + 'request/response oracle over a recording REST client with injected failures',
         'one per (operation, answer kind, content type, headers, status, type of payload)',
         {'GET good': 49, 'POST good': 130, 'POST_CUSTOM good': 98, 'GET http': 30, 'POST http': 90, 'POST malformed': 40, 'payloads used again': 200, 'headers used again': 500}, []),
 'C20': (G + 'request/response oracle over a recording REST client',
         'one per (set of names, size of the answer)',
         {'requests': 570, 'capabilities': 7900, 'capabilities used': 1000, "asked for the seed's own name": 40, 'asked for a name twice': 40, 'lists used again': 250}, []),
 'C21': (G + 'round-trip monitor with an independent LLSD writer and document mutation',
         'one per (shape of the value, length of its document), and per falsy document',
         {'round trips': 600, 'documents': 600, 'falsy documents': 140, 'refused: prefix': 1800, 'refused: bad byte': 600, 'binary documents': 600, 'notation documents': 600, 'changed and serialised': 500}, []),
 'C22': (G + 'generator-as-oracle: templates are generated as model and text, parse results compared with the model',
         'one per (frequency, trust, encoding, deprecation, blocks with their kinds, counts, field types and sizes) of a message parsed',
         {'templates': 90, 'messages': 1500, 'rejected': 9, 'shipped': 1, 'listings': 10}, []),
 'C23': (G + 'generator-as-oracle over lookups, wire tap under generated templates',
         'one per (entry point, frequency, shape of the message)',
         {'found': 1000, 'absent': 8000, 'messages coded': 170, 'dispatchers': 3, 'managers': 2}, []),
 'C24': (G + 'reference arithmetic (IEEE 754, 128 bit integers) on every result',
         'one per (type, bytes of the value, offset)',
         {'UUIDs': 1300, 'vectors': 1300, 'quaternions': 1300, 'three components, no W': 300, 'random UUIDs': 170}, []),
 'C25': (G + 'reference functions on every result',
         'one per (value or byte string, range)',
         {'renderings': 750, 'packed ranges': 750, 'near zero': 670, 'quaternions': 750, 'bad hex': 750}, []),
 'C26': (G + 'reference-model monitor over message containers, aliasing watch',
         'one per shape (block names and their repeat counts) of the messages alive together, and per message name decoded',
         {'messages': 1200, 'blocks added': 5900, 'rendered a built': 300, 'rendered a received': 100, 'rendered an event queue': 100, 'blocks added again': 2000}, []),
 'C27': (G + 'reference-model monitor over builder histories, aliasing watch',
         'one per shape of a built result',
         {'built': 6400, 'fields overwritten': 1900, 'results changed by the caller': 2100}, []),
 'C28': (G + 'byte-for-byte oracle on real loopback sockets',
         'one per (peers, datagrams kept, datagrams sent) of a history',
         {'received': 470, 'sent': 86, 'failed receives': 80, 'timeouts': 9, 'refused': 83}, []),
 'C29': (G + 'byte-for-byte oracle against a recording loopback HTTP server',
         'one per (method, path, status, lengths of the bodies, headers)',
         {'GET': 45, 'POST': 90, 'errors': 45, 'responses': 90, 'headers used again': 200, 'kept responses': 400}, []),
 'C30': (G + 'differential trace monitor: same workload under different settings',
         'one per (workload, switches, log level, length of the trace), and per settings object',
         {'settings objects': 260, 'variants of dispatcher': 14, 'variants of manager': 13, 'variants of capabilities': 14, 'deliveries switched off': 6}, []),
 'C31': (G + 'timing monitor under a virtual clock with concurrent coroutines',
         'one per (duration, way of running, time taken, clock step, stopped or not)',
         {'full': 70, 'stopped': 23, 'run again': 29, 'at once': 49, 'in the main loop': 7, 'turns of others': 5900, 'long waits': 15}, []),
 'C32': (G + 'end-to-end conservation monitor between library endpoints over a recorded network with injected loss and duplication',
         'one per (managers or dispatchers, message name, reliable or retries, shape or copies and losses) of a message that arrived',
         {'messages delivered': 300, 'reliable messages acked': 100, 'reliable messages': 150, 'that were lost at first': 60, 'lost': 100, 'delivered twice': 20, 'datagrams of bystanders': 60, 'floods': 2}, []),
 'C33': (G + 'reference-model monitor over circuits and counters, wire tap, failing transport',
         'one per set of live circuits with their last ids, ids received as reliable and ids sent as reliable',
         {'circuits made': 100, 'removed': 60, 'failed sends': 60, 'sends': 400, 'received': 500, 'retransmissions': 30, 'crowds': 1, 'removed meanwhile': 60}, []),
 'C34': (G + 'struct-oracle on every packed and unpacked value',
         'one per (type, byte order, packed bytes, offset)',
         {'unpacked': 4000, 'too short': 1000, 'packed LLVector3': 50, 'packed IPPORT': 50, 'packed LLQuaternion': 50, 'changed and packed': 100, 'equal values': 50}, []),
 'C36': (G + 'schedule-randomising stress with conservation monitors over the wire tap',
         'one per (sends suspended at once, ack rounds, addresses, acks received) of a history',
         {'datagrams': 900, 'gave way in a send': 900, 'gave way after a send': 300, 'received during a send': 150, 'retransmissions': 100, 'overlapping sends': 20}, []),
 'C37': (G + 'per-notification trace monitors over handlers suspended and resumed among other coroutines, virtual clock',
         'one per (what is notified, number of subscribers, handlers suspended at once, exception or not) notified',
         {'notifications': 3000, 'calls': 3000, 'gave way in a handler': 1500, 'overlapping handlers': 100, 'nested': 50, 'exceptions of handlers': 20, 'received': 1000, 'sent': 500}, []),
 'C38': (G + 'request/response matching monitor over a REST client that suspends its callers, virtual clock',
         'as C19, and one per (requests open at once, capabilities)',
         {'calls': 900, 'gave way in a request': 700, 'overlapping requests': 100, 'seeds asked': 50}, []),
 'C39': (G + 'noninterference monitor: the trace of each component among others, whose steps run inside its callbacks, against its trace alone',
         'one per (component, trace of it)',
         {'trace entries': 3000, 'steps inside others': 300, 'shared host': 2000, 'recorded earlier': 60, 'compared: dispatcher': 50, 'compared: event queue': 40}, []),
 'C35': (G + 'reference-table oracle over error objects raised, caught and rendered',
         'one per (error, number of parameters, types of their values)',
         {'made': 1500, 'rendered': 1500}, []),
}
NOTE = ('held on every execution observed: the seeded workloads of this check run the real code under Jython with the monitors on; '
        'nothing is claimed beyond the executions the evidence file counts')

conf = {'default': {'shards': {'quick': 4, 'thorough': 7}, 'budget_s': {'quick': 120, 'thorough': 600}, 'deadline_s': {'quick': 800, 'thorough': 860}},
        'assumptions': ['Jython 2.7.3 with a thread-backed greenlet stand-in executes the code as CPython 2 with greenlets would']}
for p in sorted(CH):
    tech, rule, need, ass = CH[p]
    conf[p] = {'rule': rule, 'need': need}
    if ass:
        conf[p]['assumptions'] = ass
json.dump(conf, open(os.path.join(ROOT, 'harness', 'checks.json'), 'w'), indent=1, sort_keys=True)
man = {'version': 1, 'setup_cmd': 'true',
       'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                   'technique': CH[p][0], 'level': 'exploration', 'level_note': NOTE} for p in sorted(CH)],
       'not_applicable': []}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
