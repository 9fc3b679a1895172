"""C22: the template parser against the definitions that a template text was generated from"""
import os, sys, tempfile
from StringIO import StringIO
import vcore, ref, tmplgen

CASES = {'quick': 700, 'thorough': 12000}


def setup(ctx):
    vcore.boot()
    fd, ctx.path = tempfile.mkstemp('.msg')
    os.close(fd)
    from pyogp.lib.base.message.template_parser import MessageTemplateParser
    from pyogp.lib.base.message import template_parser
    from pyogp.lib.base.message.data import msg_tmpl
    ctx.M = template_parser
    from pyogp.lib.base import exc
    ctx.P, ctx.exc, ctx.shipped = MessageTemplateParser, exc, msg_tmpl
    f = open(ref.TEMPLATE)
    ctx.text = f.read()
    f.close()


def printed(f, *a):
    """the lines that a call prints, as words"""
    old, sys.stdout = sys.stdout, StringIO()
    try:
        f(*a)
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = old
    return [l.split() for l in text.split('\n') if l.strip('= ')]


def listings(ctx, p, msgs):
    """what the module prints of a parsed template"""
    want, names, types = [], [], set()
    for m in msgs:
        w = tmplgen.wanted(m)
        want.append([w[0], w[1], str(w[2]), w[3], w[4], w[5], w[6]])
        names.append([str(len(names) + 1), w[0], w[1]])
        for b in w[7]:
            want.append([b[0], b[1], str(b[2])])
            for f in b[3]:
                want.append([f[0], f[1]])
                types.add(f[1])
    got = printed(ctx.M.print_packet_list, p.message_templates)
    ctx.check(got == want, 'listing', 'the list of messages has %s where %s is expected', [g for g, w in zip(got, want) if g != w][:1] or len(got), [w for g, w in zip(got, want) if g != w][:1] or len(want))
    got = printed(ctx.M.print_packet_names, p.message_templates)
    ctx.check(got[:len(names)] == names, 'listing', 'the list of names is %s', got[:20])
    counts = dict([(g[0], int(g[1])) for g in got[len(names):] if len(g) == 2])
    for f in ('low', 'medium', 'high', 'fixed'):
        ctx.check(counts.get(f) == len([m for m in msgs if m.freq.lower() == f]), 'listing', '%s messages of frequency %s are counted', counts.get(f), f)
    got = ctx.M.get_all_types(p.message_templates)
    ctx.check(got == sorted(types), 'types', 'the types of all fields are %s instead of %s', got, sorted(types))
    ctx.count('listings')


def teardown(ctx):
    os.remove(ctx.path)


def compare(ctx, p, msgs, version, what):
    got = [tmplgen.parsed(t) for t in p.message_templates]
    names = [t.get_name() for t in p.message_templates]
    ctx.check(names == [m.name for m in msgs], 'messages', '%s: the messages %s instead of %s', what, names[:20], [m.name for m in msgs][:20])
    for m, t, lt in zip(msgs, got, p.message_templates):
        w = tmplgen.wanted(m)
        ctx.check(t[:7] == w[:7], 'header', '%s: message %s parsed as %s instead of %s', what, m.name, t[:7], w[:7])
        ctx.check(len(t[7]) == len(w[7]), 'blocks', '%s: message %s has the blocks %s instead of %s', what, m.name, [b[0] for b in t[7]], [b[0] for b in w[7]])
        for a, b in zip(t[7], w[7]):
            ctx.check(a[:3] == b[:3], 'block', '%s: block %s of %s parsed as %s', what, b[:3], m.name, a[:3])
            ctx.check(a[3] == b[3], 'fields', '%s: block %s of %s has the fields %s instead of %s', what, b[0], m.name, a[3], b[3])
            ctx.count('fields', len(b[3]))
        for b in m.blocks:
            lb = lt.get_block(b.name)
            ctx.check(lb is lt.get_blocks()[m.blocks.index(b)], 'by-name', '%s: get_block(%s) of %s is another block', what, b.name, m.name)
            for k, f in enumerate(b.fields):
                ctx.check(lb.get_variable(f.name) is lb.get_variables()[k], 'by-name', '%s: get_variable(%s) of %s is another field', what, f.name, m.name)
        ctx.distinct(m.freq, m.trust, m.encoding, m.deprecation, [(b.kind, b.number, [(f.type, f.size) for f in b.fields]) for b in m.blocks])
    ctx.check(p.version == float(version), 'version', '%s: version %s instead of %s', what, p.version, version)
    ctx.check(p.count == len(msgs), 'count', '%s: %s messages counted instead of %s', what, p.count, len(msgs))
    ctx.count('templates')
    ctx.count('messages', len(msgs))


def case(ctx, i, rng):
    if i % 50 == 7:
        # the shipped template, from its own file object wherever that is positioned
        v, msgs = ref.parse_template(ctx.text)
        ctx.shipped.seek(rng.randrange(10000))
        p = ctx.P(ctx.shipped)
        compare(ctx, p, msgs, v, 'the shipped template')
        listings(ctx, p, msgs)
        ctx.count('shipped')
        return
    if i % 50 == 9:
        # the shipped template in another order and layout
        v, msgs = ref.parse_template(ctx.text)
        rng.shuffle(msgs)
        msgs = msgs[:100]
        t = tmplgen.text(rng, msgs, '2.0')
        compare(ctx, ctx.P(StringIO(t)), msgs, '2.0', 'the shipped messages, rewritten')
        ctx.count('rewritten')
        return
    msgs, version, text = tmplgen.generate(rng, rng.choice([1, 1, 2, 5, 12, 30]) if i % 60 != 30 else rng.choice([90, 200, 450]))
    ctx.note(text[:3000])
    if i % 5 == 4:
        broken(ctx, rng, text, msgs)
        return
    if i % 3 == 0:
        f, path = tmplgen.write(text, rng.randrange(2) and ctx.path or None)
        try:
            f.read(rng.randrange(50))
            p = ctx.P(f)
            compare(ctx, p, msgs, version, 'a generated template in a file')
            # read again
            compare(ctx, ctx.P(f), msgs, version, 'a template file parsed again')
            compare(ctx, p, msgs, version, 'an earlier parser')
        finally:
            f.close()
            if path != ctx.path:
                os.remove(path)
    else:
        p = ctx.P(StringIO(text))
        compare(ctx, p, msgs, version, 'a generated template')
        if i % 4 == 1:
            listings(ctx, p, msgs)
            compare(ctx, p, msgs, version, 'a template listed')
    ctx.sample('%d messages, version %s: %s' % (len(msgs), version, vcore.short(repr(text))))


def broken(ctx, rng, text, msgs):
    """a field whose size is no positive number is rejected"""
    r = vcore.attempt(ctx.P, None)
    ctx.check(r[0] == 'exc' and isinstance(r[1], ctx.exc.MessageTemplateNotFound), 'missing', 'no template at all: %s', r[1])
    sized = [f for m in msgs for b in m.blocks for f in b.fields if f.type in ('Fixed', 'Variable')]
    if not sized:
        return
    f = rng.choice(sized)
    f.size = rng.choice([0, 0, '00', '', 'x', -1, -5])
    text = tmplgen.text(rng, msgs, '2.0')
    ctx.note('with', f.name, f.type, f.size, text)
    r = vcore.attempt(ctx.P, StringIO(text))
    ctx.check(r[0] == 'exc', 'size-accepted', 'a %s field of size %s is accepted', f.type, f.size)
    ctx.check(isinstance(r[1], ctx.exc.MessageTemplateParsingError), 'size-error', 'a %s field of size %s raises %s', f.type, f.size, repr(r[1]))
    ctx.count('rejected')
