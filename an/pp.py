"""Readable dump of a body (debugging aid)."""
def pl(p, fn=None):
    s = '_%d' % p[0]
    for e in p[1]:
        if e == '*': s = '(*%s)' % s
        elif e[0] == 'f': s += '.' + str(e[1])
        elif e[0] == 'd': s += ' as ' + str(e[1])
        elif e[0] == 'i': s += '[_%s]' % e[1]
        else: s += '[' + ','.join(map(str, e)) + ']'
    return s
def op(o):
    return repr(o[1]) if o[0] == 'const' else o[0] + ' ' + pl(o[1])
def rv(r):
    k = r[0]
    if k in ('use', 'repeat'): return k + ' ' + op(r[1])
    if k in ('ref', 'refmut', 'fakeref', 'raw', 'discr'): return k + ' ' + pl(r[1])
    if k == 'cast': return 'cast %s %s as %s' % (r[1], op(r[2]), r[3])
    if k == 'bin': return '%s(%s, %s)' % (r[1], op(r[2]), op(r[3]))
    if k == 'un': return '%s(%s)' % (r[1], op(r[2]))
    if k == 'agg': return 'agg %s %s::%s {%s} [%s]' % (r[1], r[2], r[3], ','.join(map(str, r[4])), ', '.join(op(o) for o in r[5]))
    return str(r)
def body(f, blocks=None, out=print):
    out('fn %s kind=%s async=%s argc=%s %s' % (f.path, f.kind, f.is_async, f.ac, f.loc()))
    for i, t in enumerate(f.ltys): out('  let _%d: %s %s' % (i, t, f.lnames[i] or ''))
    for i, b in enumerate(f.blocks):
        out(' bb%d:' % i)
        for s in b.stmts:
            if s[0] == '=': out('   %s = %s  //%s' % (pl(s[1]), rv(s[2]), s[3]))
            elif s[0] == 'sd': out('   setdiscr %s = %s' % (pl(s[1]), s[2]))
            else: out('   %s %s' % (s[0], s[1]))
        t = b.term
        if t[0] == 'call':
            c = t[1]; out('   %s = call %s(%s) -> %s //%s%s' % (pl(c.dest), op(c.func), ', '.join(op(a) for a in c.args), c.target, c.line, ' exp=%s' % c.exp if c.exp else ''))
        elif t[0] == 'switch': out('   switch %s %s else %s' % (op(t[1]), t[2], t[3]))
        elif t[0] == 'drop': out('   drop %s -> %s' % (pl(t[1]), t[2:]))
        elif t[0] == 'assert': out('   assert %s' % (t[1:],))
        elif t[0] == 'yield': out('   yield -> %s' % (t[2:],))
        else: out('   %s' % (t,))
