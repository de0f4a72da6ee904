# run by gdb: prints the layouts and prototypes asked for in the environment as JSON
import gdb, json, os
req = json.load(open(os.environ['LAYOUT_REQ']))


def kind(t, depth=0):
    t = t.strip_typedefs()
    if t.code == gdb.TYPE_CODE_VOID:
        return ['void']
    if t.code == gdb.TYPE_CODE_PTR:
        u = t.target().strip_typedefs()
        if u.code == gdb.TYPE_CODE_FUNC:
            return ['fn', proto(u)] if depth < 3 else ['ptr']
        return ['ptr']
    if t.code in (gdb.TYPE_CODE_INT, gdb.TYPE_CODE_ENUM, gdb.TYPE_CODE_BOOL, gdb.TYPE_CODE_CHAR):
        return ['int', t.sizeof, bool(t.is_signed)]
    if t.code in (gdb.TYPE_CODE_STRUCT, gdb.TYPE_CODE_UNION):
        return ['struct', t.sizeof, t.tag or '']
    return ['other', t.sizeof]


def proto(t):
    return [kind(t.target(), 1)] + [kind(f.type, 1) for f in t.fields()]


out = {'structs': {}, 'functions': {}}
for s in req['structs']:
    try:
        t = gdb.lookup_type('struct ' + s)
        out['structs'][s] = [t.sizeof, [[f.name, f.bitpos // 8, f.type.sizeof, kind(f.type)] for f in t.fields()]]
    except gdb.error as e:
        out['structs'][s] = str(e)
for f in req['functions']:
    try:
        out['functions'][f] = proto(gdb.parse_and_eval(f).type)
    except gdb.error as e:
        out['functions'][f] = str(e)
json.dump(out, open(os.environ['LAYOUT_OUT'], 'w'))
