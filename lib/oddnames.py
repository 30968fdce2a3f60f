"""Names that mean something to a back end, at every place where a configuration has names."""
import os, re
import vf

WORDS = """
a abs abstract accept alignas alignof any apply arg args arguments array assert asserts async
atomic await b b64 bcrypt bigint bind bool boolean buf buffer c call caller catch cb class
clear close col cols complex connect constexpr constructor count cp crypt ctx custom d data
date db debugger declare div document dosomething e element entries eq errno error eval event
exit exp export exports extends false fill fillfield finally first fork free freeq function
gamma get global hasownproperty head html htmlelement i i386 imaginary implements import inc
infer infinity init instanceof int64 interface isdigit iterate j j0 j1 jn jsmn jsmninit
jsmnparser jsmntok jsmntype json kcgi keyof kjsonreq kpair kreq labs lang last lbl len length
let link list listen log malloc map math max memset min module n name namespace nan never new
next node nodelist noreturn nullptr num number o obj object objs off ok open ort ortctx ortdb
ortns override p package parm parms parse parser pid pipe pos prev primitive printf private
process promise protected prototype public q r rand random rc read readonly remove require res
ret rindex role roles rows s search self send sig signal sin size sleep sqlbox sqlite ssize
stat stderr stdin stdout stmt string strings strlen strtol strtoll super symbol sync system sz
t tail this thread throw time tm tmp tok toks tostring tqe tqh true try type uid uint64 uint8
undefined unfill unknown unlink v val valid validator valueof var w wait weakmap window write x
y y0 y1 yield yn z
""".split()

MAIN = 'struct main { field id int rowid; field v %s; field n %s null; insert; search id: name zzg; '\
       'list v: name zzl; list n isnull: name zzm; update v: id: name zzu; };\n'


def structs(ws):
    return MAIN % ('text', 'text') + ''.join(
        'struct %s { field id int rowid; field mainid:main.id int null; field msub struct mainid; '
        'field v text; insert; search id: name zzg; list: name zzl; iterate: name zzi; '
        'count: name zzc; update v: id: name zzu; update: id; delete id: name zzd; };\n' % w
        for w in ws)


def fields(ws):
    return 'struct main { field id int rowid; field sube int; insert; search id: name zzg;\n' + ''.join(
        'field %s int null limit gt 0; list %s isnull: name zl%d; list %s; iterate %s gt: name zi%d; '
        'count %s eq: name zc%d; update %s,sube: id: name zu%d; update %s inc:; delete %s eq: name zd%d;\n'
        % (w, w, i, w, w, i, w, i, w, i, w, w, i) for i, w in enumerate(ws)) + '};\n'


def enums(ws):
    return ''.join('enum %s { item zza jslabel "x"; item zzb; };\n' % w for w in ws) + \
        ''.join(MAIN.replace('main', 'zzmain%d' % i) % (('enum ' + w,) * 2) for i, w in enumerate(ws))


def items(ws):
    return 'enum zze { item zzz; %s };\n' % ''.join('item %s jslabel "x"; ' % w for w in ws) + \
        ''.join(MAIN.replace('main', 'zzmain%d' % i).replace('; field n', ' default %s; field n' % w)
                % (('enum zze',) * 2) for i, w in enumerate(ws))


def bits(ws):
    return enums(ws).replace('enum ', 'bitfield ', len(ws)).replace('enum ', 'bits ') \
        .replace('item zza', 'item zza 0').replace('item zzb', 'item zzb 63')


def bitems(ws):
    return 'bitfield zzf { %s };\n' % ''.join(
        'item %s %d jslabel "x"; ' % (w, i) for i, w in enumerate(ws)) + MAIN % (('bits zzf',) * 2)


def queries(ws):
    return 'struct main { field id int rowid; field v text; insert;\n' + ''.join(
        'search id: name %s;\n' % w for w in ws) + '};\n'


def roles(ws):
    return 'roles { %s };\n' % ''.join('role %s { role zz%d; };\n' % (w, i) for i, w in enumerate(ws)) + \
        'struct main { field id int rowid; field v text; insert; search id: name zzg;\n' + ''.join(
            'roles %s { insert; search zzg; noexport v; };\n' % w for w in ws) + '};\n'


PLACES = dict(struct=structs, field=fields, enum=enums, item=items, bits=bits, bitem=bitems,
              query=queries, role=roles)

# an item like a role
CLASH = 'roles { role zzr; };\nenum role { item zzr; };\n' + MAIN % (('enum role',) * 2)


def known(listed):
    """{(place, back end): names} of the known findings."""
    out = {}
    for key, text in listed:
        m = re.match(r'names\.(\w+)\.(\w+)$', key)
        if m and ': ' in text:
            out[m.group(1), m.group(2)] = text.split(' -- ')[0].split(': ')[1].split()
    return out


def taken(place):
    """Those of the words that may be names there."""
    def one(w):
        p = os.path.join(vf.scratch(), 'odd.%s.%s.ort' % (place, w))
        open(p, 'w').write(PLACES[place]([w]))
        rc = vf.run([vf.tool('ort'), p])[0]
        os.unlink(p)
        return rc == 0
    return [w for w, ok in zip(WORDS, vf.pmap(one, WORDS)) if ok]
