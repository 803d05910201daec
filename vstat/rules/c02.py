"""Declarations.  Every legal combination of declaration keywords (direction, kind, sign), width, array
dimensions, initialiser and list position - in item declarations, declaration assignments and ANSI port
lists - is derived in the extracted grammar and the composed value graph of the semantic actions is
compared with the declarations Verilog assigns to it; illegal combinations must end in an error."""
import itertools

from ..sentence import Sentences
from ..spec_grammar import parse_forms
from ..termspec import parse
from .c01 import judge, where_of

ASSUMPTIONS = [
    'net kinds without a syntax-tree class (tri with a direction other than inout, logic with a direction) are not judged',
    'PLY calls one action per reduction of the LALR automaton',
]

TOK = {'input': 'INPUT', 'output': 'OUTPUT', 'inout': 'INOUT', 'wire': 'WIRE', 'reg': 'REG', 'tri': 'TRI',
       'signed': 'SIGNED', 'supply0': 'SUPPLY0', 'supply1': 'SUPPLY1', 'logic': 'LOGIC'}
CLS = {'input': 'Input', 'output': 'Output', 'inout': 'Inout', 'wire': 'Wire', 'reg': 'Reg', 'tri': 'Tri'}
LEGAL = [['input'], ['output'], ['inout'], ['wire'], ['reg'], ['tri'], ['supply0'], ['supply1'],
         ['input', 'wire'], ['output', 'wire'], ['output', 'reg'], ['inout', 'wire'], ['inout', 'tri']]
ILLEGAL = [['signed'], ['input', 'output'], ['input', 'inout'], ['inout', 'output'], ['input', 'reg'], ['inout', 'reg'],
           ['output', 'input', 'wire'], ['input', 'reg', 'signed'], ['output', 'inout', 'reg']]


def fld(types, width, dims=None):
    out = []
    if width:
        out.append('width=w')
    if 'signed' in types:
        out.append('signed=True')
    if dims:
        out.append('dimensions=Dimensions(lengths=[%s])' % ','.join(dims))
    return ''.join(',' + x for x in out)


def decls(types, name, width, dims=None):
    out = []
    for t in types:
        if t in CLS:
            out.append('%s(name=%s%s)' % (CLS[t], name, fld(types, width, dims)))
        elif t.startswith('supply'):
            out.append("Supply(name=%s,value=IntConst(value='%s')%s)" % (name, t[-1], fld(types, width)))
    return out


def variants(types, perms=False):
    """Keyword orders: as written in the standard; all orders in the thorough tier."""
    if perms:
        return [list(x) for x in itertools.permutations(types)]
    return [list(types)]


def forms(thorough):
    out = []
    for base in LEGAL:
        for sg in ([], ['signed']):
            if base[0].startswith('supply') and sg:
                continue
            canon = base + sg
            for types in variants(canon, thorough):
                ts = ' '.join(TOK[t] for t in types)
                for w in (False, True):
                    head = ts + (' width:w' if w else '')
                    shapes = [([('a', None)], ''), ([('a', None), ('b', None), ('c', None)], '')]
                    if not base[0].startswith('supply'):
                        shapes += [([('a', ['x'])], ''), ([('a', None), ('b', ['x', 'y']), ('c', None)], '')]
                    for names, _ in shapes:
                        s = ' COMMA '.join('ID:%s%s' % (n, ''.join(' length:%s' % d for d in (ds or ()))) for n, ds in names)
                        want = sum((decls(canon, n, w, ds) for n, ds in names), [])
                        out.append(('decl', 'item | %s %s SEMICOLON | Decl(list=[%s])' % (head, s, ','.join(want))))
                    # declaration with a continuous assignment
                    if base in (['wire'], ['reg'], ['output', 'reg'], ['output', 'wire'], ['input', 'wire'], ['inout', 'wire']):
                        d = decls(canon, 'a', w)
                        asg = 'Assign(left=Lvalue(var=Identifier(name=a)),right=r%s)'
                        out.append(('declassign', 'item | %s ID:a EQUALS rvalue:r SEMICOLON | Decl(list=[%s])' % (
                            head, ','.join(d + [asg % '']))))
                        out.append(('declassign', 'item | %s DELAY LPAREN expression:d RPAREN ID:a EQUALS rvalue:r SEMICOLON | Decl(list=[%s])' % (
                            head, ','.join(d + [asg % ',ldelay=DelayStatement(delay=d)']))))
                        out.append(('declassign', 'item | %s DELAY identifier:d ID:a EQUALS rvalue:r SEMICOLON | Decl(list=[%s])' % (
                            head, ','.join(d + [asg % ',ldelay=DelayStatement(delay=d)']))))
                    # ports
                    if base[0] in ('input', 'output', 'inout'):
                        def port(n, dims=None, types_=canon, w_=w):
                            x = decls(types_, n, w_, dims)
                            return 'Ioport(first=%s%s)' % (x[0], ',second=%s' % x[1] if len(x) > 1 else '')
                        out.append(('port', 'portlist | LPAREN %s ID:a RPAREN SEMICOLON | Portlist(ports=[%s])' % (head, port('a'))))
                        out.append(('port', 'portlist | LPAREN INPUT ID:z COMMA %s ID:a RPAREN SEMICOLON | Portlist(ports=[Ioport(first=Input(name=z)),%s])' % (
                            head, port('a'))))
                        out.append(('port', 'portlist | LPAREN %s ID:a COMMA ID:b COMMA ID:c COMMA OUTPUT REG ID:d COMMA ID:e RPAREN SEMICOLON | Portlist(ports=[%s,%s,%s,Ioport(first=Output(name=d),second=Reg(name=d)),Ioport(first=Output(name=e),second=Reg(name=e))])' % (
                            head, port('a'), port('b'), port('c'))))
                        if w:
                            out.append(('port', 'portlist | LPAREN %s ID:a length:x length:y COMMA ID:b RPAREN SEMICOLON | Portlist(ports=[%s,%s])' % (
                                head, port('a', ['x', 'y']), port('b'))))
                            out.append(('port', 'portlist | LPAREN INPUT ID:z COMMA %s ID:a length:x COMMA ID:b RPAREN SEMICOLON | Portlist(ports=[Ioport(first=Input(name=z)),%s,%s])' % (
                                head, port('a', ['x']), port('b'))))
    out += parameter_forms()
    for types in ILLEGAL:
        for t in variants(types, thorough):
            ts = ' '.join(TOK[x] for x in t)
            for w in ('', ' width:w'):
                out.append(('illegal', 'item | %s%s ID:a SEMICOLON | REJECT' % (ts, w)))
                out.append(('illegal', 'item | %s%s ID:a EQUALS rvalue:r SEMICOLON | REJECT' % (ts, w)))
                out.append(('illegal', 'portlist | LPAREN %s%s ID:a RPAREN SEMICOLON | REJECT' % (ts, w)))
                out.append(('illegal', 'portlist | LPAREN INPUT ID:z COMMA %s%s ID:a RPAREN SEMICOLON | REJECT' % (ts, w)))
    for ts in ('WIRE', 'REG', 'TRI', 'WIRE SIGNED', 'SIGNED'):
        for w in ('', ' width:w'):
            out.append(('illegal', 'portlist | LPAREN %s%s ID:a RPAREN SEMICOLON | REJECT' % (ts, w)))
            out.append(('illegal', 'portlist | LPAREN INPUT ID:z COMMA %s%s ID:a RPAREN SEMICOLON | REJECT' % (ts, w)))
    for ts in ('SUPPLY0', 'SUPPLY1'):
        for w in ('', ' width:w'):
            out.append(('illegal', 'item | %s%s ID:a length:x SEMICOLON | REJECT' % (ts, w)))
            out.append(('illegal', 'item | %s%s ID:a EQUALS rvalue:r SEMICOLON | REJECT' % (ts, w)))
    for ts in ('INPUT', 'OUTPUT', 'INOUT', 'INPUT SIGNED', 'OUTPUT SIGNED'):
        out.append(('illegal', 'item | %s ID:a EQUALS rvalue:r SEMICOLON | REJECT' % ts))
    return out


def parameter_forms():
    """parameter/localparam declarations and parameter-port lists: sign, width, integer, one to three names;
    integer, real and genvar lists; function and task headers."""
    out = []
    names = ['a', 'b', 'c']
    for kind, cls in (('PARAMETER', 'Parameter'), ('LOCALPARAM', 'Localparam')):
        for mod, f in (('', ''), (' SIGNED', ',signed=True'), (' width:w', ',width=w'), (' SIGNED width:w', ',width=w,signed=True'),
                       (' INTEGER', '')):
            for n in (1, 2, 3):
                s = ' COMMA '.join('ID:%s EQUALS expression:x%s' % (x, x) for x in names[:n])
                ds = ','.join('%s(name=%s,value=Rvalue(var=x%s)%s)' % (cls, x, x, f) for x in names[:n])
                out.append(('param', 'item | %s%s %s SEMICOLON | Decl(list=[%s])' % (kind, mod, s, ds)))
                if kind == 'PARAMETER':
                    out.append(('param', 'paramlist | DELAY LPAREN PARAMETER%s %s RPAREN | Paramlist(params=[Decl(list=[%s])])' % (mod, s, ds)))
                    out.append(('param', 'paramlist | DELAY LPAREN PARAMETER%s %s COMMA PARAMETER ID:d EQUALS expression:xd RPAREN | '
                                'Paramlist(params=[Decl(list=[%s]),Decl(list=[Parameter(name=d,value=Rvalue(var=xd))])])' % (mod, s, ds)))
    w32 = "width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0'))"
    for kw, cls, extra in (('INTEGER', 'Integer', ',signed=True'), ('INTEGER SIGNED', 'Integer', ',signed=True'), ('REAL', 'Real', ''),
                           ('GENVAR', 'Genvar', '')):
        for n in (1, 2, 3):
            out.append(('decl', 'item | %s %s SEMICOLON | Decl(list=[%s])' % (
                kw, ' COMMA '.join('ID:' + x for x in names[:n]), ','.join('%s(name=%s,%s%s)' % (cls, x, w32, extra) for x in names[:n]))))
    for n in (1, 2, 3):
        out.append(('decl', 'item | INTEGER %s SEMICOLON | Decl(list=[%s])' % (
            ' COMMA '.join('ID:%s EQUALS expression:x%s' % (x, x) for x in names[:n]),
            ','.join('Integer(name=%s,%s,signed=True,value=Rvalue(var=x%s))' % (x, w32, x) for x in names[:n]))))
    zero = "Width(msb=IntConst(value='0'),lsb=IntConst(value='0'))"
    for head, want in (('width:w', 'w'), ('', zero), ('INTEGER', w32[6:])):
        for decl, wd in (('INPUT ID:a COMMA ID:b SEMICOLON', 'Decl(list=[Input(name=a),Input(name=b)])'),
                         ('INPUT width:v ID:a COMMA ID:b SEMICOLON', 'Decl(list=[Input(name=a,width=v),Input(name=b,width=v)])'),
                         ('INPUT SIGNED width:v ID:a SEMICOLON', 'Decl(list=[Input(name=a,width=v,signed=True)])'),
                         ('INPUT ID:a SEMICOLON REG width:v ID:b SEMICOLON', 'Decl(list=[Input(name=a)]),Decl(list=[Reg(name=b,width=v)])')):
            out.append(('header', 'item | FUNCTION %s ID:n SEMICOLON %s BEGIN END ENDFUNCTION | Function(name=n,retwidth=%s,statement=[%s,Block()])' % (
                head, decl, want, wd)))
    for decl, wd in (('INPUT ID:a COMMA ID:b SEMICOLON', 'Decl(list=[Input(name=a),Input(name=b)])'),
                     ('INPUT width:v ID:a SEMICOLON REG ID:b SEMICOLON', 'Decl(list=[Input(name=a,width=v)]),Decl(list=[Reg(name=b)])'),
                     ('OUTPUT ID:a COMMA ID:b SEMICOLON', 'Decl(list=[Output(name=a),Output(name=b)])'),
                     ('OUTPUT SIGNED width:v ID:a SEMICOLON', 'Decl(list=[Output(name=a,width=v,signed=True)])'),
                     ('INPUT ID:a SEMICOLON OUTPUT width:v ID:b SEMICOLON INOUT ID:c SEMICOLON',
                      'Decl(list=[Input(name=a)]),Decl(list=[Output(name=b,width=v)]),Decl(list=[Inout(name=c)])'),
                     ('INOUT width:v ID:a SEMICOLON INTEGER ID:b SEMICOLON', 'Decl(list=[Inout(name=a,width=v)]),Decl(list=[Integer(name=b,%s,signed=True)])' % w32)):
        out.append(('header', 'item | TASK ID:n SEMICOLON %s BEGIN END ENDTASK | Task(name=n,statement=[%s,Block()])' % (decl, wd)))
    return out


def check(ctx):
    S = Sentences(ctx.repo)
    for rule, line in forms(ctx.tier == 'thorough'):
        for start, form, want in parse_forms(line):
            w = want if want == 'REJECT' else parse(want)
            judge(S, ctx, rule, start, form, w, where_of)
    # a variable of the kind logic must be declared as something
    for start, form, want in parse_forms('item | LOGIC ID:a SEMICOLON | Decl(list=[Wire(name=a)]) || Decl(list=[Reg(name=a)])\n'
                                         'item | LOGIC width:w ID:a SEMICOLON | Decl(list=[Wire(name=a,width=w)]) || Decl(list=[Reg(name=a,width=w)])'):
        judge(S, ctx, 'decl', start, form, parse(want), where_of)
    for p in S.G.prods:
        if p.name in S.used:
            ctx.functions.add(p.func.qual)
    ctx.floor('decl', 100)
    ctx.floor('port', 60)
    ctx.floor('illegal', 60)
