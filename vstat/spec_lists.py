"""Lists with unlike elements: generated rows of the concrete-to-abstract table (see spec_grammar).

Each list of the language (instances, connections, case items, labels, sensitivity, concatenations,
scopes, declarations in blocks, delays ...) is written with every ordered pair and selected triples of its
element shapes, so that an element can neither take its neighbour's part nor lose its own."""
import itertools

I32 = "width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0'))"


def sub(pat, i):
    """Make the labels of an element shape distinct per position."""
    return pat.replace('@', str(i))


def lists(shapes, sep, n3=6):
    """(text, trees) of all pairs and n3 triples of shapes (text, tree)."""
    out = []
    combos = list(itertools.product(range(len(shapes)), repeat=2))
    trip = list(itertools.product(range(len(shapes)), repeat=3))
    step = max(1, len(trip) // n3) if n3 else 1
    combos += trip[::step] if n3 else []
    for c in combos:
        out.append((sep.join(sub(shapes[k][0], i) for i, k in enumerate(c)), ','.join(sub(shapes[k][1], i) for i, k in enumerate(c))))
    return out


def lst(head, trees):
    return '%s=[%s]' % (head, trees) if trees else None


def rows():
    out = []
    put = lambda s, f, t: out.append('%s | %s | %s' % (s, ' '.join(f.split()), t))
    # instances of one statement
    bodies = [('ID:n@ LPAREN RPAREN', "name=n@"), ('ID:n@ LPAREN expression:e@ RPAREN', "name=n@,portlist=[PortArg(argname=e@)]"),
              ('ID:n@ width:w@ LPAREN expression:e@ RPAREN', "name=n@,portlist=[PortArg(argname=e@)],array=w@"),
              ('ID:n@ LPAREN DOT ID:p@ LPAREN expression:e@ RPAREN COMMA DOT ID:q@ LPAREN RPAREN RPAREN',
               "name=n@,portlist=[PortArg(portname=p@,argname=e@),PortArg(portname=q@)]")]
    noname = [('LPAREN expression:e@ RPAREN', "name='',portlist=[PortArg(argname=e@)]"),
              ('LPAREN expression:e@ COMMA expression:f@ RPAREN', "name='',portlist=[PortArg(argname=e@),PortArg(argname=f@)]")]
    params = [('', ''), ('DELAY LPAREN expression:pa RPAREN', 'parameterlist=[ParamArg(argname=pa)]'),
              ('DELAY LPAREN DOT ID:pn LPAREN expression:pa RPAREN RPAREN', 'parameterlist=[ParamArg(paramname=pn,argname=pa)]')]
    for head, mod in (('ID:m', 'm'), ('SENS_OR', "'or'")):
        for ptext, ptree in params:
            pt = ',' + ptree if ptree else ''
            for shapes in (bodies, noname):
                if shapes is noname and ptext:
                    continue
                for text, tree in lists([(a, 'Instance(module=%s,%s%s)' % (mod, b, pt)) for a, b in shapes], ' COMMA ', 4):
                    put('item', '%s %s %s SEMICOLON' % (head, ptext, text), 'InstanceList(module=%s%s,instances=[%s])' % (mod, pt, tree))
    # port and parameter connections
    for text, tree in lists([('DOT ID:p@ LPAREN expression:e@ RPAREN', 'PortArg(portname=p@,argname=e@)'),
                             ('DOT ID:p@ LPAREN RPAREN', 'PortArg(portname=p@)')], ' COMMA ', 8):
        put('item', 'ID:m ID:n LPAREN %s RPAREN SEMICOLON' % text, 'InstanceList(module=m,instances=[Instance(module=m,name=n,portlist=[%s])])' % tree)
    for k in (1, 2, 3, 4):
        put('item', 'ID:m ID:n LPAREN %s RPAREN SEMICOLON' % ' COMMA '.join('expression:e%d' % i for i in range(k)),
            'InstanceList(module=m,instances=[Instance(module=m,name=n,portlist=[%s])])' % ','.join('PortArg(argname=e%d)' % i for i in range(k)))
        put('item', 'ID:m DELAY LPAREN %s RPAREN ID:n LPAREN RPAREN SEMICOLON' % ' COMMA '.join('expression:e%d' % i for i in range(k)),
            'InstanceList(module=m,parameterlist=[%s],instances=[Instance(module=m,name=n,parameterlist=[%s])])' % ((
                ','.join('ParamArg(argname=e%d)' % i for i in range(k)),) * 2))
        put('item', 'ID:m DELAY LPAREN %s RPAREN ID:n LPAREN RPAREN SEMICOLON' % ' COMMA '.join(
            'DOT ID:p%d LPAREN expression:e%d RPAREN' % (i, i) for i in range(k)),
            'InstanceList(module=m,parameterlist=[%s],instances=[Instance(module=m,name=n,parameterlist=[%s])])' % ((
                ','.join('ParamArg(paramname=p%d,argname=e%d)' % (i, i) for i in range(k)),) * 2))
        args = ' COMMA '.join('expression:e%d' % i for i in range(k))
        tree = ','.join('e%d' % i for i in range(k))
        put('expression', 'identifier:f LPAREN %s RPAREN' % args, 'FunctionCall(name=f,args=[%s])' % tree)
        put('expression', 'DOLLER ID:f LPAREN %s RPAREN' % args, 'SystemCall(syscall=f,args=[%s])' % tree)
        put('basic_statement', 'DOLLER ID:f LPAREN %s RPAREN SEMICOLON' % args, 'SingleStatement(statement=SystemCall(syscall=f,args=[%s]))' % tree)
        put('expression', 'LBRACE %s RBRACE' % args, 'Concat(list=[%s])' % tree)
        put('expression', 'LBRACE expression:n LBRACE %s RBRACE RBRACE' % args, 'Repeat(times=n,value=Concat(list=[%s]))' % tree)
        put('portlist', 'LPAREN %s RPAREN SEMICOLON' % ' COMMA '.join('ID:e%d' % i for i in range(k)),
            'Portlist(ports=[%s])' % ','.join('Port(name=e%d)' % i for i in range(k)))
    # left values in a concatenation
    lv = [('identifier:a@', 'a@'), ('pointer:a@', 'a@'), ('identifier:a@ LBRACKET expression:m@ COLON expression:l@ RBRACKET', 'Partselect(var=a@,msb=m@,lsb=l@)'),
          ('LBRACE identifier:a@ COMMA identifier:b@ RBRACE', 'LConcat(list=[a@,b@])')]
    for text, tree in lists(lv, ' COMMA ', 10):
        put('lvalue', 'LBRACE %s RBRACE' % text, 'Lvalue(var=LConcat(list=[%s]))' % tree)
    # sensitivity
    edge = [('POSEDGE identifier:a@', "Sens(sig=a@,type='posedge')"), ('NEGEDGE identifier:a@', "Sens(sig=a@,type='negedge')")]
    lev = [('identifier:a@', "Sens(sig=a@,type='level')"), ('pointer:a@', "Sens(sig=a@,type='level')")]
    for shapes in (edge, lev):
        for sep in (' COMMA ', ' SENS_OR '):
            for text, tree in lists(shapes, sep, 4):
                for kw, cls in (('ALWAYS', 'Always'), ('ALWAYS_FF', 'AlwaysFF')):
                    put('item', '%s AT LPAREN %s RPAREN basic_statement:s' % (kw, text), '%s(sens_list=SensList(list=[%s]),statement=s)' % (cls, tree))
    # case items
    items = [('expression:a@ COLON basic_statement:s@', 'Case(cond=[a@],statement=s@)'),
             ('expression:a@ COMMA expression:b@ COLON basic_statement:s@', 'Case(cond=[a@,b@],statement=s@)'),
             ('DEFAULT COLON basic_statement:s@', 'Case(statement=s@)'),
             ('expression:a@ COMMA expression:b@ COMMA expression:c@ COMMA expression:d@ COLON basic_statement:s@', 'Case(cond=[a@,b@,c@,d@],statement=s@)')]
    for kw, cls in (('CASE', 'CaseStatement'), ('CASEX', 'CasexStatement'), ('CASEZ', 'CasezStatement'), ('UNIQUE CASE', 'UniqueCaseStatement')):
        for text, tree in lists(items, ' ', 8 if kw == 'CASE' else 0):
            if text.count('DEFAULT') > 1:
                continue
            put('basic_statement', '%s LPAREN expression:x RPAREN %s ENDCASE' % (kw, text), '%s(comp=x,caselist=[%s])' % (cls, tree))
    # scopes
    lab = [('ID:a@ DOT', 'IdentifierScopeLabel(name=a@)'), ('ID:a@ LBRACKET expression:x@ RBRACKET DOT', 'IdentifierScopeLabel(name=a@,loop=x@)')]
    for text, tree in lists(lab, ' ', 8):
        put('expression', text + ' ID:n', 'Identifier(name=n,scope=IdentifierScope(labellist=[%s]))' % tree)
    # declarations and statements of a named block
    bl = [('REG ID:a@ SEMICOLON', 'Decl(list=[Reg(name=a@)])'), ('REG width:w@ ID:a@ COMMA ID:b@ SEMICOLON', 'Decl(list=[Reg(name=a@,width=w@),Reg(name=b@,width=w@)])'),
          ('REG SIGNED width:w@ ID:a@ SEMICOLON', 'Decl(list=[Reg(name=a@,width=w@,signed=True)])'),
          ('INTEGER ID:a@ SEMICOLON', 'Decl(list=[Integer(name=a@,%s,signed=True)])' % I32), ('basic_statement:s@', 's@')]
    for text, tree in lists(bl, ' ', 10):
        put('basic_statement', 'BEGIN COLON ID:n %s basic_statement:z END' % text, 'Block(scope=n,statements=[%s,z])' % tree) \
            if not _stmt_before_decl(text) else None
    for k in (1, 2, 4):
        ss = ' '.join('basic_statement:s%d' % i for i in range(k))
        tree = ','.join('s%d' % i for i in range(k))
        put('basic_statement', 'BEGIN %s END' % ss, 'Block(statements=[%s])' % tree)
        put('basic_statement', 'BEGIN COLON ID:n %s END' % ss, 'Block(scope=n,statements=[%s])' % tree)
        put('basic_statement', 'FORK %s JOIN' % ss, 'ParallelBlock(statements=[%s])' % tree)
        put('item', 'GENERATE %s ENDGENERATE' % ' '.join('standard_item:s%d' % i for i in range(k)), 'GenerateStatement(items=[%s])' % tree)
    # function and task headers
    fd = [('INPUT ID:a@ SEMICOLON', 'Decl(list=[Input(name=a@)])'), ('INPUT width:w@ ID:a@ COMMA ID:b@ SEMICOLON', 'Decl(list=[Input(name=a@,width=w@),Input(name=b@,width=w@)])'),
          ('REG width:w@ ID:a@ SEMICOLON', 'Decl(list=[Reg(name=a@,width=w@)])'), ('INTEGER ID:a@ SEMICOLON', 'Decl(list=[Integer(name=a@,%s,signed=True)])' % I32)]
    for text, tree in lists(fd, ' ', 8):
        put('item', 'FUNCTION width:w ID:n SEMICOLON %s BEGIN basic_statement:z END ENDFUNCTION' % text,
            'Function(name=n,retwidth=w,statement=[%s,Block(statements=[z])])' % tree)
        put('item', 'TASK ID:n SEMICOLON %s BEGIN basic_statement:z END ENDTASK' % text, 'Task(name=n,statement=[%s,Block(statements=[z])])' % tree)
    # delays: every written form, on either side
    dl = [('', None), ('DELAY LPAREN expression:@ RPAREN', '@'), ('DELAY identifier:@', '@'), ('DELAY INTNUMBER_DEC:@', 'IntConst(value=@)'),
          ('DELAY FLOATNUMBER:@', 'FloatConst(value=@)')]
    for (lt, lx), (rt, rx) in itertools.product(dl, dl):
        f = (',ldelay=DelayStatement(delay=%s)' % lx.replace('@', 'd') if lx else '') + (',rdelay=DelayStatement(delay=%s)' % rx.replace('@', 'e') if rx else '')
        for op, cls in (('EQUALS', 'BlockingSubstitution'), ('LE', 'NonblockingSubstitution')):
            put('basic_statement', '%s lvalue:l %s %s rvalue:r SEMICOLON' % (lt.replace('@', 'd'), op, rt.replace('@', 'e')), '%s(left=l,right=r%s)' % (cls, f))
        if rx and not lx:
            continue          # "assign a = #d b" is no Verilog
        put('item', 'ASSIGN %s identifier:l EQUALS %s expression:r SEMICOLON' % (lt.replace('@', 'd'), rt.replace('@', 'e')),
            'Assign(left=Lvalue(var=l),right=Rvalue(var=r)%s)' % f)
    # for statements: each part present or absent
    for a, b, c in itertools.product((0, 1), repeat=3):
        put('basic_statement', 'FOR LPAREN %s SEMICOLON %s SEMICOLON %s RPAREN basic_statement:s' % (
            'lvalue:i EQUALS rvalue:a' if a else '', 'expression:c' if b else '', 'lvalue:j EQUALS rvalue:b' if c else ''),
            'ForStatement(%sstatement=s)' % (('pre=BlockingSubstitution(left=i,right=a),' if a else '') + ('cond=c,' if b else '') +
                                             ('post=BlockingSubstitution(left=j,right=b),' if c else '')))
    # if chains
    put('basic_statement', 'IF LPAREN expression:a RPAREN basic_statement:s ELSE IF LPAREN expression:b RPAREN basic_statement:t ELSE IF LPAREN expression:c RPAREN basic_statement:u ELSE basic_statement:v',
        'IfStatement(cond=a,true_statement=s,false_statement=IfStatement(cond=b,true_statement=t,false_statement=IfStatement(cond=c,true_statement=u,false_statement=v)))')
    for k in (1, 2, 3, 4):
        put('expression', 'identifier:i ' + ' '.join('LBRACKET expression:e%d RBRACKET' % i for i in range(k)), nest('i', ['e%d' % i for i in range(k)]))
    return out


def _stmt_before_decl(text):
    seen = False
    parts = text.split()
    for p in parts:
        if p.startswith('basic_statement'):
            seen = True
        elif seen:
            return True
    return False


def nest(i, es):
    t = i
    for e in es:
        t = 'Pointer(var=%s,ptr=%s)' % (t, e)
    return t


TEXT = '\n'.join(rows())
