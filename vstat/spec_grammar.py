"""The concrete-to-abstract syntax table (the oracle), written from the Verilog-2001 grammar.

START | SENTENTIAL FORM | SYNTAX TREE (alternatives separated by ||) or REJECT

A form is a sequence of tokens and nonterminals, with labels for those whose value appears in the
tree.  Fields not written in the tree must be absent (None / empty / false).
"""

FORMS = r'''
# ---- files and modules
source_text | definition:a | Source(name='',description=Description(definitions=[a]))
source_text | definition:a definition:b definition:c | Source(name='',description=Description(definitions=[a,b,c]))
definition  | MODULE ID:n SEMICOLON ENDMODULE | ModuleDef(name=n,paramlist=Paramlist(),portlist=Portlist())
definition  | MODULE ID:n SEMICOLON item:a item:b item:c ENDMODULE | ModuleDef(name=n,paramlist=Paramlist(),portlist=Portlist(),items=[a,b,c])
definition  | MODULE ID:n DELAY LPAREN PARAMETER ID:p EQUALS expression:e RPAREN LPAREN ID:x RPAREN SEMICOLON item:a ENDMODULE | ModuleDef(name=n,paramlist=Paramlist(params=[Decl(list=[Parameter(name=p,value=Rvalue(var=e))])]),portlist=Portlist(ports=[Port(name=x)]),items=[a])
definition  | MODULE SENS_OR SEMICOLON ENDMODULE | ModuleDef(name='or',paramlist=Paramlist(),portlist=Portlist())
definition  | LPAREN TIMES ID:n EQUALS expression:e TIMES RPAREN | Pragma(entry=PragmaEntry(name=n,value=e))
definition  | LPAREN TIMES ID:n TIMES RPAREN | Pragma(entry=PragmaEntry(name=n))
item        | LPAREN TIMES ID:n EQUALS expression:e TIMES RPAREN | Pragma(entry=PragmaEntry(name=n,value=e))

# ---- module parameters
paramlist | DELAY LPAREN PARAMETER ID:a EQUALS expression:x RPAREN | Paramlist(params=[Decl(list=[Parameter(name=a,value=Rvalue(var=x))])])
paramlist | DELAY LPAREN PARAMETER SIGNED ID:a EQUALS expression:x RPAREN | Paramlist(params=[Decl(list=[Parameter(name=a,value=Rvalue(var=x),signed=True)])])
paramlist | DELAY LPAREN PARAMETER width:w ID:a EQUALS expression:x RPAREN | Paramlist(params=[Decl(list=[Parameter(name=a,value=Rvalue(var=x),width=w)])])
paramlist | DELAY LPAREN PARAMETER SIGNED width:w ID:a EQUALS expression:x RPAREN | Paramlist(params=[Decl(list=[Parameter(name=a,value=Rvalue(var=x),width=w,signed=True)])])
paramlist | DELAY LPAREN PARAMETER INTEGER ID:a EQUALS expression:x RPAREN | Paramlist(params=[Decl(list=[Parameter(name=a,value=Rvalue(var=x))])])
paramlist | DELAY LPAREN PARAMETER ID:a EQUALS expression:x COMMA PARAMETER ID:b EQUALS expression:y COMMA PARAMETER ID:c EQUALS expression:z RPAREN | Paramlist(params=[Decl(list=[Parameter(name=a,value=Rvalue(var=x))]),Decl(list=[Parameter(name=b,value=Rvalue(var=y))]),Decl(list=[Parameter(name=c,value=Rvalue(var=z))])])
paramlist | DELAY LPAREN PARAMETER ID:a EQUALS expression:x COMMA ID:b EQUALS expression:y COMMA PARAMETER ID:c EQUALS expression:z RPAREN | Paramlist(params=[Decl(list=[Parameter(name=a,value=Rvalue(var=x)),Parameter(name=b,value=Rvalue(var=y))]),Decl(list=[Parameter(name=c,value=Rvalue(var=z))])])
paramlist | DELAY LPAREN PARAMETER SIGNED ID:a EQUALS expression:x COMMA PARAMETER ID:c EQUALS expression:z RPAREN | Paramlist(params=[Decl(list=[Parameter(name=a,value=Rvalue(var=x),signed=True)]),Decl(list=[Parameter(name=c,value=Rvalue(var=z))])])
paramlist | DELAY LPAREN PARAMETER width:w ID:a EQUALS expression:x COMMA PARAMETER ID:c EQUALS expression:z RPAREN | Paramlist(params=[Decl(list=[Parameter(name=a,value=Rvalue(var=x),width=w)]),Decl(list=[Parameter(name=c,value=Rvalue(var=z))])])
paramlist | DELAY LPAREN PARAMETER SIGNED width:w ID:a EQUALS expression:x COMMA PARAMETER ID:c EQUALS expression:z RPAREN | Paramlist(params=[Decl(list=[Parameter(name=a,value=Rvalue(var=x),width=w,signed=True)]),Decl(list=[Parameter(name=c,value=Rvalue(var=z))])])
paramlist | DELAY LPAREN PARAMETER INTEGER ID:a EQUALS expression:x COMMA PARAMETER ID:c EQUALS expression:z RPAREN | Paramlist(params=[Decl(list=[Parameter(name=a,value=Rvalue(var=x))]),Decl(list=[Parameter(name=c,value=Rvalue(var=z))])])

# ---- ports
portlist | SEMICOLON | Portlist()
portlist | LPAREN RPAREN SEMICOLON | Portlist()
portlist | LPAREN ID:a RPAREN SEMICOLON | Portlist(ports=[Port(name=a)])
portlist | LPAREN ID:a COMMA ID:b COMMA ID:c RPAREN SEMICOLON | Portlist(ports=[Port(name=a),Port(name=b),Port(name=c)])
width | LBRACKET expression:m COLON expression:l RBRACKET | Width(msb=m,lsb=l)
length | LBRACKET expression:m COLON expression:l RBRACKET | Length(msb=m,lsb=l)
dimensions | length:a | Dimensions(lengths=[a])
dimensions | length:a length:b length:c | Dimensions(lengths=[a,b,c])

# ---- declarations without a net type
item | INTEGER ID:a SEMICOLON | Decl(list=[Integer(name=a,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0')),signed=True)])
item | INTEGER ID:a EQUALS expression:x SEMICOLON | Decl(list=[Integer(name=a,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0')),signed=True,value=Rvalue(var=x))])
item | INTEGER ID:a EQUALS expression:x COMMA ID:b COMMA ID:c EQUALS expression:y SEMICOLON | Decl(list=[Integer(name=a,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0')),signed=True,value=Rvalue(var=x)),Integer(name=b,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0')),signed=True),Integer(name=c,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0')),signed=True,value=Rvalue(var=y))])
item | INTEGER SIGNED ID:a EQUALS expression:x COMMA ID:b SEMICOLON | Decl(list=[Integer(name=a,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0')),signed=True,value=Rvalue(var=x)),Integer(name=b,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0')),signed=True)])
item | REAL ID:a COMMA ID:b COMMA ID:c SEMICOLON | Decl(list=[Real(name=a,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0'))),Real(name=b,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0'))),Real(name=c,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0')))])
item | GENVAR ID:a COMMA ID:b COMMA ID:c SEMICOLON | Decl(list=[Genvar(name=a,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0'))),Genvar(name=b,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0'))),Genvar(name=c,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0')))])
item | PARAMETER ID:a EQUALS expression:x COMMA ID:b EQUALS expression:y COMMA ID:c EQUALS expression:z SEMICOLON | Decl(list=[Parameter(name=a,value=Rvalue(var=x)),Parameter(name=b,value=Rvalue(var=y)),Parameter(name=c,value=Rvalue(var=z))])
item | PARAMETER SIGNED ID:a EQUALS expression:x COMMA ID:b EQUALS expression:y SEMICOLON | Decl(list=[Parameter(name=a,value=Rvalue(var=x),signed=True),Parameter(name=b,value=Rvalue(var=y),signed=True)])
item | PARAMETER width:w ID:a EQUALS expression:x COMMA ID:b EQUALS expression:y SEMICOLON | Decl(list=[Parameter(name=a,value=Rvalue(var=x),width=w),Parameter(name=b,value=Rvalue(var=y),width=w)])
item | PARAMETER SIGNED width:w ID:a EQUALS expression:x COMMA ID:b EQUALS expression:y SEMICOLON | Decl(list=[Parameter(name=a,value=Rvalue(var=x),width=w,signed=True),Parameter(name=b,value=Rvalue(var=y),width=w,signed=True)])
item | PARAMETER INTEGER ID:a EQUALS expression:x COMMA ID:b EQUALS expression:y SEMICOLON | Decl(list=[Parameter(name=a,value=Rvalue(var=x)),Parameter(name=b,value=Rvalue(var=y))])
item | LOCALPARAM ID:a EQUALS expression:x COMMA ID:b EQUALS expression:y COMMA ID:c EQUALS expression:z SEMICOLON | Decl(list=[Localparam(name=a,value=Rvalue(var=x)),Localparam(name=b,value=Rvalue(var=y)),Localparam(name=c,value=Rvalue(var=z))])
item | LOCALPARAM SIGNED ID:a EQUALS expression:x COMMA ID:b EQUALS expression:y SEMICOLON | Decl(list=[Localparam(name=a,value=Rvalue(var=x),signed=True),Localparam(name=b,value=Rvalue(var=y),signed=True)])
item | LOCALPARAM width:w ID:a EQUALS expression:x COMMA ID:b EQUALS expression:y SEMICOLON | Decl(list=[Localparam(name=a,value=Rvalue(var=x),width=w),Localparam(name=b,value=Rvalue(var=y),width=w)])
item | LOCALPARAM SIGNED width:w ID:a EQUALS expression:x COMMA ID:b EQUALS expression:y SEMICOLON | Decl(list=[Localparam(name=a,value=Rvalue(var=x),width=w,signed=True),Localparam(name=b,value=Rvalue(var=y),width=w,signed=True)])
item | LOCALPARAM INTEGER ID:a EQUALS expression:x COMMA ID:b EQUALS expression:y SEMICOLON | Decl(list=[Localparam(name=a,value=Rvalue(var=x)),Localparam(name=b,value=Rvalue(var=y))])

# ---- continuous assignment, left values
item | ASSIGN identifier:l EQUALS expression:r SEMICOLON | Assign(left=Lvalue(var=l),right=Rvalue(var=r))
item | ASSIGN DELAY LPAREN expression:d RPAREN identifier:l EQUALS expression:r SEMICOLON | Assign(left=Lvalue(var=l),right=Rvalue(var=r),ldelay=DelayStatement(delay=d))
lvalue | identifier:i | Lvalue(var=i)
lvalue | pointer:p | Lvalue(var=p)
lvalue | identifier:i LBRACKET expression:x RBRACKET | Lvalue(var=Pointer(var=i,ptr=x))
lvalue | identifier:i LBRACKET expression:x RBRACKET LBRACKET expression:y RBRACKET | Lvalue(var=Pointer(var=Pointer(var=i,ptr=x),ptr=y))
lvalue | identifier:i LBRACKET expression:m COLON expression:l RBRACKET | Lvalue(var=Partselect(var=i,msb=m,lsb=l))
lvalue | pointer:p LBRACKET expression:m COLON expression:l RBRACKET | Lvalue(var=Partselect(var=p,msb=m,lsb=l))
lvalue | identifier:i LBRACKET expression:b PLUSCOLON expression:w RBRACKET | Lvalue(var=Partselect(var=i,msb=UP(b,w),lsb=b))
lvalue | pointer:i LBRACKET expression:b PLUSCOLON expression:w RBRACKET | Lvalue(var=Partselect(var=i,msb=UP(b,w),lsb=b))
lvalue | identifier:i LBRACKET expression:b MINUSCOLON expression:w RBRACKET | Lvalue(var=Partselect(var=i,msb=b,lsb=DOWN(b,w)))
lvalue | pointer:i LBRACKET expression:b MINUSCOLON expression:w RBRACKET | Lvalue(var=Partselect(var=i,msb=b,lsb=DOWN(b,w)))
lvalue | LBRACE identifier:a COMMA identifier:b COMMA identifier:c RBRACE | Lvalue(var=LConcat(list=[a,b,c]))
lvalue | LBRACE pointer:a COMMA identifier:i LBRACKET expression:m COLON expression:l RBRACKET COMMA LBRACE identifier:c RBRACE RBRACE | Lvalue(var=LConcat(list=[a,Partselect(var=i,msb=m,lsb=l),LConcat(list=[c])]))

# ---- expressions
rvalue | expression:e | Rvalue(var=e)
expression | LPAREN expression:e RPAREN | e
expression | MINUS expression:e | Uminus(right=e)
expression | PLUS expression:e | e || Uplus(right=e)
expression | LNOT expression:e | Ulnot(right=e)
expression | NOT expression:e | Unot(right=e)
expression | AND expression:e | Uand(right=e)
expression | NAND expression:e | Unand(right=e)
expression | OR expression:e | Uor(right=e)
expression | NOR expression:e | Unor(right=e)
expression | XOR expression:e | Uxor(right=e)
expression | XNOR expression:e | Uxnor(right=e)
expression | expression:l POWER expression:r | Power(left=l,right=r)
expression | expression:l TIMES expression:r | Times(left=l,right=r)
expression | expression:l DIVIDE expression:r | Divide(left=l,right=r)
expression | expression:l MOD expression:r | Mod(left=l,right=r)
expression | expression:l PLUS expression:r | Plus(left=l,right=r)
expression | expression:l MINUS expression:r | Minus(left=l,right=r)
expression | expression:l LSHIFT expression:r | Sll(left=l,right=r)
expression | expression:l RSHIFT expression:r | Srl(left=l,right=r)
expression | expression:l LSHIFTA expression:r | Sla(left=l,right=r)
expression | expression:l RSHIFTA expression:r | Sra(left=l,right=r)
expression | expression:l LT expression:r | LessThan(left=l,right=r)
expression | expression:l GT expression:r | GreaterThan(left=l,right=r)
expression | expression:l LE expression:r | LessEq(left=l,right=r)
expression | expression:l GE expression:r | GreaterEq(left=l,right=r)
expression | expression:l EQ expression:r | Eq(left=l,right=r)
expression | expression:l NE expression:r | NotEq(left=l,right=r)
expression | expression:l EQL expression:r | Eql(left=l,right=r)
expression | expression:l NEL expression:r | NotEql(left=l,right=r)
expression | expression:l AND expression:r | And(left=l,right=r)
expression | expression:l XOR expression:r | Xor(left=l,right=r)
expression | expression:l XNOR expression:r | Xnor(left=l,right=r)
expression | expression:l OR expression:r | Or(left=l,right=r)
expression | expression:l LAND expression:r | Land(left=l,right=r)
expression | expression:l LOR expression:r | Lor(left=l,right=r)
expression | expression:c COND expression:t COLON expression:f | Cond(cond=c,true_value=t,false_value=f)
expression | LBRACE expression:a COMMA expression:b COMMA expression:c RBRACE | Concat(list=[a,b,c])
expression | LBRACE expression:a RBRACE | Concat(list=[a])
expression | LBRACE expression:n concat:v RBRACE | Repeat(times=n,value=v)
expression | LBRACE expression:n LBRACE expression:a COMMA expression:b RBRACE RBRACE | Repeat(times=n,value=Concat(list=[a,b]))
expression | identifier:i LBRACKET expression:x RBRACKET | Pointer(var=i,ptr=x)
expression | identifier:i LBRACKET expression:x RBRACKET LBRACKET expression:y RBRACKET | Pointer(var=Pointer(var=i,ptr=x),ptr=y)
expression | identifier:i LBRACKET expression:m COLON expression:l RBRACKET | Partselect(var=i,msb=m,lsb=l)
expression | pointer:i LBRACKET expression:m COLON expression:l RBRACKET | Partselect(var=i,msb=m,lsb=l)
expression | identifier:i LBRACKET expression:b PLUSCOLON expression:w RBRACKET | Partselect(var=i,msb=UP(b,w),lsb=b)
expression | pointer:i LBRACKET expression:b PLUSCOLON expression:w RBRACKET | Partselect(var=i,msb=UP(b,w),lsb=b)
expression | identifier:i LBRACKET expression:b MINUSCOLON expression:w RBRACKET | Partselect(var=i,msb=b,lsb=DOWN(b,w))
expression | pointer:i LBRACKET expression:b MINUSCOLON expression:w RBRACKET | Partselect(var=i,msb=b,lsb=DOWN(b,w))
expression | identifier:f LPAREN RPAREN | FunctionCall(name=f)
expression | identifier:f LPAREN expression:a RPAREN | FunctionCall(name=f,args=[a])
expression | identifier:f LPAREN expression:a COMMA expression:b COMMA expression:c RPAREN | FunctionCall(name=f,args=[a,b,c])
expression | DOLLER ID:f | SystemCall(syscall=f)
expression | DOLLER ID:f LPAREN RPAREN | SystemCall(syscall=f)
expression | DOLLER ID:f LPAREN expression:a COMMA expression:b COMMA expression:c RPAREN | SystemCall(syscall=f,args=[a,b,c])
expression | DOLLER SIGNED LPAREN expression:a RPAREN | SystemCall(syscall='signed',args=[a])
expression | identifier:i | i
expression | ID:n | Identifier(name=n)
expression | ID:a DOT ID:n | Identifier(name=n,scope=IdentifierScope(labellist=[IdentifierScopeLabel(name=a)]))
expression | ID:a DOT ID:b DOT ID:n | Identifier(name=n,scope=IdentifierScope(labellist=[IdentifierScopeLabel(name=a),IdentifierScopeLabel(name=b)]))
expression | ID:a LBRACKET expression:x RBRACKET DOT ID:n | Identifier(name=n,scope=IdentifierScope(labellist=[IdentifierScopeLabel(name=a,loop=x)]))
expression | ID:a DOT ID:b LBRACKET expression:x RBRACKET DOT ID:n | Identifier(name=n,scope=IdentifierScope(labellist=[IdentifierScopeLabel(name=a),IdentifierScopeLabel(name=b,loop=x)]))
expression | INTNUMBER_DEC:v | IntConst(value=v)
expression | SIGNED_INTNUMBER_DEC:v | IntConst(value=v)
expression | INTNUMBER_BIN:v | IntConst(value=v)
expression | SIGNED_INTNUMBER_BIN:v | IntConst(value=v)
expression | INTNUMBER_OCT:v | IntConst(value=v)
expression | SIGNED_INTNUMBER_OCT:v | IntConst(value=v)
expression | INTNUMBER_HEX:v | IntConst(value=v)
expression | SIGNED_INTNUMBER_HEX:v | IntConst(value=v)
expression | FLOATNUMBER:v | FloatConst(value=v)
expression | STRING_LITERAL:v | StringConst(value=UNQUOTED(v))

# ---- processes
item | ALWAYS AT LPAREN POSEDGE identifier:c RPAREN basic_statement:s | Always(sens_list=SensList(list=[Sens(sig=c,type='posedge')]),statement=s)
item | ALWAYS AT LPAREN POSEDGE identifier:c SENS_OR NEGEDGE identifier:r COMMA POSEDGE pointer:q RPAREN basic_statement:s | Always(sens_list=SensList(list=[Sens(sig=c,type='posedge'),Sens(sig=r,type='negedge'),Sens(sig=q,type='posedge')]),statement=s)
item | ALWAYS AT LPAREN identifier:a SENS_OR pointer:b COMMA partselect:c RPAREN basic_statement:s | Always(sens_list=SensList(list=[Sens(sig=a,type='level'),Sens(sig=b,type='level'),Sens(sig=c,type='level')]),statement=s)
item | ALWAYS AT identifier:a basic_statement:s | Always(sens_list=SensList(list=[Sens(sig=a,type='level')]),statement=s)
item | ALWAYS AT TIMES basic_statement:s | Always(sens_list=SensList(list=[Sens(type='all')]),statement=s)
item | ALWAYS AT LPAREN TIMES RPAREN basic_statement:s | Always(sens_list=SensList(list=[Sens(type='all')]),statement=s)
item | ALWAYS basic_statement:s | Always(sens_list=SensList(list=[Sens(type='all')]),statement=s)
item | ALWAYS_FF AT LPAREN POSEDGE identifier:c RPAREN basic_statement:s | AlwaysFF(sens_list=SensList(list=[Sens(sig=c,type='posedge')]),statement=s)
item | ALWAYS_COMB basic_statement:s | AlwaysComb(sens_list=SensList(list=[Sens(type='all')]),statement=s)
item | ALWAYS_LATCH basic_statement:s | AlwaysLatch(sens_list=SensList(list=[Sens(type='all')]),statement=s)
item | INITIAL basic_statement:s | Initial(statement=s)

# ---- statements
basic_statement | lvalue:l EQUALS rvalue:r SEMICOLON | BlockingSubstitution(left=l,right=r)
basic_statement | DELAY LPAREN expression:d RPAREN lvalue:l EQUALS DELAY LPAREN expression:e RPAREN rvalue:r SEMICOLON | BlockingSubstitution(left=l,right=r,ldelay=DelayStatement(delay=d),rdelay=DelayStatement(delay=e))
basic_statement | lvalue:l LE rvalue:r SEMICOLON | NonblockingSubstitution(left=l,right=r)
basic_statement | DELAY LPAREN expression:d RPAREN lvalue:l LE DELAY LPAREN expression:e RPAREN rvalue:r SEMICOLON | NonblockingSubstitution(left=l,right=r,ldelay=DelayStatement(delay=d),rdelay=DelayStatement(delay=e))
basic_statement | DELAY identifier:d lvalue:l LE DELAY INTNUMBER_DEC:v rvalue:r SEMICOLON | NonblockingSubstitution(left=l,right=r,ldelay=DelayStatement(delay=d),rdelay=DelayStatement(delay=IntConst(value=v)))
basic_statement | lvalue:l LE DELAY FLOATNUMBER:v rvalue:r SEMICOLON | NonblockingSubstitution(left=l,right=r,rdelay=DelayStatement(delay=FloatConst(value=v)))
basic_statement | SEMICOLON | REJECT
basic_statement | BEGIN END | Block()
basic_statement | BEGIN basic_statement:a basic_statement:b basic_statement:c END | Block(statements=[a,b,c])
basic_statement | BEGIN COLON ID:n END | Block(scope=n)
basic_statement | BEGIN COLON ID:n basic_statement:a basic_statement:b basic_statement:c END | Block(scope=n,statements=[a,b,c])
basic_statement | BEGIN COLON ID:n REG ID:r SEMICOLON basic_statement:b END | Block(scope=n,statements=[Decl(list=[Reg(name=r)]),b])
basic_statement | BEGIN COLON ID:n INTEGER ID:r SEMICOLON basic_statement:b END | Block(scope=n,statements=[Decl(list=[Integer(name=r,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0')),signed=True)]),b])
basic_statement | BEGIN COLON ID:n REAL ID:r SEMICOLON basic_statement:b END | Block(scope=n,statements=[Decl(list=[Real(name=r,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0')))]),b])
basic_statement | BEGIN COLON ID:n PARAMETER ID:r EQUALS rvalue:e SEMICOLON basic_statement:b END | Block(scope=n,statements=[Decl(list=[Parameter(name=r,value=e)]),b])
basic_statement | BEGIN COLON ID:n LOCALPARAM ID:r EQUALS rvalue:e SEMICOLON basic_statement:b END | Block(scope=n,statements=[Decl(list=[Localparam(name=r,value=e)]),b])
basic_statement | BEGIN COLON ID:n INPUT ID:r SEMICOLON basic_statement:b END | REJECT
basic_statement | FORK JOIN | ParallelBlock()
basic_statement | FORK basic_statement:a basic_statement:b basic_statement:c JOIN | ParallelBlock(statements=[a,b,c])
basic_statement | IF LPAREN expression:c RPAREN basic_statement:t | IfStatement(cond=c,true_statement=t)
basic_statement | IF LPAREN expression:c RPAREN basic_statement:t ELSE basic_statement:f | IfStatement(cond=c,true_statement=t,false_statement=f)
basic_statement | IF LPAREN expression:c RPAREN IF LPAREN expression:d RPAREN basic_statement:t ELSE basic_statement:f | IfStatement(cond=c,true_statement=IfStatement(cond=d,true_statement=t,false_statement=f))
basic_statement | IF LPAREN expression:c RPAREN basic_statement:t ELSE IF LPAREN expression:d RPAREN basic_statement:f ELSE basic_statement:g | IfStatement(cond=c,true_statement=t,false_statement=IfStatement(cond=d,true_statement=f,false_statement=g))
basic_statement | FOR LPAREN lvalue:i EQUALS rvalue:a SEMICOLON expression:c SEMICOLON lvalue:j EQUALS rvalue:b RPAREN basic_statement:s | ForStatement(pre=BlockingSubstitution(left=i,right=a),cond=c,post=BlockingSubstitution(left=j,right=b),statement=s)
basic_statement | FOR LPAREN SEMICOLON SEMICOLON RPAREN basic_statement:s | ForStatement(statement=s)
basic_statement | WHILE LPAREN expression:c RPAREN basic_statement:s | WhileStatement(cond=c,statement=s)
basic_statement | CASE LPAREN expression:x RPAREN expression:a COLON basic_statement:s ENDCASE | CaseStatement(comp=x,caselist=[Case(cond=[a],statement=s)])
basic_statement | CASE LPAREN expression:x RPAREN expression:a COMMA expression:b COMMA expression:c COLON basic_statement:s expression:d COLON basic_statement:t DEFAULT COLON basic_statement:u ENDCASE | CaseStatement(comp=x,caselist=[Case(cond=[a,b,c],statement=s),Case(cond=[d],statement=t),Case(statement=u)])
basic_statement | CASEX LPAREN expression:x RPAREN expression:a COLON basic_statement:s DEFAULT COLON basic_statement:u ENDCASE | CasexStatement(comp=x,caselist=[Case(cond=[a],statement=s),Case(statement=u)])
basic_statement | CASEZ LPAREN expression:x RPAREN expression:a COLON basic_statement:s DEFAULT COLON basic_statement:u ENDCASE | CasezStatement(comp=x,caselist=[Case(cond=[a],statement=s),Case(statement=u)])
basic_statement | UNIQUE CASE LPAREN expression:x RPAREN expression:a COLON basic_statement:s DEFAULT COLON basic_statement:u ENDCASE | UniqueCaseStatement(comp=x,caselist=[Case(cond=[a],statement=s),Case(statement=u)])
basic_statement | AT LPAREN POSEDGE identifier:c RPAREN SEMICOLON | EventStatement(senslist=SensList(list=[Sens(sig=c,type='posedge')]))
basic_statement | WAIT LPAREN expression:c RPAREN basic_statement:s | WaitStatement(cond=c,statement=s)
basic_statement | WAIT LPAREN expression:c RPAREN SEMICOLON | WaitStatement(cond=c)
basic_statement | FOREVER basic_statement:s | ForeverStatement(statement=s)
basic_statement | DELAY LPAREN expression:e RPAREN SEMICOLON | SingleStatement(statement=DelayStatement(delay=e))
basic_statement | DELAY INTNUMBER_DEC:v SEMICOLON | SingleStatement(statement=DelayStatement(delay=IntConst(value=v)))
basic_statement | DOLLER ID:f LPAREN expression:a RPAREN SEMICOLON | SingleStatement(statement=SystemCall(syscall=f,args=[a]))
basic_statement | DISABLE ID:n SEMICOLON | SingleStatement(statement=Disable(dest=n))

# ---- instances
item | ID:m ID:n LPAREN RPAREN SEMICOLON | InstanceList(module=m,instances=[Instance(module=m,name=n)])
item | SENS_OR ID:n LPAREN expression:a COMMA expression:b COMMA expression:c RPAREN SEMICOLON | InstanceList(module='or',instances=[Instance(module='or',name=n,portlist=[PortArg(argname=a),PortArg(argname=b),PortArg(argname=c)])])
item | ID:m ID:n LPAREN expression:a COMMA expression:b COMMA expression:c RPAREN SEMICOLON | InstanceList(module=m,instances=[Instance(module=m,name=n,portlist=[PortArg(argname=a),PortArg(argname=b),PortArg(argname=c)])])
item | ID:m ID:n LPAREN DOT ID:p LPAREN expression:a RPAREN COMMA DOT ID:q LPAREN RPAREN COMMA DOT ID:r LPAREN identifier:b RPAREN RPAREN SEMICOLON | InstanceList(module=m,instances=[Instance(module=m,name=n,portlist=[PortArg(portname=p,argname=a),PortArg(portname=q),PortArg(portname=r,argname=b)])])
item | ID:m DELAY LPAREN DOT ID:p LPAREN expression:a RPAREN COMMA DOT ID:q LPAREN expression:b RPAREN RPAREN ID:n LPAREN RPAREN SEMICOLON | InstanceList(module=m,parameterlist=[ParamArg(paramname=p,argname=a),ParamArg(paramname=q,argname=b)],instances=[Instance(module=m,name=n,parameterlist=[ParamArg(paramname=p,argname=a),ParamArg(paramname=q,argname=b)])])
item | ID:m DELAY LPAREN expression:a COMMA expression:b COMMA expression:c RPAREN ID:n LPAREN RPAREN SEMICOLON | InstanceList(module=m,parameterlist=[ParamArg(argname=a),ParamArg(argname=b),ParamArg(argname=c)],instances=[Instance(module=m,name=n,parameterlist=[ParamArg(argname=a),ParamArg(argname=b),ParamArg(argname=c)])])
item | ID:m DELAY LPAREN RPAREN ID:n LPAREN RPAREN SEMICOLON | InstanceList(module=m,instances=[Instance(module=m,name=n)])
item | ID:m ID:n LPAREN expression:a COMMA COMMA expression:b RPAREN SEMICOLON | InstanceList(module=m,instances=[Instance(module=m,name=n,portlist=[PortArg(argname=a),PortArg(),PortArg(argname=b)])])
item | ID:m ID:n LPAREN COMMA expression:a RPAREN SEMICOLON | InstanceList(module=m,instances=[Instance(module=m,name=n,portlist=[PortArg(),PortArg(argname=a)])])
item | ID:m ID:n LPAREN COMMA RPAREN SEMICOLON | InstanceList(module=m,instances=[Instance(module=m,name=n,portlist=[PortArg(),PortArg()])])
item | ID:m ID:n LPAREN COMMA COMMA expression:a COMMA RPAREN SEMICOLON | InstanceList(module=m,instances=[Instance(module=m,name=n,portlist=[PortArg(),PortArg(),PortArg(argname=a),PortArg()])])
item | ID:m ID:n LPAREN expression:a COMMA RPAREN SEMICOLON | InstanceList(module=m,instances=[Instance(module=m,name=n,portlist=[PortArg(argname=a),PortArg()])])
item | ID:m ID:n width:w LPAREN expression:a RPAREN SEMICOLON | InstanceList(module=m,instances=[Instance(module=m,name=n,portlist=[PortArg(argname=a)],array=w)])
item | ID:m ID:n LPAREN expression:a RPAREN COMMA ID:k width:w LPAREN expression:b RPAREN COMMA ID:o LPAREN expression:c RPAREN SEMICOLON | InstanceList(module=m,instances=[Instance(module=m,name=n,portlist=[PortArg(argname=a)]),Instance(module=m,name=k,portlist=[PortArg(argname=b)],array=w),Instance(module=m,name=o,portlist=[PortArg(argname=c)])])
item | ID:m LPAREN expression:a RPAREN SEMICOLON | InstanceList(module=m,instances=[Instance(module=m,name='',portlist=[PortArg(argname=a)])])
item | ID:m LPAREN expression:a RPAREN COMMA LPAREN expression:b RPAREN SEMICOLON | InstanceList(module=m,instances=[Instance(module=m,name='',portlist=[PortArg(argname=a)]),Instance(module=m,name='',portlist=[PortArg(argname=b)])])
item | SENS_OR LPAREN expression:a COMMA expression:b RPAREN SEMICOLON | InstanceList(module='or',instances=[Instance(module='or',name='',portlist=[PortArg(argname=a),PortArg(argname=b)])])
item | SENS_OR DELAY LPAREN expression:a RPAREN ID:n LPAREN expression:b RPAREN SEMICOLON | InstanceList(module='or',parameterlist=[ParamArg(argname=a)],instances=[Instance(module='or',name=n,parameterlist=[ParamArg(argname=a)],portlist=[PortArg(argname=b)])])

# ---- generate
item | GENERATE ENDGENERATE | GenerateStatement()
item | GENERATE standard_item:a standard_item:b standard_item:c ENDGENERATE | GenerateStatement(items=[a,b,c])
item | GENERATE IF LPAREN expression:c RPAREN standard_item:t ENDGENERATE | GenerateStatement(items=[IfStatement(cond=c,true_statement=t)])
item | GENERATE IF LPAREN expression:c RPAREN standard_item:t ELSE standard_item:f ENDGENERATE | GenerateStatement(items=[IfStatement(cond=c,true_statement=t,false_statement=f)])
item | GENERATE IF LPAREN expression:c RPAREN BEGIN standard_item:t END ELSE BEGIN COLON ID:n standard_item:f standard_item:g END ENDGENERATE | GenerateStatement(items=[IfStatement(cond=c,true_statement=Block(statements=[t]),false_statement=Block(scope=n,statements=[f,g]))])
item | GENERATE FOR LPAREN lvalue:i EQUALS rvalue:a SEMICOLON expression:c SEMICOLON lvalue:j EQUALS rvalue:b RPAREN BEGIN COLON ID:n standard_item:f standard_item:g END ENDGENERATE | GenerateStatement(items=[ForStatement(pre=BlockingSubstitution(left=i,right=a),cond=c,post=BlockingSubstitution(left=j,right=b),statement=Block(scope=n,statements=[f,g]))])
item | GENERATE FOR LPAREN lvalue:i EQUALS rvalue:a SEMICOLON expression:c SEMICOLON lvalue:j EQUALS rvalue:b RPAREN standard_item:s ENDGENERATE | GenerateStatement(items=[ForStatement(pre=BlockingSubstitution(left=i,right=a),cond=c,post=BlockingSubstitution(left=j,right=b),statement=s)])

# ---- functions and tasks
item | FUNCTION width:w ID:n SEMICOLON INPUT ID:a SEMICOLON BEGIN basic_statement:s END ENDFUNCTION | Function(name=n,retwidth=w,statement=[Decl(list=[Input(name=a)]),Block(statements=[s])])
item | FUNCTION ID:n SEMICOLON INPUT ID:a SEMICOLON BEGIN END ENDFUNCTION | Function(name=n,retwidth=Width(msb=IntConst(value='0'),lsb=IntConst(value='0')),statement=[Decl(list=[Input(name=a)]),Block()])
item | FUNCTION INTEGER ID:n SEMICOLON INPUT ID:a SEMICOLON BEGIN END ENDFUNCTION | Function(name=n,retwidth=Width(msb=IntConst(value='31'),lsb=IntConst(value='0')),statement=[Decl(list=[Input(name=a)]),Block()])
item | FUNCTION width:w ID:n SEMICOLON INPUT ID:a COMMA ID:b SEMICOLON REG ID:c SEMICOLON INTEGER ID:d SEMICOLON lvalue:l EQUALS rvalue:r SEMICOLON ENDFUNCTION | Function(name=n,retwidth=w,statement=[Decl(list=[Input(name=a),Input(name=b)]),Decl(list=[Reg(name=c)]),Decl(list=[Integer(name=d,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0')),signed=True)]),BlockingSubstitution(left=l,right=r)])
item | FUNCTION width:w ID:n SEMICOLON OUTPUT ID:a SEMICOLON BEGIN END ENDFUNCTION | REJECT
item | FUNCTION width:w ID:n SEMICOLON WIRE ID:a SEMICOLON BEGIN END ENDFUNCTION | REJECT
function_calc | lvalue:l EQUALS rvalue:r SEMICOLON | BlockingSubstitution(left=l,right=r)
function_calc | IF LPAREN expression:c RPAREN basic_statement:t ELSE basic_statement:f | IfStatement(cond=c,true_statement=t,false_statement=f)
function_calc | FOR LPAREN SEMICOLON SEMICOLON RPAREN basic_statement:s | ForStatement(statement=s)
function_calc | WHILE LPAREN expression:c RPAREN basic_statement:s | WhileStatement(cond=c,statement=s)
function_calc | CASE LPAREN expression:x RPAREN DEFAULT COLON basic_statement:u ENDCASE | CaseStatement(comp=x,caselist=[Case(statement=u)])
function_calc | CASEX LPAREN expression:x RPAREN DEFAULT COLON basic_statement:u ENDCASE | CasexStatement(comp=x,caselist=[Case(statement=u)])
function_calc | CASEZ LPAREN expression:x RPAREN DEFAULT COLON basic_statement:u ENDCASE | CasezStatement(comp=x,caselist=[Case(statement=u)])
function_calc | BEGIN basic_statement:s END | Block(statements=[s])
function_calc | BEGIN COLON ID:n basic_statement:s END | Block(scope=n,statements=[s])
item | TASK ID:n SEMICOLON BEGIN END ENDTASK | Task(name=n,statement=[Block()])
item | TASK ID:n SEMICOLON INPUT ID:a SEMICOLON REG ID:c SEMICOLON INTEGER ID:d SEMICOLON lvalue:l EQUALS rvalue:r SEMICOLON ENDTASK | Task(name=n,statement=[Decl(list=[Input(name=a)]),Decl(list=[Reg(name=c)]),Decl(list=[Integer(name=d,width=Width(msb=IntConst(value='31'),lsb=IntConst(value='0')),signed=True)]),BlockingSubstitution(left=l,right=r)])
task_calc | lvalue:l EQUALS rvalue:r SEMICOLON | BlockingSubstitution(left=l,right=r)
task_calc | IF LPAREN expression:c RPAREN basic_statement:t ELSE basic_statement:f | IfStatement(cond=c,true_statement=t,false_statement=f)
task_calc | FOR LPAREN SEMICOLON SEMICOLON RPAREN basic_statement:s | ForStatement(statement=s)
task_calc | WHILE LPAREN expression:c RPAREN basic_statement:s | WhileStatement(cond=c,statement=s)
task_calc | CASE LPAREN expression:x RPAREN DEFAULT COLON basic_statement:u ENDCASE | CaseStatement(comp=x,caselist=[Case(statement=u)])
task_calc | CASEX LPAREN expression:x RPAREN DEFAULT COLON basic_statement:u ENDCASE | CasexStatement(comp=x,caselist=[Case(statement=u)])
task_calc | CASEZ LPAREN expression:x RPAREN DEFAULT COLON basic_statement:u ENDCASE | CasezStatement(comp=x,caselist=[Case(statement=u)])
task_calc | BEGIN basic_statement:s END | Block(statements=[s])
task_calc | BEGIN COLON ID:n basic_statement:s END | Block(scope=n,statements=[s])

# ---- module-level items are all accepted where an item or a generate item may stand
item | standard_item:a | a
generate_item | standard_item:a | a
standard_item | REG ID:a SEMICOLON | Decl(list=[Reg(name=a)])
'''

# statements that lose part of the source (checked under C01, delays have no slot in an if node)
DROPS = r'''
basic_statement | DELAY LPAREN expression:d RPAREN IF LPAREN expression:c RPAREN basic_statement:t | KEEPS d
basic_statement | DELAY LPAREN expression:d RPAREN IF LPAREN expression:c RPAREN basic_statement:t ELSE basic_statement:f | KEEPS d
'''


def parse_forms(text):
    out = []
    for line in text.splitlines():
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        a, b, c = [x.strip() for x in line.split(' | ', 2)]
        out.append((a, [(t.split(':') + [None])[:2] for t in b.split()], c))
    return out
