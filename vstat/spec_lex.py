"""Lexical grammar (the oracle), from the Verilog-2001 standard restricted to unspaced based numbers."""

# (token, regex); longest match, ties to the earlier entry; None = skipped text
TOKENS = [
    ('#DIRECTIVE', r'`[^\n]*\n'),
    ('#LINECOMMENT', r'//[^\n]*\n'),
    ('#COMMENTOUT', r'/\*([^*]|\*+[^*/])*\*+/'),
    ('#NEWLINE', r'\n+'),
    ('STRING_LITERAL', r'"([^"\\\n]|\\([a-zA-Z\\?\'"]|[0-7]{1,3}|x[0-9a-fA-F]+))*"'),
    ('FLOATNUMBER', r'([0-9]*\.[0-9]+|[0-9]+\.)([eE][-+]?[0-9]+)?|[0-9]+[eE][-+]?[0-9]+'),
    ('SIGNED_INTNUMBER_BIN', r"[0-9]*'[sS][bB][01xXzZ?][01xXzZ?_]*"),
    ('INTNUMBER_BIN', r"[0-9]*'[bB][01xXzZ?][01xXzZ?_]*"),
    ('SIGNED_INTNUMBER_OCT', r"[0-9]*'[sS][oO][0-7xXzZ?][0-7xXzZ?_]*"),
    ('INTNUMBER_OCT', r"[0-9]*'[oO][0-7xXzZ?][0-7xXzZ?_]*"),
    ('SIGNED_INTNUMBER_HEX', r"[0-9]*'[sS][hH][0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*"),
    ('INTNUMBER_HEX', r"[0-9]*'[hH][0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*"),
    ('SIGNED_INTNUMBER_DEC', r"[0-9]*'[sS][dD][0-9xXzZ?][0-9xXzZ?_]*"),
    ('INTNUMBER_DEC', r"[0-9]*'[dD][0-9xXzZ?][0-9xXzZ?_]*|[0-9][0-9_]*"),
    ('ID', r'[a-zA-Z_][a-zA-Z_0-9$]*|\\\S+'),
    ('LOR', r'\|\|'), ('LAND', r'&&'), ('NOR', r'~\|'), ('NAND', r'~&'), ('XNOR', r'~\^'), ('OR', r'\|'),
    ('AND', r'&'), ('XOR', r'\^'), ('LNOT', r'!'), ('NOT', r'~'), ('LSHIFTA', r'<<<'), ('RSHIFTA', r'>>>'),
    ('LSHIFT', r'<<'), ('RSHIFT', r'>>'), ('EQL', r'==='), ('NEL', r'!=='), ('EQ', r'=='), ('NE', r'!='),
    ('LE', r'<='), ('GE', r'>='), ('LT', r'<'), ('GT', r'>'), ('POWER', r'\*\*'), ('PLUS', r'\+'), ('MINUS', r'-'),
    ('TIMES', r'\*'), ('DIVIDE', r'/'), ('MOD', r'%'), ('COND', r'\?'), ('EQUALS', r'='), ('PLUSCOLON', r'\+:'),
    ('MINUSCOLON', r'-:'), ('AT', r'@'), ('COMMA', r','), ('SEMICOLON', r';'), ('COLON', r':'), ('DOT', r'\.'),
    ('LPAREN', r'\('), ('RPAREN', r'\)'), ('LBRACKET', r'\['), ('RBRACKET', r'\]'), ('LBRACE', r'\{'),
    ('RBRACE', r'\}'), ('DELAY', r'\#'), ('DOLLER', r'\$'),
]

KEYWORDS = dict((k, k.upper()) for k in '''module endmodule begin end generate endgenerate genvar function endfunction
task endtask input inout output tri reg logic wire integer real signed parameter localparam supply0 supply1 assign always
always_ff always_comb always_latch posedge negedge initial if else for while case casex casez unique endcase default wait
forever disable fork join'''.split())
KEYWORDS['or'] = 'SENS_OR'
